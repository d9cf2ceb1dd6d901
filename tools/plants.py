# print the DESIGN.md table of planted bugs from seeded/*/meta.json
import json,glob,os
print('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); print(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} quick |")
