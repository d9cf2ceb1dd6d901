#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(f"{V}/properties.jsonl"):
    d = json.loads(l); props[d["id"]] = d
BFS = "explicit-state model checking: exhaustive BFS over all update sets on the real tree, compared with a reference model"
T = {
 "J01": (BFS, "Every state reachable by the listed update alphabets over 3-4 keys (closed spaces), every ordered operation sequence to a bound, full 16-child nodes and long histories; every key and probe is read at every version."),
 "J02": (BFS, "As J01; the oracle is an independent sparse-Merkle root of the plain contents."),
 "J03": (BFS + "; every sequence of 2-4 update sets applied in one call and one by one", "Exhaustive over the listed alphabets from every reachable state; the batch API is judged on insert-only sequences on trees with a predecessor version (or version 0)."),
 "J04": (BFS, "Every probe key (near and far from each stored key) at every reachable state; verification through the public verifier against the reference root."),
 "J05": ("explicit-state enumeration of proof mutations and statements over all reachable states", "Soundness within the enumerated mutation alphabet; no claim beyond SHA-256 collision resistance."),
 "J06": (BFS, "Every probe key at every reachable state; oracle is the sorted map."),
 "J07": (BFS + " over keys with stored preimages", "Keys mined to share hash prefixes up to the mining bound; verification through the ics23 crate."),
 "J08": (BFS, "Every start key, every index, at every version of every reachable state."),
 "J09": (BFS, "Oracle is the plain contents."),
 "J10": (BFS + "; every pruning point of every history", "Use of nodes is observed at the storage seam while proving every entry."),
 "J11": ("exhaustive enumeration of chunkings of every reachable source tree, run on the real restore", "All compositions of the sorted entries into chunks, for trees of up to the bound."),
 "J12": ("exhaustive crash-point enumeration of restores on the real code", "Crash points lie between storage writes; a write is taken to be atomic."),
 "J13": ("exhaustive enumeration of chunk corruptions and good/bad chunk interleavings on the real restore", "Within the enumerated corruption alphabet."),
 "J14": ("explicit-state BFS over store operation sequences against a reference store", "All operation sequences to the stated depth over small keys and versions."),
 "J15": ("exhaustive enumeration of truncations and single-byte alterations of encodings of all reachable batches, nodes and proofs", "Within the enumerated alterations; decoded proofs are judged as in J05."),
 "J16": ("exhaustive fault enumeration: every storage access of every operation in every reachable state fails or lacks its node", "Single faults, faults that persist, and missing nodes; a missing root of the preceding version means an empty tree by design and is excluded."),
 "J17": ("stateless model checking of the real code under a controlled scheduler: all schedules up to commuting operations (sleep sets), and all schedules up to a preemption bound", "Scheduling points are the lock operations of the store, which holds all shared state."),
 "P01": ("explicit-state BFS over operation sequences on the real trie against a reference map", "Keys that are prefixes of each other, values shorter and longer than a hash."),
 "P02": ("explicit-state BFS over operation sequences on the real trie against an independent Ethereum trie root", "Own keccak-256 and RLP encoder as oracle."),
 "P03": ("explicit-state BFS over operation sequences, reopening every root ever committed", "Both discarding and archiving databases."),
 "P04": ("explicit-state BFS over operation sequences on a discarding database", "Every entry read, proved and modified through a fresh handle after every commit."),
 "P05": ("explicit-state BFS; proofs of every key at every committed root", "Verification through the public verifier against the reference root."),
 "P06": ("exhaustive enumeration of proof mutations over all reachable tries", "Within the enumerated mutation alphabet; keccak taken as collision free."),
 "P07": ("explicit-state BFS; iteration of every reachable trie", "Borrowing and owning iterators."),
 "P08": ("exhaustive fault enumeration: every database access of every operation in every reachable state fails or lacks its node", "Single faults, persistent faults and missing nodes."),
 "P09": ("exhaustive crash-point enumeration of commits", "Every prefix of individual database writes."),
 "P10": ("stateless model checking of the real code under a controlled scheduler: all schedules up to commuting operations (sleep sets), and all schedules up to a preemption bound", "Scheduling points are the lock operations of the shared database."),
 "J18": ("explicit-state BFS over update sets on the real tree; every alternative computed in every state, computed again and stored", "Batches are compared as a whole, the store before and after as a whole."),
 "P11": ("explicit-state BFS over operation sequences; every reached handle written out, read back and continued", "The database of the handle read back comes from the database type's Default, as in the code."),
 "P12": ("explicit-state enumeration of all operation sequences of two handles over one database", "Operations do not overlap in time (P10 explores overlapping ones)."),
 "P14": ("explicit-state BFS over operation sequences on a discarding database; its contents compared with an independently built trie's nodes", "Root nodes of earlier commits are allowed to stay, as in the code."),
 "J19": ("explicit-state BFS over update sets on the real tree; every version that is not stored, and every single missing node, asked for in every state", "A storage failure while the root is read is outside the property."),
 "P15": ("exhaustive enumeration of missing nodes and failing database calls for every operation in every reachable state", "The text of database errors is taken from the injected failure."),
 "P13": ("explicit-state enumeration of all operation sequences on the real database against a map", "insert_batch gets as many values as keys."),
}
built = [x for x in open(f"{V}/tools/built.txt").read().split()]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("hook:")]
m = {
 "version": 1,
 "setup_cmd": "./run.sh --build",
 "hooks": {"guard": "cfg(patriecia_mc)", "enable": "RUSTFLAGS='--cfg patriecia_mc' (set by run.sh)", "source_commits": hooks},
 "checks": [{
   "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
   "technique": T[i][0], "level": "model_checking",
   "level_note": T[i][1] + " Bounds and counts are in the evidence file.",
 } for i in props if i in built],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in props if i not in built],
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
