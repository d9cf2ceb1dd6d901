#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that ids, statements and anchors stay in one reviewed place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T="jmt/src/tree.rs"; C="jmt/src/tree_cache.rs"; N="jmt/src/node_type.rs"; M="jmt/src/mock.rs"
PD="jmt/src/types/proof/definition.rs"; R="jmt/src/restore.rs"; IT="jmt/src/iterator.rs"
I="pmt/src/inner.rs"; PI="pmt/src/trie_iterator.rs"; PN="pmt/src/nibbles.rs"; DB="pmt/src/db.rs"

p("J01","JMT: every version reads back exactly the contents committed as of it",
  "After any history of committed update sets (inserts, overwrites, deletes, repeated keys, no-ops, several versions per call), reading any key at any committed version returns exactly the value the history gives it at that version, with absent or deleted keys reported as absent, whichever read entry point is used (get, contains, or the value returned with a proof). Committing later versions never changes what an earlier version returns. A version that was never committed has no root and cannot be read with a proof.",
  ["histories","inputs"],"all update histories over a key set chosen to share prefixes of 0..63 nibbles, and all keys/versions queried",
  "The unit tests replay a few hand-made or random histories; the node caching, leaf splitting/collapsing and null-root cases depend on combinations of prefix overlap and same-version repetition that are sampled, not covered.",
  [T,C,M,"jmt/src/trie.rs"],[("insert_at / insert_at_internal_node / insert_at_leaf_node",T),("TreeCache::freeze root copying",C),("value history lookup",M)],
  state=[("value_history","per-key list of (version, value)",M),("nodes","versioned tree nodes",M)],observe=["VersionedTrie::get/contains","get_with_proof"])
p("J02","JMT: the root hash is the specified function of the contents alone",
  "The root hash of a version equals the sparse-Merkle root computed from that version's key/value pairs alone (empty tree: the placeholder; one entry: its leaf hash; otherwise the domain-separated hash of the two halves), so it does not depend on insertion order, grouping into versions, deletions along the way, or batching. The hash returned by an update call is the one later read back for that version. Apart from version numbers, the nodes that make up a version are determined by its contents in the same way.",
  ["histories","inputs"],"all update histories up to closure of the tree-shape state space of each key set",
  "Tests compare with a few fixed vectors and random sets; history independence is a statement over all pairs of histories reaching the same contents.",
  [T,N,C,"jmt/src/types/proof.rs"],[("InternalNode::merkle_hash",N),("single-leaf collapse on delete","jmt/src/tree.rs insert_at_internal_node")],
  observe=["put_value_set return value","get_root_hash","get_root_hash_option"])
p("J03","JMT: applying many versions in one call equals applying them one by one",
  "Applying a list of update sets in one call produces the same per-version root hashes, tree nodes, values, stale-node records and statistics as applying the sets one version at a time and committing in between. The insert-only batch API, with or without precomputed node hashes, produces the same roots and the same readable contents as the general API (for non-empty sets of insertions that start at version 0 or directly after a committed version).",
  ["histories","inputs"],"all splits of all update histories up to a bound, over all reachable starting trees",
  "The repository has one fixed batch test plus random ones; the equivalence quantifies over every split of every history.",
  [T,C],[("FrozenTreeCache / freeze",C),("batch_insert_at, batch_create_subtree*",T)],observe=["put_value_sets","batch_put_value_sets"])
p("J04","JMT: a valid proof exists for every key at every version",
  "For every committed version and every key, present or absent, the proof the tree returns verifies against that version's root hash for exactly the returned value (existence) or for absence, using only the public verification functions. It keeps doing so after later versions are committed. Each internal node gives, towards every nibble, the child and siblings of the four-level binary tree its children form.",
  ["histories","inputs"],"all reachable trees over the key sets and all present, near-miss and far-miss query keys",
  "Random tests almost never make two 256-bit hashes share more than a nibble or two, so deep sibling lists, and misses that end in another leaf below a long shared prefix, are hardly reached.",
  [T,N,PD],[("get_with_proof",T),("InternalNode::get_child_with_siblings",N),("SparseMerkleProof::verify",PD)],
  observe=["get_with_proof","get_proof","VersionedTrie::verify_proof","SparseMerkleProof::verify/verify_existence/verify_nonexistence"])
p("J05","JMT: no altered or misapplied proof verifies a false statement",
  "A sparse-Merkle proof verifies only true statements about the tree whose root hash it is checked against: changing, dropping, adding or reordering its parts, or using it for another key, value, kind of statement, or root must not make a statement verify that is false for that root. Verification of any decodable proof ends in success or an error, never in a crash.",
  ["inputs"],"for every tree of the bound: every proof, every structured mutation of it, every key/value/root it can be checked against",
  "Tests check a handful of negative cases; soundness is a claim over all proofs an adversary may send.",
  [PD,"jmt/src/bytes32ext.rs"],[("SparseMerkleProof::verify",PD),("bit iteration / common prefix","jmt/src/bytes32ext.rs")],observe=["SparseMerkleProof::verify*","serde/borsh decoding of proofs"])
p("J06","JMT: exclusion proofs name the true neighbours of an absent key",
  "For every committed version of a non-empty tree and every absent key, the exclusion proof returned consists of verifying existence proofs of exactly the greatest present key below and the smallest present key above it (only one of them when the key lies outside the present range). For a present key the value and its existence proof are returned instead.",
  ["histories","inputs"],"all reachable trees, including trees whose subtrees were last written at different versions, and all query keys",
  "Existing tests only build the tree in a single version, where the neighbour subtree always has the queried version.",
  [T],[("get_with_exclusion_proof, get_bounding_path, search_closest_extreme_node, get_extreme_key_hash",T)],observe=["get_with_exclusion_proof"])
p("J07","JMT: ICS23 proofs verify for what is true and not for what is false",
  "For every committed version of a non-empty tree and every non-empty key whose neighbours' preimages are stored, the returned ICS23 commitment proof verifies under the published proof spec as membership of exactly the returned value, or as non-membership when the key is absent. It does not verify membership of a different value, nor the opposite statement.",
  ["histories","inputs"],"all reachable trees over preimages mined to share hash prefixes, and all query keys",
  "ICS23's neighbour check depends on the paddings between left and right neighbour paths; tests with random keys in one-version trees see only shallow paths.",
  ["jmt/src/tree/ics23_impl.rs",T],[("get_with_ics23_proof, sparse_merkle_proof_to_ics23_existence_proof, ics23_spec","jmt/src/tree/ics23_impl.rs")],observe=["get_with_ics23_proof + ics23::verify_membership / verify_non_membership"])
p("J08","JMT: iteration yields exactly the entries from the starting point, in order",
  "Iterating a committed version from any starting key, from any leaf index, or from the beginning yields exactly that version's entries at or after the starting point, in ascending key order, each with its value at that version, and then ends (and stays ended). Later commits do not change what iterating an earlier version yields.",
  ["histories","inputs"],"all reachable trees and all starting keys (present, near misses, below/above all) and indices",
  "The cursor logic (stack clean-up, next child bitmap, single-leaf root) has corner cases at every relation between starting key and tree shape, which the tests sample.",
  [IT,N],[("JellyfishMerkleIterator::new/new_by_index/next/cleanup_stack, NodeVisitInfo",IT)],observe=["JellyfishMerkleIterator::new/new_by_index","VersionedTrie::iter"])
p("J09","JMT: leaf counts, size and latest version agree with the contents",
  "For every committed version the reported leaf count equals the number of entries of that version, and size, emptiness and latest version reported by the tree and its store agree with the history committed so far.",
  ["histories"],"all update histories up to the closure/bound",
  "Leaf counts are maintained incrementally in every internal node; a miscount needs a particular sequence of splits, collapses and deletions.",
  [N,T,"jmt/src/db.rs","jmt/src/trie.rs"],[("InternalNode::sum_leaf_count, Children::num_children",N),("VersionedDatabase::len/version/is_empty","jmt/src/db.rs")],observe=["get_leaf_count","len","is_empty","version"])
p("J10","JMT: pruning keeps every retained version intact and drops what is dead",
  "After pruning with least readable version v, every committed version at or after v still reads, proves, iterates and can be built upon exactly as before. Every stale-node record names a stored node that no version at or after its stale-since version uses, and once everything up to v is pruned only nodes used by a version at or after v remain. The per-version statistics count exactly the nodes and leaves added and retired.",
  ["histories"],"all update histories up to a bound, with pruning at every version and further updates after pruning",
  "Tests prune a few fixed histories; a wrong stale record is silent until the particular version is pruned and read.",
  [C,T,M,"jmt/src/writer.rs"],[("TreeCache::delete_node / freeze",C),("purge_stale_nodes",M)],observe=["purge_stale_nodes","TreeUpdateBatch.stale_node_index_batch / node_stats"])
p("J11","JMT: restoring from chunks reproduces the source tree for every chunking",
  "For every source tree and every way of cutting its sorted entries into non-empty chunks, restoring with the source's range proofs accepts every chunk and finishes with a tree of the same root hash, leaf count, entries, proofs and nodes at the target version.",
  ["inputs","histories"],"all trees over the key sets and all 2^(n-1) chunkings, all range proofs",
  "Tests use random hash keys, cut one key at a time or in two; the partial-node stack has corner cases in deep shared prefixes and single-entry trees.",
  [R,T,PD],[("add_one / insert_at_leaf / freeze / verify",R),("get_range_proof",T),("SparseMerkleRangeProof::verify",PD)],observe=["StateSnapshotReceiver::add_chunk/finish","get_range_proof"])
p("J12","JMT: an interrupted restore can be resumed after any crash",
  "If a restore is interrupted at any point between two storage writes and a new restore is opened on the same storage and fed the entries after the last stored one, it completes with the same tree as an uninterrupted restore. Opening a restore on storage where the restore had already completed reports an error instead of crashing or damaging the tree.",
  ["crash_points","histories"],"all trees, all chunkings before the crash, all crash points (after every prefix of storage writes), all chunkings after it, and repeated crashes",
  "The existing test interrupts once, after a random single chunk.",
  [R,M],[("JellyfishMerkleRestore::new / recover_partial_nodes",R),("get_rightmost_leaf",M)],observe=["JellyfishMerkleRestore::new on a partially restored store"])
p("J13","JMT: restore writes nothing that was not proven against the expected root",
  "A chunk that does not match the expected root (wrong, missing, extra or misplaced entry, wrong order, altered or foreign proof, empty) is rejected with an error, without a crash and without writing anything to storage. A restore that reports success on finishing has produced a tree with exactly the expected root hash, whatever mixture of good and rejected chunks came before, and a good chunk is still accepted after a rejected one.",
  ["inputs","fault_sequences"],"all single-entry corruptions of all chunks and proofs at all positions, and sequences of bad and good chunks followed by finish",
  "Tests never send a bad chunk.",
  [R,PD],[("verify",R),("add_chunk_impl / finish_impl",R),("SparseMerkleRangeProof::verify",PD)],observe=["storage writes after add_chunk/finish errors"])
p("J14","JMT: the in-memory store keeps versioned values and nodes faithfully",
  "The bundled store returns for any key and version bound the newest value written at or below that bound (deletion meaning absent), finds every node and value of every batch given to it through any of its update entry points, refuses value writes that go back in time, refuses to overwrite nodes unless it was created to allow it, and reports the leaf with the greatest key as the rightmost. Version numbers survive conversion to and from integers and bytes.",
  ["histories","inputs"],"all write histories over 2 keys x versions 0..k, all lookups; all batch shapes of the bound",
  "Tests exercise the store only through a few tree histories.",
  [M,"jmt/src/db.rs","jmt/src/writer.rs","jmt/src/reader.rs"],[("put_value, get_value_option, write_node_batch, get_rightmost_leaf",M),("Version conversions","jmt/src/db.rs"),("NodeBatch::extend/merge","jmt/src/writer.rs")],observe=["MockTreeStore API","db::Version From impls"])
p("J15","JMT: update batches and proofs survive serialisation; bad bytes never crash",
  "Update batches, nodes, node keys and proofs decode back to equal values after borsh (and, where supported, serde) encoding, so a tree stored and reloaded in serialised form behaves identically. Decoding truncated or altered bytes ends in an error or in a value, never in a crash, and verification of whatever decodes never accepts a false statement.",
  ["inputs"],"every batch/proof reachable in the bound; every truncation and every single-byte change of its encoding",
  "Round-trip tests exist for a few node types only; nothing decodes corrupted bytes.",
  ["jmt/src/writer.rs",N,"jmt/src/types/nibble/nibble_path.rs",PD],[("derived borsh/serde impls",N),("NibblePath representation","jmt/src/types/nibble/nibble_path.rs")],observe=["borsh/serde/bincode encode+decode"])
p("J16","JMT: storage errors and missing nodes surface as errors, never as wrong data",
  "If the backing storage fails or lacks a node during an update, read, proof, iteration, range proof or restore, the call reports an error; it never returns a value, hash, proof or entry list that differs from the fault-free result, and it never crashes. The same call succeeds with the fault-free result once storage answers again.",
  ["fault_sequences","histories"],"for every operation of the bound, a fault at every single storage access (error), and removal of every single non-root node",
  "No test injects a storage error.",
  [T,IT,R,C],[("error propagation through get_node / get_node_option / get_value",T)],observe=["Result of every public operation under a faulty TreeReader/TreeWriter"])
p("J17","JMT: readers see whole versions while a writer commits and prunes",
  "With threads reading through the shared in-memory store while another commits batches and one or more prune, every read, proof and iteration of a retained committed version gives the same answer as without the writer, store-wide observations (size, latest version, history) reflect either none or all of a committed batch, and nothing fails, deadlocks or crashes.",
  ["schedules"],"all interleavings at lock operations of two to three threads (unbounded for two, up to a preemption bound for three)",
  "There is no concurrent test in the repository.",
  [M,"jmt/src/db.rs"],[("RwLock<MockTreeStoreInner>",M)],observe=["MockTreeStore shared between threads"])

p("J18","JMT: computing an update changes nothing until its batch is stored",
  "Reading, proving, iterating and computing an update leave the store as it was. Computing the same update again - through the same or another tree handle, before or after other computations and reads - gives the same root and batch. Of several alternative updates computed for one version, storing one gives exactly that one's version, and the others leave no trace.",
  ["histories","inputs"],"every pair of alternative update sets of the alphabet from every reachable state, computed in any order by one or two handles, each of them stored once",
  "Tests store every batch they compute, at once; what is computed and thrown away, or computed twice, is never looked at.",
  [T,C,M],[("put_value_set / put_value_sets / batch_put_value_sets",T),("TreeCache over a reader",C)],observe=["JellyfishMerkleTree::put_value_set","contents of the store"])

p("J19","JMT: a version that is not stored is reported as a missing root of that version",
  "Asking for a key (with proof, exclusion proof, range proof or ICS23 proof) at a version that was never committed, or that was pruned, gives a MissingRootError naming exactly that version; its root hash is absent, its iteration and leaf count are refused. A node missing below a root that is there is an error, but never reported as a missing root. Versions that pruning retains are not affected.",
  ["histories","inputs"],"every state of the bound; every version before, between and after the committed ones (up to u64::MAX - 1); every pruned version after every pruning; every single node missing",
  "One test asks for one version of one tree.",
  [T,"jmt/src/lib.rs"],[("get_with_proof / get_root_hash_option / get_range_proof / get_leaf_count",T)],observe=["MissingRootError","JellyfishMerkleTree::get_root_hash_option","JellyfishMerkleIterator::new"])

p("P01","PMT: the trie behaves as a map under every sequence of operations",
  "After any sequence of inserts, overwrites, removals, lookups, commits and reopenings, get and contains agree with a plain map holding the same entries, remove tells truthfully whether the key was present, and an insert of an empty value is refused with an error and changes nothing.",
  ["histories","inputs"],"all operation sequences over keys that are prefixes of each other or share nibble prefixes, values shorter and longer than a hash, up to closure or a bound",
  "Tests run fixed key lists and random strings; node merging on delete (leaf/extension/branch/hash combinations) depends on particular key relations and commit positions.",
  [I,PN,"pmt/src/node.rs"],[("insert_at / delete_at / degenerate / get_at",I)],observe=["Trie::get/contains/insert/remove"])
p("P02","PMT: the root hash is the Ethereum trie root of the contents alone",
  "The root hash returned by commit or root_hash equals the Ethereum hexary Merkle-Patricia root (keccak-256 over RLP) of the current entries, and so is independent of the order of operations, of removals along the way, of when commits happened, and of failed or ineffective operations.",
  ["histories","inputs"],"all operation sequences of the bound with commits at every position; all value/key lengths around the encoding boundaries",
  "Tests check a few published vectors; canonicity is a claim over all histories.",
  [I,PN,"serde_hash/src/lib.rs"],[("commit / write_node / encode_raw",I),("encode_compact",PN),("keccak","serde_hash/src/lib.rs")],observe=["Trie::commit/root_hash"])
p("P03","PMT: committed states stay readable at their roots",
  "After a commit, a trie reopened at the returned root on the same database yields the same entries for get, contains and iteration and can be modified and committed further with the same results as the original. With a database that does not discard data, every root ever committed stays readable with exactly its entries, whatever is committed later.",
  ["histories","crash_points"],"all histories of the bound with commits; every committed root re-read after every later step",
  "Tests reopen a trie once.",
  [I,DB],[("commit / at_root / recover_from_db / decode_node",I),("MemoryDB",DB)],observe=["InnerTrie::at_root"])
p("P04","PMT: discarding superseded nodes never removes one still in use",
  "With a database that discards removed nodes, committing never removes a node that the committed trie still needs: after any history of inserts, removals (also of absent keys), lookups, proofs and commits, every entry of the current root remains readable, provable and modifiable.",
  ["histories"],"all histories of the bound over a discarding database, with commits at every position",
  "Which nodes a commit discards depends on the nodes touched since the previous commit, including by operations that change nothing; tests do not delete absent keys before a commit.",
  [I,DB],[("passing_keys / gen_keys bookkeeping in insert_at, delete_at, degenerate, commit",I)],state=[("passing_keys","hashes of stored nodes superseded since the last commit",I),("gen_keys","hashes of nodes generated since the last commit",I)],observe=["MemoryDB::new(true) contents after commit"])
p("P05","PMT: every key has a verifying proof at every committed root",
  "For every committed trie (the original handle or one reopened at its root) and every key, present or absent, the returned proof verifies against the root hash to exactly the key's value, or to absence. The proof consists of exactly the encoded nodes on the key's path, root first. Asking for proofs never changes entries, later root hashes or readability.",
  ["histories","inputs"],"all committed tries of the bound, all present and absent keys, original and reopened handles, proofs requested at any point of a history",
  "Tests ask for proofs on one handle right after inserting; reopened handles and interleaving proofs with updates are not tried.",
  [I],[("get_proof / get_path_at / encode_raw / verify_proof",I)],observe=["Trie::get_proof","Trie::verify_proof"])
p("P06","PMT: no altered proof verifies to a wrong answer or crashes the verifier",
  "Verifying any list of byte strings against a root hash returns the true value, true absence, or an error: dropped, duplicated, reordered, truncated, altered, foreign or malformed proof nodes never make a false answer verify and never crash the verifier.",
  ["inputs"],"for every trie of the bound: every proof, every truncation / byte change / drop / swap / foreign node, every key; malformed node encodings under their own hash as root",
  "Tests tamper with one proof by truncating and clearing it.",
  [I,PN],[("verify_proof / decode_node",I),("from_compact",PN)],observe=["Trie::verify_proof"])
p("P07","PMT: iteration yields each entry exactly once",
  "Iterating a trie (borrowing or owning iterator, or the list of values), committed or not, reopened or not, yields each entry exactly once with its exact key bytes and value, in ascending key order, and then ends.",
  ["histories","inputs"],"all tries of the bound, fresh / committed / reopened / partly modified after reopening",
  "Tests iterate over a few fixed key sets.",
  [PI,PN],[("TrieIterator / OwnedTrieIterator state machine",PI),("encode_raw",PN)],observe=["InnerTrie::iter/values","OwnedTrieIterator"])
p("P08","PMT: database errors and missing nodes surface and leave the trie usable",
  "If the database fails or lacks a node during any operation, the operation reports an error instead of a wrong answer and does not crash; the trie's entries stay as before the failed operation, and once the database answers again the same operation succeeds and later commits give the correct root with all entries readable. The list of values is complete or an error; the raw iterators, whose items cannot carry an error, may end early or skip what is missing but never yield a wrong, repeated or misordered entry.",
  ["fault_sequences","histories"],"for every operation of every history of the bound: a fault at every single database call; removal of every single stored node",
  "One test checks missing nodes with a fixed trie; none injects errors or continues after one.",
  [I],[("error mapping in recover_from_db / commit",I)],observe=["Results under a faulty Database"])
p("P09","PMT: a crash during commit leaves the old or the new state whole",
  "If the process stops after any individual database write of a commit, the database still holds either the complete previous root or the complete new root, with all their entries readable; with a database that does not discard data the previous root is always complete.",
  ["crash_points","histories"],"all histories of the bound, every prefix of the writes of every commit",
  "Nothing in the tests looks at the database inside a commit.",
  [I],[("insert_batch before remove_batch in commit",I)],observe=["database contents after each prefix of writes"])
p("P10","PMT: shared database handles are safe under concurrent use",
  "With several threads using tries and the in-memory database over one shared handle, reads of already committed roots that nobody discards give the same answers as without concurrency, size and value listings reflect a state between the concurrent writes, and no operation crashes or deadlocks.",
  ["schedules"],"all interleavings at lock operations of two to three threads (unbounded for two, up to a preemption bound for three)",
  "There is no concurrent test in the repository.",
  [DB,I],[("RwLock<HashMap> in MemoryDB",DB)],observe=["MemoryDB shared between threads"])

p("P11","PMT: a trie handle survives being written out and read back",
  "A trie handle, with or without uncommitted changes, that is serialised (JSON or binary) and read back with its database attached again has the same root node, entries, iteration and proofs, commits to the same root, and continues under every further operation as the original does. A trie that was never committed is carried whole, so that it can be committed to another database. Hashes and roots read back as they were written.",
  ["histories","inputs"],"all operation sequences of the bound, serialised after every step in every format; values of every length around the encoding boundaries; further operations on the handle read back",
  "No test serialises a trie with uncommitted or partly loaded nodes.",
  [I,"pmt/src/node.rs","serde_hash/src/lib.rs"],[("Serialize/Deserialize of InnerTrie",I),("Serialize/Deserialize of TrieNode","pmt/src/node.rs"),("Serialize/Deserialize of H256","serde_hash/src/lib.rs")],observe=["serde_json / bincode of InnerTrie, InnerTrie::to_string"])
p("P12","PMT: handles over one database keep their own contents",
  "Two trie handles over one database that keeps what it is given - a clone, a trie opened at a committed root, or a new trie - each behave as the map of their own operations: updating, committing, proving, reopening or copying one never changes the other, every commit gives the root of its own handle's contents, every root committed by either stays readable with its entries by both, and the reported number of nodes is the database's.",
  ["histories"],"all operation sequences of the bound by two handles over one database, from every start state, including equal and diverging contents",
  "Tests use one handle per database.",
  [I,DB],[("Clone / at_root / new / db",I),("shared MemoryDB / Database handle",DB)],observe=["InnerTrie::clone/at_root/new","InnerTrie::len/is_empty"])
p("P13","PMT: the bundled database is a map shared by its clones",
  "The in-memory database behaves as one map shared by all its clones: get returns the value last inserted (by a single or batch insert, later items of a batch winning) and not removed since, removals take effect only if the database was opened to discard, and size, emptiness and listing agree with the contents, in each of its modes.",
  ["histories"],"all sequences of single and batch operations of the bound, with repeated keys in batches, through several clones, in each mode",
  "Tests do one insert, get and remove.",
  [DB],[("MemoryDB as Database",DB)],observe=["MemoryDB get/insert/remove/insert_batch/remove_batch/flush/values/len/is_empty"])
p("P14","PMT: commits to a discarding database leave no superseded nodes behind",
  "With a database that discards what it is told to remove, a commit removes every node that only the previously committed contents needed: after it the database holds, besides the nodes of the committed trie, only the root nodes of earlier commits. (Histories in which proofs were asked of uncommitted changes are left out.)",
  ["histories"],"all operation sequences of the bound on a discarding database, the contents of the database compared with the nodes of an independently built trie after every commit",
  "One test counts the nodes of one fixed trie after one change.",
  [I],[("passing_keys / gen_keys in insert_at, delete_at, degenerate, commit",I)],observe=["contents of the Database after commit"])
p("P15","PMT: errors name the missing node and key, or the kind of failure",
  "An operation that needs a node the database does not have fails with MissingTrieNode naming exactly a missing node, the root the handle stands on, and (get, get_proof, insert, remove) the key asked for; a path given in the report leads along that key to that node; once the nodes reported missing have been supplied one after another, the same call succeeds with the result it has on a complete database. A failing database is reported as a Database error, a proof lacking a node as InvalidProof, an empty value as InvalidData.",
  ["inputs","histories"],"every operation and every key in every state of the bound, with everything missing and supplied as reported, with every single node missing, with every single database call failing; every proof with every node dropped; keys of many lengths",
  "Two tests look at one missing node of one trie.",
  [I,"pmt/src/error.rs"],[("recover_from_db / get_at / insert_at / delete_at / get_path_at / commit",I)],observe=["TrieError::MissingTrieNode","TrieError::Database","TrieError::InvalidProof","TrieError::InvalidData"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
