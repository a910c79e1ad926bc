#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewed in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Committed versions survive crashes; interrupted commits leave no trace",
"After a crash at any point, every version whose update batch was durably written is still completely readable with the same root hash, values and proofs, and no version whose batch was not written is visible even partly. Computing an update never changes what storage holds, the returned batch together with earlier batches is everything the new version needs, and re-running an interrupted or ambiguously acknowledged update after restart yields the same root hash and an equivalent tree.",
["crash_points","histories","fault_sequences","schedules"],
"Every sequence of update blocks (single, multi-version, with or without proofs), every crash point between any two storage accesses, every subset of unsynced batches lost, and every number of restarts.",
"The unit tests write each batch straight to an in-memory map that never fails; no test crashes between computing, writing and acknowledging, or re-executes a block over a store that may already hold it.",
["src/tree.rs","src/tree_cache.rs","src/writer.rs","src/reader.rs"],
[("update computed into an in-memory cache and returned as one self-contained batch","src/tree_cache.rs TreeCache/FrozenTreeCache"),("no-op versions still write a root node","src/tree_cache.rs freeze")],
[("node batch","all new nodes and values of the versions in one update","src/writer.rs NodeBatch")],
["return values of put_value_set(s)[_with_proof], batch_put_value_sets","reads after restart"])

p("C02","Reads at a committed version are exact and never change",
"For every committed version that has not been pruned and every key, a read (plain, with proof, root hash, or leaf count) returns exactly the contents that the sequence of updates up to that version defines, and keeps returning the same answer while later versions are being computed, committed or pruned concurrently.",
["schedules","histories","inputs"],
"Every interleaving, at single storage-access granularity, of readers with committers and pruners, over every update history and key population.",
"Tests read sequentially, mostly at the latest version, on a handful of small trees; no test interleaves a read with a commit.",
["src/tree.rs","src/tree_cache.rs","src/node_type.rs","src/reader.rs"],
[("copy-on-write nodes keyed by version and path","src/node_type.rs NodeKey, src/tree.rs insert_at"),("newest value at or below a version","src/reader.rs get_value_option")],
None,["get","get_with_proof","get_root_hash(_option)","get_leaf_count"])

p("C03","Pruning never damages a version that must stay readable",
"After removing every node that the stale-node records mark as stale since version v or earlier, every version from v onward still has exactly its contents, root hash, valid proofs and full iteration, and updates on top of it still succeed with the right root.",
["histories","schedules","crash_points"],
"Every update history (including no-op versions, deletions of everything, multi-version batches, batches merged by the caller, histories that begin with a tree restored before genesis), every prune horizon, pruning in arbitrary chunks interleaved with commits and reads and interrupted by crashes.",
"Tests prune a few fixed histories in one uninterrupted step and check a few keys.",
["src/tree_cache.rs","src/tree.rs","src/writer.rs"],
[("a node is recorded stale only by the version whose tree no longer refers to it","src/tree_cache.rs delete_node/freeze"),("stale index ordered by version","src/writer.rs StaleNodeIndex")],
[("stale-node records","(stale since, node) pairs handed to the storage","src/writer.rs")],["stale_node_index_batch"])

p("C04","Pruning records reclaim every dead node exactly once",
"Every stale-node record refers to a node that exists in storage, no node is recorded stale twice, and once all records up to version v have been applied the only nodes left are those reachable from version v or a later version: nothing leaks.",
["histories","schedules","crash_points"],
"Every update history, batch shape and prune schedule.",
"Tests compare node counts for a few hand-written histories; histories with no-op versions, emptied trees or re-created roots are not covered.",
["src/tree_cache.rs","src/tree.rs","src/mock.rs"],
[("delete_node on every replaced node","src/tree.rs insert_at*/batch_insert_at"),("root copies for unchanged versions","src/tree_cache.rs freeze")],
None,["stale_node_index_batch","set of stored nodes after pruning"])

p("C05","The root hash is a function of the contents only",
"Two trees that hold the same key-value pairs have the same root hash, equal to the one the documented sparse Merkle structure defines, whatever order, grouping, API (single, batched, with proofs, appended, restored), history of insertions and deletions, starting version, retries or in-memory hash seeds led there; trees with different contents have different roots.",
["histories","schedules","configurations","inputs"],
"All replicas of one log, each with its own batching, API choice, hash-map seed, crash/retry history and state-sync entry point; all key populations, including keys that share all but the last bits.",
"Tests compare a few APIs on random keys, whose paths diverge within the first nibbles, and never with different hash seeds, retries or restore in the history.",
["src/tree.rs","src/tree_cache.rs","src/node_type.rs","src/restore.rs","src/types/proof.rs"],
[("single-leaf collapse on insert and delete","src/tree.rs insert_at_internal_node"),("16-ary node hashed as a 4-level binary tree","src/node_type.rs merkle_hash")],
None,["RootHash returned by every update API","get_root_hash"])

p("C06","Honest inclusion and non-inclusion proofs always verify",
"For every key at every readable version, the proof returned together with a read verifies against that version's root: as an inclusion proof of exactly the returned value if the key is present, and as a non-inclusion proof if it is absent. This still holds after the proof was serialized, sent over a network that delays, reorders or duplicates it, and decoded, and any other implementation of the documented format agrees.",
["inputs","histories","schedules"],
"Every tree shape (deep shared prefixes, dense nibbles, single leaf, empty), every present and absent key near it, every version, with commits running while the proof is assembled.",
"Tests prove keys of small random trees just after they were written; deep split positions and proofs assembled while writes proceed are not reached.",
["src/tree.rs","src/node_type.rs","src/types/proof/definition.rs"],
[("sibling collection per 4-level subtree","src/node_type.rs get_child_with_siblings_helper"),("verification fold","src/types/proof/definition.rs verify")],
None,["get_with_proof","verify","verify_existence","verify_nonexistence"])

p("C07","No false membership claim is ever accepted",
"Given a trusted root, verification accepts a claim that a key has a value, or that it is absent, only if that is true of the contents the root commits to: whatever proof, key, value or version a lossy, corrupting or malicious server supplies, including proofs built from corrupted storage, proofs of other keys or versions, and structurally forged proofs.",
["inputs","fault_sequences","histories"],
"All proofs an adversary that knows every tree in the history can assemble by substituting, truncating, extending, reordering or re-encoding honest material, plus arbitrary byte corruption in flight and on disk.",
"Tests try a handful of single-field mutations of one proof.",
["src/types/proof/definition.rs","src/types/proof.rs"],
[("key, value-hash and common-prefix checks","src/types/proof/definition.rs verify"),("domain separation of leaf and internal hashes","src/types/proof.rs")],
None,["verify","verify_existence","verify_nonexistence"])

p("C08","Honest update proofs verify for every update",
"For every block of insertions, overwrites and deletions (of present or absent keys, with repeated keys, on empty, single-leaf or deep trees), the proof returned with the update lets a client that knows only the old root check the transition to the new root and rejects no honest update; the proof-producing update yields the same root and stored tree as the plain one.",
["inputs","histories","schedules"],
"Every sequence of blocks, with a light client following the chain of roots only through these proofs over an unreliable network.",
"Tests cover selected shapes with few keys; deletion coalescing and splits at every bit position, and chains of blocks, are not covered.",
["src/tree.rs","src/types/proof/definition.rs","src/node_type.rs"],
[("per-operation Merkle path captured before the change","src/tree.rs put(.., with_proof)"),("path recomputation on split, overwrite and coalescing delete","src/types/proof/definition.rs check_compute_new_root")],
None,["put_value_set(s)_with_proof","UpdateMerkleProof::verify_update"])

p("C09","No false state transition is ever accepted",
"Update-proof verification accepts (old root, new root, updates) only if applying exactly those updates, in order, to the contents the old root commits to gives the contents the new root commits to; no forged, spliced, truncated, reordered or corrupted proof, and no omitted or altered update, is accepted.",
["inputs","fault_sequences","histories"],
"All transitions an adversary that knows the whole history can claim, with proofs assembled from honest material of any key and version, and new roots chosen to be whatever the verifier itself would compute.",
"Tests check that a few swapped or reordered proofs fail; none claims a transition whose new root was chosen after the proof.",
["src/types/proof/definition.rs"],
[("old-root check before each step","src/types/proof/definition.rs check_compute_new_root"),("final root comparison","verify_update")],
None,["UpdateMerkleProof::verify_update"])

p("C10","Exclusion proofs name the true neighbours",
"For every absent key of a non-empty version, the proof by exclusion contains valid inclusion proofs of exactly the greatest smaller key and the least greater key of that version (only one of them at either end), and for a present key the value with its inclusion proof is returned instead.",
["inputs","histories","schedules"],
"Every tree shape and every absent key around it, at every readable version, while commits proceed and after crashes and pruning.",
"Tests check small random trees; neighbours that lie across several levels of the path, or at the boundaries, are rarely hit.",
["src/tree.rs"],
[("search for the closest left and right leaf","src/tree.rs get_bounding_path, search_closest_extreme_node, get_extreme_key_hash")],
None,["get_with_exclusion_proof"],"cfg(jmt_sim) re-export of the proof type, which has no public path")

p("C11","ICS23 proofs verify, and only for the truth",
"For every non-empty key preimage and every readable non-empty version whose values are non-empty (ICS23 has no empty key or value), the ICS23 proof returned verifies with the published spec under an independent ICS23 verifier, as membership with the returned value or as non-membership; and that verifier with the published spec accepts no proof, honest, replayed, corrupted or forged, of a false claim about that root.",
["inputs","histories","fault_sequences"],
"All tree shapes, keys and versions; all corrupted, misrouted or recombined ICS23 proofs.",
"Tests verify honest proofs on a few trees with hashed random keys; forged ones are not tried.",
["src/tree/ics23_impl.rs","src/tree.rs"],
[("conversion of siblings to prefix/suffix operations","src/tree/ics23_impl.rs"),("published proof spec","src/tree/ics23_impl.rs ics23_spec")],
None,["get_with_ics23_proof","ics23_spec"])

p("C12","Iteration yields exactly the version's pairs in order",
"Iterating a readable version from a key yields exactly the pairs with keys greater or equal to it, and from an index exactly the pairs from that rank on, in strictly increasing key order, each once, with the values of that version, then ends and stays ended, even if later versions are committed or older ones pruned meanwhile; a storage error is reported as an error item and continuing afterwards neither skips nor repeats a pair.",
["schedules","inputs","histories","fault_sequences"],
"Every version, start key and start index; every interleaving of iteration steps with commits and pruning; every failing read.",
"Tests iterate a quiescent tree of the latest version and never see a read error or a concurrent commit.",
["src/iterator.rs"],
[("explicit depth-first stack of visited nodes","src/iterator.rs NodeVisitInfo"),("rank lookup by leaf counts","src/iterator.rs skip_leaves")],
None,["JellyfishMerkleIterator::new, new_by_index, next"])

p("C13","Restoring from honest chunks rebuilds the tree, across crashes",
"A node that receives the contents of a version in key order, cut into any non-empty chunks with honest range proofs, ends with a store whose root, values, proofs, iteration and leaf count equal the source's and that further updates extend with the same roots; if it crashes at any point it can resume from its store after the last stored leaf and reach the same result, and a restore over an already finished one is recognised.",
["inputs","crash_points","histories","fault_sequences"],
"Every tree shape and chunking, every crash point and number of resumptions, every write error, and further commits on top.",
"Tests restore random trees in at most two parts with no crash inside a chunk and do not update the tree afterwards.",
["src/restore.rs","src/tree.rs"],
[("partial nodes along the right edge, frozen once complete","src/restore.rs"),("recovery from the rightmost stored leaf","src/restore.rs recover_partial_nodes"),("range proofs","src/tree.rs get_range_proof")],
None,["JellyfishMerkleRestore::new, new_overwrite, add_chunk, finish","get_range_proof"])

p("C14","Restore never accepts contents that contradict the root",
"Whatever chunks, proofs and order a faulty or malicious source supplies, including after crashes and resumptions, a chunk is accepted only if the pairs received so far are exactly the version's pairs up to the last key, nothing from a rejected chunk reaches storage, and finishing succeeds only if the restored tree has the expected root hash.",
["inputs","fault_sequences","crash_points"],
"All altered, missing, extra, reordered, duplicated or truncated chunks and forged or replayed range proofs, at every position, mixed with honest chunks, early finishes and resumptions.",
"Tests only feed honest chunks.",
["src/restore.rs","src/types/proof/definition.rs"],
[("range proof checked against the partial tree before writing","src/restore.rs verify"),("key order check","src/restore.rs add_chunk_impl")],
None,["add_chunk","finish","SparseMerkleRangeProof::verify","batches written to storage"])

p("C15","Storage errors surface as errors and leave no lasting harm",
"If a storage read fails during any operation, the operation returns an error (or a correct result if it did not need the read): it does not panic, does not return a wrong answer, does not report an existing version as missing, and repeating it once storage works succeeds; a version is reported missing exactly when its root is not stored.",
["fault_sequences","inputs","schedules"],
"Every operation of the API with every one of its storage accesses failing, on every tree shape and history.",
"The in-memory test store never fails.",
["src/tree.rs","src/node_type.rs","src/tree_cache.rs","src/iterator.rs","src/restore.rs","src/tree/ics23_impl.rs","src/lib.rs"],
[("Result-returning reader trait","src/reader.rs"),("missing-root error","src/lib.rs MissingRootError")],
None,["every public operation"])

p("C16","Untrusted input never crashes a verifier",
"Decoding and verifying any proof, root, key, value or restore chunk received from an untrusted peer, however malformed, returns success or an error: it never panics, overflows, aborts or runs unboundedly.",
["inputs","fault_sequences"],
"All byte strings and all decodable proof structures, including over-long sibling lists, mismatched lengths, empty parts and corrupted chunks at every stage of a restore.",
"Tests only pass well-formed proofs to the verifiers.",
["src/types/proof/definition.rs","src/restore.rs","src/types/nibble/nibble_path.rs","src/bytes32ext.rs"],
[("length and shape checks before arithmetic","src/types/proof/definition.rs verify")],
None,["verify*","verify_update","SparseMerkleRangeProof::verify","add_chunk","borsh and serde decoding of proofs"])

p("C17","The in-memory store is an atomic versioned store",
"The provided in-memory store returns exactly the nodes written and for a key the newest value at or below the requested version; it rejects value writes that go backwards in version, rejects overwriting nodes unless configured to, reports the greatest stored leaf, purges exactly the nodes recorded stale up to the horizon, and keeps doing so when operations on it are interleaved by several users.",
["schedules","histories"],
"All interleavings of reads, batch writes, leaf insertions, preimage records and purges by several tasks.",
"Tests use the store as a tool in sequential runs and do not check it.",
["src/mock.rs"],
[("one lock around all maps","src/mock.rs MockTreeStore"),("ordered value history","src/mock.rs put_value")],
None,["TreeReader/TreeWriter/HasPreimage methods of MockTreeStore","write_tree_update_batch","purge_stale_nodes"])

p("C18","Appending to the latest version equals having written it at once",
"Appending updates to the latest version in place gives the root and contents that applying them on top of that version's contents defines; an append that names another version than the one the greatest leaf was written at is refused; an append leaves earlier versions untouched, can be repeated or retried after a crash with the same result, and its batch never marks a node of the resulting tree as stale, so later pruning and updates stay correct.",
["histories","crash_points","schedules"],
"Every sequence of appends (insertions, overwrites and deletions of keys written at the same or earlier versions) between ordinary updates, with crashes, retries and pruning.",
"Tests append a few inserts and check the root; deletions, overwrites at the same version, retries and pruning afterwards are not covered.",
["src/tree.rs","src/tree_cache.rs"],
[("overwrite cache rooted at the current version","src/tree_cache.rs new_overwrite")],
None,["append_value_set"])

p("C19","Leaf counts and update statistics are exact",
"The leaf count reported for any readable version equals the number of keys it holds, at the root and in every internal node, and the statistics returned with an update equal the numbers of new and stale nodes and leaves its batch actually contains for each version.",
["histories","inputs"],
"Every update history through every API, including restored trees and deletions that collapse subtrees.",
"Tests check the count for insert-only histories and the statistics for a few fixed ones.",
["src/node_type.rs","src/tree_cache.rs","src/tree.rs","src/restore.rs"],
[("leaf counts kept in child records","src/node_type.rs NodeType::Internal"),("counters in the cache","src/tree_cache.rs freeze")],
None,["get_leaf_count","node_stats","new_by_index"])

p("C20","What was encoded is what is decoded",
"Nodes, node keys, batches, stale records and proofs that went through their serialized form on disk or over the network decode to exactly what was encoded, distinct node keys have distinct encodings, and damaged encodings are rejected with an error or decode to some value without panicking.",
["inputs","fault_sequences","crash_points"],
"All nodes, batches and proofs produced by any history, with torn, bit-flipped and truncated copies.",
"Tests round-trip a few generated nodes; no history-produced batch or proof and few damaged ones.",
["src/node_type.rs","src/writer.rs","src/types/nibble/nibble_path.rs","src/types/proof/definition.rs"],
[("borsh and serde implementations","src/node_type.rs, src/types/nibble/nibble_path.rs, src/types/proof/definition.rs")],
None,["borsh/serde encode and decode"])

p("C21","Published root hashes stay stable across releases",
"The root hashes of the published test vectors are reproduced exactly by every release and hasher.",
["inputs","configurations"],
"The fixed published vectors for each supported hasher.",
"They can: the vectors are finite and the existing tests run them all.",
["src/tests/vectors.rs","src/types/proof.rs"],
[("domain separators and placeholder","src/types/proof.rs, src/lib.rs")],
None,["put_value_set"])

p("C22","Path and bit helpers agree with the key's bits",
"Nibble paths, nibble and bit iterators and common-prefix lengths agree with the big-endian bits of the key for every key and position, including odd lengths.",
["inputs"],
"All keys and path lengths.",
"Property tests sample them; exhaustive reasoning over all inputs is a proof obligation.",
["src/types/nibble/nibble_path.rs","src/bytes32ext.rs"],
[("bit and nibble iterators","src/types/nibble/nibble_path.rs")],
None,["internal helpers"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
