"""What each check's proof rests on, what is proved and what is only checked within bounds."""
BASE = [
 "ssadump (golang.org/x/tools/go/ssa) produces the SSA form of the current /repo source; the Go compiler implements the same semantics",
 "the verifier in /verif/vc (SSA interpretation, obligation generation, axioms of vc/theory.py) and the SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
 "int, uint32, uint64 and slice lengths are treated as mathematical integers; byte and uint16 conversions are modelled exactly",
 "termination, memory exhaustion and concurrency are not modelled",
]
LEVEL = {}
PROVED = {
 "C04": "Every exit of nodeStore.getNode, nodeStoreBuffered.getNode/mustGetNode/removeKey/unDelete/insertNewNode/replaceNode/persistMutations/clearCache and newNodeStoreBuffered for every cache, set of deletion marks, store content and key: a node is found exactly when it is not marked deleted and cached or stored, a node loaded from the store is the parse of its bytes and has no pending changes, looking up changes nothing but the cache entry of that key, persisting writes exactly the serialization of every cached node and deletes exactly the marked keys, clearing leaves neither nodes nor marks. Every exit of NodeData.Write/Read, NodeDataFromBytes, bufferedNode.Bytes (the node codec) and of the path search. Lemmas: after persisting, the trie, a new trie, a reader and the trie with a cleared cache see the same keys, and what is stored is the serialization of what the trie sees; parsing inverts writing.",
 "C12": "Every exit of Trie.Clone, nodeStoreBuffered.clone, bufferedNode.Clone, NodeData.Clone and the Clone methods of the blake2b commitments: the same cached keys, deletion marks, options, path fragments, terminals, new terminals, children, marks; every map, node, buffer and commitment of the clone is new memory; nothing of the original is changed. The frame conditions of the node store functions: each changes the maps of its own store only.",
 "C07": "Every exit of commonPrefix, proofPath (over a trie and over a reader), GetProofGeneric and CommitmentModel.Proof for every well-formed node store, key and the three arities: the path holds exactly the nodes at prefixes of the key from the root on, the ending says how it ends, the proof has one element per node with the node's fragment, terminal and children except the one the next element stands for, nothing existing is changed. Every exit of the verifier (checkElement, makeHashVector, hashIt, verify, Validate, MustKeyWithTerminal, IsProofOfAbsence, ValidateWithValue): accepted exactly when the elements follow the key and hash to the root. Lemmas (induction from the last element to the first): such an element is in range, is accepted by the verifier, hashes to the commitment of its node, the last one carries the terminal of the key, and a key for which the path ends elsewhere has no node.",
 "C08": "Every exit of checkElement, makeHashVector, hashIt, verify (against its own contract for the rest of the path), Validate, MustKeyWithTerminal, IsProofOfAbsence, ValidateWithValue and CommitmentToTheTerminalNode for every proof with non-nil elements and child indexes 0..65535, every root and value, the three arities and two hash sizes: no panic, a proof is validated exactly when every element follows the key and the hashes give the root, the last element tells what is at the key; ValidateWithValue accepts exactly when the proof also carries the commitment to the value. Lemmas (induction from the last element to the first): a validated proof's verdict is the result of looking the key up in the trie with this root.",
 "C10": "Every exit of Proof.Write, Proof.Read, ProofElement.Write, ProofElement.Read and ProofFromBytes for all proofs and byte inputs, the supported arities and hash sizes (others are refused): Write appends exactly the serialization defined by the proof's content, Read returns exactly what the spec parser says and consumes exactly it. Lemmas: the spec parser inverts the spec serializer, field by field, children and elements by induction on the index.",
 "C11": "Every exit of NodeData.Read, readCflags, NodeDataFromBytes, vectorCommitment.Read, terminalCommitment.Read, VectorCommitmentFromBytes, ProofElement.Read, Proof.Read, ProofFromBytes, DecodeToUnpackedBytes, UnpackBytes and the length-prefixed readers for arbitrary input: a value or an error, no panic, accepted exactly when the spec parser accepts and nothing is left. Lemmas: every parser is prefix-stable (parsing R++Q after a successful parse of R leaves Q unread), so no proper prefix and no extension of a complete serialization is complete. Validation of any proof that was read never panics (the contracts of checkElement, makeHashVector, hashIt, verify, Validate, MustKeyWithTerminal).",
 "C05": "Every exit of NodeData.Write and NodeData.Read for all node contents, byte inputs, arities (256/16/2), reader and writer states: Write appends exactly the serialization defined by the node's content (smaller flags, path fragment, terminal, children in index order) and refuses a node that commits to nothing; Read returns exactly what the spec parser says (or an error), reaches for the value store only for a skipped terminal, and consumes exactly the bytes parsed. bufferedNode.Bytes and NodeDataFromBytes (nothing trailing). Lemmas: the spec parser inverts the spec serializer for the 16 terminal/children/fragment cases and every arity (children by induction on the index). Serializers of blake2b commitments (Write/Read/Bytes/Clone, parse inverts write, parsing is prefix-stable).",
 "C09": "Every exit of CommitToDataRaw, CommitToData, HashTheVector, makeHashVector, CalcNodeCommitment and UpdateNodeCommitment for all arities and both hash sizes, all nodes and all updates: the node commitment is the hash of exactly the fixed layout (one slot per child, one for the terminal, one for the committed path fragment, each of hash size plus one), never out of bounds; an update gives the commitment computed from scratch. Lemmas: the layout is injective slot by slot up to the recorded zero-padding finding, each child/terminal/fragment owns its slot, data commitments are injective up to hash collisions and the recorded raw-vs-hash finding.",
 "C21": "CommitToData / CommitToDataRaw / EqualCommitments / ForceStoreTerminalWithNode / terminalCommitment.Bytes and Clone / makeHashVector / CalcNodeCommitment / UpdateNodeCommitment never depend on the threshold, for every threshold (it is a free variable of the contracts): equal data commit to equal bytes, node commitments are functions of the bytes only, and a terminal is marked for storing exactly when the value is longer than the threshold. bufferedNode.Bytes stores the terminal in the node unless it is recoverable from the key or the value store (and always when it is forced), NodeDataFromBytes recovers it.",
 "C19": "Every exit of ReadByte, ReadUint16/32, ReadBytes8/16/32, WriteByte, WriteUint16/32, WriteBytes8/16/32 and the conversion helpers, for every reader/writer state including faulty ones and every fragmentation (io.ReadFull semantics; a bare Read may deliver less): a reader succeeds exactly on a complete record, yields the encoded value and consumes exactly it; io.EOF only at the clean end; writers append exactly the encoding, refuse data too long for the prefix; lemmas: readers invert writers, no proper prefix of a record is accepted.",
 "C06": "Every exit of UnpackBytes, EncodeUnpackedBytes, PackUnpackedBytes and DecodeToUnpackedBytes, for all inputs and the three arities plus every invalid arity byte: results equal the spec functions unp/pk/enc, invalid symbols and malformed encodings are refused, no panic; lemmas: enc is injective, packing inverts unpacking.",
 "C14": "Every exit of BinaryStreamWriter.Write/Stats/New, BinaryStreamIterator.Iterate, DumpToFile, UnDumpFromFile, ByteSize, NumEntries for every collection of pairs (any number, any order, any contents within the length limits), every tail (none or a proper prefix of another pair) and every faulty or fragmenting reader/writer: what is written is exactly the encoding of the pairs in order, the counters are exact, reading delivers exactly the pairs written, no pair is invented, a clean end means nothing was cut off, stopping is not an error; lemmas: the stream format parses back to the pairs, by induction over the pairs.",
 "C15": "Every exit of NewHiveKVStoreAdaptor and HiveKVStoreAdaptor.Get/Has/Set/Iterate for every prefix, key, value, store content and store failure: Get/Has/Set are those of a map from prefix+key to non-empty values, keys outside stay, Iterate delivers exactly the keys of the partition without the prefix once each unless stopped, a store failure never ends in a normal return.",
 "C16": "Every exit of NewHiveBatchedUpdater, Update and Commit for every batch state, prefix, key, value and failure of Batched/Set/Delete/Commit/Flush: an update leaves the store alone, buffers exactly prefix+key and updates the trie with the same pair once; Commit commits the trie, then adds all its pending node changes under the trie prefix to the batch, commits the batch once; when that fails the store, the batch and the pending trie changes stay; after success the store is what it was with exactly the batch applied.",
 "C22": "Every exit of NewInMemoryKVStore and inMemoryKVStore.Get/Has/Set/Iterate for every store state and key/value: Get/Has/Set are those of a map from byte strings to non-empty values, setting an empty value removes, other keys stay, Iterate delivers every present pair exactly once unless stopped; the stored-values-not-empty invariant is preserved.",
}
BOUNDED = {
 "C04": "replay search: random histories with persists, cache clears and reopenings against one that never persists; continuation under further mutations is checked only here.",
 "C12": "replay search: random histories on a trie and its clone, each against its own map; that Update, Delete and Commit change only objects of their own trie is checked only here; clones of KZG commitments too.",
 "C07": "replay search: proofs of random committed tries of every configuration for present, absent, prefix, extension and empty keys.",
 "C08": "replay search: tampered proofs of random tries (keys, paths, fragments, indexes, children, terminals) against the content of the trie.",
 "C10": "replay search: random proofs through Bytes/ProofFromBytes, compared field by field.",
 "C11": "replay search: truncated, extended and random bytes given to every reader; the readers of KZG commitments and proofs are covered only here.",
 "C05": "replay search: random nodes of all models through Bytes/NodeDataFromBytes; the serializers of KZG commitments are covered only here.",
 "C09": "replay search: random pairs of node contents differing in one component, against an independent layout.",
 "C21": "the statement over whole histories (root, lookups and proofs of two tries that differ in the threshold) is searched with random histories.",
 "C15": "replay search only: random operation sequences against a map over several prefixes of one store, with injected failures.",
 "C16": "the end-to-end statement that the stored trie is the trie of the stored values (needs the trie core) is searched with random histories and injected failures.",
 "C14": "replay search only: random collections through fragmenting and truncating files.",
 "C22": "replay search only: random operation sequences against a Go map; retention of caller buffers by the store is checked only here.",
 "C19": "replay search only: random values through fragmenting and truncating readers.",
 "C06": "replay search only: random and boundary sequences against an independent codec.",
}
INTR = {}
def for_prop(prop, results):
    out = list(BASE)
    names = sorted(set(x for r in results for x in r["intrinsics"]))
    if names: out.append("assumed contracts of externals (vc/extern.py): " + ", ".join(names))
    return out + EXTRA.get(prop, [])
EXTRA = {
 "C04": ["PersistMutations is called after Commit, into the store the trie reads from", "the value store is in step with the persisted trie", "every node in the cache knows its key and no marked key is cached (established by every proved function that touches the maps)", "the KV store behaves as a map; Set with an empty value deletes"],
 "C12": ["every node in the cache knows its key and no marked key is cached", "the commitments' Clone methods copy (proved for blake2b, assumed for KZG)"],
 "C07": ["the trie is well formed and committed: the child of a node is a node exactly if the node has a child commitment for it, that commitment is the one of the child, a node between the root and a node is there, terminals fit in the hash size (the guarantees of the trie core, C01/C04)", "lazily loaded nodes count as loaded from the start: getNode gives for a key always the same node"],
 "C08": ["blake2b is collision free, never gives an all-zero hash, and hash inputs of different node contents differ (C09, up to the recorded findings)", "a key is looked up as the lemma's function look says: C02 is about Trie.Get, which walks the same nodes", "the hash commitment of every trie node is that of its content (C01/C09)", "the elements of the proof are not nil, child indexes are 0..65535"],
 "C10": ["a well-formed proof: children indexes within the arity, child commitments of the size of the hash, terminals at most 255 and encodings at most 65535 bytes long"],
 "C11": ["a commitment serializer is only assumed to be prefix-stable; proved for blake2b, assumed for KZG"],
 "C05": ["the value store agrees with the trie being read: the value under the key is the one the terminal commits to", "a commitment serializer is only assumed to be prefix-stable and inverted by its reader; proved for blake2b, assumed for KZG", "encodings, fragments and values are at most 65535 bytes long where the format has a 2-byte length"],
 "C09": ["blake2b is collision free and never gives an all-zero hash"],
 "C21": ["the value store is in step with the persisted trie"],
 "C15": ["kvstore.KVStore of hive.go: Get/Set/Delete/Iterate behave as a map; a failure is an error other than ErrKeyNotFound and has no effect"],
 "C16": ["kvstore.KVStore/BatchedMutations of hive.go: Commit of a batch applies all of it or fails without effect", "trie.Trie.PersistMutations writes its pending node changes, one per node and the same again until ClearCache; trie.Trie.Update/Commit/ClearCache write nothing to the store (see C02-C04)"],
 "C14": ["KVIterator.Iterate of the collection being dumped delivers a fixed finite sequence of pairs, each at most 65535/2^32-1 bytes long, and stops when the callback returns false", "os.Create / os.Open give an empty file / the file's contents or an error; os.File obeys io.Writer / io.Reader"],
}
