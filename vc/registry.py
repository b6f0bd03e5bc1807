"""Which specification modules decide which property."""
isl = lambda *p: (lambda s: any(s.label.startswith(x) for x in p))
PROPS = {
    "C04": [("store", lambda s: not isl("bufferedNode.Clone", "nodeStoreBuffered.clone", "Trie.Clone")(s)), ("node2", lambda s: not isl("NodeData.Clone")(s)), ("node", None), ("core", None)],
    "C05": [("node", None), ("node2", None), ("b2b", isl("vectorCommitment.", "terminalCommitment.", "vector commitment:", "terminal commitment:", "CommitmentModel.New", "CommitmentModel.Equal")), ("util", isl("ReadByte", "ReadBytes16", "WriteByte", "WriteBytes16"))],
    "C06": [("codec", None)],
    "C07": [("hon", None), ("core", None), ("ver", isl("checkElement", "makeHashVector", "hashIt", "verify", "Validate", "MustKeyWithTerminal", "IsProofOfAbsence", "ValidateWithValue")), ("b2b", isl("HashTheVector", "CommitToDataRaw", "CommitmentModel.makeHash", "CommitmentModel.Calc"))],
    "C08": [("ver", None), ("b2b", isl("HashTheVector", "CommitToDataRaw", "CommitmentModel.makeHash", "CommitmentModel.Calc", "hash input:", "node vector:"))],
    "C09": [("b2b", isl("HashTheVector", "CommitmentModel.makeHash", "CommitmentModel.Calc", "CommitmentModel.Update", "CommitmentModel.CommitToData", "CommitToDataRaw", "hash input:", "node vector:", "data commitment:"))],
    "C10": [("prf", isl("ProofElement.", "Proof.", "ProofFromBytes", "proof ", "a proof ", "a path ")), ("util", isl("ReadByte", "ReadBytes8", "ReadBytes16", "ReadUint16", "WriteByte", "WriteBytes8", "WriteBytes16", "WriteUint16")), ("codec", isl("EncodeUnpackedBytes", "DecodeToUnpackedBytes"))],
    "C11": [("node", lambda s: not isl("NodeData.Write")(s)), ("node2", isl("NodeDataFromBytes", "parsing")), ("b2b", isl("vectorCommitment.Read", "terminalCommitment.Read", "vector commitment:", "terminal commitment:")), ("prf", isl("ProofElement.Read", "Proof.Read", "ProofFromBytes", "Trie.Vector", "parsing", "no proper")), ("util", isl("Read", "no proper", "length prefix")), ("codec", isl("DecodeToUnpackedBytes", "UnpackBytes")), ("ver", isl("checkElement", "makeHashVector", "hashIt", "verify", "Validate", "MustKey", "IsProof", "Commitment", "a validated proof"))],
    "C12": [("store", None), ("node2", isl("NodeData.Clone")), ("b2b", isl("vectorCommitment.Clone", "terminalCommitment.Clone"))],
    "C14": [("kv", lambda s: not isl("inMemory", "NewInMem")(s)), ("util", isl("ReadBytes16", "ReadBytes32", "WriteBytes16", "WriteBytes32", "length prefix", "no proper", "ReadUint", "WriteUint", "Uint"))],
    "C15": [("hive", isl("HiveKVStore", "NewHiveKV"))],
    "C16": [("hive", isl("HiveBatched", "NewHiveBatched", "HiveKVStoreAdaptor.Get", "NewHiveKV"))],
    "C19": [("util", None)],
    "C21": [("b2b", isl("CommitmentModel.", "CommitToDataRaw", "terminalCommitment.", "HashTheVector")), ("node2", isl("NodeDataFromBytes", "bufferedNode.Bytes"))],
    "C22": [("kv", isl("inMemory", "NewInMem"))],
}
NOT_YET = {}
