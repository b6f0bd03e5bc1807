"""Loads the SSA dump of the current /repo source; types, sorts, dominators and loops."""
import json, subprocess, os, sys
from terms import *

class Prog:
    def __init__(self, d):
        self.fns = d["functions"]; self.methods = d["methods"]; self.types = d["types"]
        for f in self.fns.values():
            f["_loops"] = None
    def under(self, t):
        d = self.types.get(t)
        n = 0
        while d and d["k"] == "named" and n < 20:
            u = d["under"]
            if isinstance(u, str): t = u; d = self.types.get(t)
            else: return t, u
            n += 1
        return t, d
    def kind(self, t):
        u, d = self.under(t)
        if d is None:
            return classify(u)
        k = d["k"]
        if k == "basic" or k == "named": return classify(u)
        return k
    def elem(self, t):
        u, d = self.under(t)
        return d["elem"]
    def fields(self, t):
        u, d = self.under(t)
        return d["fields"]

def classify(u):
    if u in INTS: return "int"
    if u in ("bool", "untyped bool"): return "bool"
    if u in ("string", "untyped string"): return "string"
    if u.startswith("[]"): return "slice"
    if u.startswith("*"): return "ptr"
    if u.startswith("map["): return "map"
    if u.startswith("func"): return "func"
    if u.startswith("interface") or u in ("error", "any"): return "iface"
    if u.startswith("struct"): return "struct"
    if u.startswith("["): return "array"
    return "other"

INTS = {"int": None, "int64": None, "int32": None, "int16": None, "int8": None, "uint": None, "uintptr": None,
        "byte": 256, "uint8": 256, "uint16": 65536, "uint32": 1 << 32, "uint64": 1 << 64, "rune": None,
        "untyped int": None, "untyped rune": None}

PKGS = ["./trie", "./models/trie_blake2b", "./models/trie_blake2b/trie_blake2b_verify", "./models/trie_kzg_bn256", "./hive_adaptor"]

def load(repo="/repo", root=None, path=None):
    if path: return Prog(json.load(open(path)))
    root = root or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    exe = os.path.join(root, "bin", "ssadump")
    out = subprocess.run([exe, repo] + PKGS, capture_output=True, text=True)
    if out.returncode != 0: raise Exception("ssadump failed: " + out.stderr[-2000:])
    return Prog(json.loads(out.stdout))

def loops(fn):
    """header -> set of body blocks (natural loops)"""
    if fn["_loops"] is not None: return fn["_loops"]
    bs = fn["blocks"]; n = len(bs)
    dom = [set(range(n)) for _ in range(n)]
    if n: dom[0] = {0}
    ch = True
    reach = set(); st = [0] if n else []
    while st:
        x = st.pop()
        if x in reach: continue
        reach.add(x); st.extend(bs[x]["succs"])
    while ch:
        ch = False
        for i in range(1, n):
            if i not in reach: continue
            ps = [p for p in bs[i]["preds"] if p in reach]
            nd = set.intersection(*[dom[p] for p in ps]) | {i} if ps else {i}
            if nd != dom[i]: dom[i] = nd; ch = True
    res = {}
    for i in range(n):
        if i not in reach: continue
        for s in bs[i]["succs"]:
            if s in dom[i]:
                body = res.setdefault(s, {s})
                stack = [i]
                while stack:
                    x = stack.pop()
                    if x in body: continue
                    body.add(x); stack.extend(bs[x]["preds"])
    fn["_loops"] = res
    return res
