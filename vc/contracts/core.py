"""The trie core over an abstract node store.
A node store is seen as a set of node keys tN and the node objects tR: nodes loaded lazily count as loaded from the start (getNode,
proved against the concrete cache in store.py, gives for a key always the same node, which is the parse of the stored bytes when it
was not cached).  tC is the set of keys in the cache."""
from node import *
import node, node2
from node2 import Lemma
BN, NSB = TR + "bufferedNode", TR + "nodeStoreBuffered"
KB, KR = Arr(SEQ, BOOL), Arr(SEQ, REF)
PES = "[][]byte"
def tN(ex, st, sc): return Select(ex.comp(st, "tN", KB), sc)
def tR(ex, st, sc): return Select(ex.comp(st, "tR", KR), sc)
def tC(ex, st, sc): return Select(ex.comp(st, "tC", KB), sc)
def hf(ex, st, t, f):
    """heap component of a field"""
    i = [x["n"] for x in ex.p.fields(t)].index(f); return ex.comp(st, ex.fcomp(t, i), ex.sort_of(ex.p.fields(t)[i]["t"]))
def pf_of(ex, st, r): return SlSeq(Select(hf(ex, st, ND, "PathFragment"), Emb(r, 0)))
RN = TR + "nodeReadOnly"
def key_of(ex, st, r, ro=False): return SlSeq(Select(hf(ex, st, RN, "key") if ro else hf(ex, st, BN, "unpackedKey"), r))
class View:
    """the nodes of a store in a state, as functions of the key (assumes nothing, usable on bound variables)"""
    def __init__(s, ex, st, sc, ro=False): s.ex, s.st, s.N, s.R = ex, st, tN(ex, st, sc), tR(ex, st, sc); s.C = tC(ex, st, sc); s.ro = ro
    def has(s, K): return Select(s.N, K)
    def ref(s, K): return Select(s.R, K)
    def pf(s, K): return pf_of(s.ex, s.st, s.ref(K))
    def full(s, K): return Cat(K, s.pf(K))
    def nt(s, K): return s.t(K) if s.ro else Select(hf(s.ex, s.st, BN, "newTerminal"), s.ref(K))
    def is_node(s, r, K=None): return And(Ne(r, NULL), Eq(app("typ", r), I(s.ex.tag(RT if s.ro else BT))), TRUE if K is None else Eq(key_of(s.ex, s.st, r, s.ro), K))
    def t(s, K): return Select(hf(s.ex, s.st, ND, "Terminal"), Emb(s.ref(K), 0))
    def ccm(s, K): return Select(hf(s.ex, s.st, ND, "ChildCommitments"), Emb(s.ref(K), 0))
    def mcm(s, K): return Select(hf(s.ex, s.st, BN, "modifiedChildren"), s.ref(K))
    def pc(s, K): return Select(hf(s.ex, s.st, BN, "pathChanged"), s.ref(K))
    def cc(s, K): return Select(s.st.heap[s.ex.mdcomp(s.st, MT)], s.ccm(K))
    def ccv(s, K): return Select(s.st.heap[s.ex.mvcomp(s.st, MT)], s.ccm(K))
    def mc(s, K): return Select(s.st.heap[s.ex.mdcomp(s.st, SETB)], s.mcm(K))
SETB = "map[byte]struct{}"
def node_facts(ex, st, sc, v=None):
    """J3: every node object is its own, non-nil, and knows its key"""
    v = v or View(ex, st, sc); K = bvar("K", SEQ)
    return [Forall([K], Implies(v.has(K), And(v.is_node(v.ref(K), K), Le(app("birth", v.ref(K)), st.now))), [v.has(K)])]
BT, RT = "*" + BN, "*" + RN
def getnode_c_(ro):
    def getnode_c(ex, st, args, pos):
        sc, k = args; K = ex.content(st, k); v = View(ex, st, sc, ro); s2 = st.fork(); out = []
        r = v.ref(K); ex.assume(st, v.has(K))
        if not ex.infeasible(st):
            ex.assume(st, And(v.is_node(r, K), Le(app("birth", r), st.now)))
            if not ro: st.heap["tC"] = Store(ex.comp(st, "tC", KB), sc, Store(v.C, K, TRUE))
            out.append((st, [r, TRUE]))
        ex.assume(s2, Not(v.has(K)))
        if not ex.infeasible(s2): out.append((s2, [NULL, FALSE]))
        return out
    return getnode_c
getnode_c = getnode_c_(False)
def is_bn(ex, r): return Eq(app("typ", r), I(ex.tag(BT)))
def node_method(m, ro=False):
    t = RT if ro else BT
    def f(ex, st, args, pos):
        ex.oblige(st, "type", Eq(app("typ", args[0]), I(ex.tag(t))), "the node is of the kind of the store", pos)
        return ex.run("(%s).%s" % (t, m), args, st)
    return f
def use_store(ex, ro=False):
    if ro: ex.contracts["(*%s).getNode" % node2.NS] = getnode_c_(True)
    else: ex.contracts["(*%s).getNode" % NSB] = getnode_c
    for m in ("PathFragment", "Terminal", "Key", "ChildCommitments"): ex.iface[(TR + "Node", m)] = node_method(m, ro)
def store_param(ex, st, ro, a=None):
    """a trie or a trie reader over an abstract node store: (interface value, store, model)"""
    if not ro:
        tr, sc, m = trie_param(ex, st, a); return IfaceV("*" + TR + "Trie", tr), sc, m
    tr = ref_param(ex, st, "tr"); sc = ref_param(ex, st, "ns"); m = ref_param(ex, st, "model"); ex.setf(st, tr, TR + "TrieReader", "reader", sc); ex.setf(st, sc, node2.NS, "m", m)
    if a is not None: ex.setf(st, sc, node2.NS, "arity", I(a))
    for f in node_facts(ex, st, sc, View(ex, st, sc, True)): ex.assume(st, f)
    return IfaceV("*" + TR + "TrieReader", tr), sc, m
def trie_param(ex, st, a=None):
    """a trie with an abstract node store"""
    tr = ref_param(ex, st, "tr"); sc = ref_param(ex, st, "sc"); m = ref_param(ex, st, "model")
    ex.setf(st, tr, TR + "Trie", "nodeStore", sc); ex.setf(st, Emb(sc, 0), node2.NS, "m", m)
    if a is not None:
        a = a if isinstance(a, T) else I(a); ex.setf(st, sc, NSB, "arity", a); ex.setf(st, Emb(sc, 0), node2.NS, "arity", a)
    for f in node_facts(ex, st, sc): ex.assume(st, f)
    return tr, sc, m

# ---------------------------------------------------------------- sequence lemmas (proved below), used on ground terms
def snoc(U, n): return Implies(And(Le(I(0), n), Lt(n, Len(U))), Eq(Take(U, Add(n, 1)), Cat(Take(U, n), Unit(At(U, n)))))
def split(U, a, b): return Implies(And(Le(I(0), a), Le(I(0), b), Le(Add(a, b), Len(U))), Eq(Take(U, Add(a, b)), Cat(Take(U, a), Take(Drop(U, a), b))))
# ---------------------------------------------------------------- commonPrefix
def is_common(u, w, n):
    """n is the length of the longest common prefix"""
    return And(Le(I(0), n), Le(n, Len(u)), Le(n, Len(w)), Eq(Take(u, n), Take(w, n)), Or(Eq(n, Len(u)), Eq(n, Len(w)), Ne(At(u, n), At(w, n))))
class CommonPrefix(Spec):
    fn = TR + "commonPrefix"; label = "commonPrefix"
    def configure(s, ex): ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        out = []
        for r, t, c in ctx.phis:
            if isinstance(cur[r], Sl):
                q = ctx.ex.content(st, cur[r])
                for r2, i, e in ints: out.append(("prefix %s %s" % (r, r2), And(Eq(q, Take(s.a.seq, i)), Eq(q, Take(s.b.seq, i)), Le(i, Len(s.a.seq)), Le(i, Len(s.b.seq)))))
        return out
    def setup(s, ex, st): s.a = sl_param(ex, st, "a"); s.b = sl_param(ex, st, "b"); return [s.a, s.b]
    def check(s, ex, st, r):
        q = ex.content(st, r[0]); n = Len(q)
        ex.oblige(st, "post", Eq(q, Take(s.a.seq, n)), "a prefix of the first", ""); ex.oblige(st, "post", is_common(s.a.seq, s.b.seq, n), "the longest common one", "")
def common_c(ex, st, args, pos):
    u, w = ex.content(st, args[0]), ex.content(st, args[1]); n = fresh("common", INT)
    ex.assume(st, And(is_common(u, w, n), Implies(Eq(n, Len(w)), Eq(w, Take(u, n))), Implies(Eq(n, Len(u)), Eq(u, Take(w, n)))))
    return [(st, [ex.new_sl(st, Take(u, n), nil=FALSE)])]

# ---------------------------------------------------------------- proofPath
declare("pre", [SEQ, SEQ], BOOL); declare("seg", [SEQ, INT, SEQ], BOOL)
def pre(K, U): return app("pre", K, U)
def pre_def(K, U): return Eq(pre(K, U), And(Le(Len(K), Len(U)), Eq(Take(U, Len(K)), K)))
def seg(U, n, p):
    """p stands in U at n"""
    return app("seg", U, n, p)
def seg_def(U, n, p): return Implies(And(Le(I(0), n), Le(n, Len(U))), Eq(seg(U, n, p), And(Le(Add(n, Len(p)), Len(U)), Eq(Take(Drop(U, n), Len(p)), p))))
def path_at(v, U, K): return And(v.has(K), pre(K, U))
def path_step(v, U, K, K2):
    """K2 is the child of K on the way to U"""
    return And(Eq(Len(K2), Add(Len(K), Len(v.pf(K)), 1)), inner(v, U, K))
def inner(v, U, K): return And(seg(U, Len(K), v.pf(K)), Lt(Add(Len(K), Len(v.pf(K))), Len(U)))
def qk(q, j): return SlSeq(At(q, j))
def path_inv(v, U, q):
    """q is a path of nodes towards U"""
    j, i = bvar("j", INT), bvar("i", INT)
    return [Implies(Lt(I(0), Len(q)), Eq(qk(q, I(0)), Empty())),
            Forall([j], Implies(And(Le(I(0), j), Lt(j, Len(q))), path_at(v, U, qk(q, j))), [At(q, j)]),
            Forall([i, j], Implies(And(Le(I(0), i), Eq(j, Add(i, 1)), Lt(j, Len(q))), Eq(Len(qk(q, j)), Add(Len(qk(q, i)), Len(v.pf(qk(q, i))), 1))), [(At(q, i), At(q, j))]),
            Forall([i], Implies(And(Le(I(0), i), Lt(Add(i, 1), Len(q))), inner(v, U, qk(q, i))), [At(q, i)])]
class ProofPath(Spec):
    fn = TR + "proofPath"; raw_first = 1.0
    def __init__(s, ro): s.ro = ro; s.label = "proofPath[%s]" % ("reader" if ro else "trie")
    def configure(s, ex):
        util.use(ex); use_store(ex, s.ro); ex.contracts[TR + "commonPrefix"] = s.common; ex.contracts["(*%s).getNode" % (node2.NS if s.ro else NSB)] = s.getnode; ex.opts["retain"] = False; ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; out = []; v = View(ex, st, s.sc, s.ro)
        if ctx.fn is None or ctx.fn["name"] != s.fn: return out
        for r, t, c in ctx.phis:
            x = cur[r]
            if isinstance(x, Sl) and x.k == "B":
                q = ex.content(st, x)
                for i, f in enumerate(path_inv(v, s.U, q)): out.append(("path %s %d" % (r, i), f))
                for r2, t2, c2 in ctx.phis:
                    if isinstance(cur[r2], Sl) and cur[r2].k == "I":
                        K = ex.content(st, cur[r2]); p = qk(q, Sub(Len(q), I(1)))
                        out.append(("next %s %s" % (r, r2), And(path_at(v, s.U, K), Le(Len(K), Len(s.U)), Eq(Take(s.U, Len(K)), K), Implies(Lt(I(0), Len(q)), path_step(v, s.U, p, K)), Implies(Eq(Len(q), I(0)), Eq(K, Empty())))))
                        for r3, t3, c3 in ctx.phis:
                            y = cur[r3]
                            y = y.v if isinstance(y, IfaceV) else y
                            if isinstance(y, T) and y.sort == REF: out.append(("node %s %s" % (r2, r3), And(Eq(y, v.ref(K)), v.is_node(y, K), v.has(K))))
        return out
    def common(s, ex, st, args, pos):
        u, w = ex.content(st, args[0]), ex.content(st, args[1]); a = Sub(Len(s.U), Len(u))
        ex.assume(st, Implies(Eq(u, Drop(s.U, a)), seg_def(s.U, a, w))); ex.assume(st, split(s.U, a, Len(w))); ex.assume(st, snoc(s.U, Add(a, Len(w))))
        return common_c(ex, st, args, pos)
    def getnode(s, ex, st, args, pos):
        ex.assume(st, pre_def(ex.content(st, args[1]), s.U)); return getnode_c_(s.ro)(ex, st, args, pos)
    def setup(s, ex, st):
        s.tr, s.sc, s.m = store_param(ex, st, s.ro); u = sl_param(ex, st, "key"); s.U = u.seq
        return [s.tr, u]
    def check(s, ex, st, r):
        v, U = View(ex, st, s.sc, s.ro), s.U; q = ex.content(st, r[0]); cp = ex.content(st, r[1])
        for f, d in path_post(v, U, q, cp, r[2]): ex.oblige(st, "post", f, d, "")
        only(ex, st, ("tC",))
def path_post(v, U, q, cp, end):
    out = [(Eq(Eq(Len(q), I(0)), Not(v.has(Empty()))), "no path exactly in the empty trie")]
    for i, f in enumerate(path_inv(v, U, q)): out.append((f, ("the path starts at the root", "the path holds nodes at prefixes of the key", "every node of the path is the child of the one before", "every node of the path but the last lies on the way to the key")[i]))
    K = qk(q, Sub(Len(q), I(1))); tail = Drop(U, Len(K)); pf = v.pf(K); ne = Lt(I(0), Len(q)); nk = Add(Len(K), Len(pf), 1)
    out.append((Implies(ne, And(Le(Len(K), Len(U)), Eq(Take(U, Len(K)), K))), "the last node is at a prefix of the key"))
    out.append((Implies(And(ne, Eq(end, I(0))), Eq(tail, pf)), "it ends at the terminal only if the key ends there"))
    out.append((Implies(And(ne, Eq(end, I(1))), And(is_common(tail, pf, Len(cp)), Eq(cp, Take(pf, Len(cp))), Lt(Len(cp), Len(pf)), Ne(tail, pf))), "it ends in a path fragment only if the key leaves it"))
    out.append((Implies(And(ne, Eq(end, I(2))), And(Eq(cp, pf), Lt(Add(Len(K), Len(pf)), Len(U)), Eq(Take(tail, Len(pf)), pf), Not(v.has(Take(U, nk))))), "it ends at a missing child only if there is no node for the child"))
    out.append((Or(Not(ne), Eq(end, I(0)), Eq(end, I(1)), Eq(end, I(2))), "there is no other ending"))
    return out
def only(ex, st, comps):
    """nothing but these components is changed"""
    for c, h in sorted(st.heap.items()):
        h0 = ex.entry.heap.get(c, ex.heap0.get(c))
        if h is not h0 and c not in comps: ex.oblige(st, "frame", Eq(h, h0), "nothing is changed: " + c, "")
def proofpath_c(ro, light=False):
    def f(ex, st, args, pos):
        tr, k = args; U = ex.content(st, k); sc = ex.getf(st, tr.v, TR + "TrieReader", "reader") if ro else ex.getf(st, tr.v, TR + "Trie", "nodeStore")
        v = View(ex, st, sc, ro); q = fresh("path", BSEQ); cp = fresh("cp", SEQ); end = fresh("ending", INT)
        for g, d in path_post(v, U, q, cp, end):
            if not (light and d.startswith(("it ends", "the last node"))): ex.assume(st, g)
        if not ro: st.heap["tC"] = Store(ex.comp(st, "tC", KB), sc, fresh("cached", Arr(SEQ, BOOL)))
        return [(st, [Sl("B", seq=q, len=Len(q), nil=Eq(Len(q), I(0)), owner="own", et=PES[2:]), ex.new_sl(st, cp), end])]
    return f
def specs(): return [CommonPrefix(), ProofPath(False), ProofPath(True)]

def lemmas():
    U, a, b = var("U", SEQ), var("a", INT), var("b", INT)
    return [Lemma("sequence lemma: snoc", snoc(U, a)), Lemma("sequence lemma: split", split(U, a, b))]
