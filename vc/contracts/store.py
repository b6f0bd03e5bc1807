"""C02/C03/C04/C12/C20: the node stores under the trie (concrete cache, deletion marks, persisted bytes), deep copies, persisting.
What a trie sees at a key: nothing where a deletion mark is, otherwise the cached node, otherwise the parse of the stored bytes."""
from node2 import *
import node, node2, util
BNM, XM, SETB = "map[string]*" + BN, "map[string]struct{}", "map[byte]struct{}"
BT = "*" + BN
def fld(ex, t, f): return [x["n"] for x in ex.p.fields(t)].index(f)
def cache(ex, st, sc): return ex.getf(st, sc, NSB, "nodeCache")
def dels(ex, st, sc): return ex.getf(st, sc, NSB, "deleted")
def stored(ex, st, ts, a, K):
    """the bytes stored for the node key"""
    return SlSeq(Select(kvc(ex, st, ts), app("enca", I(a), K)))
def store_setup(s, ex, st, a, embedded=True):
    """a buffered node store (or its reader): every cached node knows its key, marked keys are not cached; the persisted bytes of a node parse"""
    sc = ref_param(ex, st, "sc"); s.sc = sc; rd = Emb(sc, 0) if embedded else sc
    s.ts = ref_param(ex, st, "ts"); s.vs = ref_param(ex, st, "vs", nonnil=False); s.m = ref_param(ex, st, "model")
    for f, v in (("m", s.m), ("trieStore", s.ts), ("valueStore", s.vs), ("arity", I(a))): ex.setf(st, rd, NS, f, v)
    K = bvar("K", SEQ); x = stored(ex, st, s.ts, a, K); P = parse_args(ex, st, x, K, I(a), s.vs)
    ex.assume(st, Forall([K], Implies(Lt(I(0), Len(x)), And(app("nok", *P), Eq(Len(app("nrest", *P)), I(0)))), [Select(kvc(ex, st, s.ts), app("enca", I(a), K))]))
    if not embedded: return sc
    s.opt = fresh("opt", BOOL); s.C = ref_param(ex, st, "cache"); s.X = ref_param(ex, st, "deleted")
    for f, v in (("arity", I(a)), ("optimizeKeyCommitments", s.opt), ("nodeCache", s.C), ("deleted", s.X)): ex.setf(st, sc, NSB, f, v)
    s.Cd, s.Cv, s.Xd = ex.mdom(st, s.C, BNM), ex.mval(st, s.C, BNM), ex.mdom(st, s.X, XM)
    r = Select(s.Cv, K); kf = Select(ex.comp(st, ex.fcomp(BN, fld(ex, BN, "unpackedKey")), SL), r)
    ex.assume(st, Forall([K], Implies(Select(s.Cd, K), And(Ne(r, NULL), Le(app("birth", r), I(0)), Eq(SlSeq(kf), K), Not(Select(s.Xd, K)))), [Select(s.Cd, K)]))
    return sc
class ReaderGet(Spec):
    """nodeStore.getNode: the parse of the stored bytes, nothing when there are none"""
    fn = "(*%s).getNode" % NS
    def __init__(s, a): s.a = a; s.label = "nodeStore.getNode[arity %d]" % (a + 1)
    def configure(s, ex): util.use(ex); use_node(ex); ex.opts["retain"] = False
    def setup(s, ex, st):
        store_setup(s, ex, st, s.a, False); s.k = sl_param(ex, st, "key"); ex.assume(st, vala(I(s.a), s.k.seq)); s.b = stored(ex, st, s.ts, s.a, s.k.seq)
        return [s.sc, s.k]
    def check(s, ex, st, r):
        K = s.k.seq; n, ok = r; O = lambda f, d: ex.oblige(st, "post", f, d, "")
        O(Eq(ok, Lt(I(0), Len(s.b))), "found exactly when there are bytes stored under the encoded key")
        O(Implies(ok, Ne(n, NULL)), "a node is returned")
        if n is not NULL:
            O(Implies(ok, Eq(ex.content(st, ex.getf(st, n, RO_, "key")), K)), "the node knows its key")
            same_node(ex, st, Emb(n, 0), parse_args(ex, st, s.b, K, I(s.a), s.vs), s, ok, "the node is the parse of the stored bytes")
        frame_old(ex, st, s, ("cv",))
RO_ = TR + "nodeReadOnly"
def fresh_node(ex, st, t, P, a):
    """a new node object (t its type) with the parsed content: [(state, ref)]"""
    out = []; n = ex.alloc_ref(st, "node"); nd = Emb(n, 0)
    pf = app("npf", *P); nl = fresh("pf_nil", BOOL); ex.assume(st, Implies(nl, Eq(Len(pf), I(0)))); ex.assume(st, vala(I(a), pf))
    ex.setf(st, nd, ND, "PathFragment", Sl("I", seq=pf, len=Len(pf), nil=nl, owner="heap", et="byte"))
    m = ex.new_map(st, MT)
    ex.setf(st, nd, ND, "ChildCommitments", m)
    for s1, tm in ref_or_nil(ex, st, app("ntv", *P), "term"):
        ex.setf(s1, nd, ND, "Terminal", tm); fresh_children(ex, s1, m, app("nA", *P), a); out.append((s1, n))
    return out
def reader_get(s):
    def f(ex, st, args, pos):
        K = ex.content(st, args[1]); b = stored(ex, st, s.ts, s.a, K); ex.oblige(st, "pre", vala(I(s.a), K), "nodeStore.getNode: the key is valid", pos)
        ex.oblige(st, "pre", Eq(args[0], Emb(s.sc, 0)), "nodeStore.getNode: the reader of the store", pos)
        s2 = st.fork(); ex.assume(st, Lt(I(0), Len(b))); ex.assume(s2, Eq(Len(b), I(0))); out = []
        P = parse_args(ex, st, b, K, I(s.a), s.vs)
        if not ex.infeasible(st):
            for s1, n in fresh_node(ex, st, RO_, P, s.a):
                ex.setf(s1, n, RO_, "key", Sl("I", seq=K, len=Len(K), nil=args[1].nil, owner="heap", et="byte")); out.append((s1, [n, TRUE]))
        if not ex.infeasible(s2): out.append((s2, [NULL, FALSE]))
        return out
    return f
class StoreSpec(Spec):
    def __init__(s, a): s.a = a; s.label = "nodeStoreBuffered.%s[arity %d]" % (s.fn.split(".")[-1], a + 1)
    def configure(s, ex): util.use(ex); use_node(ex); ex.contracts["(*%s).getNode" % NS] = reader_get(s)
    def key(s, ex, st):
        s.k = sl_param(ex, st, "key"); ex.assume(st, vala(I(s.a), s.k.seq)); return s.k
    def now(s, ex, st): return ex.mdom(st, cache(ex, st, s.sc), BNM), ex.mval(st, cache(ex, st, s.sc), BNM), ex.mdom(st, dels(ex, st, s.sc), XM)
    def maps(s, ex, st, Cd=None, Cv=None, Xd=None):
        """the cache and the marks are these (what is not given is unchanged); the maps themselves stay"""
        O = lambda f, d: ex.oblige(st, "post", f, d, ""); d, v, x = s.now(ex, st); K = bvar("K", SEQ)
        O(And(Eq(cache(ex, st, s.sc), s.C), Eq(dels(ex, st, s.sc), s.X)), "the maps of the store stay")
        O(Eq(d, Cd if Cd is not None else s.Cd), "the cached keys are as specified"); O(Eq(x, Xd if Xd is not None else s.Xd), "the deletion marks are as specified")
        Cv = s.Cv if Cv is None else Cv; Cd = s.Cd if Cd is None else Cd
        O(Forall([K], Implies(Select(Cd, K), Eq(Select(v, K), Select(Cv, K)))), "the cached nodes are as specified")
    def others(s, ex, st, comps=()):
        """nothing existing is changed but the two maps"""
        mp = (ex.mdcomp(st, BNM), ex.mvcomp(st, BNM), ex.mdcomp(st, XM), ex.mvcomp(st, XM))
        for c, h in sorted(st.heap.items()):
            h0 = ex.entry.heap.get(c, ex.heap0.get(c))
            if h is h0 or h0 is None or c in comps: continue
            r = bvar("r", REF); ex.oblige(st, "frame", Forall([r], Implies(And(Le(app("birth", r), I(0)), *([Ne(r, s.C), Ne(r, s.X)] if c in mp else [])), Eq(Select(h, r), Select(h0, r)))), "existing objects stay: %s" % c, "")
class GetNode(StoreSpec):
    fn = "(*%s).getNode" % NSB
    def setup(s, ex, st): store_setup(s, ex, st, s.a); k = s.key(ex, st); s.b = stored(ex, st, s.ts, s.a, k.seq); return [s.sc, k]
    def check(s, ex, st, r):
        K = s.k.seq; n, ok = r; O = lambda f, d: ex.oblige(st, "post", f, d, "")
        inC, inX, inS = Select(s.Cd, K), Select(s.Xd, K), Lt(I(0), Len(s.b)); load = And(Not(inC), Not(inX), inS)
        O(Eq(ok, And(Not(inX), Or(inC, inS))), "found exactly when it is not marked deleted and cached or stored")
        O(Implies(inC, Eq(n, Select(s.Cv, K))), "the cached node, if there is one")
        s.maps(ex, st, Cd=Ite(load, Store(s.Cd, K, TRUE), s.Cd), Cv=Ite(load, Store(s.Cv, K, n), s.Cv))
        if n is NULL: s.others(ex, st, ("cv",)); return
        O(Implies(ok, Ne(n, NULL)), "a node is returned")
        same_node(ex, st, Emb(n, 0), parse_args(ex, st, s.b, K, I(s.a), s.vs), s, load, "a node not cached before is the parse of the stored bytes")
        O(Implies(load, Lt(I(0), app("birth", n))), "a node not cached before is a new one"); kk = ex.getf(st, n, BN, "unpackedKey")
        O(Implies(load, Eq(ex.content(st, kk), K)), "it knows its key")
        nt = ex.getf(st, n, BN, "newTerminal"); mc = ex.getf(st, n, BN, "modifiedChildren")
        O(Implies(load, And(Eq(nt, ex.getf(st, Emb(n, 0), ND, "Terminal")), Not(ex.getf(st, n, BN, "pathChanged")), Ne(mc, NULL), Lt(I(0), app("birth", mc)))), "it has no pending changes: terminal and path")
        c = bvar("c", INT); O(Implies(load, Forall([c], Not(Select(ex.mdom(st, mc, SETB), c)))), "it has no pending changes: children")

        s.others(ex, st, ("cv",))
class MustGet(GetNode):
    fn = "(*%s).mustGetNode" % NSB
    def configure(s, ex):
        GetNode.configure(s, ex)
    def setup(s, ex, st):
        a = GetNode.setup(s, ex, st); K = s.k.seq; ex.assume(st, And(Not(Select(s.Xd, K)), Or(Select(s.Cd, K), Lt(I(0), Len(s.b))))); return a
    def check(s, ex, st, r): GetNode.check(s, ex, st, [r[0], TRUE])
class Remove(StoreSpec):
    fn = "(*%s).removeKey" % NSB
    def setup(s, ex, st): store_setup(s, ex, st, s.a); return [s.sc, s.key(ex, st)]
    def check(s, ex, st, r): s.maps(ex, st, Cd=Store(s.Cd, s.k.seq, FALSE), Xd=Store(s.Xd, s.k.seq, TRUE)); s.others(ex, st)
class UnDelete(StoreSpec):
    fn = "(*%s).unDelete" % NSB
    def setup(s, ex, st): store_setup(s, ex, st, s.a); return [s.sc, s.key(ex, st)]
    def check(s, ex, st, r): s.maps(ex, st, Xd=Store(s.Xd, s.k.seq, FALSE)); s.others(ex, st)
class Insert(StoreSpec):
    fn = "(*%s).insertNewNode" % NSB; cached = FALSE
    def setup(s, ex, st):
        store_setup(s, ex, st, s.a); s.n = ref_param(ex, st, "n"); k = s.key(ex, st); ex.setf(st, s.n, BN, "unpackedKey", Sl("I", seq=k.seq, len=k.len, nil=k.nil, owner="heap", et="byte"))
        ex.assume(st, Eq(Select(s.Cd, k.seq), s.cached)); return [s.sc, s.n]
    def check(s, ex, st, r):
        K = s.k.seq; s.maps(ex, st, Cd=Store(s.Cd, K, TRUE), Cv=Store(s.Cv, K, s.n), Xd=Store(s.Xd, K, FALSE)); s.others(ex, st)
class Replace(Insert):
    fn = "(*%s).replaceNode" % NSB; cached = TRUE
    def check(s, ex, st, r): s.maps(ex, st, Cv=Store(s.Cv, s.k.seq, s.n)); s.others(ex, st)
class Clear(StoreSpec):
    fn = "(*%s).clearCache" % NSB
    def setup(s, ex, st): store_setup(s, ex, st, s.a); return [s.sc]
    def check(s, ex, st, r):
        d, v, x = s.now(ex, st); K = bvar("K", SEQ); O = lambda f, d_: ex.oblige(st, "post", f, d_, "")
        O(Forall([K], And(Not(Select(d, K)), Not(Select(x, K)))), "no cached nodes and no deletion marks are left")
        O(And(*[And(Ne(m, NULL), Lt(I(0), app("birth", m))) for m in (cache(ex, st, s.sc), dels(ex, st, s.sc))]), "the maps are new ones")
        for f in ("m", "trieStore", "valueStore", "arity"): O(Eq(ex.getf(st, Emb(s.sc, 0), NS, f), ex.getf(ex.entry, Emb(s.sc, 0), NS, f)), "the reader stays: " + f)
        for f in ("arity", "optimizeKeyCommitments"): O(Eq(ex.getf(st, s.sc, NSB, f), ex.getf(ex.entry, s.sc, NSB, f)), "the options stay: " + f)
        for c, h in sorted(st.heap.items()):
            h0 = ex.entry.heap.get(c, ex.heap0.get(c)); r_ = bvar("r", REF)
            if h is not h0 and h0 is not None: ex.oblige(st, "frame", Forall([r_], Implies(And(Le(app("birth", r_), I(0)), Ne(r_, s.sc)), Eq(Select(h, r_), Select(h0, r_)))), "existing objects stay: %s" % c, "")
# ---------------------------------------------------------------- deep copies
def nd_clone(ex, st, args, pos):
    """NodeData.Clone (proved in node2): a deep copy"""
    n = args[0]; v = nd_view(ex, st, n); O = lambda f, d: ex.oblige(st, "pre", f, "NodeData.Clone: " + d, pos)
    O(wf_children(ex, st, v[5], None), "children are valid"); O(Implies(Ne(v[4], NULL), Ne(v[1], VNIL)), "the terminal has a value")
    r = ex.alloc_ref(st, "ndclone"); m = ex.new_map(st, MT); now0 = st.now
    ex.setf(st, r, ND, "PathFragment", ex.new_sl(st, v[0])); ex.setf(st, r, ND, "ChildCommitments", m)
    fresh_children(ex, st, m, v[3], 255); ex.assume(st, Eq(ex.mdom(st, m, MT), v[6])); s2 = st.fork(); out = []
    ex.assume(st, Eq(v[4], NULL)); ex.assume(s2, Ne(v[4], NULL))
    if not ex.infeasible(st): ex.setf(st, r, ND, "Terminal", NULL); out.append((st, [r]))
    if not ex.infeasible(s2): ex.setf(s2, r, ND, "Terminal", new_commit(ex, s2, v[1], "tclone")); out.append((s2, [r]))
    return out
class BNClone(Spec):
    fn = "(*%s).Clone" % BN; label = "bufferedNode.Clone"
    def configure(s, ex):
        util.use(ex); ex.iface.update({(TR + "TCommitment", "Clone"): clone_commit, (TR + "VCommitment", "Clone"): clone_commit})
        ex.contracts["(*%s).Clone" % ND] = nd_clone; ex.hints.append(copy_hints(lambda ex, st: [(SETB, s.mc, None)]))
    def setup(s, ex, st):
        n = ref_param(ex, st, "n"); s.n = n; nd = Emb(n, 0); s.pf = sl_param(ex, st, "pf", owner="heap"); s.k = sl_param(ex, st, "key", owner="heap"); s.t = ref_param(ex, st, "t", nonnil=False); s.nt = ref_param(ex, st, "nt", nonnil=False)
        s.m = ref_param(ex, st, "ch"); s.mc = ref_param(ex, st, "mc"); s.pc = fresh("pc", BOOL)
        ex.setf(st, nd, ND, "PathFragment", s.pf); ex.setf(st, nd, ND, "Terminal", s.t); ex.setf(st, nd, ND, "ChildCommitments", s.m)
        for f, v in (("unpackedKey", s.k), ("newTerminal", s.nt), ("modifiedChildren", s.mc), ("pathChanged", s.pc)): ex.setf(st, n, BN, f, v)
        ex.assume(st, wf_children(ex, st, s.m, 255)); old_children(ex, st, s.m)
        for t in (s.t, s.nt): ex.assume(st, Implies(Ne(t, NULL), Ne(cval(ex, st, t), VNIL)))
        s.v = nd_view(ex, st, nd); s.vnt = Ite(Eq(s.nt, NULL), VNIL, cval(ex, st, s.nt)); s.mcd = ex.mdom(st, s.mc, SETB)
        return [n]
    def check(s, ex, st, r):
        n = r[0]; O = lambda f, d: ex.oblige(st, "post", f, d, "")
        O(And(Ne(n, NULL), Lt(I(0), app("birth", n))), "a new node"); clone_post(ex, st, Emb(n, 0), s.v, I(0), own=False)
        O(Eq(ex.content(st, ex.getf(st, n, BN, "unpackedKey")), s.k.seq), "same key"); O(B(own_at(ex, st, n, BN, "unpackedKey")), "the key has its own memory")
        nt = ex.getf(st, n, BN, "newTerminal"); O(Eq(Eq(nt, NULL), Eq(s.nt, NULL)), "same presence of a new terminal")
        O(Eq(Ite(Eq(nt, NULL), VNIL, cval(ex, st, nt)), s.vnt), "same new terminal"); O(Or(Eq(nt, NULL), Lt(I(0), app("birth", nt))), "the new terminal is a copy")
        m = ex.getf(st, n, BN, "modifiedChildren"); c = bvar("c", INT)
        O(And(Ne(m, NULL), Lt(I(0), app("birth", m))), "the marks are in a new map"); O(Forall([c], Eq(Select(ex.mdom(st, m, SETB), c), Select(s.mcd, c))), "same marks")
        O(Eq(ex.getf(st, n, BN, "pathChanged"), s.pc), "same path change mark"); frame_old(ex, st, s)
class SCClone(StoreSpec):
    """the nodes are copied with bufferedNode.Clone (proved above): cv stands for the content of a node, deeply"""
    fn = "(*%s).clone" % NSB; label = "nodeStoreBuffered.clone"; raw_first = 1.0
    def __init__(s): s.a = 255
    def configure(s, ex):
        util.use(ex); ex.contracts["(*%s).Clone" % BN] = clone_commit
        ex.hints.append(copy_hints(lambda ex, st: [(BNM, s.C, s.vrel), (XM, s.X, None)]))
        ex.hints.append(s.keep)
    def keep(s, ctx, st, cur, ints):
        """maps filled before the loop keep what they hold"""
        ex = ctx.ex; out = []
        if ctx.fn is None: return out
        for d in ctx_refs(ctx.st0):
            if not d.args[0].startswith("map!"): continue
            for mt in (BNM, XM):
                for nm, g in (("dom", ex.mdom), ("val", ex.mval)):
                    if mt is XM and nm == "val": continue
                    out.append(("map %s keeps %s %s" % (d.args[0], mt, nm), Eq(g(st, d, mt), g(ctx.st0, d, mt))))
        return out
    def vrel(s, ex, st, st0, m, d, k, vis):
        V0, V2, C = ex.mval(st0, m, BNM), ex.mval(st, d, BNM), cv(ex, st); f = And(Ne(Select(V2, k), NULL), Lt(I(0), app("birth", Select(V2, k))), Le(app("birth", Select(V2, k)), st.now))
        return [Forall([k], Implies(Select(vis, k), f), [Select(V2, k)]), Forall([k], Implies(Select(vis, k), Eq(Select(C, Select(V2, k)), Select(s.C0, Select(V0, k)))), [Select(V2, k)])]
    def setup(s, ex, st): store_setup(s, ex, st, s.a); s.C0 = cv(ex, st); return [s.sc]
    def check(s, ex, st, r):
        n = s.result(ex, st, r); O = lambda f, d: ex.oblige(st, "post", f, d, ""); K = bvar("K", SEQ)
        O(And(Ne(n, NULL), Lt(I(0), app("birth", n))), "a new store")
        for f in ("m", "trieStore", "valueStore", "arity"): O(Eq(ex.getf(st, Emb(n, 0), NS, f), ex.getf(ex.entry, Emb(s.sc, 0), NS, f)), "same reader: " + f)
        for f in ("arity", "optimizeKeyCommitments"): O(Eq(ex.getf(st, n, NSB, f), ex.getf(ex.entry, s.sc, NSB, f)), "same options: " + f)
        c, x = cache(ex, st, n), dels(ex, st, n)
        O(And(*[And(Ne(m, NULL), Lt(I(0), app("birth", m))) for m in (c, x)]), "the maps are new ones")
        d, v = ex.mdom(st, c, BNM), ex.mval(st, c, BNM)
        O(Forall([K], Eq(Select(d, K), Select(s.Cd, K))), "the same keys are cached"); O(Forall([K], Eq(Select(ex.mdom(st, x, XM), K), Select(s.Xd, K))), "the same keys are marked deleted")
        O(Forall([K], Implies(Select(d, K), And(Ne(Select(v, K), NULL), Lt(I(0), app("birth", Select(v, K)))))), "the cached nodes are copies")
        O(Forall([K], Implies(Select(d, K), Eq(Select(cv(ex, st), Select(v, K)), Select(s.C0, Select(s.Cv, K))))), "of the same content"); frame_old(ex, st, s)
    def result(s, ex, st, r): return r[0]
class TrieClone(SCClone):
    fn = "(*" + TR + "Trie).Clone"; label = "Trie.Clone"
    def setup(s, ex, st):
        SCClone.setup(s, ex, st); tr = ref_param(ex, st, "tr"); ex.setf(st, tr, TR + "Trie", "nodeStore", s.sc); return [tr]
    def result(s, ex, st, r):
        ex.oblige(st, "post", And(Ne(r[0], NULL), Lt(I(0), app("birth", r[0]))), "a new trie", ""); return ex.getf(st, r[0], TR + "Trie", "nodeStore")
# ---------------------------------------------------------------- persisting
def ser(ex, st, r): return Select(ex.comp(st, "bser", SEQ), r)
def bytes_c(ex, st, args, pos):
    """bufferedNode.Bytes (proved in node2): a function of the node"""
    x = ser(ex, st, args[0]); ex.assume(st, Lt(I(0), Len(x))); return [(st, [Sl("I", seq=x, len=Len(x), nil=FALSE, owner="own", et="byte")])]
def enc_c(s):
    def f(ex, st, args, pos):
        u = ex.content(st, args[0]); ex.oblige(st, "pre", vala(I(s.a), u), "mustEncodeUnpackedBytes: the key is valid", pos); e = app("enca", I(s.a), u); ex.assume(st, Mention(app("deca", I(s.a), e)))
        return [(st, [Sl("I", seq=e, len=Len(e), nil=fresh("enil", BOOL), owner="heap", et="byte")])]
    return f
def kv_set(ex, st, args, pos):
    w, k, v = args; K = kvc(ex, st, w); x = MkSl(v.nil, ex.content(st, v)) if isinstance(v, Sl) else NILSL_
    st.heap["kvc"] = Store(st.heap["kvc"], w, Store(K, ex.content(st, k), x)); return [(st, [])]
NILSL_ = MkSl(TRUE, Empty())
class Persist(StoreSpec):
    """every cached node is written under its key, every deletion mark deletes, nothing else is touched"""
    fn = "(*%s).persistMutations" % NSB; raw_first = 1.0
    def configure(s, ex):
        util.use(ex); ex.opts["retain"] = False; ex.contracts["(*%s).Bytes" % BN] = bytes_c; ex.contracts[TR + "mustEncodeUnpackedBytes"] = enc_c(s); ex.iface[(TR + "KVWriter", "Set")] = kv_set; ex.hints.append(s.hint)
    def at(s, E): return And(app("decoka", I(s.a), E), TRUE), app("deca", I(s.a), E)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; out = []
        if ctx.fn is None or ctx.fn["name"] != s.fn: return out
        its = [(c, v) for c, v in st.cells.items() if c.startswith("iter:")]; E = bvar("E", SEQ); now, then = kvc(ex, st, s.w), Select(ctx.st0.heap["kvc"] if "kvc" in ctx.st0.heap else ex.heap0["kvc"], s.w)
        if not its: return out
        vis = its[-1][1]; g, d = s.at(E); K = bvar("K", SEQ)
        for nm, dom, x in (("cached", s.Cd, MkSl(FALSE, Select(s.ser0, Select(s.Cv, d)))), ("deleted", s.Xd, NILSL_)):
            out.append(("visited %s" % nm, Forall([K], Implies(Select(vis, K), Select(dom, K)), [Select(vis, K)])))
            out.append(("written %s" % nm, Forall([E], Eq(Select(now, E), Ite(And(g, Select(vis, d)), x, Select(then, E))), [Select(now, E)])))
        return out
    def setup(s, ex, st):
        store_setup(s, ex, st, s.a); s.w = ref_param(ex, st, "w"); ex.frame_except = [s.w]; K = bvar("K", SEQ); s.ser0 = ex.comp(st, "bser", SEQ); s.kv0 = kvc(ex, st, s.w)
        for d in (s.Cd, s.Xd): ex.assume(st, Forall([K], Implies(Select(d, K), vala(I(s.a), K)), [Select(d, K)]))
        return [s.sc, s.w]
    def check(s, ex, st, r):
        O = lambda f, d: ex.oblige(st, "post", f, d, ""); E = bvar("E", SEQ); now = kvc(ex, st, s.w); g, d = s.at(E); inC, inX = And(g, Select(s.Cd, d)), And(g, Select(s.Xd, d))
        O(Forall([E], Implies(inC, Eq(Select(now, E), MkSl(FALSE, Select(s.ser0, Select(s.Cv, d)))))), "every cached node is stored under its encoded key")
        O(Forall([E], Implies(inX, Eq(Len(SlSeq(Select(now, E))), I(0)))), "every marked key is deleted"); O(Forall([E], Implies(And(Not(inC), Not(inX)), Eq(Select(now, E), Select(s.kv0, E)))), "no other entry is touched")
        rr = bvar("r", REF); O(Forall([rr], Implies(And(Le(app("birth", rr), I(0)), Ne(rr, s.w)), Eq(Select(st.heap["kvc"], rr), Select(ex.heap0["kvc"], rr)))), "no other store is touched"); s.maps(ex, st)
        frame_old(ex, st, s, ("kvc",))
class NewStore(Spec):
    """a new trie sees exactly what is stored"""
    fn = TR + "newNodeStoreBuffered"; label = "newNodeStoreBuffered"
    def configure(s, ex): util.use(ex)
    def setup(s, ex, st):
        s.v = dict(m=ref_param(ex, st, "model"), trieStore=ref_param(ex, st, "ts"), valueStore=ref_param(ex, st, "vs", nonnil=False), arity=fresh("arity", INT)); s.o = fresh("opt", BOOL)
        return [s.v["m"], s.v["trieStore"], s.v["valueStore"], s.v["arity"], s.o]
    def check(s, ex, st, r):
        n = r[0]; O = lambda f, d: ex.oblige(st, "post", f, d, ""); K = bvar("K", SEQ)
        O(And(Ne(n, NULL), Lt(I(0), app("birth", n))), "a new store")
        for f, v in s.v.items(): O(Eq(ex.getf(st, Emb(n, 0), NS, f), v), "the reader is the one asked for: " + f)
        O(And(Eq(ex.getf(st, n, NSB, "arity"), s.v["arity"]), Eq(ex.getf(st, n, NSB, "optimizeKeyCommitments"), s.o)), "the options are those asked for")
        c, x = cache(ex, st, n), dels(ex, st, n); O(And(Ne(c, NULL), Ne(x, NULL), Lt(I(0), app("birth", c)), Lt(I(0), app("birth", x))), "it has its own maps")
        O(Forall([K], And(Not(Select(ex.mdom(st, c, BNM), K)), Not(Select(ex.mdom(st, x, XM), K)))), "no cached nodes and no deletion marks"); frame_old(ex, st, s)
def specs():
    out = []
    for a in (255, 15, 1): out += [ReaderGet(a), GetNode(a), MustGet(a), Persist(a)]
    return out + [c(255) for c in (Remove, UnDelete, Insert, Replace, Clear)] + [NewStore(), BNClone(), SCClone(), TrieClone()]
def lemmas():
    """what a trie sees: seen(X, C, S) = no mark and (cached or stored)"""
    X, C, S = (var(n, BOOL) for n in ("marked", "cached", "stored")); c = var("cachedbytes", SEQ); b = var("storedbytes", SEQ)
    seen = lambda x, c_, s_: And(Not(x), Or(c_, s_)); S2 = Ite(C, TRUE, Ite(X, FALSE, S)); inv = Not(And(C, X))
    b2 = Ite(C, c, Ite(X, Empty(), b)); same = lambda x, c_, q: Ite(x, Empty(), Ite(c_, c, q))
    K, K2 = var("K", SEQ), var("K2", SEQ); a = var("a", INT)
    return [Lemma("persisting: a key is stored afterwards exactly if the trie sees a node there", Implies(inv, Eq(S2, seen(X, C, S)))),
            Lemma("persisting: the trie sees the same keys before and after", Implies(inv, Eq(seen(X, C, S2), seen(X, C, S)))),
            Lemma("persisting: a new trie, a reader or a cleared cache sees the same keys", Implies(inv, Eq(seen(FALSE, FALSE, S2), seen(X, C, S)))),
            Lemma("persisting: what is stored is the serialization of what the trie sees", Implies(And(inv, Eq(S, Lt(I(0), Len(b))), Lt(I(0), Len(c))), Eq(b2, same(X, C, b)))),
            Lemma("persisting twice is persisting once", Implies(inv, Eq(Ite(C, TRUE, Ite(X, FALSE, S2)), S2))),
            Lemma("node keys with the same encoding are the same", Implies(And(app("vala", a, K), app("vala", a, K2), Eq(app("enca", a, K), app("enca", a, K2))), Eq(K, K2)))]
