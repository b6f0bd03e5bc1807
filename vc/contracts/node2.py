"""C05/C04/C12: users of the node codec: NodeDataFromBytes, bufferedNode.Bytes, node stores, deep copies; the round trip of the node codec.
NodeData.Write and NodeData.Read are used through the contracts proved in node.py."""
from node import *
import node
BN, RO, NS, NSB = TR + "bufferedNode", TR + "nodeReadOnly", TR + "nodeStore", TR + "nodeStoreBuffered"
AKV = Arr(SEQ, SL)
# the serialization of a node and its parse, as functions (their definitions are the postconditions of Write and Read)
declare("nser", (INT, BOOL, BOOL, SEQ, VAL, BOOL, A2V), SEQ)
for _n, _s in (("nok", BOOL), ("npf", SEQ), ("ntv", VAL), ("nA", A2V), ("nrest", SEQ)): declare(_n, (INT, SEQ, SEQ, AKV, BOOL), _s)
def nd_view(ex, st, n):
    """(path fragment, terminal value, children present, children) of the NodeData at n"""
    pf = ex.content(st, ex.getf(st, n, ND, "PathFragment")); t = ex.getf(st, n, ND, "Terminal"); m = ex.getf(st, n, ND, "ChildCommitments")
    tv = Ite(Eq(t, NULL), VNIL, cval(ex, st, t))
    D, V = ex.mdom(st, m, MT), ex.mval(st, m, MT)
    return pf, tv, Lt(I(0), Card(D)), app("cm", D, V, cv(ex, st)), t, m, D, V
def wf_children(ex, st, m, a):
    c = bvar("c", INT); D, V = ex.mdom(st, m, MT), ex.mval(st, m, MT)
    hi = [Le(c, I(a))] if a is not None else []
    return Forall([c], Implies(Select(D, c), And(Le(I(0), c), *hi, Ne(Select(V, c), NULL), Ne(Select(cv(ex, st), Select(V, c)), VNIL))), [Select(D, c)])
def nd_write(ex, st, args, pos):
    n, w, a, isk, skip = args; w = rref(ex, st, w)
    pf, tv, hasC, A, t, m, D, V = nd_view(ex, st, n)
    ex.oblige(st, "pre", wf_children(ex, st, m, a.args[0]), "NodeData.Write: children are valid", pos)
    ex.oblige(st, "pre", Implies(Ne(t, NULL), Ne(tv, VNIL)), "NodeData.Write: the terminal has a value", pos)
    ex.oblige(st, "pre", Le(Len(app("enca", a, pf)), I(65535)), "NodeData.Write: the path fragment fits", pos)
    A0 = st.ghost.get("A0")
    if A0 is not None: ex.oblige(st, "frame", Eq(A, A0), "the children stay", pos)
    ok = And(Or(Ne(t, NULL), isk, skip, hasC), vala(a, pf))
    s2 = st.fork(); W = wout(ex, st, w); out = []
    st.ghost["write"] = (isk, skip)
    st.heap["wout"] = Store(st.heap["wout"], w, Cat(W, app("nser", a, isk, skip, pf, tv, hasC, A)))
    ex.assume(st, ok)
    if not ex.infeasible(st): out.append((st, [NULL]))
    s2.heap["wout"] = Store(ex.comp(s2, "wout", SEQ), w, fresh("wout", SEQ))
    ex.assume(s2, Or(Not(ok), app("faulty", w)))
    if not ex.infeasible(s2): out.append((s2, [new_error(ex, s2, "werr", leaf=False)]))
    return out
def ref_or_nil(ex, st, v, hint):
    """forks: a fresh commitment with value v, or nil when there is none"""
    s2 = st.fork(); ex.assume(st, Eq(v, VNIL)); ex.assume(s2, Ne(v, VNIL)); out = []
    if not ex.infeasible(st): out.append((st, NULL))
    if not ex.infeasible(s2): out.append((s2, new_commit(ex, s2, v, hint)))
    return out
def parse_args(ex, st, R, key, a, vs): return (a, R, key, kvc(ex, st, vs), Eq(vs, NULL))
def fresh_children(ex, st, m, A, a):
    """m gets fresh commitments with the values A"""
    c = bvar("c", INT)
    C0 = cv(ex, st); now0 = st.now; N = fresh("now", INT); ex.assume(st, Le(now0, N)); st.now = N
    C = fresh("cv", C0.sort); r = bvar("r", REF)
    ex.assume(st, Forall([r], Implies(Le(app("birth", r), now0), Eq(Select(C, r), Select(C0, r))), [Select(C, r)]))
    st.heap["cv"] = C
    D, V = fresh("D", A2B), fresh("V", A2R)
    st.heap[ex.mdcomp(st, MT)] = Store(st.heap[ex.mdcomp(st, MT)], m, D)
    st.heap[ex.mvcomp(st, MT)] = Store(st.heap[ex.mvcomp(st, MT)], m, V)
    ex.assume(st, Forall([c], And(Eq(Select(D, c), Ne(Select(A, c), VNIL)), Implies(Select(D, c), And(Le(I(0), c), Le(c, I(a) if isinstance(a, int) else a), Ne(Select(V, c), NULL), Lt(now0, app("birth", Select(V, c))), Le(app("birth", Select(V, c)), N), Eq(Select(C, Select(V, c)), Select(A, c))))), [Select(D, c)]))
    ex.assume(st, Eq(app("cm", D, V, C), A))
def nd_read(ex, st, args, pos):
    n, r, mod, key, a, vs = args; r = rref(ex, st, r); R = rin(ex, st, r)
    m = ex.getf(st, n, ND, "ChildCommitments"); D = ex.mdom(st, m, MT)
    ex.oblige(st, "pre", And(Ne(m, NULL), Eq(D, ConstArr(D.sort, FALSE))), "NodeData.Read: the node is fresh", pos)
    P = parse_args(ex, st, R, ex.content(st, key), a, vs)
    s2 = st.fork(); out = []
    ex.assume(st, app("nok", *P)); ex.assume(st, vala(a, app("npf", *P))); ex.assume(st, Lt(I(0), Len(R)))
    if not ex.infeasible(st):
        st.heap["rin"] = Store(st.heap["rin"], r, app("nrest", *P))
        pf = app("npf", *P); nl = fresh("pf_nil", BOOL); ex.assume(st, Implies(nl, Eq(Len(pf), I(0))))
        ex.setf(st, n, ND, "PathFragment", Sl("I", seq=pf, len=Len(pf), nil=nl, owner="heap", et="byte"))
        for s1, t in ref_or_nil(ex, st, app("ntv", *P), "term"):
            ex.setf(s1, n, ND, "Terminal", t)
            fresh_children(ex, s1, m, app("nA", *P), a)
            out.append((s1, [NULL]))
    ex.assume(s2, Or(Not(app("nok", *P)), app("faulty", r)))
    if not ex.infeasible(s2):
        s2.heap["rin"] = Store(s2.heap["rin"], r, fresh("rest", SEQ))
        out.append((s2, [new_error(ex, s2, "rerr")]))
    return out
def use_node(ex):
    use_codecs(ex); use_model(ex)
    ex.contracts.update({"(*%s).Write" % ND: nd_write, "(*%s).Read" % ND: nd_read})
def same_node(ex, st, n, P, spec, g, what):
    """the NodeData at n is the parse P"""
    pf, tv, hasC, A, t, m, D, V = nd_view(ex, st, n)
    ex.oblige(st, "post", Implies(g, Eq(pf, app("npf", *P))), what + ": path fragment", "")
    ex.oblige(st, "post", Implies(g, Eq(tv, app("ntv", *P))), what + ": terminal", "")
    ex.oblige(st, "post", Implies(g, Eq(A, app("nA", *P))), what + ": children", "")

def old_children(ex, st, m):
    c = bvar("c", INT); D, V = ex.mdom(st, m, MT), ex.mval(st, m, MT)
    ex.assume(st, Forall([c], Implies(Select(D, c), Le(app("birth", Select(V, c)), I(0))), [Select(V, c)]))
class FromBytes(Spec):
    fn = TR + "NodeDataFromBytes"
    def __init__(s, a): s.a = a; s.label = "NodeDataFromBytes[arity %d]" % (a + 1)
    def configure(s, ex): util.use(ex); use_node(ex)
    def setup(s, ex, st):
        s.d = sl_param(ex, st, "data"); s.key = sl_param(ex, st, "key"); s.vs = ref_param(ex, st, "vs", nonnil=False); m = ref_param(ex, st, "model")
        s.P = parse_args(ex, st, s.d.seq, s.key.seq, I(s.a), s.vs)
        return [m, s.d, s.key, I(s.a), s.vs]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[1]), NULL)
        ex.oblige(st, "post", Eq(ok, And(app("nok", *s.P), Eq(Len(app("nrest", *s.P)), I(0)))), "accepted exactly when the bytes are one well-formed node", "")
        ex.oblige(st, "post", Implies(ok, Ne(r[0], NULL)), "a node is returned", "")
        if r[0] is not NULL: same_node(ex, st, r[0], s.P, s, ok, "the node is the parse")

class Bytes(Spec):
    """the serialization of a buffered node: nothing is dropped that a reader with the key and the value store can not recover"""
    fn = "(*" + BN + ").Bytes"
    def __init__(s, a): s.a = a; s.label = "bufferedNode.Bytes[arity %d]" % (a + 1)
    def configure(s, ex): util.use(ex); use_node(ex)
    def setup(s, ex, st):
        n = ref_param(ex, st, "n"); s.key = sl_param(ex, st, "key", owner="heap"); s.n = n
        s.pf = sl_param(ex, st, "pf", owner="heap"); s.t = ref_param(ex, st, "t", nonnil=False); s.m = ref_param(ex, st, "ch", nonnil=False)
        nd = Emb(n, 0)
        ex.setf(st, nd, ND, "PathFragment", s.pf); ex.setf(st, nd, ND, "Terminal", s.t); ex.setf(st, nd, ND, "ChildCommitments", s.m)
        ex.setf(st, n, BN, "unpackedKey", s.key)
        ex.nil_map_fact(st, s.m, MT)
        s.opt = fresh("opt", BOOL); s.mod = ref_param(ex, st, "model")
        s.v = nd_view(ex, st, nd)
        ex.assume(st, wf_children(ex, st, s.m, s.a)); ex.assume(st, Implies(Ne(s.t, NULL), Ne(s.v[1], VNIL)))
        st.ghost["A0"] = s.v[3]; old_children(ex, st, s.m)
        ex.assume(st, Le(Len(app("enca", I(s.a), s.pf.seq)), I(65535))); ex.assume(st, vala(I(s.a), s.pf.seq))
        ex.assume(st, Or(Ne(s.t, NULL), s.v[2]))         # the node commits to something
        return [n, s.mod, I(s.a), s.opt]
    def check(s, ex, st, r):
        pf, tv, hasC, A = s.v[:4]
        if "write" not in st.ghost: ex.fail(st, "post", "the node is serialized with NodeData.Write"); return
        isk, skip = st.ghost["write"]
        ex.oblige(st, "post", Eq(ex.content(st, r[0]), app("nser", I(s.a), isk, skip, pf, tv, hasC, A)), "the result is exactly the serialization", "")
        kc = app("ctd", Cat(s.key.seq, pf))
        ex.oblige(st, "post", Implies(isk, And(s.opt, Ne(s.t, NULL), Lt(I(0), Len(s.key.seq)), app("eqv", tv, kc))), "the terminal is left out as key commitment only if it is the commitment to the key and the key is not empty", "")
        ex.oblige(st, "post", Implies(And(skip, Not(isk)), And(Ne(s.t, NULL), Not(app("force", tv)))), "a terminal is left out as stored value only if it need not be stored with the node", "")
        ex.oblige(st, "post", Implies(And(skip, Not(isk), s.opt), Not(app("eqv", tv, kc))), "a key commitment is never looked up in the value store", "")
        ex.oblige(st, "post", Implies(Eq(s.t, NULL), And(Not(isk), Not(skip))), "no terminal, no terminal flags", "")

# ---------------------------------------------------------------- deep copies
def clone_commit(ex, st, args, pos):
    """TCommitment/VCommitment.Clone: a new commitment with the same value"""
    return [(st, [new_commit(ex, st, cval(ex, st, args[0]), "clone")])]
SET = "map[byte]struct{}"
def copy_hints(srcs):
    """a loop copying a map: the destination holds exactly the visited keys"""
    def h(ctx, st, cur, ints):
        ex = ctx.ex; out = []
        its = [(c, v) for c, v in st.cells.items() if c.startswith("iter:")]
        if not its or ctx.fn is None: return out
        cn, vis = its[-1]
        for si, (mt, m, vrel) in enumerate(srcs(ex, st)):
            D = ex.mdom(ctx.st0, m, mt)
            if D.sort != vis.sort: continue
            k = bvar("k", arr_parts(D.sort)[0])
            out.append(("visited<=src %d" % si, Forall([k], Implies(Select(vis, k), Select(D, k)), [Select(vis, k)])))
            maps = [r for r in terms._FRESH if r.args[0].startswith("map!") and r in ctx_refs(st)]
            for di, d in enumerate(maps):
                D2 = ex.mdom(st, d, mt)
                out.append(("dst%d=visited %d" % (di, si), Eq(D2, vis)))
                if vrel:
                    for j, f in enumerate(vrel(ex, st, ctx.st0, m, d, k, vis)): out.append(("dst%d vals %d.%d" % (di, si, j), f))
        return out
    return h
def ctx_refs(st):
    s = set()
    for f in st.pc:
        if f.op == "=" and any(x.op == "birth" for x in f.args):
            for x in f.args:
                if x.op == "birth": s.add(x.args[0])
    return s

class NDClone(NodeSpec):
    fn = "(*" + ND + ").Clone"; label = "NodeData.Clone"
    def configure(s, ex):
        ex.iface.update({(TR + "TCommitment", "Clone"): clone_commit, (TR + "VCommitment", "Clone"): clone_commit})
        ex.hints.append(copy_hints(lambda ex, st: [(MT, s.m, s.vrel)]))
    def vrel(s, ex, st, st0, m, d, k, vis):
        V0, V2, C = ex.mval(st0, m, MT), ex.mval(st, d, MT), cv(ex, st)
        return [Forall([k], Implies(Select(vis, k), And(Ne(Select(V2, k), NULL), Lt(s.now0, app("birth", Select(V2, k))), Le(app("birth", Select(V2, k)), st.now))), [Select(V2, k)]),
                Forall([k], Implies(Select(vis, k), Eq(Select(C, Select(V2, k)), Select(s.C0, Select(V0, k)))), [Select(V2, k)])]
    def setup(s, ex, st):
        s.n = s.node(ex, st); s.C0 = cv(ex, st); s.now0 = I(0)
        ex.assume(st, s.valid_children(ex, st, s.m, 255)); ex.assume(st, Implies(Ne(s.t, NULL), Ne(cval(ex, st, s.t), VNIL)))
        c = bvar("c", INT); V = ex.mval(st, s.m, MT)
        ex.assume(st, Forall([c], Le(app("birth", Select(V, c)), I(0)), [Select(V, c)]))
        s.v = nd_view(ex, st, s.n)
        return [s.n]
    def check(s, ex, st, r):
        n2 = r[0]
        clone_post(ex, st, n2, s.v, s.now0)
        frame_old(ex, st, s)
def clone_post(ex, st, n2, v, now0, g=TRUE, own=True):
    pf, tv, hasC, A, t, m, D, V = nd_view(ex, st, n2)
    O = lambda f, d: ex.oblige(st, "post", Implies(g, f), d, "")
    O(Eq(pf, v[0]), "same path fragment"); O(Eq(tv, v[1]), "same terminal"); O(Eq(Eq(t, NULL), Eq(v[4], NULL)), "same presence of a terminal")
    O(Eq(D, v[6]), "same set of children")
    c = bvar("c", INT)
    O(Forall([c], Implies(Select(D, c), Eq(Select(cv(ex, st), Select(V, c)), Select(v[3], c)))), "same child commitments")
    s2 = ex.getf(st, n2, ND, "PathFragment")
    if own: O(B(own_at(ex, st, n2, ND, "PathFragment")), "the path fragment has its own memory")
    O(And(Ne(m, NULL), Lt(now0, app("birth", m))), "the children are in a new map")
    O(Forall([c], Implies(Select(D, c), Lt(now0, app("birth", Select(V, c))))), "the child commitments are copies")
    O(Or(Eq(t, NULL), Lt(now0, app("birth", t))), "the terminal is a copy")
def own_at(ex, st, n, stype, f):
    """the slice field holds memory allocated here and published nowhere else"""
    for i, x in enumerate(ex.p.fields(stype)):
        if x["n"] == f: comp = ex.fcomp(stype, i)
    hits = [l for l in st.loc.values() if any(k[0] == (comp, n) for k in l.links)]
    return bool(hits) and all(l.owner == "own" for l in hits)
def frame_old(ex, st, s, comps=None):
    """nothing that existed before is changed"""
    for c, h in sorted(st.heap.items()):
        h0 = ex.entry.heap.get(c, ex.heap0.get(c))
        if h is h0 or h0 is None or c in (comps or ()): continue
        r = bvar("r", REF)
        ex.oblige(st, "frame", Forall([r], Implies(Le(app("birth", r), I(0)), Eq(Select(h, r), Select(h0, r)))), "existing objects stay: %s" % c, "")

def specs():
    out = []
    for a in (255, 15, 1): out += [FromBytes(a), Bytes(a)]
    return out + [NDClone()]

# ---------------------------------------------------------------- lemmas
class Lemma:
    raw_first = 0
    def __init__(s, label, goal, hyps=()): s.label = label; s.goal = goal; s.hyps = hyps
# contracts of the commitment serializers (proved for blake2b in b2b.py): parsing is prefix-stable and inverts writing
declare("twf", (VAL,), BOOL); declare("vwf", (VAL,), BOOL)
def stable(k, R, Q):
    l, v = k + "pl", k + "pv"
    return Implies(Le(I(0), app(l, R)), And(Eq(app(l, Cat(R, Q)), app(l, R)), Eq(app(v, Cat(R, Q)), app(v, R))))
def inverts(k, x, X=None):
    e = app(k + "enc", x); l, v = app(k + "pl", e), app(k + "pv", e)
    f = Implies(app(k + "wf", x), And(Eq(l, Len(e)), Eq(v, x)))
    return f if X is None else And(f, stable(k, e, X))
declare("cht", (A2V, INT, INT), SEQ)        # serializations of the children i..n-1
axiom("cht-n", "(forall ((A (Array Int Val)) (n Int)) (! (= (cht A n n) emptyI) :pattern ((cht A n n))))", "cht")
axiom("cht-step", "(forall ((A (Array Int Val)) (i Int) (n Int)) (! (=> (and (<= 0 i) (< i n)) (= (cht A i n) (catI (venc (select A i)) (cht A (+ i 1) n)))) :pattern ((cht A i n) (select A i))))", "cht")
def lemmas():
    out = []
    A = fresh("A", A2V); i = fresh("i", INT); R = fresh("R", SEQ); Q = fresh("Q", SEQ); rest = fresh("rest", SEQ)
    for a in (255, 15, 1):
        n = I(a + 1); nm = " [arity %d]" % (a + 1); F = app("cfl", A, I(csize(a)))
        rng_ = And(Le(I(0), i), Lt(i, n))
        # children: what was written is what is read
        out.append(Lemma("children written so far and to come (end)" + nm, Eq(Cat(app("chs", A, n), app("cht", A, n, n)), app("chs", A, n))))
        out.append(Lemma("children written so far and to come (step)" + nm, Implies(And(rng_, Mention(Select(A, i), app("cht", A, i, n), app("chs", A, i)), Eq(Cat(app("chs", A, Add(i, 1)), app("cht", A, Add(i, 1), n)), app("chs", A, n))), Eq(Cat(app("chs", A, i), app("cht", A, i, n)), app("chs", A, n)))))
        out.append(Lemma("children written so far and to come (start)" + nm, Implies(Eq(Cat(app("chs", A, I(0)), app("cht", A, I(0), n)), app("chs", A, n)), Eq(app("cht", A, I(0), n), app("chs", A, n)))))
        j, b = Div(i, 8), Mod(i, 8)
        out.append(Lemma("flag bytes tell the children" + nm, Implies(And(rng_, Mention(app("bit", At(F, j), b))), Eq(flagbit(F, i), Ne(Select(A, i), VNIL)))))
        Rc = Cat(app("chs", A, n), rest)
        nxt = Cat(app("cht", A, Add(i, 1), n), rest); cur = app("cpr", F, Rc, i)
        out.append(Lemma("children parse back (base)" + nm, Implies(And(Mention(app("cpok", F, Rc, I(0)), app("cpr", F, Rc, I(0))), Eq(app("cht", A, I(0), n), app("chs", A, n))), And(Eq(app("cpr", F, Rc, I(0)), Cat(app("cht", A, I(0), n), rest)), app("cpok", F, Rc, I(0))))))
        st = Implies(And(rng_, Mention(Select(A, i), flagbit(F, i)), Eq(flagbit(F, i), Ne(Select(A, i), VNIL)), Eq(cur, Cat(app("cht", A, i, n), rest)), app("cpok", F, Rc, i),
                         Implies(Ne(Select(A, i), VNIL), app("vwf", Select(A, i))), inverts("v", Select(A, i), nxt)),
                     And(Eq(app("cpr", F, Rc, Add(i, 1)), nxt), app("cpok", F, Rc, Add(i, 1)), Eq(cpv(F, Rc, i), Select(A, i))))
        out.append(Lemma("children parse back (step)" + nm, st))
        out.append(Lemma("children parse back (end)" + nm, Implies(Eq(app("cpr", F, Rc, n), Cat(app("cht", A, n, n), rest)), Eq(app("cpr", F, Rc, n), rest))))
        # parsing is prefix-stable
        G = fresh("F", SEQ); RQ = Cat(R, Q); c0, c1 = app("cpr", G, R, i), app("cpr", G, RQ, i)
        out.append(Lemma("parsing children is prefix-stable (base)" + nm, Implies(Mention(app("cpok", G, RQ, I(0)), app("cpr", G, RQ, I(0)), app("cpr", G, R, I(0))), And(Eq(app("cpr", G, RQ, I(0)), Cat(app("cpr", G, R, I(0)), Q)), app("cpok", G, RQ, I(0))))))
        out.append(Lemma("parsing children is prefix-stable (step)" + nm, Implies(And(rng_, Mention(flagbit(G, i)), Eq(c1, Cat(c0, Q)), app("cpok", G, RQ, i), app("cpok", G, R, Add(i, 1)), stable("v", c0, Q)),
            And(Eq(app("cpr", G, RQ, Add(i, 1)), Cat(app("cpr", G, R, Add(i, 1)), Q)), app("cpok", G, RQ, Add(i, 1)), Eq(cpv(G, RQ, i), cpv(G, R, i))))))
        # the whole node
        pf = fresh("pf", SEQ); key = fresh("key", SEQ); kv = fresh("kv", AKV); kn = fresh("kn", BOOL); tv = fresh("tv", VAL)
        for p, t, c in CASES:
            cn = " (%s path fragment, terminal %s, %s children)" % ("with" if p else "no", t, "with" if c else "no")
            # stability
            P1, P2 = nparse(a, R, key, kv, kn, p, t, c), nparse(a, RQ, key, kv, kn, p, t, c)
            h = []
            if t == "stored":
                R2 = util.RD["ReadBytes16"].parse(Drop(R, I(1)))[2] if p else Drop(R, I(1))
                h.append(stable("t", R2, Q)); R2Q = util.RD["ReadBytes16"].parse(Drop(RQ, I(1)))[2] if p else Drop(RQ, I(1))
                pre1 = Implies(And(P1[0], P1[1]), Eq(R2Q, Cat(R2, Q)))
                out.append(Lemma("parsing is prefix-stable, terminal bytes" + cn + nm, pre1)); h.append(Eq(R2Q, Cat(R2, Q)))
            if c:
                out.append(Lemma("parsing is prefix-stable, child bytes" + cn + nm, Implies(And(P1[0], P1[1], *h), And(Eq(P2[4], P1[4]), Eq(P2[5], Cat(P1[5], Q))))))
                h += [Eq(P2[4], P1[4]), Eq(P2[5], Cat(P1[5], Q)), app("cpok", P1[4], Cat(P1[5], Q), n), Eq(app("cpr", P1[4], Cat(P1[5], Q), n), Cat(app("cpr", P1[4], P1[5], n), Q))]
            out.append(Lemma("parsing is prefix-stable" + cn + nm, Implies(And(P1[0], P1[1], *h), And(P2[0], P2[1], Eq(P2[2], P1[2]), Eq(P2[3], P1[3]), Eq(P2[6], Cat(P1[6], Q))))))
            # round trip
            if t == "none" and not c: continue
            for skip in ((False,) if t in ("none", "stored") else (True,) if t == "value" else (False, True)):
                f = (0 if t == "none" else 1) + (2 if skip else 0) + (4 if t == "key" else 0) + (8 if c else 0) + (16 if p else 0)
                S = [nhead(I(a), I(f), pf if p else None, tv if t == "stored" else None)]
                if c: S += [F, app("chs", A, n)]
                X = Cat(*S, rest); tail = Cat(*S[1:], rest)
                cond, sok, spf, stv, F1, Rc1, rs = nparse(a, X, key, kv, kn, p, t, c)
                thepf = pf if p else Empty(); full = Cat(key, thepf)
                h = [vala(I(a), pf), Le(Len(app("enca", I(a), pf)), I(65535)), Lt(I(0), Len(pf)) if p else TRUE]
                goal = [Eq(spf, thepf), Eq(rs, rest)]
                if t == "key": h += [Lt(I(0), Len(key)), app("eqv", tv, app("ctd", full))]; goal.append(app("eqv", stv, tv))
                elif t == "value":
                    x = Select(kv, full if a == 255 else app("pka", I(a), full))
                    h += [Not(kn), vala(I(a), full), Not(SlNil(x)), app("eqv", tv, app("ctd", SlSeq(x)))]; goal.append(app("eqv", stv, tv))
                elif t == "stored": h += [app("twf", tv), inverts("t", tv, tail)]; goal.append(Eq(stv, tv))
                else: goal.append(Eq(stv, VNIL))
                if c:
                    h += [app("cpok", F, Rc, n), Eq(app("cpr", F, Rc, n), rest)]
                    goal += [Eq(F1, F), Eq(Rc1, Rc)]
                out.append(Lemma("a node reads back as written%s%s%s" % (cn, " skip" if skip and t == "key" else "", nm), Implies(And(*h), And(cond, sok, *goal))))
    return out
