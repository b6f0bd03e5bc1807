"""C01/C02/C03/C20: updates and deletions on the trie core over the abstract node store of core.py (tN: the node keys, tR: their
objects, tC: the keys in the cache; the operations of nodeStoreBuffered are used through the contracts proved in store.py).
Key sequences are compared through a small theory of prefixes (proved from the sequence axioms below)."""
from core import *
import node, node2, util, core, smt
from node2 import Lemma, clone_commit, wf_children, copy_hints
declare("ks", (SEQ, INT), SEQ)      # a key and one more element
declare("kf", (SEQ, SEQ), SEQ)      # a key and a path fragment
declare("nx", (SEQ, SEQ), INT)      # the element of the second key after the first one
def ks(A, c): return app("ks", A, c)
def kf(K, p): return app("kf", K, p)
def nx(A, B): return app("nx", A, B)
class D:    # the definitions
    pre = staticmethod(lambda A, B_: And(Le(Len(A), Len(B_)), Eq(Take(B_, Len(A)), A)))
    ks = staticmethod(lambda A, c: Cat(A, Unit(c)))
    kf = staticmethod(lambda K, p: Cat(K, p))
    nx = staticmethod(lambda A, B_: At(B_, Len(A)))
class O_:
    pre = staticmethod(pre); ks = staticmethod(ks); kf = staticmethod(kf); nx = staticmethod(nx)
def byte(c): return And(Le(I(0), c), Le(c, I(255)))
def prefix_axioms():
    """(name, variables, formula over the operations, patterns, symbols)"""
    def v(n, s=SEQ): return bvar(n, s)
    A, B_, C, p, c, i = v("A"), v("B"), v("C"), v("p"), v("c", INT), v("i", INT)
    return [
        ("refl", [A], lambda o: o.pre(A, A), lambda o: [o.pre(A, A)], ("pre", "kf")),
        ("least", [A, B_], lambda o: Implies(Eq(A, Empty()), o.pre(A, B_)), lambda o: [o.pre(A, B_)], ("pre", "kf")),
        ("length", [A, B_], lambda o: And(Implies(o.pre(A, B_), Le(Len(A), Len(B_))), Implies(And(o.pre(A, B_), Eq(Len(A), Len(B_))), Eq(A, B_))), lambda o: [o.pre(A, B_)], ("pre", "kf")),
        ("trans", [A, B_, C], lambda o: Implies(And(o.pre(A, B_), o.pre(B_, C)), o.pre(A, C)), lambda o: [(o.pre(A, B_), o.pre(B_, C))], ("pre", "kf")),
        ("compare", [A, B_, C], lambda o: Implies(And(o.pre(A, C), o.pre(B_, C)), Eq(o.pre(A, B_), Le(Len(A), Len(B_)))), lambda o: [(o.pre(A, C), o.pre(B_, C))], ("pre", "kf")),
        ("ks length", [A, c], lambda o: Eq(Len(o.ks(A, c)), Add(Len(A), 1)), lambda o: [o.ks(A, c)], ("ks",)),
        ("ks prefix", [A, B_, c], lambda o: Implies(byte(c), Eq(o.pre(o.ks(A, c), B_), And(o.pre(A, B_), Ne(A, B_), Eq(o.nx(A, B_), c)))), lambda o: [o.pre(o.ks(A, c), B_)], ("pre", "ks")),
        ("ks below", [A, B_, c], lambda o: Implies(byte(c), Eq(o.pre(B_, o.ks(A, c)), Or(o.pre(B_, A), Eq(B_, o.ks(A, c))))), lambda o: [o.pre(B_, o.ks(A, c))], ("pre", "ks")),
        ("ks next", [A, c], lambda o: Implies(byte(c), And(o.pre(A, o.ks(A, c)), Eq(o.nx(A, o.ks(A, c)), c))), lambda o: [o.ks(A, c)], ("ks",)),
        ("ks inj", [A, B_, c, i], lambda o: Implies(And(byte(c), byte(i), Eq(o.ks(A, c), o.ks(B_, i))), And(Eq(A, B_), Eq(c, i))), lambda o: [(o.ks(A, c), o.ks(B_, i))], ("ks",)),
        ("next", [A, B_, C], lambda o: Implies(And(o.pre(A, B_), Ne(A, B_), o.pre(B_, C)), Eq(o.nx(A, B_), o.nx(A, C))), lambda o: [(o.pre(B_, C), o.nx(A, B_)), (o.pre(B_, C), o.nx(A, C), o.pre(A, B_))], ("pre", "nx", "kf")),
        ("at", [A, B_, i], lambda o: Implies(And(o.pre(A, B_), Le(I(0), i), Lt(i, Len(A))), Eq(At(A, i), At(B_, i))), lambda o: [(o.pre(A, B_), At(A, i))], ("pre", "kf")),
        ("next at", [A, B_], lambda o: Eq(o.nx(A, B_), At(B_, Len(A))), lambda o: [o.nx(A, B_)], ("nx", "kf")),
        ("next byte", [A, B_], lambda o: byte(o.nx(A, B_)), lambda o: [o.nx(A, B_)], ("nx",)),
        ("full", [A, p], lambda o: And(o.pre(A, o.kf(A, p)), Eq(Len(o.kf(A, p)), Add(Len(A), Len(p)))), lambda o: [o.kf(A, p)], ("kf",)),
    ]
def ax_text(vs, body, pats):
    t = Forall(vs, body, pats); e = smt.Emit(); e.count([t]); r = e.s(t); assert not e.lines, e.lines; return r
for _n, _vs, _b, _p, _s in prefix_axioms(): axiom("prefix: " + _n, ax_text(_vs, _b(O_), _p(O_)), *_s)
def ks_def(A, c): return Eq(ks(A, c), D.ks(A, c))
def kf_def(K, p): return Eq(kf(K, p), D.kf(K, p))
def nx_def(A, B_): return Eq(nx(A, B_), D.nx(A, B_))
def prefix_lemmas():
    out = []
    for n, vs, b, p, s in prefix_axioms():
        m = {x: var("l_" + x.args[0].replace("?", "_"), x.sort) for x in vs}
        g = subst(b(D), m); A, B_, C = (var("x", SEQ),) * 3
        xs = [m[x] for x in vs if x.sort == SEQ]
        ment = [Mention(Take(x, Len(y)), app("seqeqI", Take(x, Len(y)), y), Take(Take(x, Len(z)), Len(y)), At(Take(x, Len(z)), Len(y))) for x in xs for y in xs for z in xs]
        for x in xs:
            for cc in [m[y] for y in vs if y.sort == INT]:
                ment += [Mention(Take(D.ks(x, cc), Len(y)), Take(y, Len(D.ks(x, cc))), Unit(cc), At(Unit(cc), I(0)), app("seqeqI", Take(y, Len(D.ks(x, cc))), D.ks(x, cc)), At(Take(y, Len(D.ks(x, cc))), Len(x)), At(D.ks(x, cc), Len(x)), snoc_term(y, Len(x))) for y in xs]
                ment += [Mention(Take(D.ks(x, cc), Len(x)))]
        out.append(Lemma("prefix theory: " + n, Implies(And(*ment, *[snoc(x, Len(y)) for x in xs for y in xs]), g)))
    return out
def snoc_term(U, n): return Take(U, Add(n, 1))


# ---------------------------------------------------------------- the nodes, as functions of the key
class V(View):
    """the nodes of a buffered store: what an update or a deletion can change of a node, by value"""
    def __init__(s, ex, st, sc): View.__init__(s, ex, st.fork(), sc)
    def full(s, K): return kf(K, s.pf(K))
    def kid(s, K, c): return ks(s.full(K), c)
    def val(s, r): return Ite(Eq(r, NULL), VNIL, Select(cv(s.ex, s.st), r))
    def ntv(s, K): return s.val(s.nt(K))
    def tv(s, K): return s.val(s.t(K))
    def ccval(s, K, c): return s.val(Select(s.ccv(K), c))
    def inC(s, K): return Select(s.C, K)
def cv(ex, st): return ex.comp(st, "cv", VAL)
def touch(ex, st):
    """make sure the components exist"""
    for c in (SETB, MT): ex.mdom(st, NULL, c); ex.mval(st, NULL, c)
    cv(ex, st); hf(ex, st, ND, "PathFragment"); hf(ex, st, ND, "Terminal"); hf(ex, st, ND, "ChildCommitments")
    for f in ("unpackedKey", "newTerminal", "modifiedChildren", "pathChanged"): hf(ex, st, BN, f)
declare("mown", (REF,), SEQ); declare("cown", (REF,), SEQ)
def old(v, r): return Le(app("birth", r), v.st.now)
def wf_node(v, K):
    """the node object at K is well formed"""
    C = cv(v.ex, v.st)
    return And(v.is_node(v.ref(K), K), *[old(v, r) for r in (v.ref(K), v.mcm(K), v.ccm(K))], *[Implies(Ne(t, NULL), old(v, t)) for t in (v.nt(K), v.t(K))], Ne(v.mcm(K), NULL), Ne(v.ccm(K), NULL),
               *[Implies(Ne(t, NULL), Ne(Select(C, t), VNIL)) for t in (v.nt(K), v.t(K))])
def wf_child(v, K, c):
    x = Select(v.ccv(K), c); return Implies(Select(v.cc(K), c), And(byte(c), Ne(x, NULL), old(v, x), Ne(Select(cv(v.ex, v.st), x), VNIL)))
def wf_mark(v, K, c): return Implies(Select(v.mc(K), c), byte(c))
def own_maps(v, K): return And(Eq(app("mown", v.mcm(K)), K), Eq(app("cown", v.ccm(K)), K))
def trie_mut(ex, st):
    """a trie over an abstract buffered store; its well-formed node objects do not share maps (so the key is a function of the map)"""
    a = fresh("arity", INT); ex.assume(st, Or(*[Eq(a, I(x)) for x in (1, 15, 255)]))
    tr, sc, m = trie_param(ex, st, a); touch(ex, st); v = V(ex, st, sc); K, c = bvar("K", SEQ), bvar("c", INT)
    ex.setf(st, sc, NSB, "optimizeKeyCommitments", fresh("opt", BOOL))
    ex.assume(st, Forall([K], Implies(v.has(K), And(own_maps(v, K), wf_node(v, K))), [v.has(K)]))
    for D_, f in ((v.cc, wf_child), (v.mc, wf_mark)): ex.assume(st, Forall([K, c], Implies(v.has(K), f(v, K, c)), [(v.has(K), Select(D_(K), c))]))
    ex.assume(st, Forall([K], Implies(v.inC(K), v.has(K)), [v.inC(K)]))
    return tr, sc, m, a
def child_key(ex, st, args, pos):
    """childKey (proved below): the key of the child"""
    n = args[0].v if isinstance(args[0], IfaceV) else args[0]; K = SlSeq(Select(hf(ex, st, BN, "unpackedKey"), n)); c = args[1]
    p = st.ghost.get("path")
    for y in ((p[3], qk(p[2], Sub(Len(p[2]), I(2)))) if p else ()):
        if V(ex, st, p[6]).ref(y) is n: K = y
    x = ks(kf(K, pf_of(ex, st, n)), c); return [(st, [ex.new_sl(st, x, nil=FALSE)])]
class ChildKey(Spec):
    fn = TR + "childKey"; label = "childKey"
    def configure(s, ex): util.use(ex); use_store(ex)
    def setup(s, ex, st):
        n = ref_param(ex, st, "n"); s.n = n; ex.assume(st, is_bn(ex, n)); s.k = sl_param(ex, st, "key", owner="heap"); s.pf = sl_param(ex, st, "pf", owner="heap"); s.c = fresh("c", INT); ex.assume(st, byte(s.c))
        ex.setf(st, n, BN, "unpackedKey", s.k); ex.setf(st, Emb(n, 0), ND, "PathFragment", s.pf)
        return [IfaceV(BT, n), s.c]
    def check(s, ex, st, r):
        F = kf(s.k.seq, s.pf.seq)
        ex.oblige(st, "post", Implies(And(kf_def(s.k.seq, s.pf.seq), ks_def(F, s.c)), Eq(ex.content(st, r[0]), ks(F, s.c))), "key, path fragment and child index", ""); only(ex, st, ())

# ---------------------------------------------------------------- hasCommitment, checkReorg
declare("good", (SEQ,), BOOL); declare("wit1", (SEQ,), INT); declare("wit2", (SEQ,), INT)
def j4(v, K, c): return Implies(And(v.has(K), byte(c), Not(Select(v.mc(K), c))), Eq(Select(v.cc(K), c), v.has(v.kid(K, c))))
def two(v, K, c1, c2): return And(byte(c1), byte(c2), Ne(c1, c2), v.has(v.kid(K, c1)), v.has(v.kid(K, c2)))
def j5(v, K, c1, c2): return Implies(v.has(K), Or(Ne(v.nt(K), NULL), two(v, K, c1, c2)))
def mut_getnode(ex, st, args, pos):
    """getNode on the abstract store, for keys the code builds"""
    sc, k = args; K = canon(ex, st, ex.content(st, k), pos); v = V(ex, st, sc); s2 = st.fork(); out = []
    ex.assume(st, v.has(K))
    if not ex.infeasible(st):
        st.heap["tC"] = Store(ex.comp(st, "tC", KB), sc, Store(v.C, K, TRUE)); ex.assume(st, v.is_node(v.ref(K), K)); out.append((st, [v.ref(K), TRUE]))
    ex.assume(s2, Not(v.has(K)))
    if not ex.infeasible(s2): out.append((s2, [NULL, FALSE]))
    return out
def must_get(ex, st, args, pos):
    sc, k = args; K = canon(ex, st, ex.content(st, k), pos); v = V(ex, st, sc)
    ex.oblige(st, "pre", v.has(K), "mustGetNode: the node exists", pos)
    st.heap["tC"] = Store(ex.comp(st, "tC", KB), sc, Store(v.C, K, TRUE)); ex.assume(st, v.is_node(v.ref(K), K)); return [(st, [v.ref(K)])]
def canon(ex, st, K, pos): 
    h = ex.opts.get("canon")
    return h(ex, st, K, pos) if h else K
def cached_more(ex, st, sc):
    """more nodes may be cached"""
    v = V(ex, st, sc); C2 = fresh("cached", KB_); K = bvar("K", SEQ)
    ex.assume(st, Forall([K], And(Implies(Select(C2, K), v.has(K)), Implies(v.inC(K), Select(C2, K))), [Select(C2, K)])); st.heap["tC"] = Store(ex.comp(st, "tC", KB), sc, C2)
KB_ = Arr(SEQ, BOOL)
def use_mut(ex):
    util.use(ex); use_store(ex)
    for m, f in (("getNode", mut_getnode), ("mustGetNode", must_get)): ex.contracts["(*%s).%s" % (NSB, m)] = f
    ex.contracts[TR + "childKey"] = child_key
def sc_of(ex, st, tr): return ex.getf(st, tr, TR + "Trie", "nodeStore")
def has_commitment(ex, st, args, pos):
    tr, k = args; sc = sc_of(ex, st, tr); v = V(ex, st, sc); K = canon(ex, st, ex.content(st, k), pos)
    ex.oblige(st, "pre", Implies(v.has(K), app("good", K)), "hasCommitment: the nodes from the key on are minimal", pos)
    cached_more(ex, st, sc); return [(st, [v.has(K)])]
class HasCommitment(Spec):
    """in a trie whose nodes from the key on are minimal (each holds a value or has two children) and know their children or mark them as
    modified: the key has a commitment exactly if there is a node"""
    fn = "(*%sTrie).hasCommitment" % TR; label = "Trie.hasCommitment"
    def configure(s, ex): use_mut(ex); ex.contracts[s.fn] = has_commitment; ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; its = [v for c, v in st.cells.items() if c.startswith("iter:")]
        if not its: return []
        v = V(ex, ex.entry, s.sc); k = bvar("k", INT)
        return [("visited children do not exist", Forall([k], Implies(Select(its[-1], k), Not(v.has(v.kid(s.K, k)))), [Select(its[-1], k)]))] + cache_hint(ctx, st, s.sc)
    def setup(s, ex, st):
        tr, sc, m, a = trie_mut(ex, st); s.sc = sc; k = sl_param(ex, st, "key"); K = k.seq; s.K = K; v = V(ex, st, sc); s.v = v; c = bvar("c", INT)
        ex.assume(st, Implies(v.has(K), app("good", K)))
        good_at(ex, st, v, K)
        return [tr, k]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Eq(r[0], s.v.has(s.K)), "there is a commitment exactly if there is a node", ""); cache_post(ex, st, s.sc); only(ex, st, ("tC",))
def good_at(ex, st, v, K):
    """what good means, at K (the callers prove it for every key)"""
    c = bvar("c", INT); g = And(app("good", K), v.has(K))
    for x in (Select(v.cc(K), c), v.has(v.kid(K, c))): ex.assume(st, Forall([c], Implies(g, j4(v, K, c)), [x]))
    ex.assume(st, Implies(g, j5(v, K, app("wit1", K), app("wit2", K)))); ex.assume(st, Forall([c], Implies(And(g, byte(c), v.has(v.kid(K, c))), app("good", v.kid(K, c))), [v.has(v.kid(K, c))]))
def cache_hint(ctx, st, sc):
    """the cache only grows, by nodes"""
    ex = ctx.ex; v0 = V(ex, ex.entry, sc); v = V(ex, st, sc); K = bvar("K", SEQ)
    return [("cache holds nodes", Forall([K], Implies(v.inC(K), v0.has(K)), [v.inC(K)])), ("cache grows", Forall([K], Implies(v0.inC(K), v.inC(K)), [v0.inC(K)]))]
def cache_post(ex, st, sc):
    v0 = V(ex, ex.entry, sc); v = V(ex, st, sc); K = bvar("K", SEQ)
    ex.oblige(st, "post", Forall([K], And(Implies(v.inC(K), v0.has(K)), Implies(v0.inC(K), v.inC(K)))), "the cache grows, by nodes of the trie", "")
class CheckReorg(Spec):
    """what is to be done with a node depends on the nodes that exist below it"""
    fn = "(*%sTrie).checkReorg" % TR; label = "Trie.checkReorg"
    def configure(s, ex):
        use_mut(ex); ex.contracts["(*%sTrie).hasCommitment" % TR] = has_commitment
        ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; its = [v for c, v in st.cells.items() if c.startswith("iter:")]
        if not its: return []
        v = s.v; k = bvar("k", INT); out = cache_hint(ctx, st, s.sc) + [("children %d" % j, Forall([k], Implies(Select(its[-1], k), Select(x, k)), [Select(its[-1], k)])) for j, x in enumerate((v.cc(s.K), v.mc(s.K)))]
        for d in [r for r in terms._FRESH if r.args[0].startswith("map!") and r in node2.ctx_refs(st)]:
            Dd = ex.mdom(st, d, SETB)
            out.append(("looked at %s" % d, Forall([k], Eq(Select(Dd, k), Ite(Select(its[-1], k), v.has(v.kid(s.K, k)), Select(v.cc(s.K), k))), [Select(Dd, k), Select(its[-1], k)])))
            out.append(("copied %s" % d, Eq(Dd, its[-1])))
            out.append(("range %s" % d, Forall([k], Implies(Select(Dd, k), byte(k)), [Select(Dd, k)])))
        return out
    def setup(s, ex, st):
        tr, sc, m, a = trie_mut(ex, st); s.sc = sc; K = fresh("K", SEQ); s.K = K; v = V(ex, st, sc); s.v = v; ex.assume(st, v.has(K)); n = v.ref(K); s.ccm = v.ccm(K)
        c = bvar("c", INT)
        for x in (Select(v.cc(K), c), v.has(v.kid(K, c))): ex.assume(st, Forall([c], j4(v, K, c), [x]))
        ex.assume(st, Forall([c], Implies(And(byte(c), v.has(v.kid(K, c))), app("good", v.kid(K, c))), [v.has(v.kid(K, c))]))
        return [tr, n]
    def check(s, ex, st, r):
        v, K = s.v, s.K; c, d = bvar("c", INT), bvar("d", INT); rs, i = r; P = lambda f, t: ex.oblige(st, "post", f, t, "")
        none, merge = reorg_facts(v, K, i, c)
        P(Implies(Eq(rs, I(0)), Forall([c], none)), "removed only if nothing is left"); P(Implies(Eq(rs, I(1)), And(merge[0], Forall([c], merge[1]))), "merged only with its only child")
        P(Implies(Eq(rs, I(2)), Or(Ne(v.nt(K), NULL), Not(Forall([c, d], Not(two(v, K, c, d)), [(v.has(v.kid(K, c)), v.has(v.kid(K, d)))])))), "kept only if it holds a value or has two children")
        P(Or(*[Eq(rs, I(x)) for x in (0, 1, 2)]), "there is no other answer")
        cache_post(ex, st, s.sc); frame_old_but(ex, st, ("tC",))
def reorg_facts(v, K, i, c):
    return And(Eq(v.nt(K), NULL), Implies(byte(c), Not(v.has(v.kid(K, c))))), (And(Eq(v.nt(K), NULL), byte(i), v.has(v.kid(K, i))), Implies(And(byte(c), v.has(v.kid(K, c))), Eq(c, i)))
def frame_old_but(ex, st, comps): node2.frame_old(ex, st, None, comps)


# ---------------------------------------------------------------- marking the path
def proper(K, L): return And(pre(K, L), Ne(K, L))
def noskip(v, A, B_): return Implies(And(v.has(A), v.has(B_), pre(A, B_), Ne(A, B_)), Lt(Len(v.full(A)), Len(B_)))
def path_m(v, q, L):
    """q is the path of nodes to L (where there need not be a node)"""
    i, j = bvar("i", INT), bvar("j", INT); A, B_ = bvar("A", SEQ), bvar("B", SEQ); n = Len(q)
    return [(And(Lt(I(0), n), Eq(qk(q, Sub(n, I(1))), L), Eq(qk(q, I(0)), Empty())), "from the root to the key"),
            (Forall([i], Implies(And(Le(I(0), i), Lt(i, Sub(n, I(1)))), And(v.has(qk(q, i)), proper(qk(q, i), L))), [qk(q, i)]), "nodes at proper prefixes of the key"),
            (Forall([i, j], Implies(And(Le(I(0), i), Eq(j, Add(i, 1)), Lt(j, n)), Eq(Len(qk(q, j)), Add(Len(v.full(qk(q, i))), 1))), [(qk(q, i), qk(q, j))]), "each the child of the one before"),
            (Forall([A, B_], Implies(And(proper(A, L), proper(B_, L)), noskip(v, A, B_)), [(v.has(A), v.has(B_))]), "no node of the path is left out")]
def marked(v0, v, K, L, at_least=None):
    on = proper(K, L) if at_least is None else And(proper(K, L), Le(at_least, Len(K)))
    return Eq(v.mc(K), Ite(on, Store(v0.mc(K), nx(v0.full(K), L), TRUE), v0.mc(K)))
MDS = "MD:" + SETB
class Mark(Spec):
    fn = "(*%sTrie).markModifiedCommitmentsBackToRoot" % TR; label = "Trie.markModifiedCommitmentsBackToRoot"
    def configure(s, ex): use_mut(ex); ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; v = V(ex, st, s.sc); K, c = bvar("K", SEQ), bvar("c", INT); out = cache_hint(ctx, st, s.sc)
        for r, i, e in ints:
            x = qk(s.q, i); out.append(("marked down to " + r, Forall([K], Implies(s.v.has(K), marked(s.v, v, K, s.L, Len(x))), [s.v.has(K)])))
            out.append(("at the path " + r, And(Mention(x, qk(s.q, Sub(i, I(1)))), Le(I(0), i), Lt(i, Len(s.q)))))
        return out
    def setup(s, ex, st):
        tr, sc, m, a = trie_mut(ex, st); s.sc = sc; v = V(ex, st, sc); s.v = v; s.q = fresh("path", BSEQ); s.L = fresh("L", SEQ)
        for f, d in path_m(v, s.q, s.L): ex.assume(st, f)
        return [tr, Sl("B", seq=s.q, len=Len(s.q), nil=FALSE, owner="heap", et="[]byte")]
    def check(s, ex, st, r):
        v = V(ex, st, s.sc); K = fresh("K", SEQ); ex.assume(st, s.v.has(K)); ex.oblige(st, "post", marked(s.v, v, K, s.L), "exactly the children on the path are marked, in their parents", "")
        cache_post(ex, st, s.sc); only(ex, st, ("tC", s_comp(ex, st)))
def s_comp(ex, st): return ex.mdcomp(st, SETB)
def mark(ex, st, args, pos):
    tr, q_ = args; sc = sc_of(ex, st, tr); q = ex.content(st, q_); L = qk(q, Sub(Len(q), I(1))); v0 = V(ex, st, sc)
    v0 = V(ex, st.fork(), sc)
    for f, d in path_m(v0, q, L): ex.oblige(st, "pre", f, "markModifiedCommitmentsBackToRoot: " + d, pos)
    c = s_comp(ex, st); st.heap[c] = fresh("marks", st.heap[c].sort); v = V(ex, st, sc); K = bvar("K", SEQ)
    ex.assume(st, Forall([K], Implies(v0.has(K), marked(v0, v, K, L)), [v0.has(K), Mention(K)])); cached_more(ex, st, sc); return [(st, [])]


# ---------------------------------------------------------------- the path search, in terms of the prefix theory
def prefix_of(U, K): return And(Le(Len(K), Len(U)), Eq(Take(U, Len(K)), K))
def ends(v_has, U, L, pf, cp, end):
    """what is known about the node the search ends at (L, path fragment pf)"""
    F, M = kf(L, pf), kf(L, cp)
    return [(Implies(Eq(end, I(0)), Eq(U, F)), "at the terminal: the key is the key of the value"),
            (Implies(Eq(end, I(1)), And(Eq(cp, Take(pf, Len(cp))), Lt(Len(cp), Len(pf)), pre(M, U), proper(M, F), Eq(nx(M, F), At(pf, Len(cp))), Or(Eq(M, U), And(proper(M, U), Ne(nx(M, U), nx(M, F)))))), "in a path fragment: where the key leaves it"),
            (Implies(Eq(end, I(2)), And(Eq(cp, pf), proper(F, U), Not(v_has(ks(F, nx(F, U)))))), "at a missing child: the child is on the way to the key")]
def ends_lemmas():
    U, L, pf, cp, end = var("eU", SEQ), var("eL", SEQ), var("epf", SEQ), var("ecp", SEQ), var("eend", INT); tail = Drop(U, Len(L)); nk = Add(Len(L), Len(pf), 1)
    declare("ehas", (SEQ,), BOOL); has = lambda K: app("ehas", K); F, M = kf(L, pf), kf(L, cp); out = []
    hyp = And(prefix_of(U, L), Implies(Eq(end, I(0)), Eq(tail, pf)), Implies(Eq(end, I(1)), And(is_common(tail, pf, Len(cp)), Eq(cp, Take(pf, Len(cp))), Lt(Len(cp), Len(pf)), Ne(tail, pf))),
              Implies(Eq(end, I(2)), And(Eq(cp, pf), Lt(Add(Len(L), Len(pf)), Len(U)), Eq(Take(tail, Len(pf)), pf), Not(has(Take(U, nk))))))
    defs = And(kf_def(L, pf), kf_def(L, cp), pre_def(M, U), pre_def(M, F), pre_def(F, U), nx_def(M, F), nx_def(M, U), nx_def(F, U), ks_def(F, nx(F, U)), snoc(U, Len(F)), split(U, Len(L), Len(cp)), split(U, Len(L), Len(pf)), split(U, Len(L), Sub(Len(U), Len(L))),
               Mention(Take(F, Len(M)), Take(U, Len(M)), Take(Drop(U, Len(L)), Len(cp)), At(Drop(U, Len(L)), Len(cp)), At(F, Len(M)), At(pf, Len(cp)), Take(pf, Len(cp))))
    for f, d in ends(has, U, L, pf, cp, end): out.append(Lemma("path search, " + d, Implies(And(hyp, defs), f)))
    return out
def path_c(s):
    """proofPath (core.py) in these terms (the lemmas "path search" above)"""
    def f(ex, st, args, pos):
        tr, k = args; U = ex.content(st, k); sc = sc_of(ex, st, tr.v); v = V(ex, st, sc); q = fresh("path", BSEQ); cp = fresh("cp", SEQ); end = fresh("ending", INT); n = Len(q); L = fresh("L", SEQ); i, j = bvar("i", INT), bvar("j", INT); a = lambda f: ex.assume(st, f)
        a(Eq(Eq(n, I(0)), Not(v.has(Empty())))); ne = Lt(I(0), n); a(Eq(qk(q, Sub(n, I(1))), L)); a(Implies(ne, And(v.has(L), pre(L, U), Eq(qk(q, I(0)), Empty()))))
        a(Forall([i], Implies(And(Le(I(0), i), Lt(i, Sub(n, I(1)))), And(v.has(qk(q, i)), pre(qk(q, i), U), Lt(Len(qk(q, i)), Len(L)))), [qk(q, i)]))
        a(Forall([i, j], Implies(And(Le(I(0), i), Eq(j, Add(i, 1)), Lt(j, n)), Eq(Len(qk(q, j)), Add(Len(v.full(qk(q, i))), 1))), [(qk(q, i), qk(q, j))]))
        for g, d in ends(v.has, U, L, v.pf(L), cp, end): a(Implies(ne, g))
        a(Or(Not(ne), *[Eq(end, I(x)) for x in (0, 1, 2)]))
        cached_more(ex, st, sc); s.p = (v, U, q, L, cp, end, sc); st.ghost["path"] = s.p
        return [(st, [Sl("B", seq=q, len=n, nil=Eq(n, I(0)), owner="own", et="[]byte"), ex.new_sl(st, cp), end])]
    return f
# ---------------------------------------------------------------- the store operations (store.py) on the abstract store
def setN(ex, st, sc, K, b): st.heap["tN"] = Store(ex.comp(st, "tN", KB), sc, Store(tN(ex, st, sc), K, b))
def setR(ex, st, sc, K, r): st.heap["tR"] = Store(ex.comp(st, "tR", KR), sc, Store(tR(ex, st, sc), K, r))
def setC(ex, st, sc, K, b): st.heap["tC"] = Store(ex.comp(st, "tC", KB), sc, Store(tC(ex, st, sc), K, b))
def remove_key(ex, st, args, pos):
    sc, k = args; K = canon(ex, st, ex.content(st, k), pos); setN(ex, st, sc, K, FALSE); setC(ex, st, sc, K, FALSE); return [(st, [])]
def undelete(ex, st, args, pos):
    """without its deletion mark a persisted node may reappear"""
    sc, k = args; K = canon(ex, st, ex.content(st, k), pos); v = V(ex, st, sc)
    if v.has(K) in st.pc: return [(st, [])]
    setN(ex, st, sc, K, Or(v.has(K), fresh("reappears", BOOL))); x = fresh("reappearing", REF); setR(ex, st, sc, K, Ite(v.has(K), v.ref(K), x)); return [(st, [])]
def put(ex, st, args, pos, new):
    sc, n = args; K = canon(ex, st, SlSeq(Select(hf(ex, st, BN, "unpackedKey"), n)), pos); v = V(ex, st, sc)
    ex.oblige(st, "pre", Not(v.inC(K)) if new else v.inC(K), "insertNewNode: there is no node at the key" if new else "replaceNode: there is a node at the key", pos)
    setN(ex, st, sc, K, TRUE); setR(ex, st, sc, K, n); setC(ex, st, sc, K, TRUE)
    return [(st, [])]
def bn_clone(ex, st, args, pos):
    """bufferedNode.Clone (store.py): a deep copy"""
    n = args[0]; nd = Emb(n, 0); g = lambda f: ex.getf(st, n, BN, f); h = lambda f: ex.getf(st, nd, ND, f)
    ex.oblige(st, "pre", wf_children(ex, st, h("ChildCommitments"), None), "Clone: children are valid", pos)
    t, nt = h("Terminal"), g("newTerminal"); C0 = cv(ex, st)
    for x in (t, nt): ex.oblige(st, "pre", Implies(Ne(x, NULL), Ne(Select(C0, x), VNIL)), "Clone: the commitments have values", pos)
    D, V0, md = ex.mdom(st, h("ChildCommitments"), MT), ex.mval(st, h("ChildCommitments"), MT), ex.mdom(st, g("modifiedChildren"), SETB)
    r = ex.alloc_ref(st, "bnclone", BT); m = ex.new_map(st, MT); mm = ex.new_map(st, SETB)
    cp = lambda x: Ite(Eq(x, NULL), NULL, new_commit(ex, st, Select(C0, x), "cclone")); t2, nt2 = cp(t), cp(nt); now0 = st.now; C0 = cv(ex, st)
    N = fresh("now", INT); ex.assume(st, Le(now0, N)); st.now = N; C = fresh("cv", C0.sort); x, c = bvar("r", REF), bvar("c", INT); V2 = fresh("V", A2R)
    ex.assume(st, Forall([x], Implies(Le(app("birth", x), now0), Eq(Select(C, x), Select(C0, x))), [Select(C, x)])); st.heap["cv"] = C
    st.heap[ex.mdcomp(st, MT)] = Store(st.heap[ex.mdcomp(st, MT)], m, D); st.heap[ex.mvcomp(st, MT)] = Store(st.heap[ex.mvcomp(st, MT)], m, V2); st.heap[ex.mdcomp(st, SETB)] = Store(st.heap[ex.mdcomp(st, SETB)], mm, md)
    ex.assume(st, Forall([c], Implies(Select(D, c), And(Ne(Select(V2, c), NULL), Lt(now0, app("birth", Select(V2, c))), Le(app("birth", Select(V2, c)), N), Eq(Select(C, Select(V2, c)), Select(C0, Select(V0, c))))), [Select(V2, c)]))
    ex.setf(st, Emb(r, 0), ND, "PathFragment", ex.new_sl(st, ex.content(st, h("PathFragment")))); ex.setf(st, Emb(r, 0), ND, "Terminal", t2); ex.setf(st, Emb(r, 0), ND, "ChildCommitments", m)
    ex.setf(st, r, BN, "unpackedKey", ex.new_sl(st, ex.content(st, g("unpackedKey")))); ex.setf(st, r, BN, "newTerminal", nt2); ex.setf(st, r, BN, "modifiedChildren", mm); ex.setf(st, r, BN, "pathChanged", g("pathChanged"))
    return [(st, [r])]
def commit_value(ex, st, args, pos):
    """commitToValue (proved below)"""
    tr, k, x = args; v = app("vcom", ex.getf(st, sc_of(ex, st, tr), NSB, "optimizeKeyCommitments"), ex.getf(st, sc_of(ex, st, tr), NSB, "arity"), ex.content(st, k), ex.content(st, x)); s2 = st.fork(); out = []
    ex.assume(st, Eq(v, VNIL)); ex.assume(s2, Ne(v, VNIL)); st.ghost["tc"] = s2.ghost["tc"] = v
    if not ex.infeasible(st): out.append((st, [NULL]))
    if not ex.infeasible(s2): out.append((s2, [new_commit(ex, s2, v, "tcm")]))
    return out
def new_commit(ex, st, v, hint="cm"):
    r = ex.alloc_ref(st, hint); st.heap["cv"] = Store(cv(ex, st), r, v); return r
declare("vcom", (BOOL, INT, SEQ, SEQ), VAL)     # the commitment to the value of a key
axiom("vcom", "(forall ((o Bool) (a Int) (k SeqI) (x SeqI)) (! (= (vcom o a k x) (ite (and o (= k x)) (ctd (unpa a x)) (ctd x))) :pattern ((vcom o a k x))))", "vcom", "ctd")
def unpack_sym(ex, st, args, pos):
    """UnpackBytes (codec.py): the argument itself for arity 256, new memory otherwise"""
    a = args[1]; u = ex.content(st, args[0]); s2 = st.fork(); out = []
    if a.op == "int": return node._unpack(ex, st, args, pos)
    ex.assume(st, Eq(a, I(255))); ex.assume(s2, Ne(a, I(255)))
    if not ex.infeasible(st): ex.assume(st, Eq(app("unpa", a, u), u)); out.append((st, [args[0]]))
    if not ex.infeasible(s2): out.append((s2, [node._res(ex, s2, app("unpa", a, u))]))
    return out
class CommitToValue(Spec):
    fn = "(*%sTrie).commitToValue" % TR; label = "Trie.commitToValue"
    def configure(s, ex): use_mut(ex); node.use_model(ex); ex.contracts[TR + "UnpackBytes"] = unpack_sym; ex.opts["retain"] = False
    def setup(s, ex, st):
        tr, sc, m, a = trie_mut(ex, st); s.sc = sc; s.a = a; s.k, s.x = sl_param(ex, st, "key"), sl_param(ex, st, "value"); return [tr, s.k, s.x]
    def check(s, ex, st, r):
        t = ex.as_ref(st, r[0]); v = app("vcom", ex.getf(ex.entry, s.sc, NSB, "optimizeKeyCommitments"), s.a, s.k.seq, s.x.seq)
        ex.oblige(st, "post", Implies(Mention(app("ctd", s.x.seq)), Eq(Ite(Eq(t, NULL), VNIL, Select(cv(ex, st), t)), v)), "the commitment to the value, or to the unpacked key", ""); ex.oblige(st, "post", Implies(Ne(t, NULL), Ne(v, VNIL)), "no commitment to an empty value", "")
        only(ex, st, ("cv",))

# ---------------------------------------------------------------- Update, Delete
def same(v, w, K, K2, but=(), c=None):
    """the node at K2 afterwards (w) is the node at K before (v), by value, except for: key, ntv, pf, tv, pc, mc, cc"""
    f = []
    for x in ("pf", "ntv", "tv", "pc", "mc", "cc"):
        if x not in but: f.append(Eq(getattr(w, x)(K2), getattr(v, x)(K)))
    if "cc" not in but: f.append(Implies(Select(v.cc(K), c), Eq(w.ccval(K2, c), v.ccval(K, c))))
    return And(*f)
class Mut(Spec):
    tmo = 5.0
    def configure(s, ex):
        use_mut(ex); ex.opts["canon"] = s.canon; P = "(*%sTrie)." % TR
        ex.contracts.update({TR + "proofPath": path_c(s), TR + "UnpackBytes": unpack_sym, P + "commitToValue": commit_value, P + "markModifiedCommitmentsBackToRoot": mark, P + "checkReorg": check_reorg, P + "hasCommitment": has_commitment,
            "(*%s).removeKey" % NSB: remove_key, "(*%s).unDelete" % NSB: undelete, "(*%s).insertNewNode" % NSB: lambda e, t, a, p: put(e, t, a, p, True), "(*%s).replaceNode" % NSB: lambda e, t, a, p: put(e, t, a, p, False), "(*%s).Clone" % BN: bn_clone})
    def canon(s, ex, st, K, pos):
        """the key in terms of the prefix theory (each step is an obligation)"""
        p = st.ghost.get("path")
        if K.op in ("ks", "emptyI", "slseq", "var") or p is None: return K
        v, U, q, L, cp, end, _ = p; M, F = kf(L, cp), kf(L, v.pf(L)); X, Y = ks(M, nx(M, F)), ks(M, nx(M, U))
        hy = And(kf_def(L, cp), pre_def(M, U), snoc(U, Len(M)), Mention(At(v.pf(L), Len(cp))))
        for c, y in ((Y, nx(M, U)), (X, nx(M, F))):
            g = Implies(And(hy, ks_def(M, y)), Eq(K, c))
            if smt.prove(st.pc, g, 2.0, PORT_FULL).ok: break
        ex.oblige(st, "key", g, "a key made from the path", pos); ex.assume(st, hy); ex.assume(st, ks_def(M, y)); ex.assume(st, Eq(K, c))
        return c
class Update(Mut):
    fn = "(*%sTrie).Update" % TR; label = "Trie.Update"
    def setup(s, ex, st):
        tr, sc, m, a = trie_mut(ex, st); s.tr, s.sc, s.a = tr, sc, a; s.k = sl_param(ex, st, "key"); s.x = sl_param(ex, st, "value"); v = V(ex, st, sc); s.v = v
        A, B_ = bvar("A", SEQ), bvar("B", SEQ)
        ex.assume(st, Forall([A, B_], noskip(v, A, B_), [(v.has(A), v.has(B_))]))
        return [tr, s.k, s.x]
    def configure(s, ex): Mut.configure(s, ex); ex.contracts["(*%sTrie).Delete" % TR] = s.delete
    def delete(s, ex, st, args, pos):
        ex.oblige(st, "pre", Eq(ex.content(st, args[1]), s.k.seq), "Update with an empty value deletes the key", pos); st.ghost["deleted"] = True; return [(st, [])]
    def check(s, ex, st, r):
        P = lambda f, d: ex.oblige(st, "post", f, d, ""); p = st.ghost.get("path"); tc = st.ghost.get("tc")
        if st.ghost.get("deleted"): P(Eq(tc, VNIL), "only an empty value means deletion"); return
        P(B(p is not None and tc is not None), "every other update goes to the path of the key")
        P(Ne(tc, VNIL), "an empty value means deletion"); v, U, q, L, cp, end, _ = p; v = s.v; w = V(ex, st, s.sc); P(Eq(U, app("unpa", s.a, s.k.seq)), "the path of the unpacked key")
        empty = Eq(Len(q), I(0)); F, M = v.full(L), kf(L, cp); X, Y = ks(M, nx(M, F)), ks(M, nx(M, U)); E = Empty(); pf = v.pf(L)
        def link(g, f, d, *defs): P(Implies(And(g, *defs), f), d); ex.assume(st, Implies(g, f))
        link(empty, Eq(w.full(E), U), "the first node has the whole key", kf_def(E, w.pf(E)))
        link(And(Not(empty), Ne(end, I(0)), w.has(Y), Ne(M, U), proper(M, U)), Eq(w.full(Y), U), "a new node leads to the key", kf_def(Y, w.pf(Y)), pre_def(Y, U), ks_def(M, nx(M, U)))
        link(And(Not(empty), Eq(end, I(1))), Eq(w.full(X), F), "the lower part leads to what was there", kf_def(X, w.pf(X)), ks_def(M, nx(M, F)), kf_def(L, cp), kf_def(L, pf), reassemble(pf, Len(cp)))
        K = fresh("K", SEQ); ex.assume(st, Mention(K, L, X, Y, E))
        P(Implies(And(Not(empty), Eq(end, I(1))), And(Not(v.has(X)), Implies(proper(M, U), Not(v.has(Y))))), "there are no nodes inside a path fragment")
        for k in (K, L): P(Implies(And(Not(empty), v.has(k)), Eq(w.ref(k), v.ref(k))), "existing nodes keep their objects")
        P(Implies(And(Not(empty), v.has(K), Ne(K, L)), Ne(v.ref(K), v.ref(L))), "the objects are different")
        for f, d in upd_effect(v, w, U, L, cp, end, tc, K, fresh("c", INT), empty):
            for j, g in enumerate(split_goal(f)): P(g, "%s (%d)" % (d, j))
        wf_goals(ex, st, w, [("other nodes", And(v.has(K), Ne(K, L)), K), ("the last node", Not(empty), L), ("the lower part", And(Not(empty), Eq(end, I(1))), X), ("the new node", And(Not(empty), Ne(end, I(0)), Ne(M, U)), Y), ("the first node", empty, E)], fresh("c", INT))
def j12(v, A, B_): return Implies(And(v.has(A), v.has(B_), pre(A, B_), Ne(A, B_)), And(proper(v.full(A), B_), v.has(v.kid(A, nx(v.full(A), B_)))))
def upd_effect(v, w, U, L, cp, end, tc, K, c, empty, ex=None, st=None):
    """the nodes after an update of U to the commitment tc"""
    F, M = v.full(L), kf(L, cp); X, Y = ks(M, nx(M, F)), ks(M, nx(M, U)); E = Empty(); out = []
    t = And(Not(empty), Eq(end, I(0))); sp = And(Not(empty), Eq(end, I(1))); et = And(Not(empty), Eq(end, I(2))); forks = And(sp, Ne(M, U))
    isX, isY = And(sp, Eq(K, X)), And(Or(forks, et), Eq(K, Y))
    fresh_ = lambda K_: And(w.has(K_), Eq(w.full(K_), U), Eq(w.ntv(K_), tc), Eq(w.tv(K_), VNIL), w.pc(K_), Not(Select(w.mc(K_), c)), Not(Select(w.cc(K_), c)))
    out.append((Eq(w.has(K), Or(v.has(K), isX, isY, And(empty, Eq(K, E)))), "nodes are added where the path splits or ends"))
    out.append((Implies(empty, fresh_(E)), "the first node of a trie"))
    out.append((Implies(And(Not(empty), v.has(K), Ne(K, L)), And(same(v, w, K, K, ("mc",), c), marked(v, w, K, L))), "other nodes stay, those on the path are marked"))
    out.append((Implies(t, And(same(v, w, L, L, ("ntv",), c), Eq(w.ntv(L), tc))), "an existing value is replaced"))
    out.append((Implies(et, And(same(v, w, L, L, ("mc",), c), Eq(w.mc(L), Store(v.mc(L), nx(F, U), TRUE)))), "the new child is marked"))
    out.append((Implies(et, fresh_(Y)), "a new child for the rest of the key"))
    out.append((Implies(sp, And(Eq(w.full(L), M), Eq(w.pf(L), cp), w.pc(L), Eq(w.ntv(L), Ite(Eq(M, U), tc, VNIL)), Eq(w.tv(L), VNIL), Not(Select(w.cc(L), c)), Eq(Select(w.mc(L), c), Or(Eq(c, nx(M, F)), And(Ne(M, U), Eq(c, nx(M, U))))))), "the upper part of a split node"))
    out.append((Implies(sp, And(Eq(w.full(X), F), w.pc(X), same(v, w, L, X, ("pf", "pc"), c))), "the lower part of a split node"))
    out.append((Implies(forks, fresh_(Y)), "a new child where the key leaves the path fragment"))
    return out
def reassemble(p, n): return Implies(And(Le(I(0), n), Lt(n, Len(p))), Eq(p, Cat(Take(p, n), Unit(At(p, n)), Drop(p, Add(n, 1)))))
def impossible(ex, st, g): return smt.prove(st.pc, Not(g), 1.0, PORT_FAST).ok
def wf_goals(ex, st, w, cases, c):
    """the node objects stay well formed and do not share maps; the cache holds nodes.  cases: (which, condition, key), together all nodes"""
    P = lambda f, t: ex.oblige(st, "inv", f, t, ""); live = []
    for n, g, K in cases:
        ex.assume(st, Mention(K)); g = And(g, w.has(K))
        if g is FALSE or impossible(ex, st, g): P(Not(g), "there is no such node: " + n); continue
        live.append((n, g, K))
        for j, f in enumerate(split_goal(wf_node(w, K))): P(Implies(g, f), "node objects are well formed, %s (%d)" % (n, j))
        for j, f in enumerate(split_goal(wf_child(w, K, c)) + split_goal(wf_mark(w, K, c))): P(Implies(g, f), "children and marks are well formed, %s (%d)" % (n, j))
        P(Implies(And(g, w.inC(K)), w.has(K)), "cached nodes are nodes of the trie, " + n)
    for i, (n, g, K) in enumerate(live):
        for n2, g2, K2 in live[i:]:
            if K is K2:
                if not n.startswith("other"): continue
                K2 = fresh("K", SEQ); g2 = subst(g, {K: K2}); ex.assume(st, Mention(K2))
            for x, t in ((w.mcm, "marks"), (w.ccm, "children")): P(Implies(And(g, g2, Ne(K, K2)), Ne(x(K), x(K2))), "nodes do not share their %s, %s and %s" % (t, n, n2))
def split_goal(f):
    if f.op == "=>": return [Implies(f.args[0], g) for g in split_goal(f.args[1])]
    if f.op == "and": return [h for g in f.args for h in split_goal(g)]
    return [f]
def check_reorg(ex, st, args, pos):
    """checkReorg (proved above), where good stands for: properly below the node"""
    tr, n = args; p = st.ghost["path"]; sc = p[6]; v = V(ex, st, sc); L, P = p[3], qk(p[2], Sub(Len(p[2]), I(2)))
    K = next((y for y in (L, P) if v.ref(y) is n), L)
    O = lambda f, d: ex.oblige(st, "pre", f, "checkReorg: " + d, pos); O(And(v.has(K), Eq(v.ref(K), n)), "a node of the trie")
    G, c = fresh("G", SEQ), fresh("c", INT); st1 = st.fork(); ex.assume(st1, Mention(G, c, K, L, P, app("wit1", G), app("wit2", G)))
    O1 = lambda f, d: ex.oblige(st1, "pre", f, "checkReorg: " + d, pos)
    O1(j4(v, K, c), "the node knows its children"); O1(Implies(And(v.has(G), proper(K, G)), j4(v, G, c)), "the nodes below know their children")
    O1(Implies(And(v.has(G), proper(K, G)), j5(v, G, app("wit1", G), app("wit2", G))), "the nodes below are minimal"); O1(Implies(byte(c), And(proper(K, v.kid(K, c)), Implies(proper(K, G), proper(K, v.kid(G, c))))), "children are below")
    rs, i, w1, w2, d = fresh("reorg", INT), fresh("merge", INT), fresh("w1", INT), fresh("w2", INT), bvar("d", INT); none, merge = reorg_facts(v, K, i, d)
    pt = [Mention(d)]
    ex.assume(st, Implies(Eq(rs, I(0)), And(Eq(v.nt(K), NULL), Forall([d], none, pt)))); ex.assume(st, Implies(Eq(rs, I(1)), And(merge[0], Forall([d], merge[1], pt))))
    ex.assume(st, Implies(Eq(rs, I(2)), Or(Ne(v.nt(K), NULL), two(v, K, w1, w2)))); ex.assume(st, Or(*[Eq(rs, I(x)) for x in (0, 1, 2)]))
    cached_more(ex, st, sc); st.ghost["reorg"] = st.ghost.get("reorg", ()) + ((K, rs, i, w1, w2),); return [(st, [rs, i])]
class Delete(Mut):
    fn = "(*%sTrie).Delete" % TR; label = "Trie.Delete"
    def setup(s, ex, st):
        tr, sc, m, a = trie_mut(ex, st); s.tr, s.sc, s.a = tr, sc, a; s.k = sl_param(ex, st, "key"); v = V(ex, st, sc); s.v = v
        A, B_, c = bvar("A", SEQ), bvar("B", SEQ), bvar("c", INT)
        ex.assume(st, Forall([A, B_], noskip(v, A, B_), [(v.has(A), v.has(B_))]))
        ex.assume(st, Forall([A, B_], j12(v, A, B_), [(Mention(A), Mention(B_))])); ex.assume(st, Forall([A, c], j4(v, A, c), [(Mention(A), Mention(c))])); ex.assume(st, Forall([A], j5(v, A, app("wit1", A), app("wit2", A)), [Mention(A)]))
        return [tr, s.k]
    def check(s, ex, st, r):
        P_ = lambda f, d: ex.oblige(st, "post", f, d, ""); p = st.ghost.get("path"); P_(B(p is not None), "every deletion goes to the path of the key"); v, U, q, L, cp, end, _ = p; v = s.v; w = V(ex, st, s.sc)
        P_(Eq(U, app("unpa", s.a, s.k.seq)), "the path of the unpacked key"); K = fresh("K", SEQ); P = qk(q, Sub(Len(q), I(2))); c = fresh("c", INT); ex.assume(st, Mention(K, L, P, Empty(), c, pre(v.kid(P, nx(v.full(P), L)), L)))
        rg = st.ghost.get("reorg", ())
        for j, (K_, rs, i, w1, w2) in enumerate(rg):
            M = v.full(K_); Z = ks(M, i); pz, pf = v.pf(Z), v.pf(K_)
            g = And(Eq(rs, I(1)), v.has(Z)); f = Eq(w.full(K_), v.full(Z)); P_(Implies(And(g, kf_def(K_, w.pf(K_)), kf_def(K_, pf), ks_def(M, i), kf_def(Z, pz)), f), "the merged node leads to where the child led"); ex.assume(st, Implies(g, f))
        for f, d in del_effect(v, w, q, L, P, end, rg, K, c):
            for j, g in enumerate(split_goal(f)): P_(g, "%s (%d)" % (d, j))
        Z = [("merged", Eq(r_, I(1)), K_) for K_, r_, i_, _, _ in rg]
        wf_goals(ex, st, w, [("other nodes", And(v.has(K), Ne(K, L), *[Ne(K, k) for _, _, k in Z]), K), ("the last node", TRUE, L)] + ([("the parent", v.has(P), P)] if len(rg) > 1 else []), fresh("c", INT))
def del_effect(v, w, q, L, P, end, rg, K, c):
    """the nodes after the deletion of the key at whose node the search ended"""
    out = []; n = Len(q); hit = And(Lt(I(0), n), Eq(end, I(0)))
    if not rg: return [(Not(hit), "nothing is done only if the key has no node"), (And(Eq(w.has(K), v.has(K)), Implies(v.has(K), same(v, w, K, K, (), c))), "deleting an absent key changes nothing")]
    K1, r1, i1, a1, b1 = rg[0]; out.append((And(hit, Eq(K1, L)), "the node of the key is looked at")); Z = v.kid(L, i1)
    if len(rg) == 1:
        out.append((Implies(Eq(r1, I(2)), And(two(v, L, a1, b1), Eq(w.has(K), v.has(K)), Implies(And(v.has(K), Ne(K, L)), And(same(v, w, K, K, ("mc",), c), marked(v, w, K, L))), same(v, w, L, L, ("ntv",), c), Eq(w.ntv(L), VNIL))), "the value is removed, the node keeps two children"))
        out.append((Implies(Eq(r1, I(0)), And(Eq(n, I(1)), Eq(L, Empty()), Eq(w.has(K), And(v.has(K), Ne(K, L))), Implies(And(v.has(K), Ne(K, L)), same(v, w, K, K, (), c)), Implies(byte(c), Not(v.has(v.kid(L, c)))))), "the only node is removed"))
        out.append((Implies(Eq(r1, I(1)), And(byte(i1), v.has(Z), Implies(And(byte(c), v.has(v.kid(L, c))), Eq(c, i1)), Eq(w.has(K), And(v.has(K), Ne(K, Z))), Implies(And(v.has(K), Ne(K, L), Ne(K, Z)), And(same(v, w, K, K, ("mc",), c), marked(v, w, K, L))), Eq(w.full(L), v.full(Z)), w.pc(L), same(v, w, Z, L, ("pf", "pc"), c))), "the node is merged with its only child"))
        return out
    K2, r2, i2, a2, b2 = rg[1]; Z = v.kid(P, i2)
    out.append((And(Eq(r1, I(0)), Le(I(2), n), Eq(K2, P), v.has(P), proper(P, L), Eq(L, v.kid(P, nx(v.full(P), L))), Implies(byte(c), Not(v.has(v.kid(L, c))))), "a node without value and children is removed"))
    m = Eq(r2, I(1)); out.append((Eq(w.has(K), And(v.has(K), Ne(K, L), Not(And(m, Eq(K, Z))))), "only this node is removed, and the only other child of its parent"))
    out.append((Implies(And(v.has(K), Ne(K, L), Implies(m, And(Ne(K, Z), Ne(K, P)))), And(same(v, w, K, K, ("mc",), c), marked(v, w, K, L))), "other nodes stay, those on the path are marked"))
    out.append((Implies(Not(m), And(Eq(r2, I(2)), Or(Ne(v.ntv(P), VNIL), And(two(v, P, a2, b2), Ne(v.kid(P, a2), L), Ne(v.kid(P, b2), L))))), "the parent keeps a value or two children"))
    out.append((Implies(m, And(Eq(v.ntv(P), VNIL), byte(i2), v.has(Z), Ne(Z, L), Implies(And(byte(c), v.has(v.kid(P, c)), Ne(v.kid(P, c), L)), Eq(c, i2)), Eq(w.full(P), v.full(Z)), w.pc(P), same(v, w, Z, P, ("pf", "pc"), c))), "the parent is merged with its only other child"))
    return out

def lemmas(): return prefix_lemmas() + ends_lemmas() + [Lemma("sequence lemma: reassemble", Implies(Mention(snoc_term(var("U", SEQ), var("a", INT))), reassemble(var("U", SEQ), var("a", INT))))]
def specs(): return [ChildKey(), HasCommitment(), CheckReorg(), Mark(), CommitToValue(), Update(), Delete()]
