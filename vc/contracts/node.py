"""C05: the trie node codec over an abstract commitment model and key/value stores.
Commitments are references with an abstract value (heap component cv); tenc/venc are the serializations of terminal and vector
commitments, tpl/tpv and vpl/vpv their parsers (length consumed or negative, value).  Path codecs are seen through the contracts
proved in C06 as opaque functions enca/deca/pka/unpa."""
from driver import *
from extern import *
import util, smt
TR = M + "trie."
A2B, A2R, A2V, R2V = Arr(INT, BOOL), Arr(INT, REF), Arr(INT, VAL), Arr(REF, VAL)

# ---------------------------------------------------------------- path codecs (contracts of C06)
declare("enca", (INT, SEQ), SEQ); declare("deca", (INT, SEQ), SEQ); declare("pka", (INT, SEQ), SEQ); declare("unpa", (INT, SEQ), SEQ)
declare("vala", (INT, SEQ), BOOL); declare("decoka", (INT, SEQ), BOOL)
axiom("enca-deca", "(forall ((a Int) (u SeqI)) (! (=> (vala a u) (and (decoka a (enca a u)) (= (deca a (enca a u)) u))) :pattern ((enca a u))))", "enca")
axiom("enca-len", "(forall ((a Int) (u SeqI)) (! (=> (vala a u) (= (= (lenI (enca a u)) 0) (= (lenI u) 0))) :pattern ((enca a u))))", "enca")
axiom("deca-enca", "(forall ((a Int) (e SeqI)) (! (=> (decoka a e) (and (vala a (deca a e)) (= (enca a (deca a e)) e))) :pattern ((deca a e)) :pattern ((decoka a e))))", "deca", "decoka")
axiom("pka-unpa", "(forall ((a Int) (u SeqI)) (! (and (vala a (unpa a u)) (= (pka a (unpa a u)) u)) :pattern ((unpa a u))))", "unpa")
axiom("vala-empty", "(forall ((a Int) (u SeqI)) (! (=> (= (lenI u) 0) (vala a u)) :pattern ((vala a u))))", "vala")
axiom("enca-empty", "(forall ((a Int)) (! (= (enca a emptyI) emptyI) :pattern ((enca a emptyI))))", "enca")
axiom("unpa-256", "(forall ((u SeqI)) (! (= (unpa 255 u) u) :pattern ((unpa 255 u))))", "unpa")
axiom("enca-256", "(forall ((u SeqI)) (! (= (enca 255 u) u) :pattern ((enca 255 u))))", "enca")
axiom("deca-256", "(forall ((u SeqI)) (! (and (decoka 255 u) (= (deca 255 u) u)) :pattern ((deca 255 u))))", "deca")
axiom("unpa-len", "(forall ((a Int) (u SeqI)) (! (=> (> a 0) (and (<= (lenI u) (lenI (unpa a u))) (= (= (lenI (unpa a u)) 0) (= (lenI u) 0)))) :pattern ((unpa a u))))", "unpa")
def Enca(a, u): return app("enca", a, u)
def is256(a): return a.op == "int" and a.args[0] == 255
def seq_result(ex, st, arg, a, seq, ok=TRUE):
    """the codecs return their argument itself for arity 256"""
    if is256(a): return arg
    return ex.new_sl(st, seq, nil=fresh("codec_nil", BOOL)) if False else _res(ex, st, seq)
def _res(ex, st, seq):
    n = fresh("res_nil", BOOL); ex.assume(st, Implies(n, Eq(Len(seq), I(0))))
    return ex.new_sl(st, seq, nil=n)
def _codec(okf, valf):
    def f(ex, st, args, pos):
        a = args[1]
        if a.op != "int": raise Unsupported("symbolic arity")
        u = ex.content(st, args[0])
        s2 = st.fork()
        ok = okf(a, u)
        ex.assume(st, ok)
        out = []
        if not ex.infeasible(st): out.append((st, [seq_result(ex, st, args[0], a, valf(a, u)), NULL]))
        ex.assume(s2, Not(ok))
        if not ex.infeasible(s2): out.append((s2, [ex.nil_sl("[]byte"), new_error(ex, s2)]))
        return out
    return f
def _unpack(ex, st, args, pos):
    a = args[1]
    if a.op != "int": raise Unsupported("symbolic arity")
    u = ex.content(st, args[0])
    return [(st, [seq_result(ex, st, args[0], a, app("unpa", a, u))])]
def vala(a, u): return TRUE if is256(a) else app("vala", a, u)
CODECS = {"EncodeUnpackedBytes": _codec(vala, lambda a, u: app("enca", a, u)),
          "PackUnpackedBytes": _codec(vala, lambda a, u: app("pka", a, u)),
          "DecodeToUnpackedBytes": _codec(lambda a, e: TRUE if is256(a) else app("decoka", a, e), lambda a, e: app("deca", a, e)),
          "UnpackBytes": _unpack}
def use_codecs(ex):
    for n, f in CODECS.items(): ex.contracts[TR + n] = f

# ---------------------------------------------------------------- commitments
declare("tenc", (VAL,), SEQ); declare("venc", (VAL,), SEQ)
declare("tpl", (SEQ,), INT); declare("tpv", (SEQ,), VAL); declare("vpl", (SEQ,), INT); declare("vpv", (SEQ,), VAL)
declare("ctd", (SEQ,), VAL)
declare("eqv", (VAL, VAL), BOOL)
declare("force", (VAL,), BOOL)
axiom("venc-nil", "(= (venc vnil) emptyI)", "venc")
axiom("vpl", "(forall ((r SeqI)) (! (<= (vpl r) (lenI r)) :pattern ((vpl r))))", "vpl")
axiom("vpv", "(forall ((r SeqI)) (! (not (= (vpv r) vnil)) :pattern ((vpv r))))", "vpv")
axiom("tpl", "(forall ((r SeqI)) (! (<= (tpl r) (lenI r)) :pattern ((tpl r))))", "tpl")
axiom("tpv", "(forall ((r SeqI)) (! (not (= (tpv r) vnil)) :pattern ((tpv r))))", "tpv")
axiom("ctd", "(forall ((d SeqI)) (! (= (= (ctd d) vnil) (= (lenI d) 0)) :pattern ((ctd d))))", "ctd")
axiom("eqv", "(forall ((x Val)) (! (eqv x x) :pattern ((eqv x x))))", "eqv")
axiom("eqv-sym", "(forall ((x Val) (y Val)) (! (= (eqv x y) (eqv y x)) :pattern ((eqv x y))))", "eqv")
axiom("eqv-tr", "(forall ((x Val) (y Val) (z Val)) (! (=> (and (eqv x y) (eqv y z)) (eqv x z)) :pattern ((eqv x y) (eqv y z))))", "eqv")
axiom("eqv-nil", "(forall ((x Val)) (! (and (= (eqv x vnil) (= x vnil)) (= (eqv vnil x) (= x vnil))) :pattern ((eqv x vnil)) :pattern ((eqv vnil x))))", "eqv")
def cv(ex, st): return ex.comp(st, "cv", VAL)
def cval(ex, st, r): return VNIL if r is NULL else Select(cv(ex, st), r)
def new_commit(ex, st, v, hint="cm"):
    r = ex.alloc_ref(st, hint)
    st.heap["cv"] = Store(cv(ex, st), r, v)
    return r
# the children of a node as one array from index to value
declare("cm", (A2B, A2R, R2V), A2V)
axiom("cm", "(forall ((D (Array Int Bool)) (V (Array Int Ref)) (C (Array Ref Val)) (i Int)) (! (= (select (cm D V C) i) (ite (select D i) (select C (select V i)) vnil)) :pattern ((select (cm D V C) i))))", "cm")
declare("chs", (A2V, INT), SEQ)             # serializations of the children with index < i
axiom("chs-0", "(forall ((A (Array Int Val))) (! (= (chs A 0) emptyI) :pattern ((chs A 0))))", "chs")
axiom("chs-step", "(forall ((A (Array Int Val)) (i Int)) (! (=> (<= 0 i) (= (chs A (+ i 1)) (catI (chs A i) (venc (select A i))))) :pattern ((chs A i) (select A i))))", "chs")
declare("cfl", (A2V, INT), SEQ)             # the flag bytes
axiom("cfl-len", "(forall ((A (Array Int Val)) (n Int)) (! (=> (<= 0 n) (= (lenI (cfl A n)) n)) :pattern ((cfl A n))))", "cfl")
axiom("cfl-bit", "(forall ((A (Array Int Val)) (n Int) (j Int) (b Int)) (! (=> (and (<= 0 j) (< j n) (<= 0 b) (< b 8)) (= (bit (atI (cfl A n) j) b) (not (= (select A (+ (* 8 j) b)) vnil)))) :pattern ((bit (atI (cfl A n) j) b))))", "cfl")
# parsing of the children: rest after index i, success up to index i
declare("cpr", (SEQ, SEQ, INT), SEQ); declare("cpok", (SEQ, SEQ, INT), BOOL)
declare("fb", (SEQ, INT), BOOL)             # flag i of the flag bytes
axiom("fb", "(forall ((F SeqI) (i Int)) (! (= (fb F i) (bit (atI F (div i 8)) (mod i 8))) :pattern ((fb F i))))", "fb")
def flagbit(F, i): return app("fb", F, i)
axiom("cpr-0", "(forall ((F SeqI) (R SeqI)) (! (and (= (cpr F R 0) R) (cpok F R 0)) :pattern ((cpr F R 0)) :pattern ((cpok F R 0))))", "cpr", "cpok")
axiom("cpr-step", "(forall ((F SeqI) (R SeqI) (i Int)) (! (=> (<= 0 i) (and (= (cpr F R (+ i 1)) (ite (fb F i) (dropI (cpr F R i) (vpl (cpr F R i))) (cpr F R i)))"
      " (= (cpok F R (+ i 1)) (and (cpok F R i) (or (not (fb F i)) (<= 0 (vpl (cpr F R i)))))))) :pattern ((cpr F R i) (fb F i))))", "cpr", "cpok")
def cpv(F, R, i): return Ite(flagbit(F, i), app("vpv", app("cpr", F, R, i)), VNIL)
axiom("cpok-mono", "(forall ((F SeqI) (R SeqI) (i Int) (n Int)) (! (=> (and (cpok F R n) (<= 0 i) (<= i n)) (cpok F R i)) :pattern ((cpok F R i) (cpok F R n))))", "cpok")

MT = "map[byte]" + TR + "VCommitment"
ND = TR + "NodeData"
def csize(a): return (a + 1) // 8 or 1

def c_write(encf):
    def f(ex, st, args, pos):
        w = rref(ex, st, args[1]); old = wout(ex, st, w)
        s2 = st.fork()
        st.heap["wout"] = Store(st.heap["wout"], w, Cat(old, app(encf, cval(ex, st, args[0]))))
        s2.heap["wout"] = Store(s2.heap["wout"], w, fresh("wout", SEQ))
        ex.assume(s2, app("faulty", w))
        out = [(st, [NULL])]
        if not ex.infeasible(s2): out.append((s2, [new_error(ex, s2, "werr", leaf=False)]))
        return out
    return f
def c_read(pl, pv):
    def f(ex, st, args, pos):
        c = args[0]; r = rref(ex, st, args[1]); R = rin(ex, st, r)
        s2 = st.fork(); out = []
        ex.assume(st, Le(I(0), app(pl, R)))
        st.heap["cv"] = Store(cv(ex, st), c, app(pv, R))
        st.heap["rin"] = Store(st.heap["rin"], r, app("dropI", R, app(pl, R)))
        out.append((st, [NULL]))
        ex.assume(s2, Or(Lt(app(pl, R), I(0)), app("faulty", r)))
        s2.heap["cv"] = Store(cv(ex, s2), c, fresh("junkc", VAL))
        s2.heap["rin"] = Store(s2.heap["rin"], r, fresh("rest", SEQ))
        out.append((s2, [new_error(ex, s2, "cerr", leaf=False)]))
        return out
    return f
def commit_to_data(ex, st, args, pos):
    d = ex.content(st, args[1]); v = app("ctd", d)
    s2 = st.fork(); out = []
    ex.assume(st, Eq(Len(d), I(0))); ex.assume(s2, Lt(I(0), Len(d)))
    if not ex.infeasible(st): out.append((st, [NULL]))
    if not ex.infeasible(s2): out.append((s2, [new_commit(ex, s2, v, "tcm")]))
    return out
def kvc(ex, st, r): return Select(ex.comp(st, "kvc", Arr(SEQ, SL)), r)
def kvr_get(ex, st, args, pos):
    k = ex.content(st, args[1]); x = Select(kvc(ex, st, args[0]), k)
    ex.assume(st, Implies(SlNil(x), Eq(Len(SlSeq(x)), I(0))))
    return [(st, [Sl("I", seq=SlSeq(x), len=Len(SlSeq(x)), nil=SlNil(x), owner="heap", et="byte")])]
def equal_commitments(ex, st, args, pos):
    a, b = ex.as_ref(st, args[1]), ex.as_ref(st, args[2])
    va, vb = (Ite(Eq(x, NULL), VNIL, cval(ex, st, x)) for x in (a, b))
    return [(st, [app("eqv", va, vb)])]
def use_model(ex):
    I_ = TR + "CommitmentModel"
    ex.iface.update({(TR + "TCommitment", "Write"): c_write("tenc"), (TR + "VCommitment", "Write"): c_write("venc"),
        (TR + "TCommitment", "Read"): c_read("tpl", "tpv"), (TR + "VCommitment", "Read"): c_read("vpl", "vpv"),
        (I_, "NewTerminalCommitment"): lambda ex, st, a, p: [(st, [new_commit(ex, st, fresh("blank", VAL))])],
        (I_, "NewVectorCommitment"): lambda ex, st, a, p: [(st, [new_commit(ex, st, fresh("blank", VAL))])],
        (I_, "CommitToData"): commit_to_data, (I_, "EqualCommitments"): equal_commitments,
        (I_, "ForceStoreTerminalWithNode"): lambda ex, st, a, p: [(st, [app("force", cval(ex, st, a[1]))])],
        (TR + "KVReader", "Get"): kvr_get})

class NodeSpec(Spec):
    def configure(s, ex):
        util.use(ex); use_codecs(ex); use_model(ex)
    def node(s, ex, st, name="n"):
        n = ref_param(ex, st, name)
        s.pf = sl_param(ex, st, name + "_pf", owner="heap"); s.t = ref_param(ex, st, name + "_t", nonnil=False)
        s.m = ref_param(ex, st, name + "_ch", nonnil=False)
        ex.setf(st, n, ND, "PathFragment", s.pf); ex.setf(st, n, ND, "Terminal", s.t); ex.setf(st, n, ND, "ChildCommitments", s.m)
        ex.nil_map_fact(st, s.m, MT)
        return n
    def children(s, ex, st, m): return app("cm", ex.mdom(st, m, MT), ex.mval(st, m, MT), cv(ex, st))
    def valid_children(s, ex, st, m, a):
        c = bvar("c", INT); D, V = ex.mdom(st, m, MT), ex.mval(st, m, MT)
        return Forall([c], Implies(Select(D, c), And(Le(I(0), c), Le(c, I(a)), Ne(Select(V, c), NULL), Ne(Select(cv(ex, st), Select(V, c)), VNIL))), [Select(D, c)])

def same_bytes(x, y):
    """terms for the byte-by-byte and bit-by-bit comparison of x and y (equality is normalised: either order)"""
    def one(x, y):
        d = app("diffI", x, y); p, q = app("atI", x, d), app("atI", y, d); b = app("bitdiff", p, q)
        return Mention(p, q, app("byteeq", p, q), app("bit", p, b), app("bit", q, b), Add(Mul(8, d), b))
    return And(one(x, y), one(y, x))
def write_hints(spec):
    def h(ctx, st, cur, ints):
        ex = ctx.ex; out = []
        if ctx.fn is None or ctx.fn["name"] != spec.fn: return []
        a = spec.a; D = ex.mdom(st, spec.m, MT); A = spec.children(ex, st, spec.m)
        its = [(c, v) for c, v in st.cells.items() if c.startswith("iter:") and v.sort == A2B]
        locs = [(id, l) for id, l in st.loc.items() if l.seq.sort == SEQ]
        for id, l in locs:
            if not ints:
                for cn, vis in its:
                    j = bvar("j", INT); b = bvar("b", INT)
                    out.append(("bits %s=visited" % id, Forall([j, b], Implies(And(Le(I(0), j), Lt(j, I(csize(a))), Le(I(0), b), Lt(b, I(8))), Eq(app("bit", At(l.seq, j), b), Select(vis, Add(Mul(8, j), b)))), [app("bit", At(l.seq, j), b)])))
                    out.append(("len %s" % id, Eq(Len(l.seq), I(csize(a)))))
            else:
                F = app("cfl", A, I(csize(a)))
                out.append(("flags %s" % id, Implies(same_bytes(l.seq, F), Eq(l.seq, F))))
        if not ints:
            for cn, vis in its:
                c = bvar("c", INT)
                out.append(("visited in dom", Forall([c], Implies(Select(vis, c), Select(D, c)), [Select(vis, c)])))
        W = wout(ex, st, spec.w)
        for r, i, e in ints:
            for id, l in locs:
                for j, (c, hd) in enumerate(spec.heads(ex, st)):
                    out.append(("written chs %s %s %d" % (id, r, j), Implies(Mention(Select(A, i)), Implies(c, Eq(W, Cat(spec.W, hd, l.seq, app("chs", A, i)))))))
        return out
    return h

class NodeWrite(NodeSpec):
    """what is written is head (flags, path fragment, terminal) followed by child flags and children"""
    fn = "(*" + ND + ").Write"; raw_first = 4; soft_tmo = 4.0
    def __init__(s, a): s.a = a; s.label = "NodeData.Write[arity %d]" % (a + 1)
    def configure(s, ex):
        NodeSpec.configure(s, ex); ex.hints.append(write_hints(s))
    def setup(s, ex, st):
        s.n = s.node(ex, st); s.w = ref_param(ex, st, "w"); s.W = wout(ex, st, s.w)
        s.isk = fresh("isKey", BOOL); s.skip = fresh("skip", BOOL)
        ex.assume(st, s.valid_children(ex, st, s.m, s.a))
        ex.assume(st, Le(Len(app("enca", I(s.a), s.pf.seq)), I(65535)))
        ex.assume(st, Implies(Ne(s.t, NULL), Ne(cval(ex, st, s.t), VNIL)))
        s.D = ex.mdom(st, s.m, MT); s.A = s.children(ex, st, s.m)
        return [s.n, s.w, I(s.a), s.isk, s.skip]
    def parts(s, ex, st):
        hasT, hasC, hasP = Ne(s.t, NULL), Lt(I(0), Card(s.D)), Lt(I(0), Len(s.pf.seq))
        f = Add(Ite(hasT, I(1), I(0)), Ite(s.skip, I(2), I(0)), Ite(s.isk, I(4), I(0)), Ite(hasC, I(8), I(0)), Ite(hasP, I(16), I(0)))
        return hasT, hasC, hasP, f
    def heads(s, ex, st):
        """what precedes the children, by case: is there a path fragment, is the terminal stored"""
        hasT, hasC, hasP, f = s.parts(ex, st); sto = And(hasT, Not(s.isk), Not(s.skip)); out = []
        for p in (True, False):
            for t in (True, False):
                c = And(hasP if p else Not(hasP), sto if t else Not(sto))
                out.append((c, nhead(I(s.a), f, s.pf.seq if p else None, cval(ex, st, s.t) if t else None)))
        return out
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); hasT, hasC, hasP, f = s.parts(ex, st)
        W = wout(ex, st, s.w)
        committing = Or(hasT, s.isk, s.skip, hasC)
        ex.oblige(st, "post", Implies(ok, committing), "a node that commits to nothing is refused", "")
        ex.oblige(st, "post", Implies(ok, vala(I(s.a), s.pf.seq)), "an invalid path fragment is refused", "")
        for j, (c, hd) in enumerate(s.heads(ex, st)):
            ex.oblige(st, "post", Implies(And(ok, c, Not(hasC)), Eq(W, Cat(s.W, hd))), "exactly the serialization is appended (%d, no children)" % j, "")
            ex.oblige(st, "post", Implies(And(ok, c, hasC), Eq(W, Cat(s.W, hd, app("cfl", s.A, I(csize(s.a))), app("chs", s.A, I(s.a + 1))))), "exactly the serialization is appended (%d, children)" % j, "")
        ex.oblige(st, "post", Implies(And(committing, vala(I(s.a), s.pf.seq), Not(app("faulty", s.w))), ok), "only the writer can make it fail", "")
        D, V = ex.mdom(st, s.m, MT), ex.mval(st, s.m, MT)
        ex.oblige(st, "frame", And(Eq(D, s.D), Eq(s.children(ex, st, s.m), s.A)), "the children stay", "")
        ex.oblige(st, "frame", And(Eq(ex.content(st, ex.getf(st, s.n, ND, "PathFragment")), s.pf.seq), Eq(ex.getf(st, s.n, ND, "Terminal"), s.t), Eq(ex.getf(st, s.n, ND, "ChildCommitments"), s.m)), "the node stays", "")
# the part before the children: flags, path fragment, stored terminal
def nhead(a, f, pf, t):
    x = Unit(f)
    if pf is not None: x = Cat(x, util.enc_bytes(app("enca", a, pf), 2))
    if t is not None: x = Cat(x, app("tenc", t))
    return x

# ---------------------------------------------------------------- reading
def nparse(a, R, key, kv, kvnil, p, t, c):
    """the parse of R in one case: p path fragment present, t in none/key/value/stored, c children present.
    Returns (case condition, success, path fragment, terminal value, flags F, bytes of the children, rest)"""
    f = At(R, I(0)); b = lambda i: Bit(f, I(i))
    cond = [b(4) if p else Not(b(4)), b(3) if c else Not(b(3))]
    ok = [Le(I(1), Len(R))]
    R1 = Drop(R, I(1))
    if p:
        en, e, R2 = util.RD["ReadBytes16"].parse(R1); ok.append(en)
        if a != 255: ok.append(app("decoka", I(a), e))
        pf = e if a == 255 else app("deca", I(a), e)
    else: pf, R2 = Empty(), R1
    full = Cat(key, pf); R3 = R2
    if t == "none":
        cond.append(Not(b(0))); ok += [Not(b(1)), Not(b(2))]; tv = VNIL
    elif t == "key":
        cond += [b(0), b(2)]; ok.append(Lt(I(0), Len(key))); tv = app("ctd", full)
    elif t == "value":
        cond += [b(0), b(1), Not(b(2))]
        pk = full if a == 255 else app("pka", I(a), full)
        x = Select(kv, pk)
        ok += [Not(kvnil), vala(I(a), full), Not(SlNil(x))]; tv = app("ctd", SlSeq(x))
    else:
        cond += [b(0), Not(b(1)), Not(b(2))]
        ok.append(Le(I(0), app("tpl", R2))); tv = app("tpv", R2); R3 = app("dropI", R2, app("tpl", R2))
    F, Rc, rest = None, None, R3
    if c:
        ok.append(Le(I(csize(a)), Len(R3)))
        F = Take(R3, I(csize(a))); Rc = Drop(R3, I(csize(a)))
        ok.append(app("cpok", F, Rc, I(a + 1))); rest = app("cpr", F, Rc, I(a + 1))
    return And(*cond), And(*ok), pf, tv, F, Rc, rest
CASES = [(p, t, c) for p in (True, False) for t in ("none", "key", "value", "stored") for c in (True, False)]

def read_hints(spec):
    def h(ctx, st, cur, ints):
        ex = ctx.ex; out = []
        if ctx.fn is None or ctx.fn["name"] != "(*" + ND + ").Read": return []
        a = spec.a; m = spec.m; st0 = ctx.st0
        R = rin(ex, st, spec.r); R4 = rin(ex, st0, spec.r)
        D, V, C = ex.mdom(st, m, MT), ex.mval(st, m, MT), cv(ex, st)
        for id, l in st0.loc.items():
            if l.seq.sort != SEQ or not id.startswith(("mk:", "arr:")): continue
            F = l.seq
            for r, i, e in ints:
                ment = Mention(flagbit(F, i), app("cpr", F, R4, i), app("cpok", F, R4, i))
                out.append(("rest %s %s" % (id, r), Implies(ment, And(Eq(R, app("cpr", F, R4, i)), app("cpok", F, R4, i)))))
                c = bvar("c", INT)
                out.append(("dom %s %s" % (id, r), Forall([c], Eq(Select(D, c), And(Le(I(0), c), Lt(c, i), flagbit(F, c))), [Select(D, c)])))
                out.append(("val %s %s" % (id, r), Forall([c], Implies(And(Le(I(0), c), Lt(c, i), flagbit(F, c)), Eq(Select(C, Select(V, c)), app("vpv", app("cpr", F, R4, c)))), [Select(V, c)])))
                out.append(("val2 %s %s" % (id, r), Forall([c], Implies(And(Le(I(0), c), Lt(c, i), flagbit(F, c)), And(Ne(Select(V, c), NULL), Le(app("birth", Select(V, c)), st.now), Lt(st0.now, app("birth", Select(V, c))))), [Select(V, c)])))
        return out
    return h
class NodeRead(NodeSpec):
    """reading is the deterministic parse nparse of the unread bytes"""
    fn = "(*" + ND + ").Read"; raw_first = 1.0; soft_tmo = 3.0
    def __init__(s, a): s.a = a; s.label = "NodeData.Read[arity %d]" % (a + 1)
    def configure(s, ex):
        NodeSpec.configure(s, ex); ex.hints.append(read_hints(s))
    def setup(s, ex, st):
        s.n = ref_param(ex, st, "n"); s.m = ref_param(ex, st, "n_ch")
        ex.setf(st, s.n, ND, "ChildCommitments", s.m)
        d = ex.mdom(st, s.m, MT); ex.assume(st, Eq(d, ConstArr(d.sort, FALSE)))
        s.r = ref_param(ex, st, "r"); s.R = rin(ex, st, s.r)
        s.mod = ref_param(ex, st, "model"); s.key = sl_param(ex, st, "key"); s.vs = ref_param(ex, st, "vs", nonnil=False)
        cv(ex, st); s.kv = kvc(ex, st, s.vs)
        return [s.n, s.r, s.mod, s.key, I(s.a), s.vs]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); R = s.R; n = s.n
        pf = ex.getf(st, n, ND, "PathFragment"); t = ex.getf(st, n, ND, "Terminal"); m = ex.getf(st, n, ND, "ChildCommitments")
        ex.oblige(st, "frame", Eq(m, s.m), "the map stays", "")
        ex.oblige(st, "post", Implies(ok, Lt(I(0), Len(R))), "empty input is refused", "")
        tv = Ite(Eq(t, NULL), VNIL, cval(ex, st, t))
        D = ex.mdom(st, s.m, MT); A = s.children(ex, st, s.m)
        for p, tt, c in CASES:
            cond, sok, spf, stv, F, Rc, rest = nparse(s.a, R, s.key.seq, s.kv, Eq(s.vs, NULL), p, tt, c)
            if dead(st, cond): continue
            nm = " (%s path fragment, terminal %s, %s children)" % ("with" if p else "no", tt, "with" if c else "no")
            g = And(ok, cond)
            ex.oblige(st, "post", Implies(g, sok), "only well-formed input is accepted" + nm, "")
            ex.oblige(st, "post", Implies(And(cond, sok, Not(app("faulty", s.r))), ok), "well-formed input is accepted" + nm, "")
            ex.oblige(st, "post", Implies(g, Eq(ex.content(st, pf), spf)), "path fragment" + nm, "")
            ex.oblige(st, "post", Implies(g, Eq(tv, stv)), "terminal" + nm, "")
            ex.oblige(st, "post", Implies(g, Eq(rin(ex, st, s.r), rest)), "exactly the serialization is consumed" + nm, "")
            x = bvar("c", INT)
            if c: ex.oblige(st, "post", Implies(g, Forall([x], Eq(Select(A, x), Ite(And(Le(I(0), x), Le(x, I(s.a))), cpv(F, Rc, x), VNIL)))), "children" + nm, "")
            else: ex.oblige(st, "post", Implies(g, Eq(D, ConstArr(D.sort, FALSE))), "children" + nm, "")
            ex.oblige(st, "post", Implies(g, s.valid_children(ex, st, s.m, s.a)), "no child commitment is nil" + nm, "")
def dead(st, cond):
    """the path condition contradicts the case"""
    pc = set(st.pc)
    return any(Not(l) in pc for l in (cond.args if cond.op == "and" else [cond]))

def specs():
    return [NodeWrite(a) for a in (255, 15, 1)] + [NodeRead(a) for a in (255, 15, 1)]
