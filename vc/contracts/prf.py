"""C10/C11/C08/C07: blake2b proofs: serialization, validation."""
from node import *
import node, node2, b2b
from node2 import Lemma
from b2b import B2, AR, HS, CM, TC, VC
PE, PR = B2 + "ProofElement", B2 + "Proof"
MS = "map[byte][]byte"
AIS = Arr(INT, SL)
declare("pfl", (A2B,), SEQ)                 # the 32 flag bytes of a set of children
axiom("pfl-len", "(forall ((D (Array Int Bool))) (! (= (lenI (pfl D)) 32) :pattern ((pfl D))))", "pfl")
axiom("pfl-bit", "(forall ((D (Array Int Bool)) (j Int) (b Int)) (! (=> (and (<= 0 j) (< j 32) (<= 0 b) (< b 8)) (= (bit (atI (pfl D) j) b) (select D (+ (* 8 j) b)))) :pattern ((bit (atI (pfl D) j) b))))", "pfl")
declare("pch", (A2B, AIS, INT), SEQ)        # the children with index < i, one after the other
axiom("pch-0", "(forall ((D (Array Int Bool)) (V (Array Int SlI))) (! (= (pch D V 0) emptyI) :pattern ((pch D V 0))))", "pch")
axiom("pch-step", "(forall ((D (Array Int Bool)) (V (Array Int SlI)) (i Int)) (! (=> (<= 0 i) (= (pch D V (+ i 1)) (ite (select D i) (catI (pch D V i) (slseq (select V i))) (pch D V i)))) :pattern ((pch D V i) (select D i))))", "pch")
declare("pcr", (SEQ, SEQ, INT, INT), SEQ); declare("pcok", (SEQ, SEQ, INT, INT), BOOL)
axiom("pcr-0", "(forall ((F SeqI) (R SeqI) (z Int)) (! (= (pcr F R z 0) R) :pattern ((pcr F R z 0))))", "pcr")
axiom("pcok-0", "(forall ((F SeqI) (R SeqI) (z Int)) (! (pcok F R z 0) :pattern ((pcok F R z 0))))", "pcok")
axiom("pcr-step", "(forall ((F SeqI) (R SeqI) (z Int) (i Int)) (! (=> (<= 0 i) (= (pcr F R z (+ i 1)) (ite (fb F i) (dropI (pcr F R z i) z) (pcr F R z i)))) :pattern ((pcr F R z i) (fb F i))))", "pcr", "fb")
axiom("pcok-step", "(forall ((F SeqI) (R SeqI) (z Int) (i Int)) (! (=> (<= 0 i) (= (pcok F R z (+ i 1)) (and (pcok F R z i) (or (not (fb F i)) (<= z (lenI (pcr F R z i))))))) :pattern ((pcr F R z i) (fb F i))))", "pcr", "pcok", "fb")
axiom("pcok-mono", "(forall ((F SeqI) (R SeqI) (z Int) (i Int) (n Int)) (! (=> (and (pcok F R z n) (<= 0 i) (<= i n)) (pcok F R z i)) :pattern ((pcok F R z i) (pcok F R z n))))", "pcok")
axiom("bor-2", "(and (= (bor 0 2) 2) (= (bor 1 2) 3) (= (bor 2 2) 2) (= (bor 3 2) 3) (= (bor 2 0) 2) (= (bor 2 1) 3) (= (bor 2 3) 3))", "bor")
axiom("bit-2", "(and (not (bit 0 1)) (not (bit 1 1)) (bit 2 1) (bit 3 1))", "bit")

def phead(a, pf, idx, f, T=None):
    x = Cat(util.enc_bytes(app("enca", I(a), pf), 2), lit_le(idx, 2), Unit(f))
    if T is not None: x = Cat(x, util.enc_bytes(T, 1))
    return x
def pe_fields(ex, st, e):
    pf = ex.content(st, ex.getf(st, e, PE, "PathFragment")); m = ex.getf(st, e, PE, "Children"); t = ex.getf(st, e, PE, "Terminal"); i = ex.getf(st, e, PE, "ChildIndex")
    return pf, i, t, m, ex.mdom(st, m, MS), ex.mval(st, m, MS)
def pe_write_hints(spec):
    def h(ctx, st, cur, ints):
        ex = ctx.ex; out = []
        if ctx.fn is None or ctx.fn["name"] != spec.fn: return []
        its = [(c, v) for c, v in st.cells.items() if c.startswith("iter:") and v.sort == A2B]
        locs = [(id, l) for id, l in st.loc.items() if l.seq.sort == SEQ and (Len(l.seq) is I(32) or id.startswith(("arr:", "mk:")))]
        c = bvar("c", INT); D, V = spec.D, spec.V
        W = wout(ex, st, spec.w); changed = W is not wout(ex, ctx.head if hasattr(ctx, "head") else st, spec.w)
        for cn, vis in its:
            out.append(("visited in dom", Forall([c], Implies(Select(vis, c), Select(D, c)), [Select(vis, c)])))
            for id, l in locs:
                j = bvar("j", INT); b = bvar("b", INT)
                out.append(("bits %s=visited" % id, Forall([j, b], Implies(And(Le(I(0), j), Lt(j, I(32)), Le(I(0), b), Lt(b, I(8))), Eq(app("bit", At(l.seq, j), b), Select(vis, Add(Mul(8, j), b)))), [app("bit", At(l.seq, j), b)])))
                out.append(("len %s" % id, Eq(Len(l.seq), I(32))))
            for r, i, e in ints:
                emp = Eq(vis, ConstArr(A2B, FALSE))
                out.append(("flag %s" % r, And(Implies(emp, Eq(i, e)), Implies(Not(emp), Eq(i, app("bor", e, I(2)))))))
        for id, l in locs:
            F = app("pfl", D)
            out.append(("flags %s" % id, Implies(same_bytes(l.seq, F), Eq(l.seq, F))))
            for r, i, e in ints:
                for t in (True, False):
                    cnd = Not(spec.t.nil) if t else spec.t.nil
                    hd = phead(spec.a, spec.pf.seq, spec.idx, I(3 if t else 2), spec.t.seq if t else None)
                    out.append(("written %s %s %s" % (id, r, t), Implies(Mention(Select(D, i), Select(V, i)), Implies(cnd, Eq(W, Cat(spec.W, hd, l.seq, app("pch", D, V, i)))))))
        return out
    return h
class PEBase(Spec):
    def configure(s, ex): util.use(ex); use_codecs(ex)
    def elem(s, ex, st, name="e"):
        e = ref_param(ex, st, name)
        s.pf = sl_param(ex, st, name + "_pf", owner="heap"); s.t = sl_param(ex, st, name + "_t", owner="heap"); s.m = ref_param(ex, st, name + "_ch", nonnil=False)
        s.idx = fresh(name + "_idx", INT)
        for f, v in (("PathFragment", s.pf), ("Terminal", s.t), ("Children", s.m), ("ChildIndex", s.idx)): ex.setf(st, e, PE, f, v)
        ex.nil_map_fact(st, s.m, MS)
        s.D, s.V = ex.mdom(st, s.m, MS), ex.mval(st, s.m, MS)
        return e
def pe_wf(a, z, pf, idx, tlen, D, V):
    """what can be written: an element of the given arity and hash size"""
    c = bvar("c", INT)
    return And(Le(Len(app("enca", I(a), pf)), I(65535)), Le(I(0), idx), Le(idx, I(65535)), Le(tlen, I(255)),
               Forall([c], Implies(Select(D, c), And(Le(I(0), c), Le(c, I(a)), Eq(Len(SlSeq(Select(V, c))), I(z)))), [Select(D, c)]))
class PEWrite(PEBase):
    fn = "(*" + PE + ").Write"; raw_first = 2.0; soft_tmo = 4.0
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "ProofElement.Write[arity %d, %d]" % (a + 1, z)
    def configure(s, ex): PEBase.configure(s, ex); ex.hints.append(pe_write_hints(s))
    def setup(s, ex, st):
        s.e = s.elem(ex, st); s.w = ref_param(ex, st, "w"); s.W = wout(ex, st, s.w)
        ex.assume(st, pe_wf(s.a, s.z, s.pf.seq, s.idx, Len(s.t.seq), s.D, s.V))
        return [s.e, s.w, I(s.a), I(s.z)]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); W = wout(ex, st, s.w); has = Ne(s.D, ConstArr(A2B, FALSE))
        O = lambda f, d, k="post": ex.oblige(st, k, f, d, "")
        O(Implies(ok, vala(I(s.a), s.pf.seq)), "an invalid path fragment is refused")
        for t in (True, False):
            for c in (True, False):
                g = And(ok, Not(s.t.nil) if t else s.t.nil, has if c else Not(has))
                hd = phead(s.a, s.pf.seq, s.idx, I((1 if t else 0) + (2 if c else 0)), s.t.seq if t else None)
                tl = [app("pfl", s.D), app("pch", s.D, s.V, I(s.a + 1))] if c else []
                O(Implies(g, Eq(W, Cat(s.W, hd, *tl))), "exactly the serialization is appended (%s terminal, %s children)" % ("with" if t else "no", "with" if c else "no"))
        O(Implies(And(vala(I(s.a), s.pf.seq), Not(app("faulty", s.w))), ok), "only the writer can make it fail")
        O(And(Eq(ex.mdom(st, s.m, MS), s.D), Eq(ex.mval(st, s.m, MS), s.V), *[Eq(x, y) for x, y in zip(pe_fields(ex, st, s.e)[:2], (s.pf.seq, s.idx))]), "the element stays", "frame")

def peparse(a, z, R, t, c):
    """(case, success, pf, idx, terminal bytes, F, Rc, rest)"""
    en, e, R1 = util.RD["ReadBytes16"].parse(R); ok = [en]
    if a != 255: ok.append(app("decoka", I(a), e))
    pf = e if a == 255 else app("deca", I(a), e)
    en2, idx, R2 = util.RD["ReadUint16"].parse(R1); ok.append(en2)
    f = At(R2, I(0)); ok.append(Le(I(1), Len(R2))); R3 = Drop(R2, I(1))
    cond = And(Bit(f, I(0)) if t else Not(Bit(f, I(0))), Bit(f, I(1)) if c else Not(Bit(f, I(1))))
    T_ = Empty()
    if t: en3, T_, R3 = util.RD["ReadBytes8"].parse(R3); ok.append(en3)
    F = Rc = None; rest = R3
    if c:
        ok.append(Le(I(32), Len(R3))); F, Rc = Take(R3, I(32)), Drop(R3, I(32))
        ok.append(app("pcok", F, Rc, I(z), I(a + 1))); rest = app("pcr", F, Rc, I(z), I(a + 1))
    return cond, And(*ok), pf, idx, T_, F, Rc, rest
PCASES = [(t, c) for t in (True, False) for c in (True, False)]
def pe_read_hints(spec):
    def h(ctx, st, cur, ints):
        ex = ctx.ex; out = []
        if ctx.fn is None or ctx.fn["name"] != spec.fn: return []
        st0 = ctx.st0; Z = I(spec.z)
        R, R4 = rin(ex, st, spec.r), rin(ex, st0, spec.r)
        m = ex.getf(st, spec.e, PE, "Children")
        D, V = ex.mdom(st, m, MS), ex.mval(st, m, MS)
        out.append(("map", Eq(m, ex.getf(st0, spec.e, PE, "Children"))))
        for id, l in st0.loc.items():
            if l.seq.sort != SEQ or not id.startswith(("mk:", "arr:")): continue
            F = l.seq
            for r, i, e in ints:
                out.append(("rest %s %s" % (id, r), Implies(Mention(flagbit(F, i), app("pcr", F, R4, Z, i), app("pcok", F, R4, Z, i)), And(Eq(R, app("pcr", F, R4, Z, i)), app("pcok", F, R4, Z, i)))))
                c = bvar("c", INT); in_ = And(Le(I(0), c), Lt(c, i), flagbit(F, c))
                out.append(("dom %s %s" % (id, r), Forall([c], Eq(Select(D, c), in_), [Select(D, c)])))
                out.append(("val %s %s" % (id, r), Forall([c], Implies(in_, And(Eq(SlSeq(Select(V, c)), Take(app("pcr", F, R4, Z, c), Z)), Not(SlNil(Select(V, c))))), [Select(V, c)])))
        return out
    return h
class PERead(PEBase):
    fn = "(*" + PE + ").Read"; raw_first = 1.0; soft_tmo = 3.0
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "ProofElement.Read[arity %d, %d]" % (a + 1, z)
    def configure(s, ex): PEBase.configure(s, ex); ex.hints.append(pe_read_hints(s))
    def setup(s, ex, st):
        s.e = ref_param(ex, st, "e"); s.r = ref_param(ex, st, "r"); s.R = rin(ex, st, s.r)
        return [s.e, s.r, I(s.a), I(s.z)]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); R = s.R; x = bvar("c", INT)
        pf, idx, t, m, D, V = pe_fields(ex, st, s.e)
        O = lambda f, d, k="post": ex.oblige(st, k, f, d, "")
        for tt, c in PCASES:
            cond, sok, spf, sidx, sT, F, Rc, rest = peparse(s.a, s.z, R, tt, c)
            if dead(st, cond): continue
            nm = " (%s terminal, %s children)" % ("with" if tt else "no", "with" if c else "no")
            g = And(ok, cond)
            O(Implies(g, sok), "only well-formed input is accepted" + nm)
            O(Implies(And(cond, sok, Not(app("faulty", s.r))), ok), "well-formed input is accepted" + nm)
            O(Implies(g, Eq(pf, spf)), "path fragment" + nm); O(Implies(g, Eq(idx, sidx)), "child index" + nm)
            O(Implies(g, And(Eq(t.nil, B(not tt)), Eq(ex.content(st, t), sT))), "terminal" + nm)
            O(Implies(g, Eq(rin(ex, st, s.r), rest)), "exactly the serialization is consumed" + nm)
            if c: O(Implies(g, Forall([x], And(Eq(Select(D, x), And(Le(I(0), x), Le(x, I(s.a)), flagbit(F, x))), Implies(Select(D, x), And(Not(SlNil(Select(V, x))), Eq(SlSeq(Select(V, x)), Take(app("pcr", F, Rc, I(s.z), x), I(s.z)))))))), "children" + nm)
            else: O(Implies(g, Eq(D, ConstArr(A2B, FALSE))), "children" + nm)
        O(Implies(ok, Ne(m, NULL)), "the children have a map")
# ---------------------------------------------------------------- whole proofs (elements through the contracts above)
declare("peser", (INT, INT, SEQ, INT, SL, A2B, AIS), SEQ)
PEF = (("peok", BOOL), ("perest", SEQ), ("pepf", SEQ), ("peidx", INT), ("pet", SL), ("peD", A2B), ("peV", AIS))
for _n, _s in PEF: declare(_n, (INT, INT, SEQ), _s)
declare("prest", (INT, INT, SEQ, INT), SEQ); declare("prok", (INT, INT, SEQ, INT), BOOL)
axiom("prest-0", "(forall ((a Int) (z Int) (R SeqI)) (! (= (prest a z R 0) R) :pattern ((prest a z R 0))))", "prest")
axiom("prok-0", "(forall ((a Int) (z Int) (R SeqI)) (! (prok a z R 0) :pattern ((prok a z R 0))))", "prok")
axiom("prest-step", "(forall ((a Int) (z Int) (R SeqI) (i Int)) (! (=> (<= 0 i) (= (prest a z R (+ i 1)) (perest a z (prest a z R i)))) :pattern ((prest a z R i) (peok a z (prest a z R i)))))", "prest", "peok", "perest")
axiom("prok-step", "(forall ((a Int) (z Int) (R SeqI) (i Int)) (! (=> (<= 0 i) (= (prok a z R (+ i 1)) (and (prok a z R i) (peok a z (prest a z R i))))) :pattern ((prest a z R i) (peok a z (prest a z R i)))))", "prest", "prok", "peok")
axiom("prok-mono", "(forall ((a Int) (z Int) (R SeqI) (i Int) (n Int)) (! (=> (and (prok a z R n) (<= 0 i) (<= i n)) (prok a z R i)) :pattern ((prok a z R i) (prok a z R n))))", "prok")
R2S = Arr(REF, SEQ)
declare("pes", (R2S, RSEQ, INT), SEQ)       # the serializations of the first i elements
axiom("pes-0", "(forall ((S (Array Ref SeqI)) (q SeqR)) (! (= (pes S q 0) emptyI) :pattern ((pes S q 0))))", "pes")
axiom("pes-step", "(forall ((S (Array Ref SeqI)) (q SeqR) (i Int)) (! (=> (<= 0 i) (= (pes S q (+ i 1)) (catI (pes S q i) (select S (atR q i))))) :pattern ((pes S q i) (select S (atR q i)))))", "pes")
def pe_view(ex, st, e):
    pf, i, t, m, D, V = pe_fields(ex, st, e)
    return pf, i, MkSl(t.nil, ex.content(st, t)), D, V
def pe_write_c(ex, st, args, pos):
    e, w, a, z = args; w = rref(ex, st, w); W = wout(ex, st, w)
    ex.oblige(st, "nil", Ne(e, NULL), "the element is not nil", pos)
    pf, i, t, D, V = pe_view(ex, st, e)
    ex.oblige(st, "pre", pe_wf(a.args[0], z.args[0], pf, i, Len(SlSeq(t)), D, V), "ProofElement.Write: the element is well-formed", pos)
    ok = vala(a, pf); s2 = st.fork(); out = []
    ex.assume(st, ok); st.heap["wout"] = Store(st.heap["wout"], w, Cat(W, app("peser", a, z, pf, i, t, D, V)))
    if not ex.infeasible(st): out.append((st, [NULL]))
    ex.assume(s2, Or(Not(ok), app("faulty", w))); s2.heap["wout"] = Store(ex.comp(s2, "wout", SEQ), w, fresh("wout", SEQ))
    if not ex.infeasible(s2): out.append((s2, [new_error(ex, s2, "werr", leaf=False)]))
    return out
def pe_read_c(ex, st, args, pos):
    e, r, a, z = args; r = rref(ex, st, r); R = rin(ex, st, r); P = (a, z, R)
    ex.oblige(st, "nil", Ne(e, NULL), "the element is not nil", pos)
    s2 = st.fork(); out = []
    ex.assume(st, app("peok", *P))
    if not ex.infeasible(st):
        st.heap["rin"] = Store(st.heap["rin"], r, app("perest", *P))
        pf, t = app("pepf", *P), app("pet", *P); nl = fresh("pf_nil", BOOL); ex.assume(st, Implies(nl, Eq(Len(pf), I(0)))); ex.assume(st, Implies(SlNil(t), Eq(Len(SlSeq(t)), I(0))))
        ex.setf(st, e, PE, "PathFragment", Sl("I", seq=pf, len=Len(pf), nil=nl, owner="heap", et="byte"))
        ex.setf(st, e, PE, "Terminal", Sl("I", seq=SlSeq(t), len=Len(SlSeq(t)), nil=SlNil(t), owner="heap", et="byte"))
        ex.setf(st, e, PE, "ChildIndex", app("peidx", *P))
        m = ex.new_map(st, MS, "ech")
        st.heap[ex.mdcomp(st, MS)] = Store(st.heap[ex.mdcomp(st, MS)], m, app("peD", *P)); mv = ex.mvcomp(st, MS)
        st.heap[mv] = Store(st.heap[mv], m, app("peV", *P))
        ex.setf(st, e, PE, "Children", m)
        out.append((st, [NULL]))
    ex.assume(s2, Or(Not(app("peok", *P)), app("faulty", r)))
    if not ex.infeasible(s2):
        s2.heap["rin"] = Store(ex.comp(s2, "rin", SEQ), r, fresh("rest", SEQ))
        out.append((s2, [new_error(ex, s2, "rerr")]))
    return out
def hsel(ex, st, e):
    """the fields of the element e, also for a bound variable e (assumes nothing)"""
    H = lambda f, srt: Select(ex.comp(st, ex.fcomp(PE, [x["n"] for x in ex.p.fields(PE)].index(f)), srt), e)
    m = H("Children", REF)
    return SlSeq(H("PathFragment", SL)), H("ChildIndex", INT), H("Terminal", SL), Select(st.heap[ex.mdcomp(st, MS)], m), Select(st.heap[ex.mvcomp(st, MS)], m)
def is_elem(ex, st, e, P):
    """the element at e is the parse P"""
    return And(*[Eq(x, app(n, *P)) for x, n in zip(hsel(ex, st, e), ("pepf", "peidx", "pet", "peD", "peV"))])
class PWrite(Spec):
    fn = "(*" + PR + ").Write"; raw_first = 1.0
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "Proof.Write[arity %d, %d]" % (a + 1, z)
    def configure(s, ex):
        util.use(ex); use_codecs(ex); ex.contracts["(*%s).Write" % PE] = pe_write_c; ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; W = wout(ex, st, s.w); out = []
        for r, i, e in ints:
            for d in (0, 1):
                out.append(("written %s+%d" % (r, d), Implies(Mention(Select(s.S, At(s.q, Add(i, d)))), Eq(W, Cat(s.W, s.head(), app("pes", s.S, s.q, Add(i, d)))))))
        return out
    def head(s): return Cat(Unit(I(s.a)), Unit(I(s.z)), util.enc_bytes(app("enca", I(s.a), s.key.seq), 2), lit_le(Len(s.q), 2))
    def setup(s, ex, st):
        p = ref_param(ex, st, "p"); s.w = ref_param(ex, st, "w"); s.W = wout(ex, st, s.w); s.p = p
        s.key = sl_param(ex, st, "key", owner="heap"); s.q = fresh("path", RSEQ); s.S = fresh("S", R2S)
        for f, v in (("PathArity", I(s.a)), ("HashSize", I(s.z)), ("Key", s.key), ("Path", Sl("R", seq=s.q, len=Len(s.q), nil=fresh("pn", BOOL), owner="heap", et="*" + PE))): ex.setf(st, p, PR, f, v)
        ex.assume(st, Le(Len(app("enca", I(s.a), s.key.seq)), I(65535)))
        # every element is well-formed; S gives its serialization
        i = bvar("i", INT); e = At(s.q, i); pf, ix, t, D, V = hsel(ex, st, e)
        ex.assume(st, Forall([i], Implies(And(Le(I(0), i), Lt(i, Len(s.q))), And(Ne(e, NULL), vala(I(s.a), pf), pe_wf(s.a, s.z, pf, ix, Len(SlSeq(t)), D, V), Eq(Select(s.S, e), app("peser", I(s.a), I(s.z), pf, ix, t, D, V)))), [At(s.q, i)]))
        return [p, s.w]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); W = wout(ex, st, s.w)
        O = lambda f, d, k="post": ex.oblige(st, k, f, d, "")
        O(Implies(ok, Eq(W, Cat(s.W, s.head(), app("pes", s.S, s.q, Len(s.q))))), "exactly the serialization is appended")
        O(Implies(ok, And(vala(I(s.a), s.key.seq), Le(Len(s.q), I(65535)))), "an invalid key and a path that does not fit are refused")
        O(Implies(And(vala(I(s.a), s.key.seq), Le(Len(s.q), I(65535)), Not(app("faulty", s.w))), ok), "only the writer can make it fail")
def pparse(R):
    """(arity, size, success without the elements, encoded key, number of elements, rest)"""
    a, z = At(R, I(0)), At(R, I(1)); R2 = Drop(R, I(2))
    en, e, R3 = util.RD["ReadBytes16"].parse(R2); en2, n, R4 = util.RD["ReadUint16"].parse(R3)
    return a, z, And(Le(I(2), Len(R)), en, en2), e, n, R4
class PRead(Spec):
    """the path is the parse of the unread bytes, element by element; never a panic"""
    fn = "(*" + PR + ").Read"; raw_first = 1.0; soft_tmo = 3.0
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "Proof.Read[arity %d, %d]" % (a + 1, z)
    def configure(s, ex):
        util.use(ex); use_codecs(ex); ex.contracts["(*%s).Read" % PE] = pe_read_c; ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; R = rin(ex, st, s.r); out = []; a, z, sok, e, n, R4 = pparse(s.R); a, z = I(s.a), I(s.z); j = bvar("j", INT)
        q = ex.content(st, ex.getf(st, s.p, PR, "Path"))
        out.append(("length", Eq(Len(q), n)))
        for r, i, e in ints:
            for d in (0, 1):
                k = Add(i, d); X = app("prest", a, z, R4, k)
                out.append(("rest %s+%d" % (r, d), Implies(Mention(X, app("peok", a, z, X)), And(Eq(R, X), app("prok", a, z, R4, k)))))
                Pj = (a, z, app("prest", a, z, R4, j))
                rng_ = And(Le(I(0), j), Lt(j, k))
                out.append(("elems %s+%d" % (r, d), Forall([j], Implies(rng_, is_elem(ex, st, At(q, j), Pj)), [At(q, j)])))
                out.append(("elems born %s+%d" % (r, d), Forall([j], Implies(rng_, And(Ne(At(q, j), NULL), Le(app("birth", At(q, j)), st.now), Le(app("birth", s.child(ex, st, At(q, j))), st.now))), [At(q, j)])))
        return out
    def child(s, ex, st, e): return Select(ex.comp(st, ex.fcomp(PE, [x["n"] for x in ex.p.fields(PE)].index("Children")), REF), e)
    def setup(s, ex, st):
        p = ref_param(ex, st, "p"); s.p = p; s.r = ref_param(ex, st, "r")
        s.R = Cat(Unit(I(s.a)), Unit(I(s.z)), fresh("rest", SEQ)); st.heap["rin"] = Store(ex.comp(st, "rin", SEQ), s.r, s.R)
        for f, z in (("PathArity", I(0)), ("HashSize", I(0)), ("Key", ex.nil_sl("[]byte")), ("Path", Sl("R", seq=Empty(RSEQ), len=I(0), nil=TRUE, owner="heap", et="*" + PE))): ex.setf(st, p, PR, f, z)
        return [p, s.r]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); R = s.R; a, z, sok, e, n, R4 = pparse(R); a, z = I(s.a), I(s.z); j = bvar("j", INT)
        O = lambda f, d, k="post": ex.oblige(st, k, f, d, "")
        dk = TRUE if s.a == 255 else app("decoka", a, e)
        all_ = And(sok, dk, app("prok", a, z, R4, n))
        O(Implies(ok, all_), "only well-formed input is accepted"); O(Implies(And(all_, Not(app("faulty", s.r))), ok), "well-formed input is accepted")
        O(Implies(ok, Eq(rin(ex, st, s.r), app("prest", a, z, R4, n))), "exactly the serialization is consumed")
        g = lambda f: ex.getf(st, s.p, PR, f)
        O(Implies(ok, And(Eq(g("PathArity"), a), Eq(g("HashSize"), z))), "arity and hash size")
        O(Implies(ok, Eq(ex.content(st, g("Key")), e if s.a == 255 else app("deca", a, e))), "the key")
        q = ex.content(st, g("Path"))
        O(Implies(ok, Eq(Len(q), n)), "the length of the path")
        O(Implies(ok, Forall([j], Implies(And(Le(I(0), j), Lt(j, n)), And(Ne(At(q, j), NULL), is_elem(ex, st, At(q, j), (a, z, app("prest", a, z, R4, j))))))), "the elements of the path")
class PReadOther(Spec):
    """input without one of the supported arities and hash sizes is refused"""
    fn = "(*" + PR + ").Read"
    def __init__(s, case): s.case = case; s.label = "Proof.Read[%s]" % case
    def configure(s, ex): util.use(ex); use_codecs(ex); ex.contracts["(*%s).Read" % PE] = pe_read_c
    def setup(s, ex, st):
        p = ref_param(ex, st, "p"); r = ref_param(ex, st, "r"); b = fresh("b", INT); c = fresh("c", INT); rest = fresh("rest", SEQ)
        for x in (b, c): ex.assume(st, And(Le(I(0), x), Le(x, I(255))))
        if s.case == "short input": R = fresh("R", SEQ); ex.assume(st, Lt(Len(R), I(2)))
        elif s.case == "other arity": R = Cat(Unit(b), rest); ex.assume(st, And(*[Ne(b, I(a)) for a in (1, 15, 255)]))
        else: R = Cat(Unit(b), Unit(c), rest); ex.assume(st, And(*[Ne(c, I(z)) for z in (20, 32)]))
        st.heap["rin"] = Store(ex.comp(st, "rin", SEQ), r, R)
        return [p, r]
    def check(s, ex, st, r): ex.oblige(st, "post", Ne(ex.as_ref(st, r[0]), NULL), "it is refused", "")
PRF = (("prfok", BOOL), ("prfrest", SEQ), ("prfa", INT), ("prfz", INT), ("prfkey", SEQ), ("prfpath", RSEQ))
for _n, _s in PRF: declare(_n, (SEQ,), _s)
def proof_read_c(ex, st, args, pos):
    """Proof.Read, as proved above: a deterministic parse or an error"""
    p, r = args; r = rref(ex, st, r); R = rin(ex, st, r); s2 = st.fork(); out = []
    ex.assume(st, app("prfok", R))
    if not ex.infeasible(st):
        st.heap["rin"] = Store(st.heap["rin"], r, app("prfrest", R)); k = app("prfkey", R); nl = fresh("knil", BOOL); ex.assume(st, Implies(nl, Eq(Len(k), I(0)))); q = app("prfpath", R)
        for f, v in (("PathArity", app("prfa", R)), ("HashSize", app("prfz", R)), ("Key", Sl("I", seq=k, len=Len(k), nil=nl, owner="heap", et="byte")), ("Path", Sl("R", seq=q, len=Len(q), nil=fresh("pnil", BOOL), owner="heap", et="*" + PE))): ex.setf(st, p, PR, f, v)
        out.append((st, [NULL]))
    ex.assume(s2, Or(Not(app("prfok", R)), app("faulty", r)))
    if not ex.infeasible(s2):
        s2.heap["rin"] = Store(ex.comp(s2, "rin", SEQ), r, fresh("rest", SEQ)); out.append((s2, [new_error(ex, s2, "rerr")]))
    return out
class PFromBytes(Spec):
    fn = B2 + "ProofFromBytes"; label = "ProofFromBytes"
    def configure(s, ex): util.use(ex); ex.contracts["(*%s).Read" % PR] = proof_read_c
    def setup(s, ex, st): s.d = sl_param(ex, st, "data"); return [s.d]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[1]), NULL); R = s.d.seq
        ex.oblige(st, "post", Eq(ok, And(app("prfok", R), Eq(app("prfrest", R), Empty()))), "accepted exactly when the bytes are one well-formed proof", "")
        if dead(st, ok): return
        p = ex.as_ref(st, r[0]); g = lambda f: ex.getf(st, p, PR, f)
        ex.oblige(st, "post", Implies(ok, And(Ne(p, NULL), Eq(g("PathArity"), app("prfa", R)), Eq(g("HashSize"), app("prfz", R)), Eq(ex.content(st, g("Key")), app("prfkey", R)), Eq(ex.content(st, g("Path")), app("prfpath", R)))), "the proof is the parse", "")
class VCFromBytes(Spec):
    """VectorCommitmentFromBytes, over the abstract commitment serializer (proved for blake2b in C05)"""
    fn = "(*" + TR + "Trie).VectorCommitmentFromBytes"; label = "Trie.VectorCommitmentFromBytes"
    def configure(s, ex): util.use(ex); node.use_model(ex)
    def setup(s, ex, st):
        s.d = sl_param(ex, st, "data"); tr = ref_param(ex, st, "tr"); nsb = ref_param(ex, st, "nsb"); m = ref_param(ex, st, "model"); ex.setf(st, tr, TR + "Trie", "nodeStore", nsb); ex.setf(st, ex.embedded(nsb, node2.NSB, "reader") if hasattr(ex, "embedded") else Emb(nsb, 0), node2.NS, "m", m); return [tr, s.d]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[1]), NULL); R = s.d.seq; l = app("vpl", R)
        ex.oblige(st, "post", Eq(ok, And(Le(I(0), l), Eq(l, Len(R)))), "accepted exactly when the bytes are one commitment", "")
        if not dead(st, ok): ex.oblige(st, "post", Implies(ok, Eq(cval(ex, st, ex.as_ref(st, r[0])), app("vpv", R))), "the commitment read", "")
def specs():
    out = []
    for a in AR:
        for z in HS: out += [PEWrite(a, z), PERead(a, z)]
    for a in AR:
        for z in HS: out += [PWrite(a, z), PRead(a, z)]
    out += [PFromBytes(), VCFromBytes()]
    out += [PReadOther(c) for c in ("short input", "other arity", "other hash size")]
    return out
# ---------------------------------------------------------------- serialization: the parser inverts the serializer, parsing is prefix-stable
declare("pct", (A2B, AIS, INT, INT), SEQ)   # the children i..n-1
axiom("pct-n", "(forall ((D (Array Int Bool)) (V (Array Int SlI)) (n Int)) (! (= (pct D V n n) emptyI) :pattern ((pct D V n n))))", "pct")
axiom("pct-step", "(forall ((D (Array Int Bool)) (V (Array Int SlI)) (i Int) (n Int)) (! (=> (and (<= 0 i) (< i n)) (= (pct D V i n) (ite (select D i) (catI (slseq (select V i)) (pct D V (+ i 1) n)) (pct D V (+ i 1) n)))) :pattern ((pct D V i n) (select D i))))", "pct")
declare("pest", (R2S, RSEQ, INT, INT), SEQ) # the serializations of the elements i..n-1
axiom("pest-n", "(forall ((S (Array Ref SeqI)) (q SeqR) (n Int)) (! (= (pest S q n n) emptyI) :pattern ((pest S q n n))))", "pest")
axiom("pest-step", "(forall ((S (Array Ref SeqI)) (q SeqR) (i Int) (n Int)) (! (=> (and (<= 0 i) (< i n)) (= (pest S q i n) (catI (select S (atR q i)) (pest S q (+ i 1) n)))) :pattern ((pest S q i n) (select S (atR q i)))))", "pest")
def so_far(label, cur, tail, i, n, elem, guard=TRUE):
    """cur(i) ++ tail(i) is cur(n), by induction downwards; elem: terms the step axioms need"""
    r = And(Le(I(0), i), Lt(i, n))
    return [Lemma(label + " (end)", Eq(Cat(cur(n), tail(n)), cur(n))),
            Lemma(label + " (step)", Implies(And(r, guard, Mention(*elem, tail(i), cur(i)), Eq(Cat(cur(Add(i, 1)), tail(Add(i, 1))), cur(n))), Eq(Cat(cur(i), tail(i)), cur(n)))),
            Lemma(label + " (start)", Implies(Eq(Cat(cur(I(0)), tail(I(0))), cur(n)), Eq(tail(I(0)), cur(n))))]
def lemmas():
    out = []
    D = fresh("D", A2B); V = fresh("V", AIS); i = fresh("i", INT); R = fresh("R", SEQ); Q = fresh("Q", SEQ); rest = fresh("rest", SEQ); x = fresh("x", INT)
    pf = fresh("pf", SEQ); idx = fresh("idx", INT); T_ = fresh("T", SEQ); F0 = app("pfl", D); G = fresh("F", SEQ)
    for a in AR:
        for z in HS:
            n = I(a + 1); Z = I(z); nm = " [arity %d, %d]" % (a + 1, z); wf = pe_wf(a, z, pf, idx, Len(T_), D, V)
            chl = lambda i: Implies(Select(D, i), Eq(Len(SlSeq(Select(V, i))), Z)); rng_ = And(Le(I(0), i), Lt(i, n))
            if z == HS[0]: out += so_far("proof children written so far and to come [arity %d]" % (a + 1), lambda k: app("pch", D, V, k), lambda k: app("pct", D, V, k, n), i, n, (Select(D, i),))
            j, b = Div(i, 8), Mod(i, 8)
            if z == HS[0]: out.append(Lemma("proof flag bytes tell the children [arity %d]" % (a + 1), Implies(And(rng_, Mention(app("bit", At(F0, j), b))), Eq(flagbit(F0, i), Select(D, i)))))
            Rc = Cat(app("pch", D, V, n), rest); nxt = Cat(app("pct", D, V, Add(i, 1), n), rest); cur = app("pcr", F0, Rc, Z, i)
            out.append(Lemma("proof children parse back (base)" + nm, Implies(And(Mention(app("pcok", F0, Rc, Z, I(0)), app("pcr", F0, Rc, Z, I(0))), Eq(app("pct", D, V, I(0), n), app("pch", D, V, n))), And(Eq(app("pcr", F0, Rc, Z, I(0)), Cat(app("pct", D, V, I(0), n), rest)), app("pcok", F0, Rc, Z, I(0))))))
            h = And(rng_, chl(i), Mention(Select(D, i), flagbit(F0, i)), Eq(flagbit(F0, i), Select(D, i)), Eq(cur, Cat(app("pct", D, V, i, n), rest)), app("pcok", F0, Rc, Z, i))
            out.append(Lemma("proof children parse back (step)" + nm, Implies(h, And(Eq(app("pcr", F0, Rc, Z, Add(i, 1)), nxt), app("pcok", F0, Rc, Z, Add(i, 1)), Implies(Select(D, i), Eq(Take(cur, Z), SlSeq(Select(V, i))))))))
            out.append(Lemma("proof children parse back (end)" + nm, Implies(Eq(app("pcr", F0, Rc, Z, n), Cat(app("pct", D, V, n, n), rest)), Eq(app("pcr", F0, Rc, Z, n), rest))))
            RQ = Cat(R, Q); c0, c1 = app("pcr", G, R, Z, i), app("pcr", G, RQ, Z, i)
            out.append(Lemma("parsing proof children is prefix-stable (base)" + nm, Implies(Mention(app("pcok", G, RQ, Z, I(0)), app("pcr", G, RQ, Z, I(0)), app("pcr", G, R, Z, I(0))), And(Eq(app("pcr", G, RQ, Z, I(0)), Cat(app("pcr", G, R, Z, I(0)), Q)), app("pcok", G, RQ, Z, I(0))))))
            out.append(Lemma("parsing proof children is prefix-stable (step)" + nm, Implies(And(rng_, Mention(flagbit(G, i)), Eq(c1, Cat(c0, Q)), app("pcok", G, RQ, Z, i), app("pcok", G, R, Z, Add(i, 1))),
                And(Eq(app("pcr", G, RQ, Z, Add(i, 1)), Cat(app("pcr", G, R, Z, Add(i, 1)), Q)), app("pcok", G, RQ, Z, Add(i, 1)), Implies(flagbit(G, i), Eq(Take(c1, Z), Take(c0, Z)))))))
            for t, c in PCASES:
                cn = " (%s terminal, %s children)" % ("with" if t else "no", "with" if c else "no")
                P1, P2 = peparse(a, z, R, t, c), peparse(a, z, RQ, t, c); h = []
                if c:
                    out.append(Lemma("parsing a proof element is prefix-stable, child bytes" + cn + nm, Implies(And(P1[0], P1[1]), And(Eq(P2[5], P1[5]), Eq(P2[6], Cat(P1[6], Q))))))
                    k = lambda R_: (P1[5], R_, Z, n)
                    h = [Eq(P2[5], P1[5]), Eq(P2[6], Cat(P1[6], Q)), app("pcok", *k(Cat(P1[6], Q))), Eq(app("pcr", *k(Cat(P1[6], Q))), Cat(app("pcr", *k(P1[6])), Q))]
                out.append(Lemma("parsing a proof element is prefix-stable" + cn + nm, Implies(And(P1[0], P1[1], *h), And(P2[0], P2[1], Eq(P2[2], P1[2]), Eq(P2[3], P1[3]), Eq(P2[4], P1[4]), Eq(P2[7], Cat(P1[7], Q))))))
                f0 = I((1 if t else 0) + (2 if c else 0)); hd = phead(a, pf, idx, f0, T_ if t else None)
                X = Cat(hd, *([F0, app("pch", D, V, n)] if c else []), rest)
                cond, sok, spf, sidx, sT, F, Rc1, rs = peparse(a, z, X, t, c)
                h = [vala(I(a), pf), *wf.args[:4]]; goal = [Eq(spf, pf), Eq(sidx, idx), Eq(rs, rest)]
                if t: goal.append(Eq(sT, T_))
                hc = []
                if c:
                    hc = [app("pcok", F0, Rc, Z, n), Eq(app("pcr", F0, Rc, Z, n), rest)]
                # one field after the other
                end = [*([F0, app("pch", D, V, n)] if c else []), rest]; t8 = [util.enc_bytes(T_, 1)] if t else []
                tails = [Cat(lit_le(idx, 2), Unit(f0), *t8, *end), Cat(Unit(f0), *t8, *end), Cat(*t8, *end), Cat(*end)]
                def stages(X1, X2, X3, X4):
                    A1 = util.RD["ReadBytes16"].parse(X1); A2 = util.RD["ReadUint16"].parse(X2); A4 = util.RD["ReadBytes8"].parse(X4) if t else (TRUE, None, X4)
                    return [("path fragment", And(A1[0], Eq(A1[1], app("enca", I(a), pf))), A1[2]), ("child index", And(A2[0], Eq(A2[1], idx)), A2[2]), ("flags", And(Le(I(1), Len(X3)), Eq(At(X3, I(0)), f0)), Drop(X3, I(1))), ("terminal", And(A4[0], Eq(A4[1], T_)) if t else TRUE, A4[2])]
                for (nm_, g_, rem), tail in zip(stages(X, *tails[:3]), tails):
                    out.append(Lemma("a proof element reads back as written, %s" % nm_ + cn + nm, Implies(And(*h), And(g_, Eq(rem, tail)))))
                A1 = util.RD["ReadBytes16"].parse(X)[2]; A2 = util.RD["ReadUint16"].parse(A1)[2]; A3 = Drop(A2, I(1))
                for (nm_, g_, rem), tail in zip(stages(X, A1, A2, A3), tails): h += [g_, Eq(rem, tail)]
                if c: out.append(Lemma("a proof element reads back as written, child bytes" + cn + nm, Implies(And(*h), And(Eq(F, F0), Eq(Rc1, Rc)))))
                out.append(Lemma("a proof element reads back as written" + cn + nm, Implies(And(*h, *hc, *([Eq(F, F0), Eq(Rc1, Rc)] if c else [])), And(cond, sok, *goal))))
    # the children of the element read are those of the element written
    for a in AR:
        D2 = And(Le(I(0), x), Le(x, I(a)), flagbit(F0, x))
        out.append(Lemma("a proof element reads back with the same children [arity %d]" % (a + 1), Implies(And(Implies(Select(D, x), And(Le(I(0), x), Le(x, I(a)))), Implies(And(Le(I(0), x), Le(x, I(a))), Eq(flagbit(F0, x), Select(D, x)))), Eq(D2, Select(D, x)))))
    # the elements of a path, seen through the element contracts
    S = fresh("S", R2S); q = fresh("q", RSEQ); a = fresh("a", INT); z = fresh("z", INT); n = Len(q)
    se = Select(S, At(q, i)); rng_ = And(Le(I(0), i), Lt(i, n))
    out += so_far("proof elements written so far and to come", lambda k: app("pes", S, q, k), lambda k: app("pest", S, q, k, n), i, n, (se,))
    R4 = Cat(app("pes", S, q, n), rest); P = lambda k: app("prest", a, z, R4, k); tl = lambda k: Cat(app("pest", S, q, k, n), rest)
    out.append(Lemma("a path reads back as written (base)", Implies(And(Mention(P(I(0)), app("prok", a, z, R4, I(0))), Eq(app("pest", S, q, I(0), n), app("pes", S, q, n))), And(Eq(P(I(0)), tl(I(0))), app("prok", a, z, R4, I(0))))))
    Xe = Cat(se, tl(Add(i, 1)))
    out.append(Lemma("a path reads back as written (step)", Implies(And(rng_, Mention(se, app("peok", a, z, P(i))), Eq(P(i), tl(i)), app("prok", a, z, R4, i), app("peok", a, z, Xe), Eq(app("perest", a, z, Xe), tl(Add(i, 1)))),
        And(Eq(P(Add(i, 1)), tl(Add(i, 1))), app("prok", a, z, R4, Add(i, 1)), *[Eq(app(f, a, z, P(i)), app(f, a, z, Xe)) for f in ("pepf", "peidx", "pet", "peD", "peV")]))))
    out.append(Lemma("a path reads back as written (end)", Implies(Eq(P(n), tl(n)), Eq(P(n), rest))))
    RQ = Cat(R, Q); p0, p1 = app("prest", a, z, R, i), app("prest", a, z, RQ, i)
    out.append(Lemma("parsing a path is prefix-stable (base)", Implies(Mention(app("prest", a, z, R, I(0)), app("prest", a, z, RQ, I(0)), app("prok", a, z, RQ, I(0))), And(Eq(app("prest", a, z, RQ, I(0)), Cat(app("prest", a, z, R, I(0)), Q)), app("prok", a, z, RQ, I(0))))))
    out.append(Lemma("parsing a path is prefix-stable (step)", Implies(And(Le(I(0), i), Mention(app("peok", a, z, p0), app("peok", a, z, p1)), Eq(p1, Cat(p0, Q)), app("prok", a, z, RQ, i), app("prok", a, z, R, Add(i, 1)),
        Implies(app("peok", a, z, p0), And(app("peok", a, z, Cat(p0, Q)), Eq(app("perest", a, z, Cat(p0, Q)), Cat(app("perest", a, z, p0), Q))))),
        And(Eq(app("prest", a, z, RQ, Add(i, 1)), Cat(app("prest", a, z, R, Add(i, 1)), Q)), app("prok", a, z, RQ, Add(i, 1))))))
    # whole proofs
    key = fresh("key", SEQ); pl = fresh("n", INT); body = fresh("body", SEQ)
    for a in AR:
        for z in HS:
            nm = " [arity %d, %d]" % (a + 1, z)
            X = Cat(Unit(I(a)), Unit(I(z)), util.enc_bytes(app("enca", I(a), key), 2), lit_le(pl, 2), body)
            pa, pz, sok, e, n_, r4 = pparse(X)
            out.append(Lemma("a proof reads back as written" + nm, Implies(And(vala(I(a), key), Le(Len(app("enca", I(a), key)), I(65535)), Le(I(0), pl), Le(pl, I(65535))),
                And(Eq(pa, I(a)), Eq(pz, I(z)), sok, Eq(n_, pl), Eq(r4, body), *([Eq(e, key)] if a == 255 else [app("decoka", I(a), e), Eq(app("deca", I(a), e), key)])))))
    P1, P2 = pparse(R), pparse(RQ)
    out.append(Lemma("parsing a proof is prefix-stable", Implies(P1[2], And(P2[2], Eq(P2[0], P1[0]), Eq(P2[1], P1[1]), Eq(P2[3], P1[3]), Eq(P2[4], P1[4]), Eq(P2[5], Cat(P1[5], Q))))))
    out.append(Lemma("no proper prefix of a complete serialization is complete", Implies(And(Eq(R, Empty()), Eq(RQ, Empty())), Eq(Q, Empty()))))
    return out
