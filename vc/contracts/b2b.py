"""C05/C09/C21: the blake2b commitment model: serializers, data commitments, the hash vector, node commitments."""
from node import *
import node, node2
from node2 import Lemma, old_children, nd_view
B2 = M + "models/trie_blake2b."
TC, VC, CM = B2 + "terminalCommitment", B2 + "vectorCommitment", B2 + "CommitmentModel"
AR = (255, 15, 1); HS = (20, 32)

# ---------------------------------------------------------------- spec functions
declare("rawc", (INT, SEQ), SEQ)            # CommitToDataRaw
axiom("rawc", "(forall ((z Int) (d SeqI)) (! (= (rawc z d) (ite (<= (lenI d) z) d (blake z d))) :pattern ((rawc z d))))", "rawc")
def Rawc(z, d): return app("rawc", I(z), d)
declare("pad", (SL, INT), SEQ)              # a slot of the hash vector: the bytes followed by zeros
axiom("pad", "(forall ((s SlI) (n Int)) (! (=> (and (<= 0 n) (<= (lenI (slseq s)) n)) (and (= (lenI (pad s n)) n) (= (pad s n) (catI (slseq s) (repI (- n (lenI (slseq s))) 0))))) :pattern ((pad s n))))", "pad")
declare("hv", (BSEQ, INT, INT), SEQ)        # the first i slots, each n bytes
axiom("hv-0", "(forall ((H SeqB) (n Int)) (! (= (hv H n 0) emptyI) :pattern ((hv H n 0))))", "hv")
axiom("hv-step", "(forall ((H SeqB) (n Int) (i Int)) (! (=> (<= 0 i) (= (hv H n (+ i 1)) (catI (hv H n i) (pad (atB H i) n)))) :pattern ((hv H n i) (atB H i))))", "hv")
declare("membI", (SEQ, INT), BOOL)
axiom("memb-empty", "(forall ((x Int)) (! (not (membI emptyI x)) :pattern ((membI emptyI x))))", "membI")
axiom("memb-cat", "(forall ((a SeqI) (y Int) (x Int)) (! (=> (and (<= 0 y) (< y 256)) (= (membI (catI a (unitI y)) x) (or (membI a x) (= x y)))) :pattern ((membI (catI a (unitI y)) x))))", "membI")
axiom("memb-take0", "(forall ((a SeqI) (x Int)) (! (not (membI (takeI a 0) x)) :pattern ((membI (takeI a 0) x))))", "membI")
axiom("memb-take", "(forall ((a SeqI) (i Int) (x Int)) (! (=> (and (<= 0 i) (< i (lenI a))) (= (membI (takeI a (+ i 1)) x) (or (membI (takeI a i) x) (= x (atI a i))))) :pattern ((membI (takeI a i) x) (atI a i))))", "membI")
axiom("memb-unit", "(forall ((y Int) (x Int)) (! (=> (and (<= 0 y) (< y 256)) (= (membI (unitI y) x) (= x y))) :pattern ((membI (unitI y) x))))", "membI")
axiom("bor-add64", "(forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< x 256) (= (mod y 64) 0) (<= 0 y) (< y 256) (< x 64)) (and (= (bor x y) (+ x y)) (= (bor y x) (+ x y)))) :pattern ((bor x y)) :pattern ((bor y x))))", "bor")
axiom("droprep", "(forall ((n Int) (x Int) (k Int)) (! (=> (and (<= 0 k) (<= k n)) (= (dropI (repI n x) k) (repI (- n k) x))) :pattern ((dropI (repI n x) k))))", "dropI", "repI")
axiom("catrep", "(forall ((n Int) (m Int) (x Int)) (! (=> (and (<= 0 n) (<= 0 m)) (= (catI (repI n x) (repI m x)) (repI (+ n m) x))) :pattern ((catI (repI n x) (repI m x)))))", "catI", "repI")
# the hash vector of a node: children, terminal, path fragment commitment
declare("mhv", (INT, INT, A2V, SL, SEQ), BSEQ)
axiom("mhv", "(forall ((a Int) (z Int) (A (Array Int Val)) (t SlI) (p SeqI) (i Int)) (! (=> (<= 0 a) (and (= (lenB (mhv a z A t p)) (+ a 3)) "
      "(=> (and (<= 0 i) (< i (+ a 3))) (= (atB (mhv a z A t p) i) (ite (= i (+ a 2)) (mksl false (rawc z p)) (ite (= i (+ a 1)) t (ite (= (select A i) vnil) (mksl true emptyI) (mksl false (venc (select A i)))))))))) :pattern ((atB (mhv a z A t p) i))))", "mhv")
axiom("mhv-len", "(forall ((a Int) (z Int) (A (Array Int Val)) (t SlI) (p SeqI)) (! (=> (<= 0 a) (= (lenB (mhv a z A t p)) (+ a 3))) :pattern ((mhv a z A t p))))", "mhv")
NILSL = MkSl(TRUE, Empty())
def nodec(a, z, A, tsl, pf): return app("blake", I(z), app("hv", app("mhv", I(a), I(z), A, tsl, pf), I(z + 1), I(a + 3)))

def model(ex, st, a, z, thr=None):
    m = ref_param(ex, st, "m")
    ex.setf(st, m, CM, "hashSize", I(z)); ex.setf(st, m, CM, "arity", I(a))
    s = thr if thr is not None else fresh("thr", INT)
    ex.setf(st, m, CM, "valueSizeOptimizationThreshold", s)
    return m, s
def term_param(ex, st, name="t", nonnil=True):
    t = ref_param(ex, st, name, typ="*" + TC, nonnil=nonnil)
    return t
def tbytes(ex, st, t): return ex.getf(st, t, TC, "bytes")
def vec_param(ex, st, name, z, owner="own"):
    s = fresh(name, SEQ); ex.assume(st, Eq(Len(s), I(z)))
    return ex.new_sl(st, s, nil=FALSE, owner=owner), s

# ---------------------------------------------------------------- serializers
class VRead(Spec):
    fn = "(" + VC + ").Read"
    def __init__(s, z): s.z = z; s.label = "vectorCommitment.Read[%d]" % z
    def setup(s, ex, st):
        s.v, _ = vec_param(ex, st, "v", s.z); s.r = ref_param(ex, st, "r"); s.R = rin(ex, st, s.r)
        return [s.v, s.r]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); z = I(s.z); enough = Le(z, Len(s.R))
        O = lambda f, d: ex.oblige(st, "post", f, d, "")
        O(Implies(ok, enough), "success needs all bytes"); O(Implies(And(enough, Not(app("faulty", s.r))), ok), "enough bytes are accepted")
        O(Implies(ok, Eq(ex.content(st, s.v), Take(s.R, z))), "the value is the bytes read"); O(Implies(ok, Eq(rin(ex, st, s.r), Drop(s.R, z))), "exactly the commitment is consumed")
class VWrite(Spec):
    fn = "(" + VC + ").Write"; label = "vectorCommitment.Write"
    def setup(s, ex, st):
        s.v = sl_param(ex, st, "v", owner="heap"); s.w = ref_param(ex, st, "w"); s.W = wout(ex, st, s.w)
        return [s.v, s.w]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL)
        ex.oblige(st, "post", Implies(ok, Eq(wout(ex, st, s.w), Cat(s.W, s.v.seq))), "exactly the bytes are appended", "")
        ex.oblige(st, "post", Implies(Not(app("faulty", s.w)), ok), "only the writer can make it fail", "")
class VBytes(Spec):
    fn = "(" + VC + ").Bytes"; label = "vectorCommitment.Bytes"
    def setup(s, ex, st):
        s.v = sl_param(ex, st, "v", owner="heap"); return [s.v]
    def check(s, ex, st, r): ex.oblige(st, "post", Eq(ex.content(st, r[0]), s.v.seq), "the bytes of the commitment", "")
class VClone(Spec):
    fn = "(" + VC + ").Clone"; label = "vectorCommitment.Clone"
    def setup(s, ex, st):
        s.v = sl_param(ex, st, "v", owner="heap"); return [s.v]
    def check(s, ex, st, r):
        if r[0] is NULL: ex.oblige(st, "post", Eq(Len(s.v.seq), I(0)), "only the empty commitment is cloned to nil", ""); return
        if not isinstance(r[0], IfaceV): raise Unsupported("clone result %r" % (r[0],))
        ex.oblige(st, "post", Eq(ex.content(st, r[0].v), s.v.seq), "the same value", "")
        ex.oblige(st, "post", B(r[0].v.back is not None and st.loc[r[0].v.back].owner == "own"), "in its own memory", "")
def tenc_(b, c): return Cat(Unit(Add(Len(b), Ite(c, I(192), I(0)))), b)
class TWrite(Spec):
    fn = "(*" + TC + ").Write"; label = "terminalCommitment.Write"
    def configure(s, ex): util.use(ex)
    def setup(s, ex, st):
        s.t = term_param(ex, st); s.w = ref_param(ex, st, "w"); s.W = wout(ex, st, s.w)
        s.b = sl_param(ex, st, "b", owner="heap"); s.c = fresh("costly", BOOL)
        ex.setf(st, s.t, TC, "bytes", s.b); ex.setf(st, s.t, TC, "isCostlyCommitment", s.c)
        ex.assume(st, Le(Len(s.b.seq), I(32)))
        return [s.t, s.w]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL)
        for c in (True, False):
            ex.oblige(st, "post", Implies(And(ok, s.c if c else Not(s.c)), Eq(wout(ex, st, s.w), Cat(s.W, tenc_(s.b.seq, B(c))))), "exactly the serialization is appended (%s)" % c, "")
        ex.oblige(st, "post", Implies(Not(app("faulty", s.w)), ok), "only the writer can make it fail", "")
        ex.oblige(st, "frame", Eq(ex.content(st, tbytes(ex, st, s.t)), s.b.seq), "the commitment stays", "")
def tparse(R):
    """(success, bytes, costly, rest)"""
    f = At(R, I(0)); l = Mod(f, 64)
    return And(Le(I(1), Len(R)), Le(l, I(32)), Le(Add(l, 1), Len(R))), Take(Drop(R, I(1)), l), Le(I(64), f), Drop(R, Add(l, 1))
class TRead(Spec):
    fn = "(*" + TC + ").Read"; label = "terminalCommitment.Read"
    def configure(s, ex): util.use(ex)
    def setup(s, ex, st):
        s.t = term_param(ex, st); s.r = ref_param(ex, st, "r"); s.R = rin(ex, st, s.r)
        ex.setf(st, s.t, TC, "bytes", ex.new_sl(st, Empty(), nil=fresh("nil", BOOL)))
        return [s.t, s.r]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); R = s.R; sok, b, c, rest = tparse(R)
        f = At(R, I(0)); bits = And(*[Mention(Bit(f, I(i))) for i in range(8)]); 
        O = lambda g, d: ex.oblige(st, "post", Implies(And(bits, bitsum(f)), g), d, "")
        O(Implies(ok, sok), "only a complete commitment of legal size is accepted"); O(Implies(And(sok, Not(app("faulty", s.r))), ok), "a complete commitment is accepted")
        O(Implies(ok, Eq(ex.content(st, tbytes(ex, st, s.t)), b)), "the bytes"); O(Implies(ok, Eq(ex.getf(st, s.t, TC, "isCostlyCommitment"), c)), "the flag")
        O(Implies(ok, Eq(rin(ex, st, s.r), rest)), "exactly the commitment is consumed")
def bitsum(f):
    """a byte is the sum of its bits (validated exhaustively by validate.py)"""
    return Implies(And(Le(I(0), f), Lt(f, I(256))), Eq(f, Add(*[Ite(Bit(f, I(i)), I(1 << i), I(0)) for i in range(8)])))
class TClone(Spec):
    fn = "(*" + TC + ").Clone"; label = "terminalCommitment.Clone"
    def configure(s, ex): ex.opts["retain"] = False
    def setup(s, ex, st):
        s.t = term_param(ex, st); s.b = sl_param(ex, st, "b", owner="heap"); s.c = fresh("costly", BOOL)
        ex.setf(st, s.t, TC, "bytes", s.b); ex.setf(st, s.t, TC, "isCostlyCommitment", s.c)
        return [s.t]
    def check(s, ex, st, r):
        x = r[0].v if isinstance(r[0], IfaceV) else r[0]
        if x is NULL: ex.fail(st, "post", "the clone of a commitment is not nil"); return
        ex.oblige(st, "post", Eq(ex.content(st, tbytes(ex, st, x)), s.b.seq), "the same bytes", "")
        ex.oblige(st, "post", Eq(ex.getf(st, x, TC, "isCostlyCommitment"), s.c), "the same flag", "")
        ex.oblige(st, "post", Lt(I(0), app("birth", x)), "a new object", "")
        node2.frame_old(ex, st, s)

# ---------------------------------------------------------------- commitments to data
def raw_contract(ex, st, args, pos):
    d = ex.content(st, args[0]); z = args[1]
    return [(st, [ex.new_sl(st, app("rawc", z, d), nil=FALSE)])]
class RawSpec(Spec):
    fn = B2 + "CommitToDataRaw"
    def __init__(s, z): s.z = z; s.label = "CommitToDataRaw[%d]" % z
    def setup(s, ex, st): s.d = sl_param(ex, st, "data"); return [s.d, I(s.z)]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Eq(ex.content(st, r[0]), Rawc(s.z, s.d.seq)), "short data verbatim, long data through its hash", "")
        ex.oblige(st, "post", Not(r[0].nil), "never nil", "")
        ex.oblige(st, "post", B(r[0].back is not None and st.loc[r[0].back].owner == "own"), "in its own memory", "")
class ToData(Spec):
    """for every threshold: the committed bytes do not depend on it; the terminal is marked for storing exactly when the value is longer"""
    fn = "(*" + CM + ").CommitToData"
    def __init__(s, z): s.z = z; s.label = "CommitmentModel.CommitToData[%d]" % z
    def configure(s, ex): ex.contracts[B2 + "CommitToDataRaw"] = raw_contract
    def setup(s, ex, st):
        s.m, s.thr = model(ex, st, 255, s.z); s.d = sl_param(ex, st, "data"); return [s.m, s.d]
    def check(s, ex, st, r):
        d = s.d.seq; x = r[0].v if isinstance(r[0], IfaceV) else r[0]
        O = lambda f, t: ex.oblige(st, "post", f, t, "")
        isnil = B(r[0] is NULL) if not isinstance(r[0], T) or r[0] is NULL else Eq(r[0], NULL)
        O(Eq(isnil, Eq(Len(d), I(0))), "nil exactly for empty data")
        if r[0] is NULL: return
        O(Eq(ex.content(st, tbytes(ex, st, x)), Rawc(s.z, d)), "the commitment to the data, whatever the threshold")
        O(Eq(ex.getf(st, x, TC, "isCostlyCommitment"), Lt(s.thr, Len(d))), "marked for storing exactly when longer than the threshold")
class Force(Spec):
    fn = "(*" + CM + ").ForceStoreTerminalWithNode"; label = "CommitmentModel.ForceStoreTerminalWithNode"
    def setup(s, ex, st):
        s.m, _ = model(ex, st, 255, 32); s.t = term_param(ex, st); return [s.m, s.t]
    def check(s, ex, st, r): ex.oblige(st, "post", Implies(ex.getf(st, s.t, TC, "isCostlyCommitment"), r[0]), "a commitment to a value longer than the threshold is stored with the node", "")
class Equal(Spec):
    """equality of commitments is equality of the committed bytes; the storage flag does not matter"""
    fn = "(*" + CM + ").EqualCommitments"
    def __init__(s, k): s.k = k; s.label = "CommitmentModel.EqualCommitments[%s]" % k
    def setup(s, ex, st):
        m, _ = model(ex, st, 255, 32); a = []
        for i, k in enumerate(s.k.split(",")):
            if k == "t": a.append(term_param(ex, st, "c%d" % i)); a[-1] = IfaceV("*" + TC, a[-1])
            elif k == "v": a.append(IfaceV(VC, sl_param(ex, st, "c%d" % i, owner="heap")))
            else: a.append(NULL)
        s.a = a
        return [m] + a
    def check(s, ex, st, r):
        k = s.k.split(","); x, y = s.a
        if k[0] != k[1]: want = FALSE
        elif k[0] == "n": want = TRUE
        elif k[0] == "t": want = Eq(ex.content(st, tbytes(ex, st, x.v)), ex.content(st, tbytes(ex, st, y.v)))
        else: want = Eq(x.v.seq, y.v.seq)
        ex.oblige(st, "post", Eq(r[0], want), "equal exactly when the bytes are equal", "")
class NewCommit(Spec):
    def __init__(s, k, z): s.k = k; s.z = z; s.fn = "(*%s).New%sCommitment" % (CM, k); s.label = "CommitmentModel.New%sCommitment[%d]" % (k, z)
    def setup(s, ex, st): return [model(ex, st, 255, s.z)[0]]
    def check(s, ex, st, r):
        if s.k == "Vector": ex.oblige(st, "post", Eq(r[0].v.len, I(s.z)), "a vector commitment has the size of the hash", "")
        else:
            ex.oblige(st, "post", Eq(Len(ex.content(st, tbytes(ex, st, r[0].v))), I(0)), "an empty terminal commitment", "")

# ---------------------------------------------------------------- the hash vector
def bslice(ex, st, name, n, z):
    H = fresh(name, BSEQ); ex.assume(st, Eq(Len(H), I(n)))
    i = bvar("i", INT)
    ex.assume(st, Forall([i], Implies(And(Le(I(0), i), Lt(i, I(n))), And(Le(Len(SlSeq(At(H, i))), I(z)), Implies(SlNil(At(H, i)), Eq(Len(SlSeq(At(H, i))), I(0))))), [At(H, i)]))
    return H
class HashVec(Spec):
    fn = B2 + "HashTheVector"; raw_first = 1.0
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "HashTheVector[arity %d, %d]" % (a + 1, z)
    def configure(s, ex): ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        if ctx.fn is None or not ctx.fn["name"].endswith("HashTheVector"): return []
        out = []; m = s.z + 1; n = s.a + 3
        for id, l in st.loc.items():
            if l.seq.sort != SEQ or not id.startswith("mk:"): continue
            for r, i, e in ints:
                for d in (0, 1):
                    j = Add(i, d)
                    h = app("hv", s.H, I(m), j)
                    buf = Cat(h, Rep(Sub(n * m, Mul(m, j)), I(0)))
                    out.append(("buf %s %s+%d" % (id, r, d), Implies(Mention(At(s.H, j), h, app("pad", At(s.H, j), I(m))), Eq(l.seq, buf))))
                    out.append(("hvlen %s %s+%d" % (id, r, d), Eq(Len(h), Mul(m, j))))
        return out
    def setup(s, ex, st):
        s.H = bslice(ex, st, "H", s.a + 3, s.z + 1)
        v = Sl("B", seq=s.H, len=Len(s.H), nil=FALSE, owner="caller", et="[]byte")
        return [v, I(s.a), I(s.z)]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Eq(ex.content(st, r[0]), app("blake", I(s.z), app("hv", s.H, I(s.z + 1), I(s.a + 3)))), "the hash of the padded slots in order", "")
        ex.oblige(st, "post", Eq(Len(ex.content(st, r[0])), I(s.z)), "of the size of the hash", "")
def hashvec_contract(ex, st, args, pos):
    H = ex.content(st, args[0]); a, z = args[1], args[2]
    i = bvar("i", INT)
    ex.oblige(st, "pre", Eq(Len(H), Add(a, 3)), "HashTheVector: one entry per slot", pos)
    ex.oblige(st, "pre", Forall([i], Implies(And(Le(I(0), i), Lt(i, Len(H))), And(Le(Len(SlSeq(At(H, i))), Add(z, 1)), Implies(SlNil(At(H, i)), Eq(Len(SlSeq(At(H, i))), I(0)))))), "HashTheVector: every entry fits its slot", pos)
    return [(st, [ex.new_sl(st, app("blake", z, app("hv", H, Add(z, 1), Add(a, 3))))])]
def vbytes(ex, st, args, pos):
    s = app("venc", cval(ex, st, args[0])); return [(st, [own_result(ex, st, s)])]
def tsl(ex, st, t):
    """the slot of the terminal"""
    return NILSL if t is NULL else Ite(Eq(t, NULL), NILSL, Select(ex.comp(st, "models/trie_blake2b.terminalCommitment.bytes".replace("models/", "").replace("trie_blake2b.", ""), SL), t))
class MakeHV(NodeSpec):
    fn = "(*" + CM + ").makeHashVector"
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "CommitmentModel.makeHashVector[arity %d, %d]" % (a + 1, z)
    def configure(s, ex):
        ex.contracts[B2 + "CommitToDataRaw"] = raw_contract
        ex.iface[(TR + "VCommitment", "Bytes")] = vbytes
        ex.opts["retain"] = False
        ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; out = []
        its = [(c, v) for c, v in st.cells.items() if c.startswith("iter:") and v.sort == A2B]
        D = ex.mdom(ctx.st0, s.m, MT)
        for cn, vis in its:
            k = bvar("k", INT)
            out.append(("visited<=children", Forall([k], Implies(Select(vis, k), Select(D, k)), [Select(vis, k)])))
            for id, l in st.loc.items():
                if l.seq.sort != BSEQ or not id.startswith("mk:"): continue
                h0 = ctx.st0.loc.get(id)
                if h0 is None: continue
                out.append(("slots %s" % id, Forall([k], Implies(And(Le(I(0), k), Lt(k, I(s.a + 3))), Eq(At(l.seq, k), Ite(Select(vis, k), MkSl(Eq(Len(app("venc", Select(s.A, k))), I(0)), app("venc", Select(s.A, k))), At(h0.seq, k)))), [At(l.seq, k)])))
        return out
    def setup(s, ex, st):
        s.n = s.node(ex, st); s.mod, _ = model(ex, st, s.a, s.z)
        ex.assume(st, s.valid_children(ex, st, s.m, s.a)); old_children(ex, st, s.m)
        ex.assume(st, Implies(Ne(s.t, NULL), Eq(app("typ", s.t), I(ex.tag("*" + TC)))))
        s.b = ex.getf(st, s.t, TC, "bytes"); s.A = s.children(ex, st, s.m)
        i = bvar("i", INT)
        ex.assume(st, Forall([i], Implies(Ne(Select(s.A, i), VNIL), Eq(Len(app("venc", Select(s.A, i))), I(s.z))), [Select(s.A, i)]))
        return [s.mod, s.n]
    def slot_t(s): return Ite(Eq(s.t, NULL), NILSL, MkSl(s.b.nil, s.b.seq))
    def check(s, ex, st, r):
        H = ex.content(st, r[0]); a = I(s.a); i = bvar("i", INT)
        ex.oblige(st, "post", Eq(Len(H), I(s.a + 3)), "one slot per child, the terminal and the path fragment", "")
        ex.oblige(st, "post", Eq(At(H, I(s.a + 2)), MkSl(FALSE, Rawc(s.z, s.pf.seq))), "the path fragment has its own slot", "")
        ex.oblige(st, "post", Eq(At(H, I(s.a + 1)), s.slot_t()), "the terminal has its own slot", "")
        ex.oblige(st, "post", Forall([i], Implies(And(Le(I(0), i), Le(i, a)), Eq(At(H, i), Ite(Eq(Select(s.A, i), VNIL), NILSL, MkSl(FALSE, app("venc", Select(s.A, i))))))), "every child commitment is in its own slot", "")
        node2.frame_old(ex, st, s)
def makehv_contract(ex, st, args, pos):
    m, n = args
    a, z = ex.getf(st, m, CM, "arity"), ex.getf(st, m, CM, "hashSize")
    pf, tv, hasC, A, t, mm, D, V = nd_view(ex, st, n)
    i = bvar("i", INT)
    ex.oblige(st, "pre", node2.wf_children(ex, st, mm, a.args[0]), "makeHashVector: children are valid", pos)
    ex.oblige(st, "pre", Forall([i], Implies(Ne(Select(A, i), VNIL), Eq(Len(app("venc", Select(A, i))), z))), "makeHashVector: child commitments have the size of the hash", pos)
    if t is NULL: T_ = NILSL
    else:
        b = ex.getf(st, t, TC, "bytes"); T_ = Ite(Eq(t, NULL), NILSL, MkSl(b.nil, b.seq))
    H = app("mhv", a, z, A, T_, pf)
    ex.assume(st, Eq(Len(H), Add(a, 3)))
    st.ghost["hv"] = (A, T_, pf)
    return [(st, [Sl("B", seq=H, len=Len(H), nil=FALSE, owner="own", et="[]byte")])]
class Calc(NodeSpec):
    fn = "(*" + CM + ").CalcNodeCommitment"
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "CommitmentModel.CalcNodeCommitment[arity %d, %d]" % (a + 1, z)
    def configure(s, ex):
        ex.contracts.update({"(*%s).makeHashVector" % CM: makehv_contract, B2 + "HashTheVector": hashvec_contract})
    setup_ = MakeHV.setup
    def setup(s, ex, st):
        a = MakeHV.setup(s, ex, st)
        ex.assume(st, Implies(Ne(s.t, NULL), Le(Len(s.b.seq), I(s.z))))
        return a
    def slot_t(s): return MakeHV.slot_t(s)
    def check(s, ex, st, r):
        D = ex.mdom(st, s.m, MT)
        none = And(Eq(s.t, NULL), Eq(Card(D), I(0)))
        if r[0] is NULL: ex.oblige(st, "post", none, "only a node that commits to nothing has no commitment", ""); return
        ex.oblige(st, "post", Not(none), "a node that commits to nothing has no commitment", "")
        ex.oblige(st, "post", Eq(ex.content(st, r[0].v), nodec(s.a, s.z, s.A, s.slot_t(), s.pf.seq)), "the hash of the node's vector", "")
        node2.frame_old(ex, st, s)
class Update(NodeSpec):
    """children are replaced or removed as told, the terminal is replaced, and the new commitment is the one computed from scratch"""
    fn = "(*" + CM + ").UpdateNodeCommitment"; raw_first = 1.0
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "CommitmentModel.UpdateNodeCommitment[arity %d, %d]" % (a + 1, z)
    def configure(s, ex):
        Calc.configure(s, ex); ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; out = []
        D, V = ex.mdom(st, s.m, MT), ex.mval(st, s.m, MT); D0, V0 = ex.mdom(ctx.st0, s.m, MT), ex.mval(ctx.st0, s.m, MT)
        k = bvar("k", INT)
        its = [(c, v) for c, v in st.cells.items() if c.startswith("iter:") and v.sort == A2B]
        seqs = [(r, cur[r]) for r, t, c in ctx.phis if isinstance(cur[r], Sl) and cur[r].k == "I"]
        sq2 = [(id, l.seq) for id, l in st.loc.items() if l.seq.sort == SEQ]
        phased = any(c in ctx.mod_cells if hasattr(ctx, "mod_cells") else False for c, _ in its)
        for cn, vis in its[:1]:
            active = vis is not ctx.st0.cells.get(cn) or cur == ctx.entry
            out.append(("vis<=upd", Forall([k], Implies(Select(vis, k), Select(s.UD, k)), [Select(vis, k)])))
            out.append(("dom+vis", Forall([k], Eq(Select(D, k), Or(Select(s.D0, k), Select(vis, k))), [Select(D, k)])))
            out.append(("dom+vis-nil", Forall([k], Eq(Select(D, k), Or(And(Select(s.D0, k), Not(Select(vis, k))), And(Select(vis, k), Ne(Select(s.UV, k), NULL)))), [Select(D, k)])))
            out.append(("val", Forall([k], Implies(Select(D, k), Eq(Select(V, k), Ite(Select(vis, k), Select(s.UV, k), Select(s.V0, k)))), [Select(V, k)])))
            for r, c in seqs:
                q = ex.content(st, c)
                out.append(("del=%s" % r, Forall([k], Eq(app("membI", q, k), And(Select(vis, k), Eq(Select(s.UV, k), NULL))), [app("membI", q, k)])))
        for r, i, e in ints:
            for dr, q in [(id, q) for id, q in sq2] + [(rr, ex.content(st, v)) for (f, rr), v in st.env.items() if f == ctx.fid and isinstance(v, Sl) and v.k == "I"]:
                for d in (0, 1):
                    out.append(("dom-memb %s %s+%d" % (dr, r, d), Forall([k], Eq(Select(D, k), And(Select(D0, k), Not(app("membI", Take(q, Add(i, d)), k)))), [Select(D, k)])))
            out.append(("val stays %s" % r, Eq(V, V0)))
        return out
    def setup(s, ex, st):
        MakeHV.setup(s, ex, st)
        s.um = ref_param(ex, st, "upd", nonnil=False); ex.nil_map_fact(st, s.um, MT)
        ex.assume(st, Ne(s.um, s.m)); ex.assume(st, Ne(s.m, NULL)); ex.frame_except = [s.m]
        s.UD, s.UV = ex.mdom(st, s.um, MT), ex.mval(st, s.um, MT); C = cv(ex, st)
        s.D0, s.V0 = ex.mdom(st, s.m, MT), ex.mval(st, s.m, MT)
        c = bvar("c", INT)
        ex.assume(st, Forall([c], Implies(Select(s.D0, c), Eq(Len(app("venc", Select(C, Select(s.V0, c)))), I(s.z))), [Select(s.D0, c)]))      # the same, in the other form
        ex.assume(st, Forall([c], Implies(Select(s.UD, c), And(Le(I(0), c), Le(c, I(s.a)), Le(app("birth", Select(s.UV, c)), I(0)), Implies(Ne(Select(s.UV, c), NULL), And(Ne(Select(C, Select(s.UV, c)), VNIL), Eq(Len(app("venc", Select(C, Select(s.UV, c)))), I(s.z)))))), [Select(s.UD, c)]))
        s.t2 = ref_param(ex, st, "t2", nonnil=False)
        ex.assume(st, Implies(Ne(s.t2, NULL), Eq(app("typ", s.t2), I(ex.tag("*" + TC)))))
        s.b2 = ex.getf(st, s.t2, TC, "bytes"); ex.assume(st, Implies(Ne(s.t2, NULL), Le(Len(s.b2.seq), I(s.z))))
        st.cells["up"] = ref_param(ex, st, "old", nonnil=False); ex.cell_types["up"] = TR + "VCommitment"; s.old = st.cells["up"]
        return [s.mod, s.n, s.um, fresh("delta", BOOL), s.t2, PtrCell("up", TR + "VCommitment") if s.upd else NULL]
    upd = True
    def check(s, ex, st, r):
        D, V = ex.mdom(st, s.m, MT), ex.mval(st, s.m, MT); c = bvar("c", INT); C = cv(ex, st)
        O = lambda f, d, k="post": ex.oblige(st, k, f, d, "")
        A2 = app("cm", D, V, C)
        O(Eq(ex.getf(st, s.n, ND, "ChildCommitments"), s.m), "the map stays the node's", "frame")
        O(Eq(ex.content(st, ex.getf(st, s.n, ND, "PathFragment")), s.pf.seq), "the path fragment stays", "frame")
        O(Eq(ex.getf(st, s.n, ND, "Terminal"), s.t2), "the terminal is replaced")
        want_d = Ite(Select(s.UD, c), Ne(Select(s.UV, c), NULL), Select(s.D0, c))
        O(Forall([c], Eq(Select(D, c), want_d)), "removed, added and kept children")
        O(Forall([c], Implies(Select(D, c), Eq(Select(C, Select(V, c)), Select(C, Ite(Select(s.UD, c), Select(s.UV, c), Select(s.V0, c)))))), "child commitments are the updated ones")
        O(And(Eq(ex.mdom(st, s.um, MT), s.UD), Eq(ex.mval(st, s.um, MT), s.UV)), "the updates stay", "frame")
        up = st.cells["up"]; none = And(Eq(Card(D), I(0)), Eq(s.t2, NULL))
        if up is s.old: O(none, "the commitment is updated unless nothing is committed to")
        elif isinstance(up, IfaceV):
            b = s.b2; T_ = Ite(Eq(s.t2, NULL), NILSL, MkSl(b.nil, b.seq))
            O(Not(none), "a node that commits to nothing gets no commitment")
            hvd = st.ghost.get("hv")
            if hvd is None: ex.fail(st, "post", "the commitment is computed from the node's vector"); return
            O(And(Eq(hvd[0], A2), Eq(hvd[1], T_), Eq(hvd[2], s.pf.seq)), "the commitment is computed from the updated node")
            O(Eq(ex.content(st, up.v), nodec(s.a, s.z, hvd[0], hvd[1], hvd[2])), "the same as computed from scratch")
        else: raise Unsupported("update result %r" % (up,))
class UpdateRoot(Update):
    """the same when the commitment itself is not asked for"""
    upd = False
    def __init__(s, a, z): Update.__init__(s, a, z); s.label = "CommitmentModel.UpdateNodeCommitment[no update, arity %d, %d]" % (a + 1, z)
    def check(s, ex, st, r):
        s.old = st.cells["up"]
        Dc = Update.check
        obl = ex.oblige
        def o(st_, k, f, d, pos="", soft=None):
            if d.startswith("the commitment is updated unless"): return
            obl(st_, k, f, d, pos, soft)
        ex.oblige = o
        try: Update.check(s, ex, st, r)
        finally: ex.oblige = obl

def specs():
    out = [VWrite(), VBytes(), VClone(), TWrite(), TRead(), TClone(), Force()] + [VRead(z) for z in HS] + [RawSpec(z) for z in HS] + [ToData(z) for z in HS]
    out += [Equal(k) for k in ("t,t", "v,v", "n,n", "t,v", "v,t", "n,t", "t,n", "n,v", "v,n")] + [NewCommit(k, z) for k in ("Vector", "Terminal") for z in HS]
    for a in AR:
        for z in HS: out += [HashVec(a, z), MakeHV(a, z), Calc(a, z), Update(a, z), UpdateRoot(a, z)]
    return out
def lemmas():
    R, Q = var("R", SEQ), var("Q", SEQ); out = []
    RQ = Cat(R, Q)
    for z in HS:
        Z = I(z); x = var("x", SEQ)
        out.append(Lemma("vector commitment: parsing is prefix-stable [%d]" % z, Implies(Le(Z, Len(R)), And(Le(Z, Len(RQ)), Eq(Take(RQ, Z), Take(R, Z)), Eq(Drop(RQ, Z), Cat(Drop(R, Z), Q))))))
        out.append(Lemma("vector commitment: parsing inverts writing [%d]" % z, Implies(Eq(Len(x), Z), And(Le(Z, Len(x)), Eq(Take(x, Z), x), Eq(Len(Drop(x, Z)), I(0))))))
    p1, p2 = tparse(R), tparse(RQ)
    f = Eq(At(RQ, I(0)), At(R, I(0)))
    out.append(Lemma("terminal commitment: prefix stability (first byte)", Implies(Le(I(1), Len(R)), f)))
    out.append(Lemma("terminal commitment: parsing is prefix-stable", Implies(And(f, p1[0]), And(p2[0], Eq(p2[1], p1[1]), Eq(p2[2], p1[2]), Eq(p2[3], Cat(p1[3], Q))))))
    b, c = var("b", SEQ), var("c", BOOL)
    for cc in (True, False):
        e = tenc_(b, B(cc)); p = tparse(e)
        out.append(Lemma("terminal commitment: parsing inverts writing (%s)" % cc, Implies(Le(Len(b), I(32)), And(p[0], Eq(p[1], b), Eq(p[2], B(cc)), Eq(Len(p[3]), I(0))))))
    # C09: the hash input binds every slot
    H1, H2 = var("H1", BSEQ), var("H2", BSEQ); n, i = var("n", INT), var("i", INT)
    hv = lambda H, k: app("hv", H, n, k)
    sl = lambda H, k: app("pad", At(H, k), n)
    fit = lambda H: And(Le(I(0), n), Le(Len(SlSeq(At(H, i))), n))
    out.append(Lemma("hash input: the slots have one size (base)", Eq(Len(hv(H1, I(0))), Len(hv(H2, I(0))))))
    out.append(Lemma("hash input: the slots have one size (step)", Implies(And(Le(I(0), i), fit(H1), fit(H2), Mention(At(H1, i), At(H2, i)), Eq(Len(hv(H1, i)), Len(hv(H2, i)))),
        Eq(Len(hv(H1, Add(i, 1))), Len(hv(H2, Add(i, 1)))))))
    out.append(Lemma("hash input: equal inputs have equal slots (step)", Implies(And(Le(I(0), i), fit(H1), fit(H2), Mention(At(H1, i), At(H2, i), *[g(hv(H, Add(i, 1)), Len(hv(H, i))) for H in (H1, H2) for g in (Take, Drop)]), Eq(Len(hv(H1, i)), Len(hv(H2, i))), Eq(hv(H1, Add(i, 1)), hv(H2, Add(i, 1)))),
        And(Eq(hv(H1, i), hv(H2, i)), Eq(sl(H1, i), sl(H2, i))))))
    s1, s2 = var("s1", SL), var("s2", SL)
    out.append(Lemma("hash input: slots of equal length that are equal hold the same bytes", Implies(And(Mention(*[Take(app("pad", x, n), Len(SlSeq(x))) for x in (s1, s2)]), Le(I(0), n), Le(Len(SlSeq(s1)), n), Eq(Len(SlSeq(s1)), Len(SlSeq(s2))), Eq(app("pad", s1, n), app("pad", s2, n))), Eq(SlSeq(s1), SlSeq(s2)))))
    out.append(Lemma("hash input: equal slots of different length differ only in trailing zeros (the recorded finding)", Implies(And(Le(I(0), n), Le(Len(SlSeq(s1)), Len(SlSeq(s2))), Le(Len(SlSeq(s2)), n), Eq(app("pad", s1, n), app("pad", s2, n))),
        And(Eq(SlSeq(s1), Take(SlSeq(s2), Len(SlSeq(s1)))), Eq(Drop(SlSeq(s2), Len(SlSeq(s1))), app("repI", Sub(Len(SlSeq(s2)), Len(SlSeq(s1))), I(0)))))))
    # the vector of a node: which slot holds what
    A1, A2_ = var("A1", A2V), var("A2", A2V); t1, t2 = var("t1", SL), var("t2", SL); q1, q2 = var("p1", SEQ), var("p2", SEQ)
    for a in AR:
        for z in HS:
            m1, m2 = app("mhv", I(a), I(z), A1, t1, q1), app("mhv", I(a), I(z), A2_, t2, q2)
            nm = " [arity %d, %d]" % (a + 1, z)
            at = lambda m, k: SlSeq(At(m, k))
            w1, w2 = Select(A1, i), Select(A2_, i)
            out.append(Lemma("node vector: child i is in slot i, alone" + nm, Implies(And(Le(I(0), i), Le(i, I(a)), Eq(at(m1, i), at(m2, i)), Eq(app("venc", VNIL), Empty())), Eq(app("venc", w1), app("venc", w2)))))
            out.append(Lemma("node vector: the terminal has its own slot" + nm, Implies(Eq(at(m1, I(a + 1)), at(m2, I(a + 1))), Eq(SlSeq(t1), SlSeq(t2)))))
            out.append(Lemma("node vector: the path fragment has its own slot" + nm, Implies(Eq(at(m1, I(a + 2)), at(m2, I(a + 2))), Eq(app("rawc", I(z), q1), app("rawc", I(z), q2)))))
    d1, d2 = var("d1", SEQ), var("d2", SEQ); bl = lambda d: app("blake", n, d)
    out.append(Lemma("data commitment: short data verbatim, long data by its hash", Implies(And(Eq(app("rawc", n, d1), app("rawc", n, d2)), Le(Len(d1), n), Le(Len(d2), n)), Eq(d1, d2))))
    out.append(Lemma("data commitment: two long data share it only by a hash collision", Implies(And(Eq(app("rawc", n, d1), app("rawc", n, d2)), Lt(n, Len(d1)), Lt(n, Len(d2))), Eq(bl(d1), bl(d2)))))
    return out
