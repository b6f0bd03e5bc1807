"""C08/C07: validation of blake2b proofs."""
from prf import *
import prf, node, node2, b2b
from b2b import Rawc, NILSL, raw_contract, hashvec_contract, bslice
VP = M + "models/trie_blake2b/trie_blake2b_verify."
declare("pmhv", (INT, INT, SEQ, INT, SL, A2B, AIS, SL), BSEQ)   # the vector hashed for a proof element
axiom("pmhv-len", "(forall ((a Int) (z Int) (pf SeqI) (ci Int) (t SlI) (D (Array Int Bool)) (V (Array Int SlI)) (ms SlI)) (! (=> (<= 0 a) (= (lenB (pmhv a z pf ci t D V ms)) (+ a 3))) :pattern ((pmhv a z pf ci t D V ms))))", "pmhv")
axiom("pmhv-at", "(forall ((a Int) (z Int) (pf SeqI) (ci Int) (t SlI) (D (Array Int Bool)) (V (Array Int SlI)) (ms SlI) (i Int)) (! (=> (and (<= 0 i) (< i (+ a 3))) (= (atB (pmhv a z pf ci t D V ms) i)"
      " (ite (= i (+ a 2)) (mksl false (rawc z pf)) (ite (= i (+ a 1)) (ite (= (lenI (slseq t)) 0) (mksl true emptyI) t) (ite (= i ci) ms (ite (select D i) (select V i) (mksl true emptyI))))))) :pattern ((atB (pmhv a z pf ci t D V ms) i))))", "pmhv", "rawc")
def slot(a, z, v, ms, i):
    pf, ci, t, D, V = v
    return Ite(Eq(i, I(a + 2)), MkSl(FALSE, Rawc(z, pf)), Ite(Eq(i, I(a + 1)), Ite(Eq(Len(SlSeq(t)), I(0)), NILSL, t), Ite(Eq(i, ci), ms, Ite(Select(D, i), Select(V, i), NILSL))))
def chk(a, z, v):
    pf, ci, t, D, V = v; c = bvar("c", INT)
    return And(Le(Len(SlSeq(t)), I(z)), Forall([c], Implies(Select(D, c), And(Le(c, I(a)), Eq(Len(SlSeq(Select(V, c))), I(z)))), [Select(D, c)]))
def pbase(ex, st, D, V=None):
    """map keys are bytes; a nil slice is empty"""
    if V is not None:
        c = bvar("c", INT); ex.assume(st, Forall([c], Implies(SlNil(Select(V, c)), Eq(Len(SlSeq(Select(V, c))), I(0))), [Select(V, c)]))
    c = bvar("c", INT); ex.assume(st, Forall([c], Implies(Select(D, c), And(Le(I(0), c), Le(c, I(255)))), [Select(D, c)]))
class VBase(PEBase):
    raw_first = 1.0; soft_tmo = 3.0
    def __init__(s, a, z): s.a = a; s.z = z; s.label = "%s[arity %d, %d]" % (s.fn.split(".")[-1], a + 1, z)
    def configure(s, ex): ex.opts["retain"] = False
    def setup_e(s, ex, st):
        s.e = s.elem(ex, st); s.v = (s.pf.seq, s.idx, MkSl(s.t.nil, s.t.seq), s.D, s.V); pbase(ex, st, s.D, s.V); ex.assume(st, Implies(s.t.nil, Eq(Len(s.t.seq), I(0))))
        ex.assume(st, Le(I(0), s.idx))
class CheckElement(VBase):
    fn = VP + "checkElement"
    def configure(s, ex): VBase.configure(s, ex); ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        if ctx.fn is None or ctx.fn["name"] != s.fn: return []
        out = []; c = bvar("c", INT)
        for cn, vis in [(c, v) for c, v in st.cells.items() if c.startswith("iter:") and v.sort == A2B]:
            out.append(("visited in dom", Forall([c], Implies(Select(vis, c), Select(s.D, c)), [Select(vis, c)])))
            out.append(("visited good", Forall([c], Implies(Select(vis, c), And(Le(c, I(s.a)), Eq(Len(SlSeq(Select(s.V, c))), I(s.z)))), [Select(vis, c)])))
        return out
    def setup(s, ex, st): s.setup_e(ex, st); return [s.e, I(s.a), I(s.z)]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL)
        ex.oblige(st, "post", Implies(ok, chk(s.a, s.z, s.v)), "accepted only if the terminal fits and every child has a child index and the size of the hash", "")
        ex.oblige(st, "post", Implies(chk(s.a, s.z, s.v), ok), "an element in range is accepted", "")
        node2.frame_old(ex, st, s)
class PMakeHV(VBase):
    fn = VP + "makeHashVector"
    def configure(s, ex): VBase.configure(s, ex); ex.contracts[B2 + "CommitToDataRaw"] = raw_contract; ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        if ctx.fn is None or ctx.fn["name"] != s.fn: return []
        out = []; k = bvar("k", INT)
        for cn, vis in [(c, v) for c, v in st.cells.items() if c.startswith("iter:") and v.sort == A2B]:
            out.append(("visited<=children", Forall([k], Implies(Select(vis, k), Select(s.D, k)), [Select(vis, k)])))
            for id, l in st.loc.items():
                if l.seq.sort != BSEQ or not id.startswith("mk:"): continue
                h0 = ctx.st0.loc.get(id)
                if h0 is None: continue
                out.append(("slots %s" % id, Forall([k], Implies(And(Le(I(0), k), Lt(k, I(s.a + 3))), Eq(At(l.seq, k), Ite(Select(vis, k), Select(s.V, k), At(h0.seq, k)))), [At(l.seq, k)])))
        return out
    def setup(s, ex, st):
        s.setup_e(ex, st); ex.assume(st, chk(s.a, s.z, s.v)); s.ms = sl_param(ex, st, "missing", owner="heap")
        return [s.e, s.ms, I(s.a), I(s.z)]
    def check(s, ex, st, r):
        H = ex.content(st, r[0]); i = bvar("i", INT)
        ex.oblige(st, "post", Eq(Len(H), I(s.a + 3)), "one slot per child, the terminal and the path fragment", "")
        ex.oblige(st, "post", Forall([i], Implies(And(Le(I(0), i), Lt(i, I(s.a + 3))), Eq(At(H, i), slot(s.a, s.z, s.v, MkSl(s.ms.nil, s.ms.seq), i)))), "every slot holds what the element says, the missing commitment at the child index", "")
        node2.frame_old(ex, st, s)
def slv(ex, st, x):
    return NILSL if x is NULL else MkSl(x.nil, ex.content(st, x))
def pmhv_c(ex, st, args, pos):
    e, ms, a, z = args; v = pe_view(ex, st, e); pbase(ex, st, v[3], v[4])
    ex.oblige(st, "pre", chk(a.args[0], z.args[0], v), "makeHashVector: the element is in range", pos)
    H = app("pmhv", a, z, *v, slv(ex, st, ms)); ex.assume(st, Mention(app("rawc", z, v[0])))
    return [(st, [Sl("B", seq=H, len=Add(a, 3), nil=FALSE, owner="own", et="[]byte")])]
def phash(a, z, v, ms): return app("blake", I(z), app("hv", app("pmhv", I(a), I(z), *v, ms), I(z + 1), I(a + 3)))
class HashIt(VBase):
    fn = VP + "hashIt"
    def configure(s, ex): VBase.configure(s, ex); ex.contracts.update({VP + "makeHashVector": pmhv_c, B2 + "HashTheVector": hashvec_contract})
    def setup(s, ex, st):
        s.setup_e(ex, st); ex.assume(st, chk(s.a, s.z, s.v)); s.ms = sl_param(ex, st, "missing", owner="heap")
        ex.assume(st, And(Le(Len(s.ms.seq), I(s.z)), Implies(s.ms.nil, Eq(Len(s.ms.seq), I(0))))); i = bvar("i", INT)
        return [s.e, s.ms, I(s.a), I(s.z)]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Eq(ex.content(st, r[0]), phash(s.a, s.z, s.v, MkSl(s.ms.nil, s.ms.seq))), "the hash of the element's vector", ""); node2.frame_old(ex, st, s)
def hashit_c(ex, st, args, pos):
    e, ms, a, z = args; v = pe_view(ex, st, e); pbase(ex, st, v[3], v[4])
    ex.oblige(st, "pre", chk(a.args[0], z.args[0], v), "hashIt: the element is in range", pos)
    m = slv(ex, st, ms); ex.oblige(st, "pre", Le(Len(SlSeq(m)), z), "hashIt: the missing commitment is not longer than a hash", pos)
    h = phash(a.args[0], z.args[0], v, m); ex.assume(st, Eq(Len(h), z))
    return [(st, [ex.new_sl(st, h)])]
def check_c(ex, st, args, pos):
    e, a, z = args; ex.oblige(st, "nil", Ne(e, NULL), "the element is not nil", pos)
    v = pe_view(ex, st, e); pbase(ex, st, v[3], v[4]); s2 = st.fork(); out = []; f = chk(a.args[0], z.args[0], v)
    ex.assume(st, f)
    if not ex.infeasible(st): out.append((st, [NULL]))
    ex.assume(s2, Not(f)); out.append((s2, [new_error(ex, s2, "bad")]))
    return out
# verification of the path: vok(i, k) the elements from i on follow the key from k on; vh(i) the commitment they give
declare("vok", (REF, INT, INT), BOOL); declare("vh", (REF, INT), SEQ)
def hasprefix(t, pf): return And(Le(Len(pf), Len(t)), Eq(Take(t, Len(pf)), pf))
def last_ok(a, v, tail):
    """the verdict the last element allows for the rest of the key"""
    pf, ci, t, D, V = v; pre = hasprefix(tail, pf); nx = At(tail, Len(pf))
    child = And(Le(I(0), ci), Le(ci, I(a)))
    return Or(And(Eq(ci, I(a + 1)), Eq(tail, pf)),
              And(Or(Eq(ci, I(a + 2)), child), Implies(pre, And(Lt(Len(pf), Len(tail)), Or(Not(Select(D, nx)), SlNil(Select(V, nx))))), Implies(child, And(pre, Eq(ci, nx)))))
def step_ok(a, v, key, k):
    pf, ci, t, D, V = v; nk = Add(k, Len(pf), I(1))
    return And(hasprefix(Drop(key, k), pf), Le(I(0), ci), Le(ci, I(a)), Not(Select(D, ci)), Le(nk, Len(key)), Eq(ci, At(key, Sub(nk, I(1)))))
class ProofSpec(VBase):
    def proof(s, ex, st):
        p = ref_param(ex, st, "p"); s.p = p; s.key = sl_param(ex, st, "key", owner="heap"); s.q = fresh("path", RSEQ)
        for f, v in (("PathArity", I(s.a)), ("HashSize", I(s.z)), ("Key", s.key), ("Path", Sl("R", seq=s.q, len=Len(s.q), nil=fresh("pn", BOOL), owner="heap", et="*" + PE))): ex.setf(st, p, PR, f, v)
        i = bvar("i", INT); e = At(s.q, i); H = lambda f, srt: Select(ex.comp(st, ex.fcomp(PE, [x["n"] for x in ex.p.fields(PE)].index(f)), srt), e)
        ex.assume(st, Forall([i], Implies(And(Le(I(0), i), Lt(i, Len(s.q))), And(Ne(e, NULL), Le(I(0), hsel(ex, st, e)[1]), Le(hsel(ex, st, e)[1], I(65535)), Le(app("birth", e), I(0)))), [e]))
        return p
def verify_c(spec):
    def f(ex, st, args, pos):
        p, i, k = args; n = Len(spec.q)
        ex.oblige(st, "pre", And(Le(I(0), i), Lt(i, n), Le(I(0), k), Le(k, Len(spec.key.seq)), Eq(p, spec.p)), "verify: the position is inside the path and the key", pos)
        s2 = st.fork(); ok = app("vok", p, i, k); ex.assume(st, ok); h = app("vh", p, i); ex.assume(st, Eq(Len(h), I(spec.z)))
        ex.assume(s2, Not(ok))
        return [(st, [ex.new_sl(st, h, nil=FALSE), NULL]), (s2, [ex.nil_sl("[]byte"), new_error(ex, s2, "bad")])]
    return f
class VerifyPath(ProofSpec):
    """one step of verify; the recursive call through the contract being proved"""
    fn = VP + "verify"
    def configure(s, ex): VBase.configure(s, ex); ex.contracts.update({VP + "hashIt": hashit_c, VP + "checkElement": check_c, VP + "verify": verify_c(s)})
    def setup(s, ex, st):
        p = s.proof(ex, st); s.i = fresh("i", INT); s.k = fresh("k", INT)
        ex.assume(st, And(Le(I(0), s.i), Lt(s.i, Len(s.q)), Le(I(0), s.k), Le(s.k, Len(s.key.seq))))
        s.e = At(s.q, s.i); ex.assume(st, Ne(s.e, NULL)); ex.assume(st, Le(app("birth", s.e), st.now)); s.v = pe_view(ex, st, s.e); pbase(ex, st, s.v[3], s.v[4])
        return [p, s.i, s.k]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[1]), NULL); v = s.v; last = Eq(s.i, Sub(Len(s.q), I(1))); key = s.key.seq
        nk = Add(s.k, Len(v[0]), I(1)); lo = And(chk(s.a, s.z, v), last_ok(s.a, v, Drop(key, s.k)))
        so = And(chk(s.a, s.z, v), step_ok(s.a, v, key, s.k), app("vok", s.p, Add(s.i, 1), nk))
        O = lambda f, d: ex.oblige(st, "post", f, d, "")
        O(Implies(And(ok, last), lo), "the last element is accepted only if it tells what is at the key")
        O(Implies(And(last, lo), ok), "a last element that tells what is at the key is accepted")
        O(Implies(And(ok, Not(last)), so), "an inner element is accepted only if the rest of the path follows the key through its child")
        O(Implies(And(so, Not(last)), ok), "an inner element through which the path follows the key is accepted")
        if not dead(st, ok):
            O(Implies(And(ok, last), Eq(ex.content(st, r[0]), phash(s.a, s.z, v, NILSL))), "the commitment of the last element leaves its child index empty")
            O(Implies(And(ok, Not(last)), Eq(ex.content(st, r[0]), phash(s.a, s.z, v, MkSl(FALSE, app("vh", s.p, Add(s.i, 1)))))), "the commitment of an inner element has the commitment of the rest at its child index")
        node2.frame_old(ex, st, s)
class Validate(ProofSpec):
    fn = VP + "Validate"
    def configure(s, ex): VBase.configure(s, ex); ex.contracts[VP + "verify"] = verify_c(s)
    def setup(s, ex, st): s.proof(ex, st); s.root = sl_param(ex, st, "root"); return [s.p, s.root]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); em = Eq(Len(s.q), I(0))
        ex.oblige(st, "post", Implies(em, Eq(ok, Eq(Len(s.root.seq), I(0)))), "the empty proof validates exactly against the empty root", "")
        good = And(app("vok", s.p, I(0), I(0)), Eq(app("vh", s.p, I(0)), s.root.seq))
        ex.oblige(st, "post", Implies(And(Not(em), ok), good), "validated only if the path follows the key and gives the root", "")
        ex.oblige(st, "post", Implies(And(Not(em), good), ok), "a path that follows the key and gives the root is validated", "")
        node2.frame_old(ex, st, s)
def verdict(a, v): 
    """the terminal the last element claims for the key; empty: absent"""
    pf, ci, t, D, V = v
    return Ite(Eq(ci, I(a + 1)), SlSeq(t), Empty())
def last_fine(a, v):
    pf, ci, t, D, V = v
    return And(Le(I(0), ci), Le(ci, I(a + 2)), Implies(Le(ci, I(a)), Not(Select(D, ci))))
class MustKey(ProofSpec):
    """never panics on a proof that was validated"""
    fn = VP + "MustKeyWithTerminal"
    def setup(s, ex, st):
        s.proof(ex, st); s.e = At(s.q, Sub(Len(s.q), I(1))); 
        ex.assume(st, Implies(Lt(I(0), Len(s.q)), And(Ne(s.e, NULL), Le(app("birth", s.e), I(0)))))
        s.v = pe_view(ex, st, s.e); pbase(ex, st, s.v[3], s.v[4]); ex.assume(st, Implies(Lt(I(0), Len(s.q)), last_fine(s.a, s.v)))
        return [s.p]
    def check(s, ex, st, r):
        em = Eq(Len(s.q), I(0)); v = Ite(em, Empty(), verdict(s.a, s.v))
        ex.oblige(st, "post", Implies(Not(em), Eq(ex.content(st, r[0]), s.key.seq)), "the key of the proof", "")
        ex.oblige(st, "post", Eq(ex.content(st, r[1]), v), "the terminal the last element tells", "")
        ex.oblige(st, "post", Eq(r[1].nil if isinstance(r[1], Sl) else TRUE, Eq(Len(v), I(0))), "no terminal exactly for absence", ""); node2.frame_old(ex, st, s)
def mustkey_c(spec):
    def f(ex, st, args, pos):
        ex.oblige(st, "pre", Implies(Lt(I(0), Len(spec.q)), last_fine(spec.a, spec.v)), "MustKeyWithTerminal: the last element is one of a validated proof", pos)
        t = Ite(Eq(Len(spec.q), I(0)), Empty(), verdict(spec.a, spec.v))
        return [(st, [spec.key, Sl("I", seq=t, len=Len(t), nil=Eq(Len(t), I(0)), owner="heap", et="byte")])]
    return f
class IsAbsence(MustKey):
    fn = VP + "IsProofOfAbsence"
    def configure(s, ex): MustKey.configure(s, ex); ex.contracts[VP + "MustKeyWithTerminal"] = mustkey_c(s)
    def check(s, ex, st, r): ex.oblige(st, "post", Eq(r[0], Or(Eq(Len(s.q), I(0)), Eq(Len(verdict(s.a, s.v)), I(0)))), "absence exactly when no terminal is told", ""); node2.frame_old(ex, st, s)
class WithValue(MustKey):
    fn = VP + "ValidateWithValue"
    def configure(s, ex):
        MustKey.configure(s, ex); ex.contracts[B2 + "CommitToDataRaw"] = raw_contract; ex.contracts[VP + "MustKeyWithTerminal"] = mustkey_c(s)
        def val(ex, st, args, pos):
            s2 = st.fork(); ok = app("vvalid", args[0], ex.content(st, args[1])); ex.assume(st, ok); ex.assume(st, Implies(Lt(I(0), Len(s.q)), last_fine(s.a, s.v))); ex.assume(s2, Not(ok))
            return [(st, [NULL]), (s2, [new_error(ex, s2, "bad")])]
        ex.contracts[VP + "Validate"] = val
    def setup(s, ex, st):
        s.proof(ex, st); s.e = At(s.q, Sub(Len(s.q), I(1))); ex.assume(st, Implies(Lt(I(0), Len(s.q)), And(Ne(s.e, NULL), Le(app("birth", s.e), I(0)))))
        s.v = pe_view(ex, st, s.e); s.root = sl_param(ex, st, "root"); s.val = sl_param(ex, st, "value"); return [s.p, s.root, s.val]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); t = Ite(Eq(Len(s.q), I(0)), Empty(), verdict(s.a, s.v))
        good = And(app("vvalid", s.p, s.root.seq), Lt(I(0), Len(t)), Eq(t, Rawc(s.z, s.val.seq)))
        ex.oblige(st, "post", Implies(ok, good), "accepted only if the proof validates and its terminal is the commitment to the value", "")
        ex.oblige(st, "post", Implies(good, ok), "accepted if the proof validates and its terminal is the commitment to the value", ""); node2.frame_old(ex, st, s)
declare("vvalid", (REF, SEQ), BOOL)
class CommitLast(MustKey):
    """on a proof that was validated"""
    fn = VP + "CommitmentToTheTerminalNode"
    def configure(s, ex): MustKey.configure(s, ex); ex.contracts[VP + "hashIt"] = hashit_c
    def setup(s, ex, st):
        a = MustKey.setup(s, ex, st); ex.assume(st, Implies(Lt(I(0), Len(s.q)), chk(s.a, s.z, s.v))); return a
    def check(s, ex, st, r):
        em = Eq(Len(s.q), I(0)); c = ex.content(st, r[0])
        ex.oblige(st, "post", Implies(em, Eq(Len(c), I(0))), "no commitment for the empty proof", "")
        ex.oblige(st, "post", Implies(Not(em), Eq(c, phash(s.a, s.z, s.v, NILSL))), "the commitment of the last element", ""); node2.frame_old(ex, st, s)
def specs():
    return [c(a, z) for c in (CheckElement, PMakeHV, HashIt, VerifyPath, Validate, MustKey, IsAbsence, WithValue, CommitLast) for a in AR for z in HS]
# ---------------------------------------------------------------- soundness (C08): what the path says is what a lookup in the trie with this root says
# content of the node with commitment c: path fragment, terminal (empty: none), children (empty: none).  That a commitment has one
# content is the collision-freeness of the hash and of the hash inputs (C09 up to the recorded findings).
declare("cpf", (SEQ,), SEQ); declare("cterm", (SEQ,), SEQ); declare("cch", (SEQ, INT), SEQ)
declare("look", (INT, SEQ, SEQ), SEQ)        # the terminal at the rest of a key below the node with commitment c (empty: the key is absent)
def look_def(a, c, tail):
    nx = At(tail, Len(app("cpf", c))); ch = app("cch", c, nx)
    return Eq(app("look", I(a), c, tail), Ite(Eq(tail, app("cpf", c)), app("cterm", c), Ite(And(hasprefix(tail, app("cpf", c)), Le(nx, I(a)), Lt(I(0), Len(ch))), app("look", I(a), ch, Drop(tail, Add(Len(app("cpf", c)), 1))), Empty())))
def bind(a, c, v, ms, i):
    """the vector hashed for the element is the content of the node (at child index i)"""
    pf, ci, t, D, V = v
    return And(Eq(pf, app("cpf", c)), Eq(SlSeq(t), app("cterm", c)), Implies(And(Le(I(0), i), Le(i, I(a))), Eq(app("cch", c, i), Ite(Eq(i, ci), ms, Ite(Select(D, i), SlSeq(Select(V, i)), Empty())))))
def lemmas():
    out = []
    for a in AR:
        for z in HS:
            nm = " [arity %d, %d]" % (a + 1, z)
            pf, t = fresh("pf", SEQ), fresh("t", SL); ci = fresh("ci", INT); D = fresh("D", A2B); V = fresh("V", AIS); c = fresh("c", SEQ); key = fresh("key", SEQ); k = fresh("k", INT); v = (pf, ci, t, D, V)
            tail = Drop(key, k); nx = At(tail, Len(pf)); h1 = fresh("h1", SEQ); vd = fresh("verdict", SEQ)
            kr = And(Le(I(0), k), Le(k, Len(key)), Le(I(0), nx))
            vf = And(chk(a, z, v), Implies(SlNil(Select(V, nx)), Eq(Len(SlSeq(Select(V, nx))), I(0))), Implies(SlNil(t), Eq(Len(SlSeq(t)), I(0))))
            out.append(Lemma("a validated last element tells the truth" + nm, Implies(And(kr, vf, last_ok(a, v, tail), bind(a, c, v, Empty(), nx), look_def(a, c, tail)), Eq(app("look", I(a), c, tail), verdict(a, v)))))
            nk = Add(k, Len(pf), I(1))
            out.append(Lemma("a validated inner element passes the verdict of the rest on" + nm, Implies(And(kr, vf, step_ok(a, v, key, k), bind(a, c, v, h1, nx), look_def(a, c, tail), Eq(Len(h1), I(z)), Eq(app("look", I(a), h1, Drop(key, nk)), vd)), Eq(app("look", I(a), c, tail), vd))))
            out.append(Lemma("a validated proof is one MustKeyWithTerminal can read" + nm, Implies(And(kr, vf, last_ok(a, v, tail)), And(*last_fine(a, v).args))))
    return out
