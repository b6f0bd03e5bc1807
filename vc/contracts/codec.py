"""C06: path-key codecs.  Spec functions are defined pointwise; the lemmas over them are proved as obligations."""
from driver import *
TR = M + "trie."

declare("unp16", (SEQ,), SEQ); declare("pk16", (SEQ,), SEQ); declare("unp2", (SEQ,), SEQ); declare("pk2", (SEQ,), SEQ)
declare("val16", (SEQ,), BOOL); declare("val2", (SEQ,), BOOL)
axiom("unp16-def", "(forall ((s SeqI)) (! (= (lenI (unp16 s)) (* 2 (lenI s))) :pattern ((unp16 s))))", "unp16")
axiom("unp16-at", "(forall ((s SeqI) (i Int)) (! (=> (and (<= 0 i) (< i (* 2 (lenI s)))) (= (atI (unp16 s) i) (ite (= (mod i 2) 0) (div (atI s (div i 2)) 16) (mod (atI s (div i 2)) 16)))) :pattern ((atI (unp16 s) i))))", "unp16", "atI")
axiom("pk16-def", "(forall ((s SeqI)) (! (= (lenI (pk16 s)) (div (+ 1 (lenI s)) 2)) :pattern ((pk16 s))))", "pk16")
axiom("pk16-at", "(forall ((s SeqI) (i Int)) (! (=> (and (val16 s) (<= 0 i) (< (* 2 i) (lenI s))) (= (atI (pk16 s) i) (+ (* 16 (atI s (* 2 i))) (ite (< (+ 1 (* 2 i)) (lenI s)) (atI s (+ 1 (* 2 i))) 0)))) :pattern ((atI (pk16 s) i))))", "pk16", "atI")
axiom("val16-def", "(forall ((s SeqI) (i Int)) (! (=> (and (val16 s) (<= 0 i) (< i (lenI s))) (<= (atI s i) 15)) :pattern ((val16 s) (atI s i))))", "val16")
declare("bad16", (SEQ,), INT)
axiom("val16-bad", "(forall ((s SeqI)) (! (or (val16 s) (and (<= 0 (bad16 s)) (< (bad16 s) (lenI s)) (> (atI s (bad16 s)) 15))) :pattern ((val16 s))))", "val16")
axiom("unp2-def", "(forall ((s SeqI)) (! (= (lenI (unp2 s)) (* 8 (lenI s))) :pattern ((unp2 s))))", "unp2")
axiom("unp2-at", "(forall ((s SeqI) (i Int)) (! (=> (and (<= 0 i) (< i (* 8 (lenI s)))) (= (atI (unp2 s) i) (ite (bit (atI s (div i 8)) (- 7 (mod i 8))) 1 0))) :pattern ((atI (unp2 s) i))))", "unp2", "atI")
axiom("pk2-def", "(forall ((s SeqI)) (! (= (lenI (pk2 s)) (div (+ 7 (lenI s)) 8)) :pattern ((pk2 s))))", "pk2")
axiom("pk2-bit", "(forall ((s SeqI) (i Int) (b Int)) (! (=> (and (val2 s) (<= 0 i) (< (* 8 i) (lenI s)) (<= 0 b) (< b 8)) (= (bit (atI (pk2 s) i) b) (and (< (+ (* 8 i) (- 7 b)) (lenI s)) (= (atI s (+ (* 8 i) (- 7 b))) 1)))) :pattern ((bit (atI (pk2 s) i) b))))", "pk2", "atI", "bit")
axiom("val2-def", "(forall ((s SeqI) (i Int)) (! (=> (and (val2 s) (<= 0 i) (< i (lenI s))) (<= (atI s i) 1)) :pattern ((val2 s) (atI s i))))", "val2")
declare("bad2", (SEQ,), INT)
axiom("val2-bad", "(forall ((s SeqI)) (! (or (val2 s) (and (<= 0 (bad2 s)) (< (bad2 s) (lenI s)) (> (atI s (bad2 s)) 1))) :pattern ((val2 s))))", "val2")

def Unp16(s): return app("unp16", s)
def Pk16(s): return app("pk16", s)
def Unp2(s): return app("unp2", s)
def Pk2(s): return app("pk2", s)
def Val(a, s): return TRUE if a == 255 else app("val16", s) if a == 15 else app("val2", s)
def Enc(a, s):
    """the encoding of a non-empty symbol sequence"""
    if a == 255: return s
    if a == 15: return Cat(Unit(Mod(Len(s), 2)), Pk16(s))
    return Cat(Unit(Mod(Sub(8, Mod(Len(s), 8)), 8)), Pk2(s))
def Unp(a, s): return s if a == 255 else Unp16(s) if a == 15 else Unp2(s)
def Pk(a, s): return s if a == 255 else Pk16(s) if a == 15 else Pk2(s)

def ext_mention(a, u, c, e):
    """terms for the byte-by-byte comparison of c with e, an encoding of u"""
    if a == 255: return TRUE
    d = app("diffI", c, e); x, y = app("atI", c, d), app("atI", e, d)
    h = [Mention(x, y, app("atI", Pk(a, u), Sub(d, 1)), app("atI", Pk(a, u), d))]
    if a == 1:
        b = app("bitdiff", x, y)
        h.append(Mention(app("byteeq", x, y), app("bit", x, b), app("bit", y, b), app("bit", app("atI", Pk(a, u), Sub(d, 1)), b), app("bit", app("atI", Pk(a, u), d), b),
            app("bit", app("atI", e, Div(d, 1)), b)))
    return And(*h)
def codec_hints(ctx, st, cur, ints):
    """loop facts of the codecs, by role: an accumulator grows by what the spec function gives for the part of the input seen so far"""
    ex = ctx.ex
    if ctx.fn is None or not ctx.fn["name"].startswith(TR): return []
    out = []
    accs = []
    for r, t, c in ctx.phis:
        if t == "[]byte" and isinstance(cur[r], Sl): accs.append((r, cur[r], ctx.entry[r]))
    srcs = []
    for (fid, r), v in ctx.st0.env.items():
        if fid == ctx.fid and isinstance(v, Sl) and v.k == "I" and r not in cur: srcs.append((r, v))
    regs = []
    for (fid, r), v in ctx.st0.env.items():
        if fid == ctx.fid and isinstance(v, T) and v.sort == INT and v.op in ("atI", "ite", "var", "mod"): regs.append((r, v))
    idx = [(r, c) for r, c, e in ints] + [(r + "+1", Add(c, 1)) for r, c, e in ints]
    for an, a, e in accs:
        ec = ex.content(ctx.st0, e); ac = ex.content(st, a)
        for sn, s in srcs:
            sc = ex.content(st, s)
            for n, i in idx:
                # the accumulator after i elements of the source
                out.append(("%s=unp16(%s[:%s])" % (an, sn, n), Eq(ac, Cat(ec, Take(Unp16(sc), Mul(2, i))))))
                out.append(("%s=unp2(%s[:%s])" % (an, sn, n), Eq(ac, Cat(ec, Take(Unp2(sc), Mul(8, i))))))
                k = bvar("k", INT)
                # packed: prefix kept, every packed byte in place (the input seen so far is valid)
                out.append(("%s=len pk16 %s %s" % (an, sn, n), Eq(Len(ac), Add(Len(ec), Div(Add(i, 1), 2)))))
                out.append(("%s=len pk2 %s %s" % (an, sn, n), Eq(Len(ac), Add(Len(ec), Div(Add(i, 7), 8)))))
                out.append(("%s prefix" % an, And(Le(Len(ec), Len(ac)), Eq(Take(ac, Len(ec)), ec))))
                out.append(("%s=pk16 %s %s" % (an, sn, n), Forall([k], Implies(And(Le(Len(ec), k), Lt(Mul(2, Sub(k, Len(ec))), i)),
                    Eq(At(ac, k), Add(Mul(16, At(sc, Mul(2, Sub(k, Len(ec))))), Ite(Lt(Add(Mul(2, Sub(k, Len(ec))), 1), Len(sc)), At(sc, Add(Mul(2, Sub(k, Len(ec))), 1)), I(0))))), [At(ac, k)])))
                b = bvar("b", INT)
                out.append(("%s=pk2 %s %s" % (an, sn, n), Forall([k, b], Implies(And(Le(Len(ec), k), Lt(Mul(8, Sub(k, Len(ec))), i), Le(I(0), b), Lt(b, I(8))),
                    Eq(app("bit", At(ac, k), b), And(Lt(Add(Mul(8, Sub(k, Len(ec))), Sub(7, b)), Len(sc)), Eq(At(sc, Add(Mul(8, Sub(k, Len(ec))), Sub(7, b))), I(1))))),
                    [app("bit", At(ac, k), b)])))
        # bits of one byte, most significant first
        for rn, x in regs:
            for r, c, en in ints:
                for n2, cnt in (("7-" + r, Sub(7, c)), (r, c)):
                    out.append(("%s=bits of %s %s" % (an, rn, n2), Eq(ac, Cat(ec, Take(Unp2(Unit(x)), cnt)))))
    # symbols seen so far are in range
    for sn, s in srcs:
        sc = ex.content(st, s)
        for n, i in idx:
            k = bvar("k", INT)
            for lim in (15, 1):
                out.append(("%s[:%s]<=%d" % (sn, n, lim), Forall([k], Implies(And(Le(I(0), k), Lt(k, i), Lt(k, Len(sc))), Le(At(sc, k), I(lim))), [At(sc, k)])))
                for rn, x in regs:
                    out.append(("%s[%s:+%s]<=%d" % (sn, rn, n, lim), Forall([k], Implies(And(Le(x, k), Lt(k, Add(x, i)), Lt(k, Len(sc))), Le(At(sc, k), I(lim))), [At(sc, k)])))
            # everything seen so far is zero (padding check)
            for r, c, e in ints:
                out.append(("%s[%s0:%s]=0" % (sn, r, r), Forall([k], Implies(And(Le(e, k), Lt(k, c)), Eq(At(sc, k), I(0))), [At(sc, k)])))
    # a byte assembled bit by bit from the most significant bit
    bytesphi = [(r, cur[r]) for r, t, c in ctx.phis if t in ("byte", "uint8") and isinstance(cur[r], T)]
    for bn, c in bytesphi:
        for sn, s in srcs:
            sc = ex.content(st, s)
            for r, j, e in ints:
                if any(j is x for _, x in bytesphi): continue
                for rn, x in regs:
                    b = bvar("b", INT)
                    out.append(("%s bits %s+%s of %s" % (bn, rn, r, sn), Forall([b], Implies(And(Le(I(0), b), Lt(b, I(8))),
                        Eq(app("bit", c, b), And(Lt(Sub(7, b), j), Lt(Add(x, Sub(7, b)), Len(sc)), Eq(At(sc, Add(x, Sub(7, b))), I(1))))), [app("bit", c, b)])))
    return out

AR = (255, 15, 1)
class CodecSpec(Spec):
    def configure(self, ex): ex.hints.append(codec_hints)
class UnpackBytes(CodecSpec):
    fn = TR + "UnpackBytes"
    def __init__(s, a): s.a = a; s.label = "UnpackBytes[arity %d]" % (a + 1)
    def setup(s, ex, st):
        s.src = sl_param(ex, st, "src")
        return [s.src, I(s.a)]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Eq(ex.content(st, r[0]), Unp(s.a, s.src.seq)), "result is the unpacked key", "")
class UnpackBad(CodecSpec):
    fn = TR + "UnpackBytes"; label = "UnpackBytes[invalid arity]"; may_have_no_exit = True
    def configure(s, ex): ex.fail = lambda *a: None   # a panic is the specified outcome
    def setup(s, ex, st):
        a = int_param(ex, "arity", "byte"); ex.assume(st, And(*[Ne(a, I(x)) for x in AR]))
        return [sl_param(ex, st, "src"), a]
    def check(s, ex, st, r): ex.oblige(st, "post", FALSE, "an invalid arity never yields a result", "")
class Encode(CodecSpec):
    def __init__(s, fn, a, pack): s.fn = TR + fn; s.a = a; s.pack = pack; s.label = "%s[arity %d]" % (fn, a + 1)
    def setup(s, ex, st):
        s.src = sl_param(ex, st, "unpacked")
        return [s.src, I(s.a)]
    def check(s, ex, st, r):
        c = ex.content(st, r[0]); e = ex.as_ref(st, r[1]); u = s.src.seq
        ok = Eq(e, NULL)
        spec = Pk(s.a, u) if s.pack else Enc(s.a, u)
        ex.oblige(st, "post", Implies(Eq(Len(u), I(0)), And(ok, Eq(Len(c), I(0)))), "the empty sequence has the empty encoding", "")
        ex.oblige(st, "post", Implies(Val(s.a, u), ok), "a valid sequence is accepted", "")
        ex.oblige(st, "post", Implies(ok, Val(s.a, u)), "a sequence with out-of-range symbols is rejected", "")
        ex.oblige(st, "post", Implies(And(ok, Lt(I(0), Len(u)), ext_mention(s.a, u, c, spec)), Eq(c, spec)), "result is the encoding", "")
class EncodeBad(CodecSpec):
    def __init__(s, fn): s.fn = TR + fn; s.label = fn + "[invalid arity]"
    def setup(s, ex, st):
        a = int_param(ex, "arity", "byte"); ex.assume(st, And(*[Ne(a, I(x)) for x in AR]))
        s.src = sl_param(ex, st, "src")
        ex.assume(st, Lt(I(0), s.src.len))
        return [s.src, a]
    def check(s, ex, st, r): ex.oblige(st, "post", Ne(ex.as_ref(st, r[1]), NULL), "an invalid arity is refused", "")
class Decode(CodecSpec):
    fn = TR + "DecodeToUnpackedBytes"
    def __init__(s, a): s.a = a; s.label = "DecodeToUnpackedBytes[arity %d]" % (a + 1)
    def setup(s, ex, st):
        s.src = sl_param(ex, st, "encoded")
        return [s.src, I(s.a)]
    def check(s, ex, st, r):
        c = ex.content(st, r[0]); err = ex.as_ref(st, r[1]); e = s.src.seq
        ok = Eq(err, NULL)
        ex.oblige(st, "post", Implies(Eq(Len(e), I(0)), And(ok, Eq(Len(c), I(0)))), "the empty encoding is the empty sequence", "")
        ex.oblige(st, "post", Implies(And(ok, Lt(I(0), Len(e)), ext_mention(s.a, c, Enc(s.a, c), e), ext_mention(s.a, c, e, Enc(s.a, c))), And(Val(s.a, c), Eq(Enc(s.a, c), e))), "an accepted string is the encoding of the result", "")
        u = fresh("u", SEQ)
        ex.oblige(st, "post", Implies(And(Lt(I(0), Len(u)), Val(s.a, u), Eq(Enc(s.a, u), e)), ok), "every encoding is accepted", "")

class Lemma:
    """an obligation over spec functions only"""
    def __init__(s, label, goal): s.label = label; s.goal = goal

def lemmas():
    s = fresh("s", SEQ); t = fresh("t", SEQ)
    out = []
    for a in AR:
        d = app("diffI", s, t)
        e1, e2 = Enc(a, s), Enc(a, t)
        n = 2 if a == 15 else 8
        h = Mention(app("dropI", e1, I(1)), app("dropI", e2, I(1)), app("atI", e1, I(0)), app("atI", e2, I(0)), At(Pk(a, s), Div(d, n)), At(Pk(a, t), Div(d, n)),
                    app("bit", At(Pk(a, s), Div(d, n)), Sub(7, Mod(d, 8))), app("bit", At(Pk(a, t), Div(d, n)), Sub(7, Mod(d, 8)))) if a != 255 else TRUE
        out.append(Lemma("encoding is injective [arity %d]" % (a + 1), Implies(And(Val(a, s), Val(a, t), Eq(e1, e2), h), Eq(s, t))))
        out.append(Lemma("unpacked keys are valid [arity %d]" % (a + 1), Val(a, Unp(a, s))))
        k = app("diffI", Pk(a, Unp(a, s)), s)
        if a == 1:
            b = bvar("b", INT); i = bvar("i", INT)
            x = Pk(a, Unp(a, s))
            out.append(Lemma("packing inverts unpacking, bitwise [arity 2]", Implies(Val(a, Unp(a, s)), Forall([i, b], Implies(And(Le(I(0), i), Lt(i, Len(s)), Le(I(0), b), Lt(b, I(8))),
                   Eq(app("bit", At(x, i), b), app("bit", At(s, i), b)))))))
            bd = app("bitdiff", At(x, k), At(s, k))
            out.append(Lemma("packing inverts unpacking [arity 2]", Implies(And(Val(a, Unp(a, s)), Forall([i, b], Implies(And(Le(I(0), i), Lt(i, Len(s)), Le(I(0), b), Lt(b, I(8))),
                   Eq(app("bit", At(x, i), b), app("bit", At(s, i), b))), [app("bit", At(x, i), b)]), Mention(app("byteeq", At(x, k), At(s, k)), app("bit", At(x, k), bd))), Eq(x, s))))
        else: out.append(Lemma("packing inverts unpacking [arity %d]" % (a + 1), Implies(Val(a, Unp(a, s)), Eq(Pk(a, Unp(a, s)), s))))
    return out

def specs():
    r = []
    for a in AR: r += [UnpackBytes(a), Encode("EncodeUnpackedBytes", a, False), Encode("PackUnpackedBytes", a, True), Decode(a)]
    return r + [UnpackBad(), EncodeBad("EncodeUnpackedBytes"), EncodeBad("PackUnpackedBytes"), EncodeBad("DecodeToUnpackedBytes")]
