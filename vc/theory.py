"""Background theory: sequences (byte strings, slices of slices, slices of references), bytes, maps, references.
Every axiom is listed here; none depends on the code under verification."""
from terms import *
import terms

AXIOMS = []   # (set of trigger symbols, smt text, name) ; included when all of the symbols occur
def axiom(name, text, *syms):
    AXIOMS.append((name, frozenset(syms), text))

ELEM = {SEQ: INT, BSEQ: SL, RSEQ: REF}
SUF = {SEQ: "I", BSEQ: "B", RSEQ: "R"}
# SL: a slice value {nil flag, content} used as element of [][]byte and of maps to []byte
declare("mksl", (BOOL, SEQ), SL); declare("slnil", (SL,), BOOL); declare("slseq", (SL,), SEQ)

for S, E in ELEM.items():
    s = SUF[S]
    declare("len" + s, (S,), INT); terms.RANGES["len" + s] = (0, None)
    declare("at" + s, (S, INT), E)
    declare("cat" + s, (S, S), S)
    declare("take" + s, (S, INT), S)
    declare("drop" + s, (S, INT), S)
    declare("unit" + s, (E,), S)
    declare("empty" + s, (), S)
    declare("upd" + s, (S, INT, E), S)
    declare("rep" + s, (INT, E), S)
    declare("seqeq" + s, (S, S), BOOL)
    declare("diff" + s, (S, S), INT)
terms.RANGES["atI"] = (0, 255)

def Empty(S=SEQ): return app("empty" + SUF[S])

def Len(a):
    s = SUF[a.sort]
    if a.op == "cat" + s: return Add(Len(a.args[0]), Len(a.args[1]))
    if a.op == "unit" + s: return I(1)
    if a.op == "empty" + s: return I(0)
    if a.op == "upd" + s: return Len(a.args[0])
    if a.op == "take" + s:
        n = a.args[1]
        if n.op == "int" and Len(a.args[0]).op == "int" and 0 <= n.args[0] <= Len(a.args[0]).args[0]: return n
    if a.op == "rep" + s and a.args[0].op == "int" and a.args[0].args[0] >= 0: return a.args[0]
    if a.op == "ite":
        l1, l2 = Len(a.args[1]), Len(a.args[2])
        return Ite(a.args[0], l1, l2)
    return app("len" + s, a)

def At(a, i):
    s = SUF[a.sort]
    if isinstance(i, int): i = I(i)
    if a.op == "unit" + s and i is I(0): return a.args[0]
    if a.op == "cat" + s:
        l = Len(a.args[0])
        d = Sub(i, l)
        if d.op == "int":
            if d.args[0] >= 0: return At(a.args[1], d)
        lo, hi = rng(d)
        if hi is not None and hi < 0: return At(a.args[0], i)
    if a.op == "upd" + s:
        e = Eq(a.args[1], i)
        if e is TRUE and False: return a.args[2]
        if e is FALSE: return At(a.args[0], i)
        if a.args[1].op == "int" and i.op == "int" and a.args[1] is not i: return At(a.args[0], i)
        if a.args[1] is i and i.op == "int" and Len(a).op == "int" and 0 <= i.args[0] < Len(a).args[0]: return a.args[2]
    if a.op == "rep" + s and i.op == "int" and a.args[0].op == "int" and 0 <= i.args[0] < a.args[0].args[0]: return a.args[1]
    return app("at" + s, a, i)

def Cat(*xs):
    S = xs[0].sort; s = SUF[S]
    flat = []
    def f(x):
        if x.op == "cat" + s: f(x.args[0]); f(x.args[1])
        elif x.op == "empty" + s: pass
        else: flat.append(x)
    for x in xs: f(x)
    if not flat: return Empty(S)
    r = flat[-1]
    for x in flat[-2::-1]: r = app("cat" + s, x, r)
    return r

def Unit(x, S=SEQ): return app("unit" + SUF[S], x)

def Take(a, n):
    if isinstance(n, int): n = I(n)
    s = SUF[a.sort]
    if n is I(0): return Empty(a.sort)
    if n is Len(a): return a
    if a.op == "take" + s:
        # take(take(x,m),n) = take(x,n) for n<=m
        if Le(n, a.args[1]) is TRUE: return Take(a.args[0], n)
    if a.op == "cat" + s:
        l = Len(a.args[0])
        if n is l: return a.args[0]
        d = Sub(n, l); lo, hi = rng(d)
        if lo is not None and lo >= 0: return Cat(a.args[0], Take(a.args[1], d))
        if hi is not None and hi <= 0: return Take(a.args[0], n)
    return app("take" + s, a, n)

def Drop(a, n):
    if isinstance(n, int): n = I(n)
    s = SUF[a.sort]
    if n is I(0): return a
    if n is Len(a): return Empty(a.sort)
    if a.op == "drop" + s:
        lo1 = rng(n)[0]; lo2 = rng(a.args[1])[0]
        if lo1 is not None and lo1 >= 0 and lo2 is not None and lo2 >= 0: return Drop(a.args[0], Add(n, a.args[1]))
    if a.op == "cat" + s:
        l = Len(a.args[0])
        if n is l: return a.args[1]
        d = Sub(n, l); lo, hi = rng(d)
        if lo is not None and lo >= 0: return Drop(a.args[1], d)
        if hi is not None and hi <= 0: return Cat(Drop(a.args[0], n), a.args[1])
    return app("drop" + s, a, n)

def Slice(a, lo, hi):
    """a[lo:hi]"""
    return Take(Drop(a, lo), Sub(hi, lo))

def Upd(a, i, x):
    if a.op.startswith("unit") and i is I(0): return app(a.op, x)
    return app("upd" + SUF[a.sort], a, i, x)
def Rep(n, x, S=SEQ):
    if n is I(0): return Empty(S)
    return app("rep" + SUF[S], n, x)
def MkSl(n, s): return app("mksl", n, s)
def SlNil(x):
    if x.op == "mksl": return x.args[0]
    if x.op == "ite": return Ite(x.args[0], SlNil(x.args[1]), SlNil(x.args[2]))
    return app("slnil", x)
def SlSeq(x):
    if x.op == "mksl": return x.args[1]
    if x.op == "ite": return Ite(x.args[0], SlSeq(x.args[1]), SlSeq(x.args[2]))
    return app("slseq", x)
terms.SIMP["slnil"] = SlNil; terms.SIMP["slseq"] = SlSeq
for S in ELEM:
    s = SUF[S]
    terms.SIMP["len" + s] = Len; terms.SIMP["at" + s] = At; terms.SIMP["cat" + s] = Cat
    terms.SIMP["take" + s] = Take; terms.SIMP["drop" + s] = Drop

def SeqEqG(a, b): return Eq(a, b)

def lit(bs): return Cat(*[Unit(I(b)) for b in bs]) if bs else Empty()

def seq_axioms(S):
    s = SUF[S]; E = ELEM[S]
    d = dict(S=S, s=s, E=E)
    def ax(name, text, *syms):
        axiom(name + s, text % d, *[x % d for x in syms])
    ax("len>=0", "(forall ((a %(S)s)) (! (>= (len%(s)s a) 0) :pattern ((len%(s)s a))))", "len%(s)s")
    ax("len0", "(forall ((a %(S)s)) (! (=> (= (len%(s)s a) 0) (= a empty%(s)s)) :pattern ((len%(s)s a))))", "len%(s)s")
    ax("lenempty", "(= (len%(s)s empty%(s)s) 0)", "len%(s)s")
    ax("lencat", "(forall ((a %(S)s) (b %(S)s)) (! (= (len%(s)s (cat%(s)s a b)) (+ (len%(s)s a) (len%(s)s b))) :pattern ((cat%(s)s a b))))", "cat%(s)s")
    ax("atcat", "(forall ((a %(S)s) (b %(S)s) (i Int)) (! (= (at%(s)s (cat%(s)s a b) i) (ite (< i (len%(s)s a)) (at%(s)s a i) (at%(s)s b (- i (len%(s)s a))))) :pattern ((at%(s)s (cat%(s)s a b) i))))", "cat%(s)s", "at%(s)s")
    ax("lentake", "(forall ((a %(S)s) (n Int)) (! (=> (and (<= 0 n) (<= n (len%(s)s a))) (= (len%(s)s (take%(s)s a n)) n)) :pattern ((take%(s)s a n))))", "take%(s)s")
    ax("attake", "(forall ((a %(S)s) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n (len%(s)s a))) (= (at%(s)s (take%(s)s a n) i) (at%(s)s a i))) :pattern ((at%(s)s (take%(s)s a n) i)) :pattern ((at%(s)s a i) (take%(s)s a n))))", "take%(s)s", "at%(s)s")
    ax("lendrop", "(forall ((a %(S)s) (n Int)) (! (=> (and (<= 0 n) (<= n (len%(s)s a))) (= (len%(s)s (drop%(s)s a n)) (- (len%(s)s a) n))) :pattern ((drop%(s)s a n))))", "drop%(s)s")
    ax("atdrop", "(forall ((a %(S)s) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< i (- (len%(s)s a) n))) (= (at%(s)s (drop%(s)s a n) i) (at%(s)s a (+ n i)))) :pattern ((at%(s)s (drop%(s)s a n) i))))", "drop%(s)s", "at%(s)s")
    ax("atdrop2", "(forall ((a %(S)s) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= n i) (< i (len%(s)s a))) (= (at%(s)s (drop%(s)s a n) (- i n)) (at%(s)s a i))) :pattern ((at%(s)s a i) (drop%(s)s a n))))", "drop%(s)s", "at%(s)s")
    ax("take0", "(forall ((a %(S)s)) (! (= (take%(s)s a 0) empty%(s)s) :pattern ((take%(s)s a 0))))", "take%(s)s")
    ax("takeall", "(forall ((a %(S)s) (n Int)) (! (=> (= n (len%(s)s a)) (= (take%(s)s a n) a)) :pattern ((take%(s)s a n))))", "take%(s)s")
    ax("drop0", "(forall ((a %(S)s) (n Int)) (! (=> (= n 0) (= (drop%(s)s a n) a)) :pattern ((drop%(s)s a n))))", "drop%(s)s")
    ax("taketake", "(forall ((a %(S)s) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n) (<= n (len%(s)s a))) (= (take%(s)s (take%(s)s a n) m) (take%(s)s a m))) :pattern ((take%(s)s (take%(s)s a n) m))))", "take%(s)s")
    ax("dropdrop", "(forall ((a %(S)s) (n Int) (m Int)) (! (=> (and (<= 0 n) (<= 0 m) (<= (+ n m) (len%(s)s a))) (= (drop%(s)s (drop%(s)s a n) m) (drop%(s)s a (+ n m)))) :pattern ((drop%(s)s (drop%(s)s a n) m))))", "drop%(s)s")
    ax("droptake", "(forall ((a %(S)s) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n) (<= n (len%(s)s a))) (= (drop%(s)s (take%(s)s a n) m) (take%(s)s (drop%(s)s a m) (- n m)))) :pattern ((drop%(s)s (take%(s)s a n) m))))", "drop%(s)s", "take%(s)s")
    ax("takecat", "(forall ((a %(S)s) (b %(S)s) (n Int)) (! (and (=> (and (<= 0 n) (<= n (len%(s)s a))) (= (take%(s)s (cat%(s)s a b) n) (take%(s)s a n))) (=> (and (<= (len%(s)s a) n) (<= n (+ (len%(s)s a) (len%(s)s b)))) (= (take%(s)s (cat%(s)s a b) n) (cat%(s)s a (take%(s)s b (- n (len%(s)s a))))))) :pattern ((take%(s)s (cat%(s)s a b) n))))", "take%(s)s", "cat%(s)s")
    ax("dropcat", "(forall ((a %(S)s) (b %(S)s) (n Int)) (! (and (=> (and (<= 0 n) (<= n (len%(s)s a))) (= (drop%(s)s (cat%(s)s a b) n) (cat%(s)s (drop%(s)s a n) b))) (=> (and (<= (len%(s)s a) n) (<= n (+ (len%(s)s a) (len%(s)s b)))) (= (drop%(s)s (cat%(s)s a b) n) (drop%(s)s b (- n (len%(s)s a)))))) :pattern ((drop%(s)s (cat%(s)s a b) n))))", "drop%(s)s", "cat%(s)s")
    ax("cattakedrop", "(forall ((a %(S)s) (n Int)) (! (=> (and (<= 0 n) (<= n (len%(s)s a))) (= (cat%(s)s (take%(s)s a n) (drop%(s)s a n)) a)) :pattern ((take%(s)s a n) (drop%(s)s a n))))", "drop%(s)s", "take%(s)s")
    ax("catassoc", "(forall ((a %(S)s) (b %(S)s) (c %(S)s)) (! (= (cat%(s)s (cat%(s)s a b) c) (cat%(s)s a (cat%(s)s b c))) :pattern ((cat%(s)s (cat%(s)s a b) c))))", "cat%(s)s")
    ax("catempty", "(forall ((a %(S)s)) (! (and (= (cat%(s)s empty%(s)s a) a) (= (cat%(s)s a empty%(s)s) a)) :pattern ((cat%(s)s empty%(s)s a)) :pattern ((cat%(s)s a empty%(s)s))))", "cat%(s)s")
    g = "(and (<= 0 x) (< x 256))" if S == SEQ else "true"
    d["g"] = g
    ax("unit", "(forall ((x %(E)s)) (! (and (= (len%(s)s (unit%(s)s x)) 1) (=> %(g)s (= (at%(s)s (unit%(s)s x) 0) x))) :pattern ((unit%(s)s x))))", "unit%(s)s")
    ax("upd", "(forall ((a %(S)s) (i Int) (x %(E)s)) (! (and (= (len%(s)s (upd%(s)s a i x)) (len%(s)s a)) (=> (and %(g)s (<= 0 i) (< i (len%(s)s a))) (= (at%(s)s (upd%(s)s a i x) i) x))) :pattern ((upd%(s)s a i x))))", "upd%(s)s")
    ax("atupd", "(forall ((a %(S)s) (i Int) (x %(E)s) (j Int)) (! (=> (not (= i j)) (= (at%(s)s (upd%(s)s a i x) j) (at%(s)s a j))) :pattern ((at%(s)s (upd%(s)s a i x) j)) :pattern ((at%(s)s a j) (upd%(s)s a i x))))", "upd%(s)s")
    ax("rep", "(forall ((n Int) (x %(E)s)) (! (=> (<= 0 n) (= (len%(s)s (rep%(s)s n x)) n)) :pattern ((rep%(s)s n x))))", "rep%(s)s")
    ax("atrep", "(forall ((n Int) (x %(E)s) (i Int)) (! (=> (and %(g)s (<= 0 i) (< i n)) (= (at%(s)s (rep%(s)s n x) i) x)) :pattern ((at%(s)s (rep%(s)s n x) i))))", "rep%(s)s")
    ax("seqeq", "(forall ((a %(S)s) (b %(S)s)) (! (and (=> (seqeq%(s)s a b) (= a b)) (or (seqeq%(s)s a b) (not (= (len%(s)s a) (len%(s)s b))) (and (<= 0 (diff%(s)s a b)) (< (diff%(s)s a b) (len%(s)s a)) (not (= (at%(s)s a (diff%(s)s a b)) (at%(s)s b (diff%(s)s a b))))))) :pattern ((seqeq%(s)s a b))))", "seqeq%(s)s")
for S in ELEM: seq_axioms(S)
axiom("byterange", "(forall ((a SeqI) (i Int)) (! (and (<= 0 (atI a i)) (< (atI a i) 256)) :pattern ((atI a i))))", "atI")

# ---- bytes: bit-level functions on integers; validated exhaustively by validate.py on every run
declare("bit", (INT, INT), BOOL)       # bit i of a byte
declare("bor", (INT, INT), INT); declare("band", (INT, INT), INT); declare("bxor", (INT, INT), INT)
declare("bandnot", (INT, INT), INT)
declare("shl1", (INT,), INT)           # 1 << i for 0<=i<8, 0 for i>=8 (as byte)
declare("shlB", (INT, INT), INT)       # byte << n (mod 256)
declare("shrB", (INT, INT), INT)       # byte >> n
for n in ("bor", "band", "bxor", "bandnot"): terms.RANGES[n] = (0, None)
terms.RANGES["shl1"] = (0, 128); terms.RANGES["shlB"] = (0, 255); terms.RANGES["shrB"] = (0, 255)
axiom("bor-range", "(forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< x 256) (<= 0 y) (< y 256)) (and (<= 0 (bor x y)) (< (bor x y) 256) (>= (bor x y) x) (>= (bor x y) y))) :pattern ((bor x y))))", "bor")
axiom("bor-bit", "(forall ((x Int) (y Int) (i Int)) (! (=> (and (<= 0 x) (< x 256) (<= 0 y) (< y 256) (<= 0 i) (< i 8)) (= (bit (bor x y) i) (or (bit x i) (bit y i)))) :pattern ((bit (bor x y) i))))", "bor", "bit")
axiom("bor-add16", "(forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< x 256) (= (mod x 16) 0) (<= 0 y) (< y 16)) (= (bor x y) (+ x y))) :pattern ((bor x y))))", "bor")
axiom("bor-0", "(forall ((x Int)) (! (=> (and (<= 0 x) (< x 256)) (and (= (bor x 0) x) (= (bor 0 x) x))) :pattern ((bor x 0)) :pattern ((bor 0 x))))", "bor")
axiom("shl1-def", "(and (= (shl1 0) 1) (= (shl1 1) 2) (= (shl1 2) 4) (= (shl1 3) 8) (= (shl1 4) 16) (= (shl1 5) 32) (= (shl1 6) 64) (= (shl1 7) 128) (forall ((i Int)) (! (=> (and (<= 0 i) (< i 8)) (and (<= 1 (shl1 i)) (<= (shl1 i) 128))) :pattern ((shl1 i)))))", "shl1")
axiom("shl1-bit", "(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i 8) (<= 0 j) (< j 8)) (= (bit (shl1 i) j) (= i j))) :pattern ((bit (shl1 i) j))))", "shl1", "bit")
axiom("band-shl1", "(forall ((x Int) (i Int)) (! (=> (and (<= 0 x) (< x 256) (<= 0 i) (< i 8)) (and (= (not (= (band x (shl1 i)) 0)) (bit x i)) (= (not (= (band (shl1 i) x) 0)) (bit x i)))) :pattern ((band x (shl1 i))) :pattern ((band (shl1 i) x))))", "band", "shl1")
axiom("band-range", "(forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< x 256) (<= 0 y) (< y 256)) (and (<= 0 (band x y)) (<= (band x y) x) (<= (band x y) y))) :pattern ((band x y))))", "band")
axiom("band-bit", "(forall ((x Int) (y Int) (i Int)) (! (=> (and (<= 0 x) (< x 256) (<= 0 y) (< y 256) (<= 0 i) (< i 8)) (= (bit (band x y) i) (and (bit x i) (bit y i)))) :pattern ((bit (band x y) i))))", "band", "bit")
axiom("bit-zero", "(forall ((i Int)) (! (=> (and (<= 0 i) (< i 8)) (not (bit 0 i))) :pattern ((bit 0 i))))", "bit")
axiom("bit-01", "(forall ((x Int) (i Int)) (! (=> (and (<= 0 x) (<= x 1) (<= 0 i) (< i 8)) (= (bit x i) (and (= x 1) (= i 0)))) :pattern ((bit x i))))", "bit")
axiom("bit-128", "(forall ((i Int)) (! (=> (and (<= 0 i) (< i 8)) (= (bit 128 i) (= i 7))) :pattern ((bit 128 i))))", "bit")
declare("byteeq", (INT, INT), BOOL); declare("bitdiff", (INT, INT), INT)
axiom("byteeq", "(forall ((x Int) (y Int)) (! (and (=> (byteeq x y) (= x y)) (or (byteeq x y) (not (and (<= 0 x) (< x 256) (<= 0 y) (< y 256))) (and (<= 0 (bitdiff x y)) (< (bitdiff x y) 8) (not (= (bit x (bitdiff x y)) (bit y (bitdiff x y))))))) :pattern ((byteeq x y))))", "byteeq")
axiom("shlB-bit", "(forall ((x Int) (n Int) (i Int)) (! (=> (and (<= 0 x) (< x 256) (<= 0 n) (<= 0 i) (< i 8)) (= (bit (shlB x n) i) (and (>= i n) (bit x (- i n))))) :pattern ((bit (shlB x n) i))))", "shlB", "bit")
axiom("shrB-bit", "(forall ((x Int) (n Int) (i Int)) (! (=> (and (<= 0 x) (< x 256) (<= 0 n) (<= 0 i) (< i 8)) (= (bit (shrB x n) i) (and (< (+ i n) 8) (bit x (+ i n))))) :pattern ((bit (shrB x n) i))))", "shrB", "bit")
axiom("shB-range", "(and (forall ((x Int) (n Int)) (! (and (<= 0 (shlB x n)) (< (shlB x n) 256)) :pattern ((shlB x n)))) (forall ((x Int) (n Int)) (! (and (<= 0 (shrB x n)) (< (shrB x n) 256)) :pattern ((shrB x n)))))")

# the constants that occur in masks
def bit_consts(c):
    return [(i, (c >> i) & 1 == 1) for i in range(8)]

def Bit(x, i):
    if x.op == "int" and i.op == "int": return B((x.args[0] >> i.args[0]) & 1)
    if i.op == "int" and i.args[0] == 0: return Not(Eq(Mod(x, 2), I(0)))
    return app("bit", x, i)
axiom("bit0", "(forall ((x Int)) (! (=> (and (<= 0 x) (< x 256)) (= (bit x 0) (not (= (mod x 2) 0)))) :pattern ((bit x 0))))", "bit")
terms.SIMP["bit"] = Bit

# ---- references
NULL = app("null") if declare("null", (), REF) and False else mk("null", (), REF)
FUNCS["null"] = ((), REF)
terms._DISTINCT.add("null")
declare("typ", (REF,), INT)            # dynamic type tag of the object a reference points to
declare("birth", (REF,), INT)
declare("emb", (REF, INT), REF)        # reference to an embedded struct field
declare("embbase", (REF,), REF); declare("embidx", (REF,), INT)
axiom("emb", "(forall ((r Ref) (k Int)) (! (and (= (embbase (emb r k)) r) (= (embidx (emb r k)) k) (not (= (emb r k) null)) (= (birth (emb r k)) (birth r))) :pattern ((emb r k))))", "emb")

def Emb(r, k): return app("emb", r, I(k))

# ---- finite maps: domains are arrays K -> Bool; cardinality
def card_sym(K): return "card_" + K
def declare_card(K):
    n = card_sym(K)
    if n in FUNCS: return
    A = Arr(K, BOOL)
    declare(n, (A,), INT); declare("cardwit_" + K, (A,), K); declare("cardwit2_" + K, (A,), K)
    terms.RANGES[n] = (0, None)
    d = dict(n=n, A=A, K=K)
    axiom("card>=0" + K, "(forall ((d %(A)s)) (! (>= (%(n)s d) 0) :pattern ((%(n)s d))))" % d, n)
    axiom("card0" + K, "(= (%(n)s ((as const %(A)s) false)) 0)" % d, n)
    axiom("card-store" + K, "(forall ((d %(A)s) (k %(K)s)) (! (and (=> (select d k) (= (%(n)s (store d k true)) (%(n)s d))) (=> (not (select d k)) (= (%(n)s (store d k true)) (+ 1 (%(n)s d))))) :pattern ((%(n)s (store d k true)))))" % d, n)
    axiom("card-remove" + K, "(forall ((d %(A)s) (k %(K)s)) (! (and (=> (select d k) (= (%(n)s (store d k false)) (- (%(n)s d) 1))) (=> (not (select d k)) (= (%(n)s (store d k false)) (%(n)s d)))) :pattern ((%(n)s (store d k false)))))" % d, n)
    axiom("card-mem" + K, "(forall ((d %(A)s) (k %(K)s)) (! (=> (select d k) (>= (%(n)s d) 1)) :pattern ((select d k) (%(n)s d))))" % d, n)
    axiom("card-wit" + K, "(forall ((d %(A)s)) (! (=> (>= (%(n)s d) 1) (select d (cardwit_%(K)s d))) :pattern ((%(n)s d))))" % d, n)
    axiom("card-wit2" + K, "(forall ((d %(A)s)) (! (=> (>= (%(n)s d) 2) (and (select d (cardwit2_%(K)s d)) (not (= (cardwit_%(K)s d) (cardwit2_%(K)s d))))) :pattern ((%(n)s d))))" % d, n)
    axiom("card-two" + K, "(forall ((d %(A)s) (k %(K)s)) (! (=> (and (select d k) (= (%(n)s d) 1)) (= k (cardwit_%(K)s d))) :pattern ((select d k) (%(n)s d))))" % d, n)

def Card(d):
    K, _ = arr_parts(d.sort)
    declare_card(K)
    if d.op == "constarr" and d.args[0] is FALSE: return I(0)
    return app(card_sym(K), d)

# ---- abstract value of a commitment (identity of the committed value); vnil: no commitment
declare("vnil", (), VAL)
VNIL = app("vnil")

# ---- mention(x): always true, uninterpreted; used to give the solvers a term to instantiate axioms with
for _s, _n in ((INT, "I"), (SEQ, "S"), (BOOL, "O"), (REF, "R"), (BSEQ, "B"), (RSEQ, "Q"), (SL, "L"), (VAL, "V")):
    declare("mention" + _n, (_s,), BOOL)
    axiom("mention" + _n, "(forall ((x %s)) (! (mention%s x) :pattern ((mention%s x))))" % (_s, _n, _n), "mention" + _n)
def Mention(*xs):
    m = {INT: "I", SEQ: "S", BOOL: "O", REF: "R", BSEQ: "B", RSEQ: "Q", SL: "L", VAL: "V"}
    return And(*[app("mention" + m[x.sort], x) for x in xs])
