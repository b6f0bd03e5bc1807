"""C14 (streams and dumps) and C22 (in-memory store); the contracts of the key/value interfaces used by generic code."""
from driver import *
from extern import *
import util
TR = M + "trie."
# a key/value collection being iterated or stored in a stream: itn pairs (itk(r,i), itv(r,i)) in some order
declare("itn", (REF,), INT); declare("itk", (REF, INT), SEQ); declare("itv", (REF, INT), SEQ)
terms.RANGES["itn"] = (0, None)
axiom("itn", "(forall ((r Ref)) (! (<= 0 (itn r)) :pattern ((itn r))))", "itn")
declare("encs", (REF, INT), SEQ)             # the encoding of the first i pairs
declare("encf", (REF, INT, SEQ), SEQ)        # the encoding of the pairs from i on, followed by a tail
declare("encp", (SEQ, SEQ), SEQ)             # the encoding of one pair
def Encp(k, v): return Cat(util.enc_bytes(k, 2), util.enc_bytes(v, 4))
k_, v_ = var("?k", SEQ), var("?v", SEQ)
axiom("encp-def", "(forall ((k SeqI) (v SeqI)) (! (= (encp k v) (catI (unitI (mod (lenI k) 256)) (catI (unitI (mod (div (lenI k) 256) 256)) (catI k (catI (unitI (mod (lenI v) 256)) (catI (unitI (mod (div (lenI v) 256) 256)) (catI (unitI (mod (div (lenI v) 65536) 256)) (catI (unitI (mod (div (lenI v) 16777216) 256)) v)))))))) :pattern ((encp k v))))", "encp")
axiom("encs-0", "(forall ((r Ref)) (! (= (encs r 0) emptyI) :pattern ((encs r 0))))", "encs")
axiom("encs-step", "(forall ((r Ref) (i Int)) (! (=> (and (<= 0 i) (< i (itn r))) (= (encs r (+ i 1)) (catI (encs r i) (encp (itk r i) (itv r i))))) :pattern ((encs r i) (itk r i))))", "encs")
axiom("encf-n", "(forall ((r Ref) (i Int) (t SeqI)) (! (=> (= i (itn r)) (= (encf r i t) t)) :pattern ((encf r i t))))", "encf")
axiom("encf-step", "(forall ((r Ref) (i Int) (t SeqI)) (! (=> (and (<= 0 i) (< i (itn r))) (= (encf r i t) (catI (encp (itk r i) (itv r i)) (encf r (+ i 1) t)))) :pattern ((encf r i t) (itk r i))))", "usestep")
# derived facts, proved as lemmas below from encf-step and encp-def; switched on by mentioning useparse
declare("useparse", (REF,), BOOL); declare("usestep", (), BOOL)
def parse_facts(r, i, t):
    R = app("encf", r, i, t); k, v = app("itk", r, i), app("itv", r, i)
    D = app("dropI", R, Add(Len(k), 2))
    return [Le(Add(Len(k), Len(v), 6), Len(R)), Eq(util.le_val(R, 2), Len(k)), Eq(app("takeI", app("dropI", R, I(2)), Len(k)), k),
            Eq(Len(D), Sub(Len(R), Add(Len(k), 2))), Eq(util.le_val(D, 4), Len(v)), Eq(app("takeI", app("dropI", D, I(4)), Len(v)), v),
            Eq(app("dropI", D, Add(Len(v), 4)), app("encf", r, Add(i, 1), t)), Eq(app("dropI", R, Add(Len(k), Len(v), 6)), app("encf", r, Add(i, 1), t))]
def _parse_axiom():
    r, i, t = var("?r", REF), var("?i", INT), var("?t", SEQ)
    f = And(*parse_facts(r, i, t))
    b = Implies(And(app("useparse", r), Le(I(0), i), Lt(i, app("itn", r)), Le(Len(app("itk", r, i)), I(65535)), Le(Len(app("itv", r, i)), I(2 ** 32 - 1))), f)
    axiom("encf-parse", tostr(Forall([r, i, t], b, [(app("encf", r, i, t), app("itk", r, i))])), "useparse")
_parse_axiom()
def lim(r):
    i = bvar("i", INT)
    return And(Forall([i], Le(Len(app("itk", r, i)), I(65535)), [app("itk", r, i)]), Forall([i], Le(Len(app("itv", r, i)), I(2 ** 32 - 1)), [app("itv", r, i)]))

def borrowed(seq): return Sl("I", seq=seq, len=Len(seq), nil=FALSE, owner="heap", et="byte")

def iterate(ex, st, recv, f, pos, key):
    """contract of KVIterator.Iterate: f is called with the pairs in order until it returns false or there are no more"""
    cell = ex.new_cell(st, "it_i"); st.cells[cell] = I(0); ex.cell_types[cell] = "int"
    lk = "iterate:" + key
    ex.modsets.setdefault(lk, set()).add(("cell", cell, "int"))
    ctx = ex.loop_common_enter(lk, st, [], {}, None, None, (), None)
    ctx.recv = recv; ctx.cell = cell
    i = st.cells[cell]; n = app("itn", recv)
    ex.assume(st, And(Le(I(0), i), Le(i, n)))
    out = []
    done = st.fork(); ex.assume(done, Eq(i, n))
    if not ex.infeasible(done): out.append((done, []))
    ex.assume(st, Lt(i, n))
    k, v = app("itk", recv, i), app("itv", recv, i)
    ex.assume(st, Mention(app("itk", recv, i), app("itv", recv, i)))
    for s, r in ex.call_value(st, f, [borrowed(k), borrowed(v)], {"sig": ""}, pos, "/iter"):
        for b, s2 in ((TRUE, s.fork()), (FALSE, s)):
            ex.assume(s2, Eq(r, b)) if r.op not in ("true", "false") else None
            if r.op in ("true", "false") and r is not b: continue
            if ex.infeasible(s2): continue
            if b is TRUE:
                s2.cells[cell] = Add(i, 1)
                ex.loop_common_back(ctx, s2, {})
            else: out.append((s2, []))
    return out
def iface_iterate(ex, st, args, pos):
    return iterate(ex, st, rref(ex, st, args[0]), args[1], pos, ex.cur)

def kv_hints(ctx, st, cur, ints):
    """during an iteration: what was written is the encoding of the pairs so far; counters are its length and the number of pairs"""
    ex = ctx.ex; out = []
    g = getattr(ex, "kvg", None)
    if g is None: return out
    for c in st.cells:
        if not c.startswith("it_i"): continue
        i = st.cells[c]
        if "w" in g:
            w = g["w"]; W = wout(ex, st, w)
            out.append(("written=encs", Eq(W, Cat(g["W0"], app("encs", g["r"], i)))))
        for c2, v in st.cells.items():
            if isinstance(v, T) and v.sort == INT and c2 != c:
                out.append(("%s=len encs" % c2, Eq(v, Len(app("encs", g["r"], i)))))
                out.append(("%s=i" % c2, Eq(v, i)))
            if isinstance(v, T) and v.sort == REF: out.append(("%s nil" % c2, Eq(v, NULL)))
    return out

# ---------------------------------------------------------------- files (assumed)
declare("fcontent", (SEQ,), SEQ)
def os_create(ex, st, args, pos):
    s2 = st.fork()
    f = ex.alloc_ref(st, "file", "*os.File")
    st.heap["wout"] = Store(ex.comp(st, "wout", SEQ), f, Empty())
    st.ghost["file"] = f
    ex.kvg["w"] = f; ex.kvg["W0"] = Empty()
    return [(st, [f, NULL]), (s2, [NULL, new_error(ex, s2)])]
def os_open(ex, st, args, pos):
    s2 = st.fork()
    f = ex.alloc_ref(st, "file", "*os.File")
    st.heap["rin"] = Store(ex.comp(st, "rin", SEQ), f, app("fcontent", args[0]))
    st.ghost["file"] = f
    return [(st, [f, NULL]), (s2, [NULL, new_error(ex, s2)])]

class KvSpec(Spec):
    def configure(s, ex):
        util.use(ex); ex.kvg = {}
        ex.intr["os.Create"] = os_create; ex.intr["os.Open"] = os_open
        ex.iface["Iterate"] = iface_iterate
        ex.hints.append(kv_hints)

class BswWrite(KvSpec):
    fn = "(*" + TR + "BinaryStreamWriter).Write"; label = "BinaryStreamWriter.Write"
    def setup(s, ex, st):
        s.b = ref_param(ex, st, "b"); s.w = ref_param(ex, st, "w")
        ex.setf(st, s.b, TR + "BinaryStreamWriter", "w", s.w)
        s.k = sl_param(ex, st, "key"); s.v = sl_param(ex, st, "value")
        ex.assume(st, And(Le(Len(s.k.seq), I(65535)), Le(Len(s.v.seq), I(2 ** 32 - 1))))
        s.W = wout(ex, st, s.w)
        s.n0 = ex.getf(st, s.b, TR + "BinaryStreamWriter", "kvCount"); s.b0 = ex.getf(st, s.b, TR + "BinaryStreamWriter", "byteCount")
        return [s.b, s.k, s.v]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[0]), NULL); e = Encp(s.k.seq, s.v.seq)
        ex.oblige(st, "post", Implies(ok, Eq(wout(ex, st, s.w), Cat(s.W, e))), "exactly the pair is appended", "")
        ex.oblige(st, "post", Implies(Not(app("faulty", s.w)), ok), "only the writer can make it fail", "")
        ex.oblige(st, "post", Implies(ok, Eq(ex.getf(st, s.b, TR + "BinaryStreamWriter", "kvCount"), Add(s.n0, 1))), "the pair is counted", "")
        ex.oblige(st, "post", Implies(ok, Eq(ex.getf(st, s.b, TR + "BinaryStreamWriter", "byteCount"), Add(s.b0, Len(e)))), "its bytes are counted", "")
class BswNew(KvSpec):
    fn = TR + "NewBinaryStreamWriter"; label = "NewBinaryStreamWriter"
    def setup(s, ex, st): s.w = ref_param(ex, st, "w"); return [s.w]
    def check(s, ex, st, r):
        g = lambda f: ex.getf(st, r[0], TR + "BinaryStreamWriter", f)
        ex.oblige(st, "post", And(Eq(g("w"), s.w), Eq(g("kvCount"), I(0)), Eq(g("byteCount"), I(0))), "a new writer starts at zero", "")
class BswStats(KvSpec):
    fn = "(*" + TR + "BinaryStreamWriter).Stats"; label = "BinaryStreamWriter.Stats"
    def setup(s, ex, st): s.b = ref_param(ex, st, "b"); return [s.b]
    def check(s, ex, st, r):
        g = lambda f: ex.getf(st, s.b, TR + "BinaryStreamWriter", f)
        ex.oblige(st, "post", And(Eq(r[0], g("kvCount")), Eq(r[1], g("byteCount"))), "the counters are reported", "")

class TailSpec(KvSpec):
    raw_first = 4; soft_tmo = 8.0
    """reading a stream that holds the pairs of s.src and then a tail: nothing, or a proper prefix of one more pair"""
    def streams(s, ex, st):
        s.src = ref_param(ex, st, "pairs"); s.tail = fresh("tail", SEQ)
        ex.assume(st, lim(s.src)); ex.assume(st, app("useparse", s.src))
        k, v, c = fresh("ck", SEQ), fresh("cv", SEQ), fresh("cut", INT)
        ex.assume(st, And(Le(Len(k), I(65535)), Le(Len(v), I(2 ** 32 - 1)), Le(I(0), c), Lt(c, Len(Encp(k, v)))))
        ex.assume(st, Eq(s.tail, app("takeI", app("encp", k, v), c)))
        ex.assume(st, Eq(Len(s.tail), c))
        # the length prefixes of the cut pair (proved as lemmas of C19)
        ex.assume(st, Implies(Le(I(2), c), Eq(util.le_val(s.tail, 2), Len(k))))
        d = app("dropI", s.tail, Add(Len(k), 2))
        ex.assume(st, Implies(Le(Add(Len(k), 6), c), Eq(util.le_val(d, 4), Len(v))))
        ex.assume(st, Mention(Len(d), app("dropI", d, I(4))))
        st.cells["n"] = I(0); ex.cell_types["n"] = "int"
        st.cells["stopped"] = FALSE; ex.cell_types["stopped"] = None
        ex.hints.append(s.hint)
        return app("encf", s.src, I(0), s.tail)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; n = st.cells["n"]
        out = [("0<=n<=itn", And(Le(I(0), n), Le(n, app("itn", s.src)))), ("unread=encf n", Eq(rin(ex, st, s.rd(ex, st)), app("encf", s.src, n, s.tail))), ("not stopped", Not(st.cells["stopped"])),
               ("next pair", Mention(app("itk", s.src, n), app("itv", s.src, n)))]
        for r, c, e in ints: out.append(("%s=len encs n" % r, Eq(c, Len(app("encs", s.src, n)))))
        return out
    def pair(s, ex, st, k, v, pos):
        n = st.cells["n"]
        ex.oblige(st, "post", Not(st.cells["stopped"]), "no pair is delivered after a stop", pos)
        ex.oblige(st, "post", Lt(n, app("itn", s.src)), "no pair is added", pos)
        ex.oblige(st, "post", Eq(k, app("itk", s.src, n)), "the key is the one written", pos)
        ex.oblige(st, "post", Eq(v, app("itv", s.src, n)), "the value is the one written", pos)
        st.cells["n"] = Add(n, 1)
    def final(s, ex, st, err, rd):
        n = st.cells["n"]; ok = Eq(err, NULL)
        full = Eq(n, app("itn", s.src))
        ex.oblige(st, "post", Implies(And(ok, Not(st.cells["stopped"])), And(full, Eq(Len(s.tail), I(0)))), "a clean end means every pair was delivered and nothing is cut off", "")
        ex.oblige(st, "post", Implies(st.cells["stopped"], ok), "stopping is not an error", "")
        ex.oblige(st, "post", Implies(And(Not(app("faulty", rd)), Eq(Len(s.tail), I(0))), ok), "a complete stream is read without error", "")

class BsiIterate(TailSpec):
    fn = "(" + TR + "BinaryStreamIterator).Iterate"; label = "BinaryStreamIterator.Iterate"
    def rd(s, ex, st): return s.r
    def setup(s, ex, st):
        s.r = ref_param(ex, st, "r")
        R = s.streams(ex, st)
        st.heap["rin"] = Store(ex.comp(st, "rin", SEQ), s.r, R)
        def f(ex, st, args, pos):
            s.pair(ex, st, ex.content(st, args[0]), ex.content(st, args[1]), pos)
            go = fresh("go", BOOL)
            st.cells["stopped"] = Not(go)
            return [(st, go)]
        return [StructV(TR + "BinaryStreamIterator", {"r": s.r}), HookV("f", f)]
    def check(s, ex, st, r): s.final(ex, st, ex.as_ref(st, r[0]), s.r)

class UnDump(TailSpec):
    fn = TR + "UnDumpFromFile"; label = "UnDumpFromFile"
    def rd(s, ex, st): return st.ghost["file"]
    def configure(s, ex):
        TailSpec.configure(s, ex)
        def setkv(ex, st, args, pos):
            s.pair(ex, st, ex.content(st, args[1]), ex.content(st, args[2]), pos)
            return [(st, [])]
        ex.iface["Set"] = setkv
    def setup(s, ex, st):
        s.w = ref_param(ex, st, "w"); nm = fresh("fname", SEQ)
        ex.assume(st, Eq(app("fcontent", nm), s.streams(ex, st)))
        return [s.w, nm]
    def check(s, ex, st, r):
        e = ex.as_ref(st, r[1]); f = st.ghost.get("file")
        if f is None: ex.oblige(st, "post", Ne(e, NULL), "an unreadable file is an error", ""); return
        s.final(ex, st, e, f)
        ex.oblige(st, "post", Implies(Eq(e, NULL), Eq(r[0], Len(app("encs", s.src, st.cells["n"])))), "the number of bytes is reported", "")

class Dump(KvSpec):
    fn = TR + "DumpToFile"; label = "DumpToFile"
    def setup(s, ex, st):
        s.r = ref_param(ex, st, "r"); ex.kvg["r"] = s.r
        ex.assume(st, lim(s.r))
        return [s.r, fresh("fname", SEQ)]
    def check(s, ex, st, r):
        e = ex.as_ref(st, r[1]); f = st.ghost.get("file")
        if f is None: ex.oblige(st, "post", Ne(e, NULL), "a file that can't be created is an error", ""); return
        ok = Eq(e, NULL); n = app("itn", s.r)
        ex.oblige(st, "post", Implies(ok, Eq(wout(ex, st, f), app("encs", s.r, n))), "the file holds exactly the pairs", "")
        ex.oblige(st, "post", Implies(ok, Eq(r[0], Len(app("encs", s.r, n)))), "the number of bytes is reported", "")
        ex.oblige(st, "post", Implies(Not(app("faulty", f)), ok), "only the file can make it fail", "")
class Count(KvSpec):
    def __init__(s, fn, post): s.fn = TR + fn; s.label = fn; s.post = post
    def setup(s, ex, st):
        s.r = ref_param(ex, st, "r"); ex.kvg["r"] = s.r
        ex.assume(st, lim(s.r))
        return [s.r]
    def check(s, ex, st, r): ex.oblige(st, "post", Eq(r[0], s.post(s.r)), "the count is exact", "")

class Lemma:
    raw_first = 4
    def __init__(s, label, goal): s.label = label; s.goal = goal
def lemmas():
    r = fresh("r", REF); i = fresh("i", INT); t = fresh("t", SEQ)
    tot = fresh("tot", SEQ)
    out = []
    pre = And(Le(I(0), i), Lt(i, app("itn", r)), Le(Len(app("itk", r, i)), I(65535)), Le(Len(app("itv", r, i)), I(2 ** 32 - 1)))
    fs = parse_facts(r, i, t)
    for j, f in enumerate(fs): out.append(Lemma("a written pair parses back (%d)" % j, Implies(And(app("usestep"), pre, *fs[:j]), f)))
    return out + [Lemma("stream: what is written is what is read (base)", Eq(Cat(app("encs", r, I(0)), app("encf", r, I(0), t)), app("encf", r, I(0), t))),
            Lemma("stream: what is written is what is read (step)", Implies(And(app("usestep"), Le(I(0), i), Lt(i, app("itn", r)), Mention(app("itk", r, i), app("encs", r, Add(i, 1))), Eq(Cat(app("encs", r, i), app("encf", r, i, t)), tot)),
                  Eq(Cat(app("encs", r, Add(i, 1)), app("encf", r, Add(i, 1), t)), tot))),
            Lemma("stream: what is written is what is read (end)", Eq(Cat(app("encs", r, app("itn", r)), app("encf", r, app("itn", r), t)), Cat(app("encs", r, app("itn", r)), t))),
            Lemma("encp is the encoding of a pair", Eq(app("encp", fk, fv), Encp(fk, fv)))]
fk, fv = fresh("fk", SEQ), fresh("fv", SEQ)

# ---------------------------------------------------------------- C22
IM = TR + "inMemoryKVStore"
class Mem(Spec):
    def __init__(s, m): s.m = m; s.fn = "(%s).%s" % (IM, m); s.label = "inMemoryKVStore." + m
    def configure(s, ex):
        ex.opts["retain"] = False
        ex.hints.append(s.hint)
    def hint(s, ctx, st, cur, ints):
        ex = ctx.ex; out = []
        if "called" in st.cells:
            out.append(("not stopped", Not(st.cells["stopped"])))
            for c, v in st.cells.items():
                if c.startswith("iter:") and v.sort == st.cells["called"].sort: out.append(("%s=called" % c, Eq(v, st.cells["called"])))
        return out
    def setup(s, ex, st):
        s.im = ref_param(ex, st, "im")
        s.md = ex.mdcomp(st, IM); s.mv = ex.mvcomp(st, IM)
        s.D = ex.mdom(st, s.im, IM); s.V = ex.mval(st, s.im, IM)
        k = bvar("k", SEQ)
        # representation invariant: stored values are not empty
        ex.assume(st, Forall([k], Implies(Select(s.D, k), Lt(I(0), Len(SlSeq(Select(s.V, k))))), [Select(s.D, k)]))
        if s.m == "Iterate":
            st.cells["called"] = ConstArr(s.D.sort, FALSE); ex.cell_types["called"] = None
            st.cells["stopped"] = FALSE; ex.cell_types["stopped"] = None
            def f(ex, st, args, pos):
                k = ex.content(st, args[0]); v = ex.content(st, args[1])
                ex.oblige(st, "post", Not(st.cells["stopped"]), "nothing is delivered after a stop", pos)
                ex.oblige(st, "post", Select(s.D, k), "only present keys are delivered", pos)
                ex.oblige(st, "post", Not(Select(st.cells["called"], k)), "no key is delivered twice", pos)
                ex.oblige(st, "post", Eq(v, SlSeq(Select(s.V, k))), "with their values", pos)
                st.cells["called"] = Store(st.cells["called"], k, TRUE)
                go = fresh("go", BOOL); st.cells["stopped"] = Not(go)
                return [(st, go)]
            return [s.im, HookV("f", f)]
        s.k = sl_param(ex, st, "k")
        if s.m == "Set":
            s.v = sl_param(ex, st, "v"); return [s.im, s.k, s.v]
        return [s.im, s.k]
    def check(s, ex, st, r):
        D1, V1 = ex.mdom(st, s.im, IM), ex.mval(st, s.im, IM)
        x = fresh("x", SEQ)
        if s.m == "Set":
            k, v = s.k.seq, s.v.seq
            ex.oblige(st, "post", Eq(Select(D1, x), Ite(Eq(x, k), Lt(I(0), Len(v)), Select(s.D, x))), "presence changes for this key only", "")
            ex.oblige(st, "post", Implies(And(Eq(x, k), Select(D1, x)), Eq(SlSeq(Select(V1, x)), v)), "the value is the one set", "")
            ex.oblige(st, "post", Implies(And(Ne(x, k), Select(s.D, x)), Eq(Select(V1, x), Select(s.V, x))), "other values stay", "")
            ex.oblige(st, "post", Implies(Select(D1, x), Lt(I(0), Len(SlSeq(Select(V1, x))))), "stored values are not empty", "")
            return
        ex.oblige(st, "post", Eq(D1, s.D), "nothing is added or removed", ""); ex.oblige(st, "post", Eq(V1, s.V), "no value changes", "")
        if s.m == "Get":
            c = ex.content(st, r[0]); has = Select(s.D, s.k.seq)
            ex.oblige(st, "post", Implies(has, And(Eq(c, SlSeq(Select(s.V, s.k.seq))), Lt(I(0), Len(c)))), "a present key gives its value", "")
            ex.oblige(st, "post", Implies(Not(has), And(r[0].nil, Eq(Len(c), I(0)))), "an absent key gives nil", "")
        if s.m == "Has": ex.oblige(st, "post", Eq(r[0], Select(s.D, s.k.seq)), "presence", "")
        if s.m == "Iterate":
            ex.oblige(st, "post", Implies(And(Not(st.cells["stopped"]), Select(s.D, x)), Select(st.cells["called"], x)), "every present key is delivered unless stopped", "")
class MemNew(Spec):
    fn = TR + "NewInMemoryKVStore"; label = "NewInMemoryKVStore"
    def setup(s, ex, st): return []
    def check(s, ex, st, r):
        m = r[0].v if isinstance(r[0], IfaceV) else r[0]
        x = fresh("x", SEQ)
        ex.oblige(st, "post", And(Ne(m, NULL), Not(Select(ex.mdom(st, m, IM), x))), "a new store is empty", "")

def specs():
    enc = lambda r: Len(app("encs", r, app("itn", r)))
    return [BswWrite(), BswNew(), BswStats(), BsiIterate(), UnDump(), Dump(), Count("ByteSize", enc), Count("NumEntries", lambda r: app("itn", r)),
            Mem("Get"), Mem("Has"), Mem("Set"), Mem("Iterate"), MemNew()]
