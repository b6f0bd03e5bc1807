"""C19: length-prefixed primitives.  Contracts of the readers and writers of trie/util.go: each is checked against the real body and used
instead of the body by every caller (node codec, proof codec, streams)."""
from driver import *
from extern import *
TR = M + "trie."

def le_val(c, n):
    x = I(0)
    for i in range(n): x = Add(x, Mul(I(256 ** i), At(c, i)))
    return x
def enc_len(d, n): return Unit(Mod(Len(d), 256)) if n == 1 else lit_le(Len(d), n)
def enc_bytes(d, n): return Cat(enc_len(d, n), d)

# ---------------------------------------------------------------- readers: a deterministic parse of the unread bytes
class Rd:
    """kind 'int': an n-byte little endian integer; kind 'bytes': an n-byte length prefix and the bytes"""
    def __init__(s, name, kind, n, ptr=None): s.name = TR + name; s.kind = kind; s.n = n; s.ptr = ptr
    def parse(s, R):
        """(enough: formula, value term, rest term)"""
        if s.kind == "int": return Le(I(s.n), Len(R)), le_val(R, s.n), Drop(R, s.n)
        m = le_val(R, s.n)
        return And(Le(I(s.n), Len(R)), Le(Add(m, s.n), Len(R))), Take(Drop(R, s.n), m), Drop(R, Add(m, s.n))
    def apply(s, ex, st, args, pos):
        r = rref(ex, st, args[0])
        if not isinstance(r, T): raise Unsupported("reader %r" % (r,))
        R = rin(ex, st, r)
        enough, v, rest = s.parse(R)
        s1 = st.fork(); out = []
        ex.assume(s1, enough)
        s1.heap["rin"] = Store(s1.heap["rin"], r, rest)
        if not ex.infeasible(s1):
            if s.kind == "int":
                if s.ptr: ex.store(s1, args[1], v, s.ptr, pos); out.append((s1, [NULL]))
                else: out.append((s1, [v, NULL]))
            else: out.append((s1, [ex.new_sl(s1, v, nil=FALSE), NULL]))
        e = fresh("rerr", REF)
        ex.assume(st, And(Ne(e, NULL), app("leaf", e), Le(app("birth", e), st.now)))
        ex.assume(st, Or(Not(enough), app("faulty", r)))
        ex.assume(st, Implies(Eq(e, gref(ex, st, EOF)), Eq(Len(R), I(0))))
        ex.assume(st, Implies(And(Eq(Len(R), I(0)), Not(app("faulty", r))), Eq(e, gref(ex, st, EOF))))
        R1 = fresh("rest", SEQ)
        ex.assume(st, Le(Len(R1), Len(R)))
        st.heap["rin"] = Store(st.heap["rin"], r, R1)
        if not ex.infeasible(st):
            if s.kind == "int": out.append((st, [e] if s.ptr else [fresh("junk", INT), e]))
            else: out.append((st, [ex.nil_sl("[]byte"), e]))
        return out

class RdSpec(Spec):
    def __init__(s, rd): s.rd = rd; s.fn = rd.name; s.label = rd.name[len(TR):]
    def setup(s, ex, st):
        s.r = ref_param(ex, st, "r"); s.R = rin(ex, st, s.r)
        a = [s.r]
        if s.rd.ptr:
            st.cells["out"] = I(0); ex.cell_types["out"] = s.rd.ptr
            a.append(PtrCell("out", s.rd.ptr))
        return a
    def check(s, ex, st, r):
        e = ex.as_ref(st, r[-1]); ok = Eq(e, NULL); R = s.R
        enough, v, rest = s.rd.parse(R)
        got = st.cells["out"] if s.rd.ptr else r[0]
        if isinstance(got, Sl): got = ex.content(st, got)
        ex.oblige(st, "post", Implies(ok, enough), "success needs a complete record", "")
        ex.oblige(st, "post", Implies(ok, Eq(got, v)), "the value is the one encoded", "")
        ex.oblige(st, "post", Implies(ok, Eq(rin(ex, st, s.r), rest)), "exactly the record is consumed", "")
        ex.oblige(st, "post", Implies(And(enough, Not(app("faulty", s.r))), ok), "a complete record is accepted", "")
        ex.oblige(st, "post", Implies(Eq(e, gref(ex, st, EOF)), Eq(Len(R), I(0))), "io.EOF only at the end of the stream", "")
        ex.oblige(st, "post", Implies(And(Eq(Len(R), I(0)), Not(app("faulty", s.r))), Eq(e, gref(ex, st, EOF))), "the end of the stream is io.EOF", "")
        ex.oblige(st, "post", Implies(Not(ok), app("leaf", e)), "errors are plain", "")
        if s.rd.kind == "bytes": ex.oblige(st, "post", Implies(ok, Not(r[0].nil)), "the value is not nil", "")

class Wr:
    def __init__(s, name, kind, n): s.name = TR + name; s.kind = kind; s.n = n
    def enc(s, x):
        if s.kind == "int": return Unit(Mod(x, 256)) if s.n == 1 else lit_le(x, s.n)
        return enc_bytes(x, s.n)
    def limit(s): return 256 ** s.n - 1
    def apply(s, ex, st, args, pos):
        w = rref(ex, st, args[0])
        x = args[1] if s.kind == "int" else ex.content(st, args[1])
        if s.kind == "bytes": ex.oblige(st, "pre", Le(Len(x), I(s.limit())), "data fits the length prefix of %s" % s.name[len(TR):], pos)
        if not isinstance(w, T): raise Unsupported("writer %r" % (w,))
        W = wout(ex, st, w)
        s2 = st.fork()
        st.heap["wout"] = Store(st.heap["wout"], w, Cat(W, s.enc(x)))
        out = [(st, [NULL])]
        s2.heap["wout"] = Store(s2.heap["wout"], w, fresh("wout", SEQ))
        ex.assume(s2, app("faulty", w))
        if not ex.infeasible(s2): out.append((s2, [new_error(ex, s2, "werr", leaf=False)]))
        return out
class WrSpec(Spec):
    def __init__(s, wr): s.wr = wr; s.fn = wr.name; s.label = wr.name[len(TR):]
    def setup(s, ex, st):
        s.w = ref_param(ex, st, "w"); s.W = wout(ex, st, s.w)
        if s.wr.kind == "int":
            s.x = int_param(ex, "val", {1: "byte", 2: "uint16", 4: "uint32"}[s.wr.n]); a = s.x
        else:
            a = sl_param(ex, st, "data"); s.x = a.seq
            ex.assume(st, Le(Len(s.x), I(s.wr.limit())))
        return [s.w, a]
    def check(s, ex, st, r):
        ok = Eq(ex.as_ref(st, r[-1]), NULL)
        ex.oblige(st, "post", Implies(ok, Eq(wout(ex, st, s.w), Cat(s.W, s.wr.enc(s.x)))), "success appends exactly the encoding", "")
        ex.oblige(st, "post", Implies(Not(app("faulty", s.w)), ok), "only the writer can make it fail", "")
class WrTooLong(Spec):
    """data that does not fit is refused before anything is written"""
    may_have_no_exit = True
    def __init__(s, wr): s.wr = wr; s.fn = wr.name; s.label = wr.name[len(TR):] + "[too long]"
    def configure(s, ex): ex.fail = lambda *a: None      # a panic is a refusal
    def setup(s, ex, st):
        s.w = ref_param(ex, st, "w"); s.W = wout(ex, st, s.w)
        a = sl_param(ex, st, "data"); ex.assume(st, Lt(I(s.wr.limit()), Len(a.seq)))
        return [s.w, a]
    def check(s, ex, st, r):
        ex.oblige(st, "post", Ne(ex.as_ref(st, r[-1]), NULL), "too long data is refused", "")
        ex.oblige(st, "post", Eq(wout(ex, st, s.w), s.W), "nothing is written", "")

class Pure(Spec):
    def __init__(s, fn, label, params, post): s.fn = TR + fn; s.label = label; s.ps = params; s.post = post
    def setup(s, ex, st):
        s.args = [sl_param(ex, st, n) if t == "[]byte" else int_param(ex, n, t) for n, t in s.ps]
        return s.args
    def check(s, ex, st, r):
        for d, f in s.post(ex, st, s.args, r): ex.oblige(st, "post", f, d, "")

def from_bytes(n):
    def post(ex, st, a, r):
        e = ex.as_ref(st, r[1]); c = a[0].seq
        return [("accepted exactly with %d bytes" % n, Eq(Eq(e, NULL), Eq(Len(c), I(n)))), ("value is little endian", Implies(Eq(e, NULL), Eq(r[0], le_val(c, n))))]
    return post
def to_bytes(n):
    return lambda ex, st, a, r: [("little endian bytes", Eq(ex.content(st, r[0]), lit_le(a[0], n)))]

class ByteCounter(Spec):
    fn = "(*" + M + "trie.byteCounter).Write"; label = "byteCounter.Write"
    def setup(s, ex, st):
        s.b = ref_param(ex, st, "b"); s.d = sl_param(ex, st, "p")
        s.c0 = Select(ex.comp(st, "*trie.byteCounter", INT), s.b)
        return [s.b, s.d]
    def check(s, ex, st, r):
        ex.oblige(st, "post", And(Eq(r[0], s.d.len), Eq(ex.as_ref(st, r[1]), NULL)), "reports every byte written", "")
        ex.oblige(st, "post", Eq(Select(ex.comp(st, "*trie.byteCounter", INT), s.b), Add(s.c0, s.d.len)), "counts every byte", "")

READERS = [Rd("ReadByte", "int", 1), Rd("ReadUint16", "int", 2, "uint16"), Rd("ReadUint32", "int", 4, "uint32"),
           Rd("ReadBytes8", "bytes", 1), Rd("ReadBytes16", "bytes", 2), Rd("ReadBytes32", "bytes", 4)]
WRITERS = [Wr("WriteByte", "int", 1), Wr("WriteUint16", "int", 2), Wr("WriteUint32", "int", 4),
           Wr("WriteBytes8", "bytes", 1), Wr("WriteBytes16", "bytes", 2), Wr("WriteBytes32", "bytes", 4)]
RD = {r.name[len(TR):]: r for r in READERS}; WR = {w.name[len(TR):]: w for w in WRITERS}
def use(ex):
    """callers see the primitives through their contracts"""
    for x in READERS + WRITERS: ex.contracts[x.name] = x.apply

class Lemma:
    def __init__(s, label, goal): s.label = label; s.goal = goal

def lemmas():
    out = []
    x = fresh("x", INT); rest = fresh("rest", SEQ); d = fresh("d", SEQ)
    for wn, rn in (("WriteByte", "ReadByte"), ("WriteUint16", "ReadUint16"), ("WriteUint32", "ReadUint32")):
        w, r = WR[wn], RD[rn]
        en, v, rs = r.parse(Cat(w.enc(x), rest))
        out.append(Lemma("%s inverts %s" % (rn, wn), Implies(And(Le(I(0), x), Lt(x, I(256 ** w.n))), And(en, Eq(v, x), Eq(rs, rest)))))
    for wn, rn in (("WriteBytes8", "ReadBytes8"), ("WriteBytes16", "ReadBytes16"), ("WriteBytes32", "ReadBytes32")):
        w, r = WR[wn], RD[rn]
        X = Cat(w.enc(d), rest)
        en, v, rs = r.parse(X)
        m = Eq(le_val(X, w.n), Len(d))
        out.append(Lemma("length prefix of %s" % wn, Implies(Le(Len(d), I(w.limit())), m)))
        out.append(Lemma("%s inverts %s" % (rn, wn), Implies(And(Le(Len(d), I(w.limit())), m), And(en, Eq(v, d), Eq(rs, rest)))))
        k = fresh("k", INT)
        P = Take(w.enc(d), k)
        en2, v2, rs2 = r.parse(P)
        m2 = Implies(Le(I(w.n), k), Eq(le_val(P, w.n), Len(d)))
        out.append(Lemma("length prefix of a truncated %s record" % wn, Implies(And(Le(Len(d), I(w.limit())), Le(I(0), k), Lt(k, Len(w.enc(d)))), m2)))
        out.append(Lemma("no proper prefix of a %s record is accepted" % wn, Implies(And(m2, Le(Len(d), I(w.limit())), Le(I(0), k), Lt(k, Len(w.enc(d)))), Not(en2))))
    return out

def specs():
    class R2(RdSpec):
        def configure(s, ex):
            # a reader or writer is checked against the contracts of those it calls
            use(ex); ex.contracts.pop(s.fn)
    class W2(WrSpec):
        def configure(s, ex): use(ex); ex.contracts.pop(s.fn)
    r = [R2(x) for x in READERS] + [W2(x) for x in WRITERS] + [WrTooLong(x) for x in WRITERS if x.kind == "bytes" and x.n < 8]
    r += [Pure("Uint16From2Bytes", "Uint16From2Bytes", [("b", "[]byte")], from_bytes(2)), Pure("Uint32From4Bytes", "Uint32From4Bytes", [("b", "[]byte")], from_bytes(4)),
          Pure("Uint16To2Bytes", "Uint16To2Bytes", [("v", "uint16")], to_bytes(2)), Pure("Uint32To4Bytes", "Uint32To4Bytes", [("v", "uint32")], to_bytes(4)), ByteCounter()]
    return r
