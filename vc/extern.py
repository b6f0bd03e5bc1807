"""Contracts assumed on external (standard library and dependency) functions.  Every one used is reported in the evidence."""
from interp import *
import terms

EOF = "io.EOF"; UEOF = "io.ErrUnexpectedEOF"

def gref(ex, st, name): return ex.load_global(st, GlobalP(name, "*error"), "error")

def new_error(ex, st, hint="err", leaf=True):
    r = ex.alloc_ref(st, hint)
    if leaf: ex.assume(st, app("leaf", r))
    return r

def rin(ex, st, r): return Select(ex.comp(st, "rin", SEQ), r)
def wout(ex, st, w): return Select(ex.comp(st, "wout", SEQ), w)
def rref(ex, st, r):
    if isinstance(r, IfaceV): return r.v
    return r

def read_full(ex, st, args, pos):
    r, buf = rref(ex, st, args[0]), args[1]
    if not isinstance(r, T): raise Unsupported("ReadFull from %r" % (r,))
    data = rin(ex, st, r); n = buf.len
    out = []
    # success
    s1 = st.fork(); ex.assume(s1, Le(n, Len(data)))
    back, off = ex.writable(s1, buf, pos)
    q = s1.loc[back].seq
    ex.write_loc(s1, back, Cat(Take(q, off), Take(data, n), Drop(q, Add(off, n))), pos)
    s1.heap["rin"] = Store(s1.heap["rin"], r, Drop(data, n))
    if not ex.infeasible(s1): out.append((s1, [n, NULL]))
    # end of data, or a fault of the reader
    s2 = st
    ex.assume(s2, Lt(I(0), n)) 
    e = fresh("rerr", REF)
    m = fresh("nread", INT)
    ex.assume(s2, And(Le(I(0), m), Lt(m, n), Le(m, Len(data))))
    eof = gref(ex, s2, EOF); ueof = gref(ex, s2, UEOF)
    ex.assume(s2, And(Ne(e, NULL), app("leaf", e), Le(app("birth", e), s2.now)))
    ex.assume(s2, Or(And(Eq(e, eof), Eq(Len(data), I(0)), Eq(m, I(0))),
                     And(Eq(e, ueof), Lt(I(0), Len(data)), Lt(Len(data), n), Eq(m, Len(data))),
                     And(app("faulty", r), Ne(e, eof))))
    back, off = ex.writable(s2, buf, pos)
    q = s2.loc[back].seq
    ex.write_loc(s2, back, Cat(Take(q, off), Take(data, m), Drop(q, Add(off, m))), pos)
    s2.heap["rin"] = Store(s2.heap["rin"], r, Drop(data, m))
    if not ex.infeasible(s2): out.append((s2, [m, e]))
    return out

def raw_read(ex, st, args, pos):
    """io.Reader.Read: may return fewer bytes than asked for"""
    r, buf = rref(ex, st, args[0]), args[1]
    data = rin(ex, st, r); n = fresh("nraw", INT); e = fresh("rerr", REF)
    ex.assume(st, And(Le(I(0), n), Le(n, buf.len), Le(n, Len(data)), app("leaf", e), Le(app("birth", e), st.now)))
    eof = gref(ex, st, EOF)
    ex.assume(st, Or(Eq(e, NULL), And(Eq(e, eof), Eq(n, Len(data))), app("faulty", r)))
    ex.assume(st, Implies(And(Eq(Len(data), I(0)), Lt(I(0), buf.len)), Ne(e, NULL)))
    back, off = ex.writable(st, buf, pos)
    q = st.loc[back].seq
    ex.write_loc(st, back, Cat(Take(q, off), Take(data, n), Drop(q, Add(off, n))), pos)
    st.heap["rin"] = Store(st.heap["rin"], r, Drop(data, n))
    return [(st, [n, e])]

def writer_write(ex, st, args, pos):
    w, p = args[0], args[1]
    c = p if isinstance(p, T) else ex.content(st, p)
    old = wout(ex, st, w)
    s1 = st.fork()
    s1.heap["wout"] = Store(s1.heap["wout"], w, Cat(old, c))
    st.heap["wout"] = Store(st.heap["wout"], w, fresh("wout", SEQ))
    e = new_error(ex, st, "werr", leaf=False)
    m = fresh("nwr", INT); ex.assume(st, And(Le(I(0), m), Le(m, Len(c))))
    ex.assume(st, app("faulty", w))
    return [(s1, [Len(c), NULL]), (st, [m, e])]

def buf_write(ex, st, args, pos):
    w, p = args[0], args[1]
    c = p if isinstance(p, T) else ex.content(st, p)
    st.heap["wout"] = Store(ex.comp(st, "wout", SEQ), w, Cat(wout(ex, st, w), c))
    return [(st, [Len(c), NULL])]
def buf_writebyte(ex, st, args, pos):
    w = args[0]
    st.heap["wout"] = Store(ex.comp(st, "wout", SEQ), w, Cat(wout(ex, st, w), Unit(args[1])))
    return [(st, [NULL])]
def own_result(ex, st, seq, maybe_nil=True):
    n = FALSE
    if maybe_nil:
        l = Len(seq)
        lo, hi = rng(l)
        if l.op == "int": n = B(l.args[0] == 0)
        elif lo is not None and lo > 0: n = FALSE
        else: n = Eq(l, I(0))
    return ex.new_sl(st, seq, nil=n)
def buf_bytes(ex, st, args, pos):
    return [(st, [own_result(ex, st, wout(ex, st, args[0]))])]
def buf_len(ex, st, args, pos): return [(st, [Len(wout(ex, st, args[0]))])]
def new_reader(ex, st, args, pos):
    r = ex.alloc_ref(st, "rdr", "*bytes.Reader")
    st.heap["rin"] = Store(ex.comp(st, "rin", SEQ), r, ex.content(st, args[0]))
    ex.assume(st, Not(app("faulty", r)))
    return [(st, [r])]
def reader_len(ex, st, args, pos): return [(st, [Len(rin(ex, st, args[0]))])]
def bytes_equal(ex, st, args, pos): return [(st, [Eq(ex.content(st, args[0]), ex.content(st, args[1]))])]
declare("isprefix", (SEQ, SEQ), BOOL)    # isprefix(p, s)
axiom("isprefix", "(forall ((p SeqI) (s SeqI)) (! (= (isprefix p s) (and (<= (lenI p) (lenI s)) (= (takeI s (lenI p)) p))) :pattern ((isprefix p s))))", "isprefix")
def has_prefix(ex, st, args, pos):
    s, p = ex.content(st, args[0]), ex.content(st, args[1])
    return [(st, [And(Le(Len(p), Len(s)), Eq(Take(s, Len(p)), p))])]
def errors_new(ex, st, args, pos): return [(st, [new_error(ex, st)])]
def errorf(ex, st, args, pos): return [(st, [new_error(ex, st)])]
def sprintf(ex, st, args, pos): return [(st, [fresh("str", SEQ)])]
def errors_is(ex, st, args, pos):
    e, t = ex.as_ref(st, args[0], "error"), ex.as_ref(st, args[1], "error")
    if e is NULL: return [(st, [Eq(t, NULL)])]
    if ex.known(st, app("leaf", e)): return [(st, [Eq(e, t)])]
    return [(st, [Or(Eq(e, t), And(Not(app("leaf", e)), Ne(e, NULL), app("wraps", e, t)))])]
def assert_(ex, st, args, pos):
    ex.oblige(st, "assert", args[0], "assertion of the code", pos)
    if args[0] is FALSE: return []
    ex.assume(st, args[0])
    return [(st, [])]
def hexs(ex, st, args, pos): return [(st, [fresh("hex", SEQ)])]
def noop_err(ex, st, args, pos):
    e = fresh("xerr", REF); ex.assume(st, Le(app("birth", e), st.now)); return [(st, [e])]

def concat_content(ex, st, vals, pos):
    parts = []
    for v in vals:
        if not isinstance(v, IfaceV): raise Unsupported("Concat of %r" % (v,))
        k = ex.p.under(v.t)[0]
        if v.t == "[]byte": parts.append(ex.content(st, v.v))
        elif v.t in ("byte", "uint8"): parts.append(Unit(v.v))
        elif v.t == "string": parts.append(v.v)
        else: raise Unsupported("Concat of " + v.t)
    return Cat(*parts) if parts else Empty()
def concat(ex, st, args, pos):
    p = args[0]
    if isinstance(p, Sl) and p.nil is TRUE: p = PList([], "")
    if not isinstance(p, PList): raise Unsupported("Concat of unresolved arguments")
    return [(st, [own_result(ex, st, concat_content(ex, st, p.vals, pos))])]

def le_get(n):
    def f(ex, st, args, pos):
        b = args[-1]
        c = ex.content(st, b)
        ex.oblige(st, "bounds", Le(I(n), b.len), "binary.LittleEndian: buffer is long enough", pos)
        x = I(0)
        for i in range(n): x = Add(x, Mul(I(256 ** i), At(c, i)))
        return [(st, [x])]
    return f
def le_put(n):
    def f(ex, st, args, pos):
        b, v = args[-2], args[-1]
        ex.oblige(st, "bounds", Le(I(n), b.len), "binary.LittleEndian: buffer is long enough", pos)
        back, off = ex.writable(st, b, pos)
        q = st.loc[back].seq
        u = lit_le(v, n)
        ex.write_loc(st, back, Cat(Take(q, off), u, Drop(q, Add(off, n))), pos)
        return [(st, [])]
    return f
def lit_le(v, n):
    return Cat(*[Unit(Mod(Div(v, 256 ** i), 256) if i else Mod(v, 256)) for i in range(n)])

declare("blake", (INT, SEQ), SEQ)    # blake(size, data): the hash of the given size
axiom("blake-len", "(forall ((n Int) (d SeqI)) (! (=> (<= 0 n) (= (lenI (blake n d)) n)) :pattern ((blake n d))))", "blake")
def sum256(ex, st, args, pos): return [(st, [app("blake", I(32), ex.content(st, args[0]))])]
def blake_new(ex, st, args, pos):
    n = args[0]
    h = ex.alloc_ref(st, "hash", "*hash")
    st.heap["wout"] = Store(ex.comp(st, "wout", SEQ), h, Empty())
    ex.ext_set(st, "hsize", h, n)
    return [(st, [IfaceV("$hash", h), NULL])]
def hash_write(ex, st, args, pos): return buf_write(ex, st, args, pos)
def hash_sum(ex, st, args, pos):
    h = args[0]
    c = app("blake", ex.ext(st, "hsize", h, INT), wout(ex, st, h))
    p = args[1]
    pre = ex.content(st, p)
    return [(st, [ex.new_sl(st, Cat(pre, c))])]

def checknils(ex, st, args, pos):
    """trie.CheckNils uses reflection; its behaviour is assumed: nil interface or nil pointer inside"""
    def isnil(v):
        if isinstance(v, IfaceV):
            if isinstance(v.v, T) and v.v.sort == REF: return Eq(v.v, NULL)
            return FALSE
        return Or(Eq(v, NULL), app("istypednil", v))
    a, b = isnil(args[0]), isnil(args[1])
    return [(st, [And(a, b), Or(a, b)])]
declare("istypednil", (REF,), BOOL)

def std(ex):
    T_ = M + "trie."
    ex.intr.update({
        "io.ReadFull": read_full, "bytes.Equal": bytes_equal, "bytes.HasPrefix": has_prefix, "bytes.NewReader": new_reader,
        "(*bytes.Reader).Len": reader_len, "(*bytes.Reader).Read": raw_read,
        "(*bytes.Buffer).Write": buf_write, "(*bytes.Buffer).WriteByte": buf_writebyte, "(*bytes.Buffer).Bytes": buf_bytes, "(*bytes.Buffer).Len": buf_len,
        "(*bytes.Buffer).WriteString": buf_write,
        "errors.New": errors_new, "golang.org/x/xerrors.New": errors_new, "fmt.Errorf": errorf, "golang.org/x/xerrors.Errorf": errorf,
        "fmt.Sprintf": sprintf, "fmt.Sprint": sprintf, "errors.Is": errors_is, "encoding/hex.EncodeToString": hexs,
        T_ + "Assert": assert_, T_ + "Concat": concat,
        "(encoding/binary.littleEndian).Uint16": le_get(2), "(encoding/binary.littleEndian).Uint32": le_get(4),
        "(encoding/binary.littleEndian).PutUint16": le_put(2), "(encoding/binary.littleEndian).PutUint32": le_put(4),
        "golang.org/x/crypto/blake2b.Sum256": sum256, "golang.org/x/crypto/blake2b.New": blake_new,
        "($hash).Write": hash_write, "($hash).Sum": hash_sum,
        T_ + "CheckNils": checknils,
        "(*os.File).Close": noop_err,
        M + "trie.PathArity.String": sprintf, "(" + M + "trie.PathArity).String": sprintf,
    })
    ex.iface.update({("io.Writer", "Write"): writer_write, ("io.Reader", "Read"): raw_read, ("hash.Hash", "Write"): hash_write,
                     ("error", "Error"): hexs})
    ex.opts.setdefault("globals", {})["encoding/binary.LittleEndian"] = lambda ex, st: StructV("encoding/binary.littleEndian", {})
