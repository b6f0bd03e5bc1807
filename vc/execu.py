"""Symbolic execution of go/ssa with contracts: generates proof obligations."""
import terms, theory
from terms import *
from theory import *
import ssa
from ssa import INTS

class Unsupported(Exception): pass
class VcBug(Exception): pass

M = "github.com/iotaledger/trie.go/"
def short(n): return n.replace("github.com/iotaledger/trie.go/", "").replace("models/trie_blake2b/", "").replace("models/", "")

terms._FRESH = {}
_oldEq = terms.Eq
def FEq(a, b):
    if a is not b and a.sort == REF:
        fa, fb = a in terms._FRESH, b in terms._FRESH
        if a.op == "emb" and b.op == "emb": return FALSE if a.args[1] is not b.args[1] else FEq(a.args[0], b.args[0])
        if (fa or a is NULL) and b.op == "emb" or (fb or b is NULL) and a.op == "emb": return FALSE
        if (fa and fb) or (fa and b is NULL) or (fb and a is NULL): return FALSE
    return _oldEq(a, b)
terms.Eq = FEq; theory.Eq = FEq; Eq = FEq
terms.known_ne = lambda a, b: a.sort == REF and FEq(a, b) is FALSE
def Ne(a, b): return Not(FEq(a, b))

declare("leaf", (REF,), BOOL); declare("wraps", (REF, REF), BOOL); declare("faulty", (REF,), BOOL)
axiom("typednil", "true", "leaf")

# ---------------------------------------------------------------- values
class Sl:
    """slice value; elements: I bytes, B slices, R references"""
    __slots__ = ("k", "back", "seq", "off", "len", "nil", "owner", "origin", "et")
    def __init__(s, k, back=None, seq=None, off=None, len=None, nil=FALSE, owner="own", origin=None, et=None):
        s.k = k; s.back = back; s.seq = seq; s.off = off; s.len = len; s.nil = nil; s.owner = owner; s.origin = origin; s.et = et
    def __repr__(s): return "Sl(%s,%s,%s,%s,nil=%s,%s)" % (s.back, s.seq, s.off, s.len, s.nil, s.owner)
class PtrCell:
    __slots__ = ("id", "t")
    def __init__(s, id, t): s.id = id; s.t = t
    def __eq__(s, o): return isinstance(o, PtrCell) and o.id == s.id
    def __hash__(s): return hash(s.id)
class PtrField:
    __slots__ = ("comp", "ref", "t")
    def __init__(s, comp, ref, t): s.comp = comp; s.ref = ref; s.t = t
class PtrElem:
    __slots__ = ("back", "idx", "t", "sl", "rel")
    def __init__(s, back, idx, t, sl=None, rel=None): s.back = back; s.idx = idx; s.t = t; s.sl = sl; s.rel = rel
class PtrArr:
    __slots__ = ("back", "n", "t")
    def __init__(s, back, n, t): s.back = back; s.n = n; s.t = t
class PtrList:      # pointer to a small local array of arbitrary values
    __slots__ = ("id", "n", "t")
    def __init__(s, id, n, t): s.id = id; s.n = n; s.t = t
class PtrListElem:
    __slots__ = ("id", "i", "t")
    def __init__(s, id, i, t): s.id = id; s.i = i; s.t = t
class PList:
    __slots__ = ("vals", "t")
    def __init__(s, vals, t): s.vals = vals; s.t = t
class StructV:
    __slots__ = ("t", "f")
    def __init__(s, t, f): s.t = t; s.f = f
class IfaceV:
    __slots__ = ("t", "v")
    def __init__(s, t, v): s.t = t; s.v = v
    def __repr__(s): return "IfaceV(%s,%r)" % (s.t, s.v)
class Closure:
    __slots__ = ("fn", "binds")
    def __init__(s, fn, binds): s.fn = fn; s.binds = binds
class HookV:
    __slots__ = ("f", "name")
    def __init__(s, name, f): s.f = f; s.name = name
class MapIter:
    __slots__ = ("cell", "m", "t")
    def __init__(s, cell, m, t): s.cell = cell; s.m = m; s.t = t
class Loc:
    __slots__ = ("seq", "owner", "links", "prev", "poison")
    def __init__(s, seq, owner="own", links=(), prev=None, poison=False):
        s.seq = seq; s.owner = owner; s.links = links; s.prev = prev; s.poison = poison

KS = {"I": SEQ, "B": BSEQ, "R": RSEQ}

class State:
    __slots__ = ("env", "heap", "loc", "cells", "pc", "now", "tr", "loops", "defers", "ghost")
    def __init__(s):
        s.env = {}; s.heap = {}; s.loc = {}; s.cells = {}; s.pc = []; s.now = I(0); s.tr = []; s.loops = {}; s.defers = {}; s.ghost = {}
    def fork(s):
        n = State()
        n.env = dict(s.env); n.heap = dict(s.heap); n.loc = dict(s.loc); n.cells = dict(s.cells); n.pc = list(s.pc); n.now = s.now
        n.tr = list(s.tr); n.loops = dict(s.loops); n.defers = {k: list(v) for k, v in s.defers.items()}; n.ghost = dict(s.ghost)
        return n

class Ob:
    __slots__ = ("kind", "hyps", "goal", "desc", "pos", "soft", "fn")
    def __init__(s, kind, hyps, goal, desc, pos, soft, fn):
        s.kind = kind; s.hyps = hyps; s.goal = goal; s.desc = desc; s.pos = pos; s.soft = soft; s.fn = fn

class Exec:
    MAXPATHS = 4000
    def __init__(self, prog, contracts=None, hints=(), opts=None):
        self.p = prog
        self.contracts = contracts or {}
        self.hints = list(hints)
        self.opts = opts or {}
        self.obs = []
        self.dropped = set()       # dropped loop candidates
        self.modsets = {}          # loop key -> set of modified things
        self.changed = False
        self.used = set()          # functions executed/inlined
        self.used_contracts = set(); self.used_intr = set()
        self.heap0 = {}
        self.paths = 0
        self.intr = {}
        self.iface = {}
        self.cur = "?"
        self.uid = {}
        self.assumed_note = set()
        self.softok = set(); self.trivial = 0

    # ---------------------------------------------------------- types
    def sort_of(self, t):
        k = self.p.kind(t)
        if k == "int": return INT
        if k == "bool": return BOOL
        if k == "string": return SEQ
        if k == "slice":
            ek = self.p.kind(self.p.elem(t))
            if ek == "int": return SL
            if ek == "slice": return BSEQ
            return RSEQ
        if k == "array":
            ek = self.p.kind(self.p.elem(t))
            return SEQ if ek == "int" else BSEQ if ek == "slice" else RSEQ
        if k == "struct":
            if not self.p.fields(t): return INT
            raise Unsupported("sort of struct " + t)
        return REF
    def ek(self, et):
        k = self.p.kind(et)
        if k == "int": return "I"
        if k == "slice": return "B"
        if k in ("struct", "string", "array"): return None
        return "R"

    def fresh_int(self, hint, t):
        v = fresh(hint, INT)
        m = None
        k = t
        u, d = self.p.under(t)
        if u in INTS and INTS[u]: terms.VRANGES[v] = (0, INTS[u] - 1)
        return v

    def name(self, hint):
        n = self.uid.get(hint, 0); self.uid[hint] = n + 1
        return "%s#%d" % (hint, n)

    # ---------------------------------------------------------- heap
    def comp(self, st, comp, vsort):
        h = st.heap.get(comp)
        if h is None:
            h = self.heap0.get(comp)
            if h is None:
                h = var("H0:" + comp, Arr(REF, vsort)); self.heap0[comp] = h
            st.heap[comp] = h
        return h
    def fcomp(self, stype, i):
        u, d = self.p.under(stype)
        return "%s.%s" % (short(stype), self.p.fields(stype)[i]["n"])
    def load_comp(self, st, comp, ref, t):
        srt = self.sort_of(t)
        v = Select(self.comp(st, comp, srt), ref)
        if srt == REF and v is not NULL and v not in terms._FRESH:
            self.assume(st, Le(app("birth", v), st.now))
        if srt == SEQ: pass
        return v
    def getf(self, st, ref, stype, fname):
        """python-level field read (raised value)"""
        for i, f in enumerate(self.p.fields(stype)):
            if f["n"] == fname:
                return self.load_field(st, ref, stype, i)
        raise Unsupported("no field %s in %s" % (fname, stype))
    def setf(self, st, ref, stype, fname, v):
        for i, f in enumerate(self.p.fields(stype)):
            if f["n"] == fname:
                return self.store_field(st, ref, stype, i, v)
        raise Unsupported("no field %s in %s" % (fname, stype))
    def load_field(self, st, ref, stype, i):
        f = self.p.fields(stype)[i]
        if self.is_struct(f["t"]):
            return self.load_struct(st, Emb(ref, i), f["t"])
        comp = self.fcomp(stype, i)
        v = self.load_comp(st, comp, ref, f["t"])
        return self.raise_(st, v, f["t"], origin=(comp, ref))
    def store_field(self, st, ref, stype, i, v):
        f = self.p.fields(stype)[i]
        if self.is_struct(f["t"]):
            return self.store_struct(st, Emb(ref, i), f["t"], v)
        comp = self.fcomp(stype, i)
        self.unlink(st, comp, ref)
        x = self.lower(st, v, f["t"], link=(comp, ref))
        h = self.comp(st, comp, self.sort_of(f["t"]))
        st.heap[comp] = Store(h, ref, x)
        for hk in self.opts.get("store_hooks", ()): hk(self, st, comp, ref, x)
    def unlink(self, st, comp, ref):
        """the field is overwritten: backings published there before are not any more"""
        for id, l in list(st.loc.items()):
            if not l.links or not any(k[0][0] == comp for k in l.links): continue
            nl = []
            for (link, off, ln, nil, *later) in l.links:
                if link[0] == comp:
                    if link[1] is ref: continue
                    if not (link[1] in terms._FRESH and ref in terms._FRESH): later = [(later[0] if later else ()) + (ref,)]
                nl.append((link, off, ln, nil, *later))
            st.loc[id] = Loc(l.seq, l.owner, tuple(nl), l.prev, l.poison)
    def is_struct(self, t):
        return self.p.kind(t) == "struct" and len(self.p.fields(t)) > 0
    def load_struct(self, st, ref, t):
        if self.opaque(t): return StructV(t, {"$ref": ref})
        return StructV(t, {f["n"]: self.load_field(st, ref, t, i) for i, f in enumerate(self.p.fields(t))})
    def store_struct(self, st, ref, t, v):
        if self.opaque(t): raise Unsupported("store of opaque struct " + t)
        for i, f in enumerate(self.p.fields(t)):
            self.store_field(st, ref, t, i, v.f[f["n"]])
    def opaque(self, t):
        return not t.startswith(M) and not t.startswith("struct{")

    # ---------------------------------------------------------- assumptions / obligations
    def assume(self, st, f):
        if f is TRUE: return
        if f.op == "and":
            for a in f.args: self.assume(st, a)
            return
        if f in st.pc: return
        st.pc.append(f)
    def known(self, st, f):
        if f is TRUE: return True
        return f in st.pc
    def oblige(self, st, kind, goal, desc, pos="", soft=None):
        if goal is TRUE or (soft is None and self.known(st, goal)):
            if soft is None: self.trivial += 1      # discharged by simplification or syntactically
            return
        self.obs.append(Ob(kind, tuple(st.pc), goal, desc, pos, soft, self.cur))
        if soft is None: self.assume(st, goal)
    def fail(self, st, kind, desc, pos=""):
        """this point must be unreachable"""
        self.obs.append(Ob(kind, tuple(st.pc), FALSE, desc, pos, None, self.cur))

    # ---------------------------------------------------------- values
    def alloc_ref(self, st, hint, typ=None):
        r = fresh(hint, REF)
        terms._FRESH[r] = True
        st.now = Add(st.now, 1)
        self.assume(st, Eq(app("birth", r), st.now))
        self.assume(st, mk("not", (mk("=", (NULL, r) if NULL._h < r._h else (r, NULL), BOOL),), BOOL))
        if typ is not None: self.assume(st, Eq(app("typ", r), I(self.tag(typ))))
        return r
    def tag(self, t):
        ks = self.opts.setdefault("_tags", {})
        if t not in ks: ks[t] = 1 + len(ks)
        return ks[t]
    def new_loc(self, st, seq, owner="own", hint="loc"):
        # ids may repeat across paths, never within one path
        n = 0
        while "%s#%d" % (hint, n) in st.loc: n += 1
        id = "%s#%d" % (hint, n)
        st.loc[id] = Loc(seq, owner)
        return id
    def new_cell(self, st, hint):
        n = 0
        while "%s#%d" % (hint, n) in st.cells: n += 1
        return "%s#%d" % (hint, n)
    def new_sl(self, st, seq, k="I", nil=FALSE, et="byte", owner="own", hint="loc"):
        id = self.new_loc(st, seq, owner, hint)
        return Sl(k, back=id, off=I(0), len=Len(seq), nil=nil, et=et)
    def nil_sl(self, t):
        et = self.p.elem(t); k = self.ek(et)
        if k is None: return PList([], t)
        return Sl(k, seq=Empty(KS[k]), len=I(0), nil=TRUE, owner="own", et=et)
    def content(self, st, s):
        if isinstance(s, PList): raise Unsupported("content of plist")
        if s.back is None: return s.seq
        l = st.loc[s.back]
        if l.poison: self.fail(st, "alias", "read through a slice whose backing may have been overwritten after append")
        return Slice(l.seq, s.off, Add(s.off, s.len))
    def slen(self, s):
        if isinstance(s, PList): return I(len(s.vals))
        return s.len
    def lower(self, st, v, t, link=None):
        """python value -> term"""
        if isinstance(v, T): return v
        if isinstance(v, Sl):
            srt = self.sort_of(t) if t else {"I": SL, "B": BSEQ, "R": RSEQ}[v.k]
            c = self.content(st, v)
            if v.owner == "caller" and link is not None and self.opts.get("retain", True):
                self.oblige(st, "retain", Eq(v.len, I(0)), "a caller's buffer is retained in %s" % (link[0],))
            if v.back is not None and link is not None:
                l = st.loc[v.back]
                st.loc[v.back] = Loc(l.seq, l.owner, l.links + ((link, v.off, v.len, v.nil),), l.prev, l.poison)
            if srt == SL: return MkSl(v.nil, c)
            return c
        if isinstance(v, PList):
            if not v.vals: return Empty(self.sort_of(t))
            raise Unsupported("lower plist")
        if isinstance(v, IfaceV):
            if isinstance(v.v, T):
                r = v.v
                if r in terms._FRESH or self.known(st, Ne(r, NULL)) : return r
                return Ite(Eq(r, NULL), self.typednil(v.t), r)
            if isinstance(v.v, Sl):
                r = self.alloc_ref(st, "box", v.t)
                comp = "box"
                x = self.lower(st, v.v, v.t, link=(comp, r))
                st.heap[comp] = Store(self.comp(st, comp, SL), r, x)
                hk = self.opts.get("box_hook")
                if hk: hk(self, st, r, v)
                return r
            r = self.alloc_ref(st, "boxo", v.t)
            return r
        if isinstance(v, (Closure, HookV)):
            return self.alloc_ref(st, "func")
        if isinstance(v, StructV) and not v.f: return I(0)
        raise Unsupported("lower %r (%s)" % (v, t))
    def typednil(self, t):
        n = "typednil_%d" % self.tag(t)
        if n not in FUNCS:
            declare(n, (), REF)
            axiom(n, "(and (not (= %s null)) (= (typ %s) %d))" % (n, n, self.tag(t)), n)
        return app(n)
    def raise_(self, st, x, t, origin=None, owner="heap"):
        """term -> python value"""
        k = self.p.kind(t)
        if k == "slice":
            et = self.p.elem(t); kk = self.ek(et)
            if x.sort == SL:
                s = SlSeq(x)
                n = SlNil(x)
                if n is not TRUE and n is not FALSE:
                    self.assume(st, Implies(n, Eq(Len(s), I(0))))
                return Sl("I", seq=s, len=Len(s), nil=n, owner=owner, origin=origin, et=et)
            return Sl(kk, seq=x, len=Len(x), nil=self.nilflag(st, x), owner=owner, origin=origin, et=et)
        if k == "struct": return StructV(t, {})
        if k == "int" and x.sort == INT:
            u, d = self.p.under(t)
            if u in INTS and INTS[u] and x.op == "select":
                lo, hi = rng(x)
                if lo is None:
                    self.assume(st, And(Le(I(0), x), Le(x, I(INTS[u] - 1))))
        return x
    def nilflag(self, st, x):
        n = "nilof_" + SUF[x.sort]
        if n not in FUNCS:
            declare(n, (x.sort,), BOOL)
            axiom(n, "(forall ((a %s)) (! (=> (%s a) (= (len%s a) 0)) :pattern ((%s a))))" % (x.sort, n, SUF[x.sort], n), n)
        return app(n, x)
    def fresh_value(self, st, t, hint, owner="heap"):
        k = self.p.kind(t)
        if k == "int": return self.fresh_int(hint, t)
        if k == "struct":
            if not self.p.fields(t): return StructV(t, {})
            return StructV(t, {f["n"]: self.fresh_value(st, f["t"], hint + "_" + f["n"], owner) for f in self.p.fields(t)})
        v = fresh(hint, self.sort_of(t))
        if v.sort == REF: self.assume(st, Le(app("birth", v), st.now))
        return self.raise_(st, v, t, owner=owner)
    def zero(self, st, t):
        k = self.p.kind(t)
        if k == "int": return I(0)
        if k == "bool": return FALSE
        if k == "string": return Empty()
        if k == "slice": return self.nil_sl(t)
        if k == "struct": return StructV(t, {f["n"]: self.zero(st, f["t"]) for f in self.p.fields(t)})
        if k == "array":
            n = self.p.under(t)[1]["len"]; et = self.p.elem(t); kk = self.ek(et)
            if kk is None: return PList([self.zero(st, et) for _ in range(n)], t)
            return Rep(I(n), self.zero_elem(et), KS[kk])
        return NULL
    def zero_elem(self, et):
        k = self.ek(et)
        return I(0) if k == "I" else MkSl(TRUE, Empty()) if k == "B" else NULL
    def as_ref(self, st, v, t=None):
        if isinstance(v, T): return v
        return self.lower(st, v, t)

    def eq_vals(self, st, a, b, t):
        if isinstance(a, PtrCell) and isinstance(b, PtrCell): return B(a.id == b.id)
        if isinstance(a, IfaceV) and b is NULL or isinstance(b, IfaceV) and a is NULL: return FALSE
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            if a.t != b.t: return FALSE
            return self.eq_vals(st, a.v, b.v, a.t)
        if isinstance(a, (PtrCell, PtrField, PtrArr, PtrElem, PtrList, Closure, HookV, MapIter)) and b is NULL: return FALSE
        if isinstance(b, (PtrCell, PtrField, PtrArr, PtrElem, PtrList, Closure, HookV, MapIter)) and a is NULL: return FALSE
        if isinstance(a, Sl) and (b is NULL or isinstance(b, Sl) and b.nil is TRUE): return a.nil
        if isinstance(b, Sl) and (a is NULL or isinstance(a, Sl) and a.nil is TRUE): return b.nil
        if isinstance(a, (PList,)) and (b is NULL or isinstance(b, PList)): return B(not a.vals)
        if isinstance(a, StructV) and isinstance(b, StructV):
            return And(*[self.eq_vals(st, a.f[f["n"]], b.f[f["n"]], f["t"]) for f in self.p.fields(t)])
        a = self.lower(st, a, t); b = self.lower(st, b, t)
        return Eq(a, b)

    # ---------------------------------------------------------- memory access
    def write_loc(self, st, back, seq, pos="", what="write"):
        l = st.loc[back]
        if l.owner != "own":
            self.oblige(st, "borrow-write", FALSE, "write into a buffer that is not owned (%s)" % l.owner, pos)
        p = l.prev
        while p is not None:
            q = st.loc[p]; st.loc[p] = Loc(q.seq, q.owner, q.links, q.prev, True); p = q.prev
        st.loc[back] = Loc(seq, l.owner, l.links, l.prev, l.poison)
        for (link, off, ln, nil, *later) in l.links:
            for r2 in (later[0] if later else ()): self.oblige(st, "alias", Ne(link[1], r2), "a published buffer is written after its field may have been overwritten", pos)
            x = Slice(seq, off, Add(off, ln))
            if seq.sort == SEQ: x = MkSl(nil, x)
            self.set_link(st, link, x, seq.sort)
    def set_link(self, st, link, x, srt):
        if link[0] == "$map":
            _, t, m, k = link
            mv = self.mvcomp(st, t)
            cur = Select(st.heap[mv], m)
            st.heap[mv] = Store(st.heap[mv], m, Store(cur, k, x))
        else:
            comp, ref = link
            h = st.heap[comp]
            st.heap[comp] = Store(h, ref, x)
            hk = self.opts.get("link_hook")
            if hk: hk(self, st, link, x)
    def find_linked(self, st, origin):
        """a local backing published exactly at this heap location"""
        if origin is None: return None
        for id, l in st.loc.items():
            for (link, off, ln, nil, *_) in l.links:
                if link == origin: return id, off, ln
        return None
    def writable(self, st, s, pos):
        """resolve a slice to a local backing for writing; returns (back, off)"""
        if s.back is not None: return s.back, s.off
        f = self.find_linked(st, s.origin)
        if f is not None: return f[0], f[1]
        self.oblige(st, "borrow-write", Eq(s.len, I(0)), "write into a buffer that is not owned (%s)" % s.owner, pos)
        id = self.new_loc(st, s.seq)
        return id, I(0)
    def load(self, st, p, t, pos=""):
        if isinstance(p, PtrCell): return st.cells[p.id]
        if isinstance(p, PtrField):
            v = self.load_comp(st, p.comp, p.ref, p.t)
            return self.raise_(st, v, p.t, origin=(p.comp, p.ref))
        if isinstance(p, PtrElem):
            if p.back is not None:
                l = st.loc[p.back]
                if l.poison: self.fail(st, "alias", "read of possibly overwritten backing", pos)
                x = At(l.seq, p.idx)
            else: x = At(p.sl.seq, p.idx)
            if x.sort == SL: return self.raise_(st, x, p.t)
            if x.sort == REF: self.assume(st, Le(app("birth", x), st.now))
            return x
        if isinstance(p, PtrListElem): return st.cells[p.id][p.i]
        if isinstance(p, PtrArr):
            return st.loc[p.back].seq
        if isinstance(p, PtrList): return PList(list(st.cells[p.id]), p.t)
        if isinstance(p, T):
            if self.is_struct(t): 
                self.nonnil(st, p, pos)
                return self.load_struct(st, p, t)
            if p.op == "gref": return self.load_global(st, p, t)
            # pointer to a scalar held in the heap
            self.nonnil(st, p, pos)
            comp = "*" + short(t)
            return self.raise_(st, self.load_comp(st, comp, p, t), t, origin=(comp, p))
        if isinstance(p, GlobalP): return self.load_global(st, p, t)
        raise Unsupported("load from %r" % (p,))
    def load_global(self, st, p, t):
        k = "glob:" + p.name
        if k in st.cells: return st.cells[k]
        if self.p.kind(t) in ("iface", "ptr"):
            n = "G_" + "".join(c if c.isalnum() else "_" for c in p.name)
            if n not in FUNCS:
                declare(n, (), REF); terms._DISTINCT.add(n)
                axiom(n, "(and (not (= %s null)) (leaf %s) (<= (birth %s) (- 1)))" % (n, n, n), n)
                for o in GLOBALS: axiom(n + o, "(not (= %s %s))" % (n, o), n, o)
                GLOBALS.append(n)
            return app(n)
        h = self.opts.get("globals", {}).get(p.name)
        if h: return h(self, st)
        raise Unsupported("global " + p.name)
    def store(self, st, p, v, t, pos=""):
        if isinstance(p, PtrCell):
            st.cells[p.id] = v; return
        if isinstance(p, PtrField):
            self.unlink(st, p.comp, p.ref)
            x = self.lower(st, v, p.t, link=(p.comp, p.ref))
            st.heap[p.comp] = Store(self.comp(st, p.comp, self.sort_of(p.t)), p.ref, x)
            return
        if isinstance(p, PtrElem):
            back, idx = p.back, p.idx
            if back is None:
                b, off = self.writable(st, p.sl, pos)
                back, idx = b, Add(off, p.idx)
            x = self.lower(st, v, p.t, link=None)
            if isinstance(v, Sl) and v.owner == "caller" and not self.opts.get("elem_borrow_ok", True):
                self.oblige(st, "retain", FALSE, "a caller's buffer is retained", pos)
            self.write_loc(st, back, Upd(st.loc[back].seq, idx, x), pos)
            return
        if isinstance(p, PtrListElem):
            l = list(st.cells[p.id]); l[p.i] = v; st.cells[p.id] = l; return
        if isinstance(p, PtrArr):
            self.write_loc(st, p.back, v, pos); return
        if isinstance(p, T):
            self.nonnil(st, p, pos)
            if self.is_struct(t): return self.store_struct(st, p, t, v)
            comp = "*" + short(t)
            self.unlink(st, comp, p)
            x = self.lower(st, v, t, link=(comp, p))
            st.heap[comp] = Store(self.comp(st, comp, self.sort_of(t)), p, x)
            return
        if isinstance(p, GlobalP):
            raise Unsupported("store to global " + p.name)
        raise Unsupported("store to %r" % (p,))
    def nonnil(self, st, r, pos):
        if isinstance(r, T) and r.sort == REF:
            if r in terms._FRESH or r.op == "emb": return
            self.oblige(st, "nil", Ne(r, NULL), "nil pointer dereference", pos)

    # maps
    def mdcomp(self, st, t):
        c = "MD:" + short(self.p.under(t)[0]).replace("uint8", "byte"); kt = self.p.under(t)[1]["key"]
        self.comp(st, c, Arr(self.sort_of(kt), BOOL)); return c
    def mvcomp(self, st, t):
        c = "MV:" + short(self.p.under(t)[0]).replace("uint8", "byte"); d = self.p.under(t)[1]
        self.comp(st, c, Arr(self.sort_of(d["key"]), self.sort_of(d["elem"]))); return c
    def mdom(self, st, m, t):
        d = Select(st.heap[self.mdcomp(st, t)], m)
        if m is NULL: return ConstArr(d.sort, FALSE)
        return d
    def mval(self, st, m, t): return Select(st.heap[self.mvcomp(st, t)], m)
    def nil_map_fact(self, st, m, t):
        if m in terms._FRESH: return
        d = self.mdom(st, m, t)
        if m is not NULL and not self.known(st, Ne(m, NULL)):
            self.assume(st, Implies(Eq(m, NULL), Eq(d, ConstArr(d.sort, FALSE))))
    def map_get(self, st, m, k, t):
        d = self.p.under(t)[1]
        self.nil_map_fact(st, m, t)
        dom = Select(self.mdom(st, m, t), k)
        et = d["elem"]
        if self.p.kind(et) == "struct": return self.zero(st, et), dom
        v = Select(self.mval(st, m, t), k)
        z = self.lower(st, self.zero(st, et), et)
        if v.sort == REF: self.assume(st, Le(app("birth", v), st.now))
        if dom is TRUE or self.known(st, dom): x = v
        elif dom is FALSE or self.known(st, Not(dom)): x = z
        else: x = Ite(dom, v, z)
        return self.raise_(st, x, et, origin=("$map", t, m, k)), dom
    def map_set(self, st, m, k, v, t):
        d = self.p.under(t)[1]
        md = self.mdcomp(st, t); mv = self.mvcomp(st, t)
        st.heap[md] = Store(st.heap[md], m, Store(self.mdom(st, m, t), k, TRUE))
        if self.p.kind(d["elem"]) != "struct":
            x = self.lower(st, v, d["elem"], link=("$map", t, m, k))
            st.heap[mv] = Store(st.heap[mv], m, Store(self.mval(st, m, t), k, x))
        for hk in self.opts.get("map_hooks", ()): hk(self, st, "set", m, k, t)
    def map_del(self, st, m, k, t):
        md = self.mdcomp(st, t)
        st.heap[md] = Store(st.heap[md], m, Store(self.mdom(st, m, t), k, FALSE))
        for hk in self.opts.get("map_hooks", ()): hk(self, st, "del", m, k, t)
    def new_map(self, st, t, hint="map"):
        r = self.alloc_ref(st, hint)
        md = self.mdcomp(st, t)
        kt = self.p.under(t)[1]["key"]
        st.heap[md] = Store(st.heap[md], r, ConstArr(Arr(self.sort_of(kt), BOOL), FALSE))
        return r

class GlobalP:
    __slots__ = ("name", "t")
    def __init__(s, name, t): s.name = name; s.t = t
GLOBALS = []
