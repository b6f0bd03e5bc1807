"""Instruction interpreter, loops, calls."""
from execu import *
import execu, terms, theory, ssa

class Ctx:
    """what a loop-invariant hint can see"""
    pass

class Interp(Exec):
    # ------------------------------------------------------------ operands
    def val(self, st, fid, o, t=None):
        if o is None: return None
        if "r" in o:
            return st.env[(fid, o["r"])]
        if o.get("const"):
            tt = o["t"]
            if o.get("nil"):
                k = self.p.kind(tt)
                if k == "slice": return self.nil_sl(tt)
                return NULL
            if "b" in o: return B(o["b"])
            if "s" in o: return lit(o["s"].encode("utf8") if isinstance(o["s"], str) else o["s"])
            if "i" in o: return I(int(o["i"]))
            return self.zero(st, tt)
        if "func" in o: return Closure(o["func"], [])
        if "builtin" in o: return ("builtin", o["builtin"])
        if "global" in o: return GlobalP(o["global"], o.get("t"))
        raise Unsupported("operand %r" % (o,))

    # ------------------------------------------------------------ running functions
    def run(self, fname, args, st, binds=(), path=""):
        """execute the body; returns list of (state, [results])"""
        fn = self.p.fns.get(fname)
        if fn is None or not fn["blocks"]: raise Unsupported("no body: " + fname)
        self.used.add(fname)
        if len(path) > 600: raise Unsupported("inlining too deep: " + fname)
        fid = self.name("f:" + path + "/" + short(fname))
        # deterministic frame path for loop keys
        fpath = path + "/" + short(fname)
        for p, a in zip(fn["params"], args): st.env[(fid, p["n"])] = a
        for p, a in zip(fn["freevars"], binds): st.env[(fid, p["n"])] = a
        if len(args) != len(fn["params"]): raise VcBug("arity " + fname)
        lps = ssa.loops(fn)
        out = []
        work = [(st, 0, 0, -1)]
        while work:
            st, bi, ii, prev = work.pop()
            blk = fn["blocks"][bi]
            if ii == 0:
                if bi in lps and ("L", fid, bi) in st.loops and prev in lps[bi]:
                    self.loop_back(fn, fid, fpath, bi, prev, st)
                    continue
                if bi in lps and prev not in lps[bi]:
                    ii = self.loop_enter(fn, fid, fpath, bi, prev, st, lps[bi])
                else:
                    ii = self.phis(fn, fid, bi, prev, st)
            stop = False
            while ii < len(blk["is"]):
                ins = blk["is"][ii]
                r = self.step(fn, fid, fpath, bi, ins, st)
                if r is None: ii += 1; continue
                k = r[0]
                if k == "forks":
                    lst = r[1]
                    if len(lst) == 1:
                        st2, v = lst[0]
                        if "r" in ins: st2.env[(fid, ins["r"])] = v
                        st = st2; ii += 1; continue
                    for st2, v in reversed(lst):
                        if "r" in ins: st2.env[(fid, ins["r"])] = v
                        work.append((st2, bi, ii + 1, prev))
                    stop = True; break
                if k == "goto":
                    for st2, tgt in reversed(r[1]): work.append((st2, tgt, 0, bi))
                    stop = True; break
                if k == "ret":
                    self.paths += 1
                    if self.paths > self.MAXPATHS: raise Unsupported("too many paths in " + fname)
                    out.append((st, r[1])); stop = True; break
                if k == "stop": stop = True; break
            if not stop: raise VcBug("fell off block")
        return out

    def phis(self, fn, fid, bi, prev, st):
        blk = fn["blocks"][bi]
        vals = []; ii = 0
        if prev >= 0:
            pi = blk["preds"].index(prev)
            for ins in blk["is"]:
                if ins["op"] != "Phi": break
                vals.append((ins["r"], self.val(st, fid, ins["edges"][pi]))); ii += 1
        for r, v in vals: st.env[(fid, r)] = v
        return ii

    # ------------------------------------------------------------ loops
    def loop_enter(self, fn, fid, fpath, bi, prev, st, body):
        ii = self.phis(fn, fid, bi, prev, st)
        key = "%s:%d" % (fpath, bi)
        n = 0
        phis = [ins for ins in fn["blocks"][bi]["is"] if ins["op"] == "Phi"]
        entry = {p["r"]: st.env[(fid, p["r"])] for p in phis}
        ctx = self.loop_common_enter(key, st, [(p["r"], p["t"], p.get("comment", "")) for p in phis], entry, fn, fid, body, lambda s, r, v: s.env.__setitem__((fid, r), v))
        st.loops[("L", fid, bi)] = ctx
        return ii

    def loop_common_enter(self, key, st, phis, entry, fn, fid, body, setphi):
        ctx = Ctx(); ctx.key = key; ctx.entry = entry; ctx.phis = phis; ctx.fn = fn; ctx.fid = fid; ctx.body = body
        ctx.ex = self
        ctx.st0 = st.fork()
        mod = self.modsets.setdefault(key, set())
        ctx.mod = mod
        # initial check of the candidates
        cur = dict(entry)
        for nm, f in self.candidates(ctx, st, cur):
            self.oblige(st, "inv-init", f, "loop invariant %s holds initially [%s]" % (nm, key), "", soft=(key, nm))
        # havoc
        N = fresh("now", INT); self.assume(st, Le(st.now, N)); st.now = N
        cur = {}
        for r, t, c in phis:
            e = entry[r]
            v = self.havoc_like(st, e, t, r if not c else c, ("phi", r) , mod)
            cur[r] = v; setphi(st, r, v)
        ctx.pend = []
        for m in sorted(mod, key=str):
            if m[0] == "heap":
                h = st.heap.get(m[1])
                if h is not None:
                    nh = fresh(m[1], h.sort)
                    st.heap[m[1]] = nh
                    self.frame_facts(st, m[1], h, nh, ctx.st0.now)
            elif m[0] == "loc" and m[1] in st.loc:
                l = st.loc[m[1]]
                ns = fresh("loc", l.seq.sort)
                self.assume(st, Eq(Len(ns), Len(l.seq))) if ("loclen", m[1]) not in mod else None
                st.loc[m[1]] = Loc(ns, l.owner, l.links, l.prev, l.poison)
            elif m[0] == "cell" and m[1] in st.cells:
                v = st.cells[m[1]]
                st.cells[m[1]] = self.havoc_like(st, v, m[2], m[1].split("#")[0], m, mod)
        ctx.head = st.fork()
        ctx.cur = cur
        for nm, f in self.candidates(ctx, st, cur):
            if (key, nm) not in self.dropped:
                # a mention in a candidate only supplies terms: it is true wherever the candidate is assumed
                if f.op == "=>" and self.mentions(f.args[0]): self.assume(st, f.args[0]); f = f.args[1]
                self.assume(st, f)
        ctx.head.pc = list(st.pc)
        return ctx

    def mentions(self, f): return f.op.startswith("mention") or f.op == "and" and all(self.mentions(x) for x in f.args)
    def frame_facts(self, st, comp, old, new, now0): pass

    def havoc_like(self, st, v, t, hint, mk_, mod):
        if isinstance(v, Sl):
            own = ("owner", mk_) 
            notown = [m for m in mod if m[0] == "owner" and m[1] == mk_]
            owner = v.owner if v.back is None else st.loc[v.back].owner
            if v.back is None and v.nil is TRUE and v.len is I(0) : owner = "own"
            for m in notown: owner = m[2]
            s = fresh(hint, KS[v.k])
            if owner == "own":
                n = fresh(hint + "_nil", BOOL)
                self.assume(st, Implies(n, Eq(Len(s), I(0))))
                id = self.new_loc(st, s)
                return Sl(v.k, back=id, off=I(0), len=Len(s), nil=n, et=v.et)
            n = fresh(hint + "_nil", BOOL)
            self.assume(st, Implies(n, Eq(Len(s), I(0))))
            return Sl(v.k, seq=s, len=Len(s), nil=n, owner=owner, et=v.et)
        if isinstance(v, T):
            if v.sort == INT and t:
                return self.fresh_int(hint, t)
            r = fresh(hint, v.sort)
            if v.sort == REF: self.assume(st, Le(app("birth", r), st.now))
            return r
        if isinstance(v, IfaceV):
            r = fresh(hint, REF); self.assume(st, Le(app("birth", r), st.now))
            return r
        if isinstance(v, StructV):
            return self.fresh_value(st, v.t, hint)
        raise Unsupported("havoc of %r" % (v,))

    def loop_back(self, fn, fid, fpath, bi, prev, st):
        ctx = st.loops[("L", fid, bi)]
        self.phis(fn, fid, bi, prev, st)
        cur = {r: st.env[(fid, r)] for r, t, c in ctx.phis}
        self.loop_common_back(ctx, st, cur)

    def loop_common_back(self, ctx, st, cur):
        key = ctx.key; mod = ctx.mod; head = ctx.head
        def add(m):
            if m not in mod: mod.add(m); self.changed = True
        for c, h in st.heap.items():
            h0 = head.heap.get(c, self.heap0.get(c))
            if h is not h0: add(("heap", c))
        for id, l in head.loc.items():
            l2 = st.loc[id]
            if l2.seq is not l.seq:
                add(("loc", id))
                if Len(l2.seq) is not Len(l.seq): add(("loclen", id))
        for c, v in head.cells.items():
            v2 = st.cells.get(c)
            if v2 is not v and not self.same(v, v2): add(("cell", c, self.cell_types.get(c)))
        for r, t, c in ctx.phis:
            v, h = cur[r], ctx.cur[r]
            if isinstance(h, Sl) and h.back is not None and isinstance(v, Sl):
                o = v.owner if v.back is None else st.loc[v.back].owner
                if v.back is None and v.nil is TRUE: o = "own"
                if o != "own":
                    add(("owner", ("phi", r), o))
        for nm, f in self.candidates(ctx, st, cur):
            self.oblige(st, "inv-pres", f, "loop invariant %s is preserved [%s]" % (nm, key), "", soft=(key, nm))
    def same(self, a, b):
        if isinstance(a, Sl) and isinstance(b, Sl):
            return a.back == b.back and a.seq is b.seq and a.off is b.off and a.len is b.len and a.nil is b.nil
        if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(x is y for x, y in zip(a, b))
        if type(a) is type(b) and isinstance(a, IfaceV): return a.t == b.t and (a.v is b.v)
        if isinstance(a, StructV) and isinstance(b, StructV): return all(self.same(a.f[k], b.f[k]) or a.f[k] is b.f[k] for k in a.f)
        return a is b

    def candidates(self, ctx, st, cur):
        """(name, formula) pairs; names are stable across runs"""
        if any(c is None for c in cur.values()): return []
        out = []
        ints = [(r, cur[r], ctx.entry[r]) for r, t, c in ctx.phis if isinstance(cur[r], T) and cur[r].sort == INT]
        bounds = []
        if ctx.fn is not None:
            # loop-invariant integer registers compared with something inside the loop
            seen = set()
            for b in ctx.body:
                for ins in ctx.fn["blocks"][b]["is"]:
                    if ins["op"] == "BinOp" and ins["bop"] in ("<", "<=", ">", ">=", "!=", "=="):
                        for o in (ins["x"], ins["y"]):
                            if "r" in o and (ctx.fid, o["r"]) in ctx.st0.env:
                                v = ctx.st0.env[(ctx.fid, o["r"])]
                                if isinstance(v, T) and v.sort == INT and o["r"] not in cur and o["r"] not in seen:
                                    seen.add(o["r"]); bounds.append((o["r"], v))
                            elif o.get("const") and "i" in o and o["t"] == "int":
                                nm = "c" + o["i"]
                                if nm not in seen: seen.add(nm); bounds.append((nm, I(int(o["i"]))))
                    if ins["op"] == "Call" and (ins["call"].get("fn") or {}).get("builtin") == "len":
                        o = ins["call"]["args"][0]
                        if "r" in o and (ctx.fid, o["r"]) in ctx.st0.env and o["r"] not in cur:
                            v = ctx.st0.env[(ctx.fid, o["r"])]
                            if isinstance(v, Sl) and "len" + o["r"] not in seen:
                                seen.add("len" + o["r"]); bounds.append(("len" + o["r"], v.len))
        if ctx.fn is not None:
            for n in sorted(self.modsets.get(("cmp", ctx.fn["name"]), ())):
                if "c%d" % n not in seen: seen.add("c%d" % n); bounds.append(("c%d" % n, I(n)))
        steps = set()
        if ctx.fn is not None:
            for b in ctx.body:
                for ins in ctx.fn["blocks"][b]["is"]:
                    if ins["op"] == "BinOp" and ins["bop"] == "+" and ins["y"].get("const") and "i" in ins["y"]:
                        n = int(ins["y"]["i"])
                        if n > 1: steps.add(n)
        for r, c, e in ints:
            out.append(("%s>=entry" % r, Le(e, c))); out.append(("%s<=entry" % r, Le(c, e)))
            out.append(("%s>=0" % r, Le(I(0), c)))
            out.append(("%s=entry" % r, Eq(c, e)))
            for bn, bv in bounds:
                out.append(("%s<=%s" % (r, bn), Le(c, bv))); out.append(("%s<%s" % (r, bn), Lt(c, bv)))
                out.append(("%s>=%s" % (r, bn), Le(bv, c)))
                out.append(("%s>=%s-1" % (r, bn), Le(Sub(bv, 1), c)))
                for k in steps:
                    out.append(("%s<%s+%d" % (r, bn, k), Lt(c, Add(bv, k))))
            for k in steps:
                out.append(("%s%%%d" % (r, k), Eq(Mod(Sub(c, e), k), I(0))))
        for r, t, c in ctx.phis:
            v, e = cur[r], ctx.entry[r]
            if isinstance(v, T) and isinstance(e, T) and v.sort != INT: out.append(("%s=entry" % r, Eq(v, e)))
            if isinstance(v, Sl) and isinstance(e, Sl):
                out.append(("%s nonnil" % r, Not(v.nil))); 
        for m in ctx.mod:
            if m[0] == "cell" and m[1] in st.cells:
                v, e = st.cells[m[1]], ctx.st0.cells.get(m[1])
                if isinstance(v, T) and isinstance(e, T) and v.sort == e.sort: out.append(("%s=entry" % m[1], Eq(v, e)))
                if isinstance(v, T) and isinstance(e, T) and v.sort == e.sort == INT: out.append(("%s>=entry" % m[1], Le(e, v)))
        for m in sorted(ctx.mod, key=str):
            h0 = ctx.st0.heap.get(m[1], self.heap0.get(m[1])) if m[0] == "heap" else None
            if m[0] == "heap" and m[1] in st.heap and h0 is not None:
                c = st.heap[m[1]]
                r = bvar("r", REF)
                out.append(("frame:%s" % m[1], Forall([r], Implies(Le(app("birth", r), ctx.st0.now), Eq(Select(c, r), Select(h0, r))), [Select(c, r)])))
                if getattr(self, "frame_except", None): out.append(("framex:%s" % m[1], Forall([r], Implies(And(Le(app("birth", r), ctx.st0.now), *[Ne(r, x) for x in self.frame_except]), Eq(Select(c, r), Select(h0, r))), [Select(c, r)])))
                e = getattr(self, "entry", None)
                if e is not None and e.now is not ctx.st0.now: out.append(("frame0:%s" % m[1], Forall([r], Implies(Le(app("birth", r), e.now), Eq(Select(c, r), Select(h0, r))), [Select(c, r)])))
        for id, l0 in ctx.st0.loc.items():
            if l0.links and id in st.loc:
                for (link, off, ln, nil, *_) in l0.links:
                    if link[0] == "$map" or ("heap", link[0]) not in ctx.mod: continue
                    x = Slice(st.loc[id].seq, off, Add(off, ln))
                    out.append(("published %s %s" % (id, link[0]), Eq(Select(st.heap[link[0]], link[1]), MkSl(nil, x) if x.sort == SEQ else x)))
        for h in self.hints:
            out.extend(h(ctx, st, cur, ints))
        seen = set(); res = []
        for nm, f in out:
            if nm in seen: continue
            seen.add(nm)
            if (ctx.key, nm) in self.dropped: continue
            if f is TRUE: continue
            res.append((nm, f))
        return res

    # ------------------------------------------------------------ instructions
    cell_types = {}
    def step(self, fn, fid, fpath, bi, ins, st):
        op = ins["op"]
        pos = "%s %s" % (short(fn["name"]), ins.get("pos", ""))
        f = getattr(self, "i_" + op, None)
        if f is None: raise Unsupported("instruction " + op)
        return f(fn, fid, fpath, bi, ins, st, pos)
    def setr(self, st, fid, ins, v): st.env[(fid, ins["r"])] = v

    def i_Alloc(self, fn, fid, fpath, bi, ins, st, pos):
        et = ins["elem"]; k = self.p.kind(et)
        if k == "struct":
            r = self.alloc_ref(st, "obj", "*" + et)
            if self.opaque(et):
                h = self.opts.get("alloc", {}).get(et)
                if et == "bytes.Buffer": self.ext_set(st, "wout", r, Empty()); self.assume(st, Not(app("faulty", r)))
                elif et == "sync.Mutex" or h is None: pass
                else: h(self, st, r)
            else: self.init_struct(st, r, et)
            self.setr(st, fid, ins, r); return
        if k == "array":
            n = self.p.under(et)[1]["len"]; ee = self.p.elem(et); kk = self.ek(ee)
            if kk is None or (kk == "R" and ins.get("comment") in ("varargs", "slicelit") and n <= 64):
                id = self.new_cell(st, "list:" + fpath + ins["r"]); st.cells[id] = [self.zero(st, ee) for _ in range(n)]
                self.setr(st, fid, ins, PtrList(id, n, et)); return
            if ins.get("comment") in ("varargs", "slicelit") and n <= 64:
                s = Cat(*[Unit(self.zero_elem(ee), KS[kk]) for _ in range(n)]) if n else Empty(KS[kk])
                # element stores rebuild the literal
                id = self.new_loc(st, s, hint="arr:" + fpath + ins["r"])
            else:
                id = self.new_loc(st, Rep(I(n), self.zero_elem(ee), KS[kk]), hint="arr:" + fpath + ins["r"])
            self.setr(st, fid, ins, PtrArr(id, n, et)); return
        id = self.new_cell(st, "cell:" + fpath + ":" + ins["r"])
        st.cells[id] = self.zero(st, et)
        self.cell_types[id] = et
        self.setr(st, fid, ins, PtrCell(id, et))
    def init_struct(self, st, r, t):
        for i, f in enumerate(self.p.fields(t)):
            if self.is_struct(f["t"]):
                if self.opaque(f["t"]): continue
                self.init_struct(st, Emb(r, i), f["t"])
            else: self.store_field(st, r, t, i, self.zero(st, f["t"]))
    def ext(self, st, comp, ref, srt):
        return Select(self.comp(st, comp, srt), ref)
    def ext_set(self, st, comp, ref, v):
        st.heap[comp] = Store(self.comp(st, comp, v.sort), ref, v)

    def i_Phi(self, fn, fid, fpath, bi, ins, st, pos): raise VcBug("phi")
    def i_Jump(self, fn, fid, fpath, bi, ins, st, pos):
        return ("goto", [(st, fn["blocks"][bi]["succs"][0])])
    def i_If(self, fn, fid, fpath, bi, ins, st, pos):
        c = self.val(st, fid, ins["c"]); s = fn["blocks"][bi]["succs"]
        c = self.reduce(st, c)
        if c is TRUE: return ("goto", [(st, s[0])])
        if c is FALSE: return ("goto", [(st, s[1])])
        st2 = st.fork()
        self.assume(st, c); self.assume(st2, Not(c))
        outs = []
        for x, t in ((st, s[0]), (st2, s[1])):
            if not self.infeasible(x): outs.append((x, t))
        if not outs: return ("stop",)
        return ("goto", outs)
    def reduce(self, st, c):
        if c in st.pc: return TRUE
        n = Not(c)
        if n in st.pc: return FALSE
        if c.op == "not":
            r = self.reduce(st, c.args[0]); 
            return Not(r) if r in (TRUE, FALSE) else c
        if c.op == "and":
            return And(*[self.reduce(st, a) for a in c.args])
        if c.op == "or":
            return Or(*[self.reduce(st, a) for a in c.args])
        if c.op == "=" and c.args[0].sort == INT:
            # bounds known on the difference with constants
            pass
        return c
    def infeasible(self, st):
        if FALSE in st.pc: return True
        pr = self.opts.get("prune")
        if pr: return pr(self, st)
        return False
    def i_Return(self, fn, fid, fpath, bi, ins, st, pos):
        return ("ret", [self.val(st, fid, r) for r in ins["rs"]])
    def i_Panic(self, fn, fid, fpath, bi, ins, st, pos):
        self.fail(st, "panic", "explicit panic is reached", pos)
        return ("stop",)
    def i_RunDefers(self, fn, fid, fpath, bi, ins, st, pos):
        ds = st.defers.pop(fid, [])
        sts = [st]
        for call, args in reversed(ds):
            nxt = []
            for s in sts:
                for s2, _ in self.call(fn, fid, fpath, bi, {"call": call, "pos": ins.get("pos", ""), "r": "defer"}, s, pos, args): nxt.append(s2)
            sts = nxt
        return ("forks", [(s, None) for s in sts]) if len(sts) != 1 or ds else None
    def i_Defer(self, fn, fid, fpath, bi, ins, st, pos):
        c = ins["call"]
        st.defers.setdefault(fid, []).append((c, self.callargs(st, fid, c)))
    def i_Go(self, *a): raise Unsupported("go statement")

    def i_BinOp(self, fn, fid, fpath, bi, ins, st, pos):
        if ins["bop"] in ("<", "<=", ">", ">="):
            for o in (ins["x"], ins["y"]):
                if "r" in o:      # a bound that is computed to a constant
                    v = self.val(st, fid, o)
                    if isinstance(v, T) and v.op == "int":
                        k = self.modsets.setdefault(("cmp", fn["name"]), set())
                        if v.args[0] not in k: k.add(v.args[0]); self.changed = True
        x = self.val(st, fid, ins["x"]); y = self.val(st, fid, ins["y"])
        self.setr(st, fid, ins, self.binop(st, ins["bop"], x, y, ins["xt"], ins["yt"], ins["t"], pos))
    def binop(self, st, op, x, y, xt, yt, rt, pos):
        if op in ("==", "!="):
            r = self.eq_vals(st, x, y, xt)
            return r if op == "==" else Not(r)
        k = self.p.kind(xt)
        if k == "string":
            if op == "+": return Cat(x, y)
            raise Unsupported("string op " + op)
        if k == "bool": raise Unsupported("bool op " + op)
        u, d = self.p.under(xt)
        m = INTS.get(u)
        def w(r): return Mod(r, m) if m else r
        if op == "+": return w(Add(x, y))
        if op == "-": return w(Sub(x, y))
        if op == "*": return w(Mul(x, y))
        if op == "<": return Lt(x, y)
        if op == "<=": return Le(x, y)
        if op == ">": return Lt(y, x)
        if op == ">=": return Le(y, x)
        if op in ("/", "%"):
            if y.op != "int" or y.args[0] <= 0: raise Unsupported("division by non-constant")
            lo, hi = rng(x)
            if lo is None or lo < 0:
                self.oblige(st, "arith", Le(I(0), x), "operand of %s is not negative (truncated division)" % op, pos)
            return Div(x, y.args[0]) if op == "/" else Mod(x, y.args[0])
        if x.op == "int" and y.op == "int" and op in ("|", "&", "^", "&^", "<<", ">>"):
            a, b = x.args[0], y.args[0]
            r = {"|": a | b, "&": a & b, "^": a ^ b, "&^": a & ~b, "<<": a << b if b < 70 else 0, ">>": a >> b}[op]
            return I(r % m if m else r)
        if op == "<<":
            lo, hi = rng(y)
            if lo is None or lo < 0: self.oblige(st, "arith", Le(I(0), y), "shift amount is not negative", pos)
            if y.op == "int": return w(Mul(x, I(1 << y.args[0])))
            if m == 256: return app("shl1", y) if x is I(1) else app("shlB", x, y)
            raise Unsupported("shift by variable")
        if op == ">>":
            lo, hi = rng(y)
            if lo is None or lo < 0: self.oblige(st, "arith", Le(I(0), y), "shift amount is not negative", pos)
            if y.op == "int": return Div(x, 1 << y.args[0])
            if m == 256: return app("shrB", x, y)
            raise Unsupported("shift by variable")
        if op == "&":
            if x.op == "int": x, y = y, x
            if y.op == "int":
                c = y.args[0]
                if x.op == "ite": return Ite(x.args[0], self.binop(st, op, x.args[1], y, xt, yt, rt, pos), self.binop(st, op, x.args[2], y, xt, yt, rt, pos))
                if c == 0: return I(0)
                if c & (c + 1) == 0: return Mod(x, c + 1)
                if c & (c - 1) == 0 and m == 256: return Ite(Bit(x, I(c.bit_length() - 1)), y, I(0))
                if m == 256 and (256 - c) & (255 - c) == 0 and c < 256:
                    k2 = 256 - c
                    return Mul(k2, Div(x, k2))
                if m == 256 and c < 256: return Add(*[Ite(Bit(x, I(i)), I(1 << i), I(0)) for i in range(8) if c >> i & 1])
                if m == 256: return app("band", x, y)
            elif m == 256: return app("band", x, y)
        if op == "|" and m == 256:
            if x is I(0): return y
            if y is I(0): return x
            if x.op == "int": x, y = y, x
            if y.op == "int" and y.args[0] & (y.args[0] - 1) == 0 and False: pass
            return app("bor", x, y)
        if op == "^" and m == 256: return app("bxor", x, y)
        if op == "&^" and m == 256: return app("bandnot", x, y)
        raise Unsupported("operator %s on %s" % (op, xt))
    def i_UnOp(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); u = ins["uop"]
        if u == "*":
            et = ins["t"]
            if isinstance(x, T): self.nonnil(st, x, pos)
            v = self.load(st, x, et, pos)
        elif u == "!": v = Not(x)
        elif u == "-": v = Sub(I(0), x)
        elif u == "^":
            m = INTS.get(self.p.under(ins["xt"])[0])
            if m is None: raise Unsupported("complement")
            v = Sub(I(m - 1), x)
        else: raise Unsupported("unop " + u)
        self.setr(st, fid, ins, v)
    def i_ChangeType(self, fn, fid, fpath, bi, ins, st, pos): self.setr(st, fid, ins, self.val(st, fid, ins["x"]))
    def i_ChangeInterface(self, fn, fid, fpath, bi, ins, st, pos): self.setr(st, fid, ins, self.val(st, fid, ins["x"]))
    def i_Convert(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); a = self.p.kind(ins["xt"]); b = self.p.kind(ins["t"])
        if a == "int" and b == "int":
            m = INTS.get(self.p.under(ins["t"])[0])
            v = self.wrap(st, x, m) if m else x
        elif a == "slice" and b == "string": v = self.content(st, x)
        elif a == "string" and b == "slice":
            n = fresh("cnil", BOOL); self.assume(st, Implies(n, Eq(Len(x), I(0))))
            v = self.new_sl(st, x, nil=FALSE)
        elif a == b: v = x
        else: raise Unsupported("convert %s -> %s" % (ins["xt"], ins["t"]))
        self.setr(st, fid, ins, v)
    def wrap(self, st, x, m):
        """x mod m; x itself where the path condition bounds it"""
        v = Mod(x, m)
        if v is x or v.op == "int": return v
        lo = hi = False
        for f in st.pc:
            if f.op == "<=" and f.args[1] is x and f.args[0].op == "int" and f.args[0].args[0] >= 0: lo = True
            elif f.op == "<=" and f.args[0] is x and f.args[1].op == "int" and f.args[1].args[0] < m: hi = True
        return x if lo and hi else v
    def i_MakeInterface(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); t = ins["xt"]
        if isinstance(x, T) and x.sort == REF and self.p.kind(t) == "ptr":
            self.assume(st, Implies(Ne(x, NULL), Eq(app("typ", x), I(self.tag(t)))))
            if x in terms._FRESH or x.op == "emb" or self.known(st, Ne(x, NULL)):
                pass
        self.setr(st, fid, ins, IfaceV(t, x))
    def i_MakeClosure(self, fn, fid, fpath, bi, ins, st, pos):
        self.setr(st, fid, ins, Closure(ins["fn"] if isinstance(ins["fn"], str) else ins["fn"]["func"], [self.val(st, fid, b) for b in ins["bind"]]))
    def i_MakeMap(self, fn, fid, fpath, bi, ins, st, pos): self.setr(st, fid, ins, self.new_map(st, ins["t"]))
    def i_MakeSlice(self, fn, fid, fpath, bi, ins, st, pos):
        n = self.val(st, fid, ins["len"]); c = self.val(st, fid, ins["cap"])
        et = self.p.elem(ins["t"]); k = self.ek(et)
        if k is None:
            if n is I(0): self.setr(st, fid, ins, PList([], ins["t"])); return
            raise Unsupported("make " + ins["t"])
        lo, _ = rng(n)
        if lo is None or lo < 0: self.oblige(st, "bounds", Le(I(0), n), "make: length is not negative", pos)
        if c is not n: self.oblige(st, "bounds", Le(n, c), "make: length does not exceed capacity", pos)
        s = Rep(n, self.zero_elem(et), KS[k])
        sl = self.new_sl(st, s, k, et=et, hint="mk:" + fpath + ins["r"]); sl.len = n
        self.setr(st, fid, ins, sl)
    def i_Slice(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); lo = self.val(st, fid, ins["lo"]); hi = self.val(st, fid, ins["hi"])
        if isinstance(x, PtrList):
            if lo is None and hi is None: self.setr(st, fid, ins, PList(list(st.cells[x.id]), "[]" )); return
            raise Unsupported("slice of list")
        if isinstance(x, PtrArr):
            n = I(x.n)
            l = lo or I(0); h = hi or n
            self.slice_check(st, l, h, n, pos)
            et = self.p.elem(x.t)
            self.setr(st, fid, ins, Sl(self.ek(et), back=x.back, off=l, len=Sub(h, l), et=et)); return
        if isinstance(x, T) and x.sort in SUF:       # string
            l = lo or I(0); h = hi or Len(x)
            self.slice_check(st, l, h, Len(x), pos)
            self.setr(st, fid, ins, Slice(x, l, h)); return
        if isinstance(x, PList):
            raise Unsupported("slice of list")
        l = lo or I(0); h = hi if hi is not None else x.len
        self.slice_check(st, l, h, x.len, pos)
        nil = x.nil if (x.nil is FALSE or x.nil is TRUE) else x.nil
        if x.back is not None:
            r = Sl(x.k, back=x.back, off=Add(x.off, l), len=Sub(h, l), nil=nil, et=x.et)
        else:
            r = Sl(x.k, seq=Slice(x.seq, l, h), len=Sub(h, l), nil=nil, owner=x.owner, et=x.et,
                   origin=x.origin if l is I(0) and h is x.len else None)
        self.setr(st, fid, ins, r)
    def slice_check(self, st, l, h, n, pos):
        if l is not I(0): self.oblige(st, "bounds", And(Le(I(0), l), Le(l, h)), "slice bounds low", pos)
        if h is not n: self.oblige(st, "bounds", And(Le(I(0), h), Le(h, n)), "slice bounds high", pos)
        self.assume(st, And(Le(I(0), l), Le(l, h), Le(h, n)))
    def i_FieldAddr(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); t = self.p.elem(ins["xt"])
        if not isinstance(x, T): raise Unsupported("field of %r" % (x,))
        self.nonnil(st, x, pos)
        i = ins["f"]; f = self.p.fields(t)[i]
        if self.p.kind(f["t"]) == "struct" and self.p.fields(f["t"]): v = Emb(x, i)
        elif self.p.kind(f["t"]) == "array": raise Unsupported("array field")
        else:
            self.comp(st, self.fcomp(t, i), self.sort_of(f["t"]))
            v = PtrField(self.fcomp(t, i), x, f["t"])
        self.setr(st, fid, ins, v)
    def i_Field(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); f = self.p.fields(ins["xt"])[ins["f"]]
        self.setr(st, fid, ins, x.f[f["n"]])
    def idx_check(self, st, i, n, pos):
        lo, hi = rng(i)
        g = And(Le(I(0), i), Lt(i, n))
        self.oblige(st, "bounds", g, "index is in range", pos)
    def i_IndexAddr(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); i = self.val(st, fid, ins["i"])
        et = ins["t"][1:]
        if isinstance(x, PtrList):
            if i.op != "int": raise Unsupported("variable index into list")
            self.setr(st, fid, ins, PtrListElem(x.id, i.args[0], et)); return
        if isinstance(x, PtrArr):
            self.idx_check(st, i, I(x.n), pos)
            self.setr(st, fid, ins, PtrElem(x.back, i, et)); return
        if isinstance(x, Sl):
            self.idx_check(st, i, x.len, pos)
            if x.back is not None: self.setr(st, fid, ins, PtrElem(x.back, Add(x.off, i), et))
            else: self.setr(st, fid, ins, PtrElem(None, i, et, sl=x))
            return
        if isinstance(x, PList):
            if i.op == "int" and 0 <= i.args[0] < len(x.vals):
                id = self.new_cell(st, "pl"); st.cells[id] = x.vals
                self.setr(st, fid, ins, PtrListElem(id, i.args[0], et)); return
            if not x.vals:
                self.fail(st, "bounds", "index is in range", pos); return ("stop",)
        raise Unsupported("index of %r" % (x,))
    def i_Index(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); i = self.val(st, fid, ins["i"])
        self.idx_check(st, i, Len(x), pos)
        self.setr(st, fid, ins, At(x, i))
    def i_Lookup(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); k = self.val(st, fid, ins["i"])
        if self.p.kind(ins["xt"]) == "string":
            self.idx_check(st, k, Len(x), pos); self.setr(st, fid, ins, At(x, k)); return
        v, ok = self.map_get(st, x, k, ins["xt"])
        self.setr(st, fid, ins, (v, ok) if ins["commaok"] else v)
    def i_MapUpdate(self, fn, fid, fpath, bi, ins, st, pos):
        m = self.val(st, fid, ins["m"]); k = self.val(st, fid, ins["k"]); v = self.val(st, fid, ins["v"])
        if m not in terms._FRESH: self.oblige(st, "nil", Ne(m, NULL), "write to a nil map", pos)
        self.map_set(st, m, k, v, ins["mt"])
    def i_Range(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"])
        if self.p.kind(ins["xt"]) != "map": raise Unsupported("range over string")
        d = self.p.under(ins["xt"])[1]
        c = self.new_cell(st, "iter:" + fpath + ":" + ins["r"])
        st.cells[c] = ConstArr(Arr(self.sort_of(d["key"]), BOOL), FALSE)
        self.cell_types[c] = None
        self.nil_map_fact(st, x, ins["xt"])
        self.setr(st, fid, ins, MapIter(c, x, ins["xt"]))
    def i_Next(self, fn, fid, fpath, bi, ins, st, pos):
        it = self.val(st, fid, ins["x"])
        d = self.p.under(it.t)[1]
        kt = self.sort_of(d["key"])
        dom = self.mdom(st, it.m, it.t); vis = st.cells[it.cell]
        st2 = st.fork()
        # one more element
        k = self.fresh_int("key", d["key"]) if kt == INT else fresh("key", kt)
        self.assume(st, Select(dom, k)); self.assume(st, Not(Select(vis, k)))
        st.cells[it.cell] = Store(vis, k, TRUE)
        v, _ = self.map_get(st, it.m, k, it.t)
        # done: every element was visited (iteration order is arbitrary, elements removed on the way are not produced)
        b = bvar("k", kt)
        self.assume(st2, Forall([b], Implies(Select(dom, b), Select(vis, b)), [Select(dom, b)]))
        h = self.opts.get("range_done")
        if h: h(self, st2, it, dom, vis)
        return ("forks", [(st, (TRUE, k, v)), (st2, (FALSE, I(0) if kt == INT else Empty(), self.zero(st2, d["elem"])))])
    def i_TypeAssert(self, fn, fid, fpath, bi, ins, st, pos):
        x = self.val(st, fid, ins["x"]); at = ins["at"]; ck = ins["commaok"]
        if self.p.kind(at) == "iface":
            if isinstance(x, IfaceV):
                ok = self.implements(x.t, at)
                if ck: self.setr(st, fid, ins, (x if ok else NULL, B(ok))); return
                if ok: self.setr(st, fid, ins, x); return
            elif not ck:
                self.oblige(st, "nil", Ne(x, NULL), "type assertion on nil interface", pos)
                self.setr(st, fid, ins, x); return
            raise Unsupported("type assertion to interface " + at)
        if isinstance(x, IfaceV):
            ok = B(x.t == at); v = x.v if x.t == at else self.zero(st, at)
        else:
            ok = And(Ne(x, NULL), Eq(app("typ", x), I(self.tag(at))))
            v = self.unbox(st, x, at)
        if ck:
            self.setr(st, fid, ins, (v, ok)); return
        self.oblige(st, "typeassert", ok, "type assertion to %s" % short(at), pos)
        if isinstance(x, IfaceV) and x.t != at: return ("stop",)
        self.setr(st, fid, ins, v)
    def implements(self, t, it):
        ms = self.p.methods.get(t)
        u, d = self.p.under(it)
        need = d.get("methods") if d else None
        if need is None: return False
        names = [m["n"] for m in need]
        if not names: return True
        return ms is not None and all(n in ms for n in names)
    def unbox(self, st, x, at):
        k = self.p.kind(at)
        if k == "ptr": return x
        if k == "slice":
            v = self.load_comp(st, "box", x, "[]byte")
            return self.raise_(st, v, at, origin=("box", x))
        raise Unsupported("unbox " + at)
    def i_Extract(self, fn, fid, fpath, bi, ins, st, pos):
        self.setr(st, fid, ins, self.val(st, fid, ins["x"])[ins["i"]])
    def i_Store(self, fn, fid, fpath, bi, ins, st, pos):
        a = self.val(st, fid, ins["addr"]); v = self.val(st, fid, ins["v"])
        self.store(st, a, v, ins["vt"], pos)
    def i_DebugRef(self, *a): pass
    def i_SliceToArrayPointer(self, *a): raise Unsupported("slice to array pointer")

    # ------------------------------------------------------------ calls
    def callargs(self, st, fid, c):
        args = [self.val(st, fid, a) for a in c["args"]]
        recv = self.val(st, fid, c["recv"]) if c.get("invoke") else None
        fnv = self.val(st, fid, c["fn"]) if not c.get("invoke") and not c.get("static") and c.get("fn") else None
        return (recv, fnv, args)
    def i_Call(self, fn, fid, fpath, bi, ins, st, pos):
        r = self.call(fn, fid, fpath, bi, ins, st, pos, self.callargs(st, fid, ins["call"]))
        if not r: return ("stop",)
        return ("forks", r)
    def call(self, fn, fid, fpath, bi, ins, st, pos, ca):
        c = ins["call"]; recv, fnv, args = ca
        self.pos = pos
        cpath = fpath + "." + ins.get("r", "")
        if c.get("invoke"): return self.invoke(st, recv, c["itype"], c["invoke"], args, c, pos, cpath)
        if c.get("static"): return self.static_call(st, c["static"], args, (fnv.binds if isinstance(fnv, Closure) else self.static_binds(st, fid, c)), c, pos, cpath)
        if isinstance(fnv, tuple) and fnv[0] == "builtin": return self.builtin(st, fnv[1], args, c, pos)
        return self.call_value(st, fnv, args, c, pos, cpath)
    def static_binds(self, st, fid, c):
        f = c.get("fn")
        if f and "r" in f:
            v = st.env.get((fid, f["r"]))
            if isinstance(v, Closure): return v.binds
        return ()
    def call_value(self, st, fnv, args, c, pos, cpath):
        if isinstance(fnv, Closure): return self.static_call(st, fnv.fn, args, fnv.binds, c, pos, cpath)
        if isinstance(fnv, HookV): return fnv.f(self, st, args, pos)
        raise Unsupported("call of unknown function value %r" % (fnv,))
    def pack(self, rs):
        return [(s, (r[0] if len(r) == 1 else tuple(r)) if r else None) for s, r in rs]
    def static_call(self, st, name, args, binds, c, pos, cpath):
        k = self.contracts.get(name)
        if k is not None:
            self.used_contracts.add(name)
            return self.pack(k(self, st, args, pos))
        h = self.intr.get(name)
        if h is not None:
            self.used_intr.add(name)
            return self.pack(h(self, st, args, pos))
        f = self.p.fns.get(name)
        if f is None or not f["blocks"]: raise Unsupported("no contract for external function " + name)
        if not name.split("$")[0].lstrip("(*").startswith(M) and "bound" not in name: raise Unsupported("no contract for external function " + name)
        if cpath.count("/" + short(name)) >= 2: raise Unsupported("recursion without contract: " + name)
        return self.pack(self.run(name, args, st, binds, cpath))
    def invoke(self, st, recv, it, meth, args, c, pos, cpath):
        if isinstance(recv, IfaceV):
            ms = self.p.methods.get(recv.t)
            h = self.intr.get("(%s).%s" % (recv.t, meth))
            if h is not None:
                self.used_intr.add("(%s).%s" % (recv.t, meth))
                return self.pack(h(self, st, [recv.v] + args, pos))
            if ms and meth in ms:
                return self.static_call(st, ms[meth], [recv.v] + args, (), c, pos, cpath)
            raise Unsupported("method %s of %s" % (meth, recv.t))
        if recv is NULL:
            self.fail(st, "nil", "method call on nil interface", pos); return []
        self.oblige(st, "nil", Ne(recv, NULL), "method call on nil interface", pos)
        h = self.iface.get((it, meth)) or self.iface.get(meth)
        if h is None: raise Unsupported("no contract for interface method %s.%s" % (it, meth))
        self.used_contracts.add("%s.%s" % (short(it), meth))
        return self.pack(h(self, st, [recv] + args, pos))
    def builtin(self, st, b, args, c, pos):
        if b == "len" or b == "cap":
            x = args[0]
            if isinstance(x, Sl):
                if b == "cap":
                    v = fresh("cap", INT); self.assume(st, Le(x.len, v)); return [(st, v)]
                return [(st, x.len)]
            if isinstance(x, PList): return [(st, I(len(x.vals)))]
            if isinstance(x, PtrArr): return [(st, I(x.n))]
            if isinstance(x, T) and x.sort in SUF: return [(st, Len(x))]
            t = c["at"][0] if "at" in c else None
            mt = self.map_type_of(c)
            self.nil_map_fact(st, x, mt)
            return [(st, Card(self.mdom(st, x, mt)))]
        if b == "append": return [(st, self.append(st, args[0], args[1], pos))]
        if b == "copy": return [(st, self.copy(st, args[0], args[1], pos))]
        if b == "delete":
            mt = self.map_type_of(c)
            self.map_del(st, args[0], args[1], mt); return [(st, None)]
        if b == "panic":
            self.fail(st, "panic", "explicit panic is reached", pos); return []
        if b in ("print", "println"): return [(st, None)]
        if b == "ssa:wrapnilchk":
            self.nonnil(st, args[0], pos); return [(st, args[0])]
        if b in ("min", "max") and len(args) == 2:
            x, y = args
            return [(st, Ite(Le(x, y), x, y) if b == "min" else Ite(Le(x, y), y, x))]
        if b == "clear": raise Unsupported("clear")
        raise Unsupported("builtin " + b)
    def map_type_of(self, c):
        s = c["sig"]       # func(map[K]V) int  or func(map[K]V, K)
        assert s.startswith("func("), s
        body = s[5:]; d = 0
        for i, ch in enumerate(body):
            if ch in "([{": d += 1
            elif ch in ")]}":
                if d == 0: return body[:i].strip()
                d -= 1
            elif ch == "," and d == 0: return body[:i].strip()
    def append(self, st, s, t, pos):
        if isinstance(s, PList) or isinstance(t, PList):
            if isinstance(s, PList) and not s.vals and isinstance(t, (Sl,)): 
                k = t.k
                s = Sl(k, seq=Empty(KS[k]), len=I(0), nil=TRUE, owner="own", et=t.et)
            elif isinstance(s, PList) and isinstance(t, PList): return PList(s.vals + t.vals, s.t)
            elif isinstance(t, PList):
                t2 = Cat(*[Unit(self.lower(st, v, s.et), KS[s.k]) for v in t.vals]) if t.vals else Empty(KS[s.k])
                t = Sl(s.k, seq=t2, len=Len(t2), owner="own", et=s.et)
            else: raise Unsupported("append of lists")
        if isinstance(t, T): tc = t; tl = Len(t)
        else: tc = self.content(st, t); tl = t.len
        sc = self.content(st, s)
        if s.back is None:
            if not (s.nil is TRUE or s.len is I(0) and s.owner == "own") :
                if tl is not I(0):
                    # appending to a borrowed slice may write into its spare capacity
                    self.oblige(st, "borrow-write", Or(s.nil, Eq(tl, I(0))), "append to a buffer that is not owned (%s)" % s.owner, pos)
            r = self.new_sl(st, Cat(sc, tc), s.k, nil=And(s.nil, Eq(tl, I(0))), et=s.et)
        else:
            l = st.loc[s.back]
            if l.owner != "own":
                self.oblige(st, "borrow-write", Or(s.nil, Eq(tl, I(0))), "append to a buffer that is not owned (%s)" % l.owner, pos)
            full = Len(l.seq)
            end = Add(s.off, s.len)
            if end is not full:
                # the tail of the backing array behind the slice may be overwritten
                st.loc[s.back] = Loc(l.seq, l.owner, l.links, l.prev, True)
                if l.links: self.oblige(st, "alias", Eq(end, full), "append overwrites a published buffer", pos)
            r = self.new_sl(st, Cat(sc, tc), s.k, nil=And(s.nil, Eq(tl, I(0))), et=s.et)
            st.loc[r.back] = Loc(st.loc[r.back].seq, "own", (), s.back, False)
        r.len = Add(s.len, tl)
        return r
    def copy(self, st, d, s, pos):
        sc = s if isinstance(s, T) else self.content(st, s)
        sl = Len(sc) if isinstance(s, T) else s.len
        n = d.len if d.len is sl else Ite(Le(d.len, sl), d.len, sl)
        if self.known(st, Le(sl, d.len)): n = sl
        if self.known(st, Le(d.len, sl)): n = d.len
        if n is I(0): return n
        if n.op == "ite":
            # decide by comparison with known facts is left to the solver
            n2 = fresh("ncopy", INT)
            self.assume(st, Eq(n2, n)); self.assume(st, And(Le(I(0), n2), Le(n2, d.len), Le(n2, sl)))
            n = n2
        back, off = self.writable(st, d, pos)
        q = st.loc[back].seq
        new = Cat(Take(q, off), Take(sc, n), Drop(q, Add(off, n)))
        self.write_loc(st, back, new, pos)
        return n
