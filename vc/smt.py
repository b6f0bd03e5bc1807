"""SMT back end: emission with axiom selection, a portfolio of solvers run in parallel processes."""
import subprocess, os, time, hashlib
from concurrent.futures import ThreadPoolExecutor
import terms, theory
from terms import *
from theory import *

BUILTIN_OPS = {"int", "var", "true", "false", "not", "and", "or", "=>", "=", "ite", "+", "*", "<=", "<", "div", "mod",
               "select", "store", "constarr", "forall", "exists", "null", "mksl", "slnil", "slseq"}
BUILTIN_SORTS = {"Bool", "Int", "SlI"}
import re
_symre = re.compile(r"[A-Za-z_][A-Za-z0-9_>=]*")

def syms_of(t, acc, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "var": acc["vars"].add(x); continue
        if x.op in ("int", "true", "false"): continue
        if x.op == "constarr": acc["sorts"].add(x.sort)
        if x.op in ("forall", "exists"):
            acc["bound"].update(x.args[0])
            for v in x.args[0]: acc["sorts"].add(v.sort)
            stack.append(x.args[1])
            for p in x.args[2]: stack.extend(p)
            continue
        if x.op not in BUILTIN_OPS: acc["funcs"].add(x.op)
        stack.extend(x.args)

_axsyms = {}
def ax_syms(text):
    r = _axsyms.get(text)
    if r is None:
        r = set(w for w in _symre.findall(text) if w in FUNCS)
        _axsyms[text] = r
    return r

LEMMA_AX = {}   # optional named axioms switched on by a query: name -> text

def sort_atoms(s, out):
    for w in re.findall(r"[A-Za-z][A-Za-z0-9_]*", s):
        if w not in ("Array", "Bool", "Int", "SlI", "as", "const"): out.add(w)

class Emit:
    def __init__(self):
        self.lines = []; self.names = {}; self.n = 0; self.closed = {}

    def is_closed(self, t):
        c = self.closed.get(t)
        if c is None:
            if t.op == "var": c = "?" not in t.args[0]
            elif t.op in ("forall", "exists"):
                # treat quantified formulas as shareable only if no foreign bound variables: conservative
                c = False
            else: c = all(self.is_closed(a) for a in t.args if isinstance(a, T))
            self.closed[t] = c
        return c

    def count(self, roots):
        cnt = {}
        stack = list(roots)
        while stack:
            x = stack.pop()
            n = cnt.get(x, 0); cnt[x] = n + 1
            if n == 0: stack.extend(children(x))
        self.cnt = cnt

    def s(self, t):
        nm = self.names.get(t)
        if nm: return nm
        if t.op in ("int", "var", "true", "false"): return tostr(t)
        if t.op in ("forall", "exists"):
            vs = " ".join("(%s %s)" % (q(v.args[0]), v.sort) for v in t.args[0])
            b = self.s(t.args[1])
            if t.args[2]:
                b = "(! %s %s)" % (b, " ".join(":pattern (%s)" % " ".join(self.s(x) for x in p) for p in t.args[2]))
            return "(%s (%s) %s)" % (t.op, vs, b)
        if t.op == "constarr": r = "((as const %s) %s)" % (t.sort, self.s(t.args[0]))
        elif not t.args: return t.op
        else: r = "(%s %s)" % (t.op, " ".join(self.s(a) for a in t.args))
        if self.cnt.get(t, 0) > 1 and len(r) > 40 and self.is_closed(t):
            self.n += 1
            nm = "$%d" % self.n
            self.lines.append("(define-fun %s () %s %s)" % (nm, t.sort, r))
            self.names[t] = nm
            return nm
        return r

def emit(hyps, goal, logic_opts=True):
    acc = {"vars": set(), "funcs": set(), "sorts": set(), "bound": set()}
    seen = set()
    allt = list(hyps) + [goal]
    for h in allt: syms_of(h, acc, seen)
    funcs = set(acc["funcs"])
    axs = []; chosen = set()
    changed = True
    while changed:
        changed = False
        for i, (name, trig, text) in enumerate(theory.AXIOMS):
            if i in chosen: continue
            if trig <= funcs:
                chosen.add(i); axs.append((name, text))
                new = ax_syms(text) - funcs
                if new: funcs |= new; changed = True
    vs = acc["vars"] - acc["bound"]
    sorts = set()
    for v in vs: sort_atoms(v.sort, sorts)
    for s in acc["sorts"]: sort_atoms(s, sorts)
    for f in funcs:
        a, s = FUNCS[f]
        for x in a + (s,): sort_atoms(x, sorts)
    sorts.add("SeqI"); sorts.add("Ref")
    out = []
    for s in sorted(sorts): out.append("(declare-sort %s 0)" % s)
    out.append("(declare-datatypes ((SlI 0)) (((mksl (slnil Bool) (slseq SeqI)))))")
    out.append("(declare-fun null () Ref)")
    for f in sorted(funcs):
        if f in ("null", "mksl", "slnil", "slseq"): continue
        a, s = FUNCS[f]
        out.append("(declare-fun %s (%s) %s)" % (f, " ".join(a), s))
    for v in sorted(vs, key=lambda v: v.args[0]):
        out.append("(declare-fun %s () %s)" % (q(v.args[0]), v.sort))
        if v in terms.VRANGES:
            lo, hi = terms.VRANGES[v]
            if lo is not None: out.append("(assert (<= %d %s))" % (lo, q(v.args[0])) if lo >= 0 else "(assert (<= (- %d) %s))" % (-lo, q(v.args[0])))
            if hi is not None: out.append("(assert (<= %s %d))" % (q(v.args[0]), hi))
    for name, text in axs: out.append("(assert %s)" % text)
    e = Emit(); e.count(allt)
    body = []
    for h in hyps:
        x = e.s(h); body.extend(e.lines); e.lines = []; body.append("(assert %s)" % x)
    x = e.s(Not(goal)); body.extend(e.lines); body.append("(assert %s)" % x)
    out.extend(body)
    out.append("(check-sat)")
    return "\n".join(out) + "\n"

SOLVERS = {
    "z3": ("z3-new", lambda t: ["z3-new", "-in", "-T:%d" % max(1, int(t + 0.999)), "smt.mbqi=false", "auto_config=false", "smt.ematching=true"]),
    "z3a": ("z3-new", lambda t: ["z3-new", "-in", "-T:%d" % max(1, int(t + 0.999)), "smt.mbqi=false"]),
    "z3o": ("z3", lambda t: ["z3", "-in", "-T:%d" % max(1, int(t + 0.999)), "smt.mbqi=false", "auto_config=false"]),
    "z3b": ("z3-new", lambda t: ["z3-new", "-in", "-T:%d" % max(1, int(t + 0.999)), "smt.mbqi=false", "auto_config=false", "smt.random_seed=7", "smt.relevancy=0"]),
    "z3old": ("z3", lambda t: ["z3", "-in", "-T:%d" % max(1, int(t + 0.999)), "smt.mbqi=false", "auto_config=false"]),
    "cvc5": ("cvc5", lambda t: ["cvc5", "--lang=smt2", "--tlimit=%d" % int(t * 1000), "--no-cegqi", "--full-saturate-quant-limit=0" ]),
}
SOLVERS["cvc5"] = ("cvc5", lambda t: ["cvc5", "--lang=smt2", "--tlimit=%d" % int(t * 1000)])

STATS = {"queries": 0, "solver_s": 0.0, "by": {}}
_cache = {}
QUICK = 0.6

import threading, select, os, atexit
_tl = threading.local(); _servers = []
SERVED = {"z3": ["z3-new", "-in", "smt.mbqi=false", "auto_config=false", "smt.ematching=true"],
          "z3a": ["z3-new", "-in", "smt.mbqi=false"],
          "z3o": ["z3", "-in", "smt.mbqi=false", "auto_config=false"],
          "z3e": ["z3-new", "-in", "smt.mbqi=false", "auto_config=false", "smt.qi.eager_threshold=5"],
          "z3b": ["z3-new", "-in", "smt.mbqi=false", "auto_config=false", "smt.random_seed=7", "smt.relevancy=0"]}
class Server:
    """a z3 process answering one query after another; (reset) between queries, restarted every 200 queries and after a timeout"""
    def __init__(s, cmd):
        s.cmd = cmd; s.p = None; s.n = 0
    def start(s):
        s.p = subprocess.Popen(s.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE); s.n = 0; s.buf = b""
        _servers.append(s)
    def kill(s):
        if s.p is not None:
            s.p.kill(); s.p.wait(); s.p.stdin.close(); s.p.stdout.close(); s.p = None
            if s in _servers: _servers.remove(s)
    def ask(s, text, timeout):
        if s.p is not None and s.n >= 200: s.kill()
        if s.p is None: s.start()
        s.n += 1
        try:
            s.p.stdin.write(("(reset)\n(set-option :timeout %d)\n" % int(timeout * 1000) + text).encode()); s.p.stdin.flush()
        except BrokenPipeError:
            s.kill(); return "none"
        end = time.time() + timeout + 1.0
        while b"\n" not in s.buf:
            left = end - time.time()
            if left <= 0 or not select.select([s.p.stdout], [], [], left)[0]:
                s.kill(); s.buf = b""; return "timeout"
            d = os.read(s.p.stdout.fileno(), 65536)
            if not d: s.kill(); s.buf = b""; return "none"
            s.buf += d
        line, s.buf = s.buf.split(b"\n", 1)
        r = line.decode()
        if r.startswith("(error"): s.kill(); s.buf = b""
        return r
@atexit.register
def _stop():
    for s in list(_servers): s.kill()

def run_solver(name, text, timeout):
    if name in SERVED:
        d = getattr(_tl, "srv", None)
        if d is None: d = _tl.srv = {}
        if name not in d: d[name] = Server(SERVED[name])
        t0 = time.time()
        out = d[name].ask(text, timeout)
        dt = time.time() - t0
        STATS["solver_s"] += dt
        return ("error:" + out if out.startswith("(error") else out), dt
    cmd = SOLVERS[name][1](timeout)
    if name == "cvc5": text = "(set-logic ALL)\n" + text
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t0
    STATS["solver_s"] += dt
    first = out.split("\n")[0] if out else "none"
    if first.startswith("(error"): first = "error:" + out[:300]
    return first, dt

class Res:
    __slots__ = ("ok", "solver", "time", "text", "note")
    def __init__(self, ok, solver, t, text, note): self.ok = ok; self.solver = solver; self.time = t; self.text = text; self.note = note

def decide(hyps, goal, timeout=2.0, portfolio=("z3",)):
    if goal is TRUE or FALSE in hyps: return Res(True, "trivial", 0.0, "", "")
    if goal in set(hyps): return Res(True, "trivial", 0.0, "", "")
    text = emit(hyps, goal)
    key = hashlib.sha1(text.encode()).hexdigest()
    r = _cache.get(key)
    if r is not None and (r.ok or r.time >= timeout): return r
    tot = 0.0; note = ""
    STATS["queries"] += 1
    # a short attempt with each z3 strategy, then the portfolio at full length
    plan = []
    if portfolio[0] == "z3" and timeout > QUICK: plan = [("z3", QUICK), ("z3o", QUICK), ("z3a", QUICK), ("z3b", QUICK), ("z3e", QUICK)]
    gaveup = set()
    for s, t in plan + [(s, timeout) for s in portfolio]:
        if s in gaveup: continue
        ans, dt = run_solver(s, text, t)
        tot += dt
        note += "%s:%s(%.1fs) " % (s, ans[:200], dt)
        if ans == "unsat":
            STATS["by"][s] = STATS["by"].get(s, 0) + 1
            r = Res(True, s, tot, text, note); _cache[key] = r
            return r
        if ans.startswith("error"): raise Exception("solver error: " + ans + "\n" + text[-3000:])
        if ans in ("unknown", "sat") and dt < 0.8 * t: gaveup.add(s)      # more time does not help
    r = Res(False, None, timeout, text, note)
    _cache[key] = r
    return r

def goal_parts(t, hyps):
    """split a goal into (hyps, atomic goal) pieces: conjunctions, implications, universal quantifiers (skolemised); sequence
    and byte equalities become extensionality goals"""
    if t.op == "and":
        r = []
        for a in t.args: r.extend(goal_parts(a, hyps))
        return r
    if t.op == "=>":
        return goal_parts(t.args[1], hyps + [t.args[0]])
    if t.op == "forall":
        m = {v: fresh(v.args[0].split("?")[0] + "_sk", v.sort) for v in t.args[0]}
        return goal_parts(subst(t.args[1], m), hyps)
    if t.op == "=" and t.args[0].sort in SUF:
        return [(hyps, app("seqeq" + SUF[t.args[0].sort], *t.args))]
    if t.op == "=" and t.args[0].sort == SL:
        a, b = t.args
        return goal_parts(Eq(SlNil(a), SlNil(b)), hyps) + goal_parts(Eq(SlSeq(a), SlSeq(b)), hyps)
    if t.op == "=" and t.args[0].sort == INT and has_bits(t):
        return [(hyps, app("byteeq", *t.args))]
    if t.op == "=" and t.args[0].sort == BOOL:
        a, b = t.args
        return goal_parts(b, hyps + [a]) + goal_parts(a, hyps + [b])
    if t.op == "=" and t.args[0].sort.startswith("(Array") and not (t.args[0].op == t.args[1].op == "select" and t.args[0].args[1] is t.args[1].args[1] and t.args[0].args[1].sort == REF):
        k, v = arr_parts(t.args[0].sort)
        x = fresh("ext", k)
        return goal_parts(Eq(Select(t.args[0], x), Select(t.args[1], x)), hyps)
    if t.op == "ite":
        return goal_parts(t.args[1], hyps + [t.args[0]]) + goal_parts(t.args[2], hyps + [Not(t.args[0])])
    return [(hyps, t)]

_hb = {}
def has_bits(t):
    r = _hb.get(t)
    if r is None:
        if t.op in ("bor", "band", "bxor", "bandnot", "shl1", "shlB", "shrB"): r = True
        else: r = any(has_bits(c) for c in children(t))
        _hb[t] = r
    return r

def flat_hyps(hyps):
    out = []; seen = set()
    def f(h):
        if h is TRUE or h in seen: return
        if h.op == "and":
            for a in h.args: f(a)
            return
        seen.add(h); out.append(h)
    for h in hyps: f(h)
    return out

_pool = None
RAW_FIRST = [0]     # seconds to try a sequence equality as it stands before extensionality
def pool():
    global _pool
    if _pool is None: _pool = ThreadPoolExecutor(8)
    return _pool

def prove(hyps, goal, timeout=2.0, portfolio=("z3",)):
    """all pieces of the goal"""
    hyps = flat_hyps(hyps)
    worst = None; tot = 0.0
    for hs, g in goal_parts(goal, []):
        r = None
        if g.op.startswith("seqeq") and RAW_FIRST[0]:
            r = decide(hyps + flat_hyps(hs), mk("=", g.args, BOOL), min(timeout, RAW_FIRST[0]), portfolio[:1])
            tot += r.time
        if r is None or not r.ok: r = decide(hyps + flat_hyps(hs), g, timeout, portfolio)
        tot += r.time
        if not r.ok: return r
        worst = r
    return Res(True, worst.solver if worst else "trivial", tot, worst.text if worst else "", "")

def prove_many(items, timeout=2.0, portfolio=("z3",)):
    futs = [pool().submit(prove, h, g, timeout, portfolio) for h, g in items]
    return [f.result() for f in futs]
