"""Verification of one root function against its contract: Houdini over loop candidates, then all obligations."""
import time, traceback, sys
import ssa, smt, terms
from extern import *

class FnResult:
    def __init__(self, name):
        self.name = name; self.obs = []; self.failed = []; self.error = None; self.used = set(); self.contracts = set(); self.intr = set()
        self.inv = []; self.time = 0.0; self.paths = 0; self.vacuous = False; self.rounds = 0; self.by = {}; self.trivial = 0

PORT_FAST = ("z3",)
PORT_FULL = ("z3", "cvc5", "z3b", "z3old")

def quick_prune(ex, st):
    key = tuple(st.pc)
    r = _prc.get(key)
    if r is None:
        r = smt.prove(st.pc, FALSE, 0.3, ("z3",)).ok
        _prc[key] = r
    return r
_prc = {}

class Dropped(set):
    """dropped loop candidates; with `keep` every candidate outside it counts as dropped from the start"""
    keep = None
    def __contains__(self, x): return set.__contains__(self, x) or (self.keep is not None and x not in self.keep)

def verify(prog, spec, verbose=False, tmo=3.0, full=True, keep=None):
    """spec: object with name, setup(ex, st) -> args, check(ex, st, results, ctx), optional configure(ex)"""
    res = FnResult(spec.label)
    t0 = time.time(); _prc.clear()
    smt.RAW_FIRST[0] = spec.raw_first
    dropped = Dropped(); dropped.keep = keep; modsets = {}
    try:
        for rnd in range(40):
            res.rounds = rnd + 1
            terms._ctr[0] = 0; terms._FRESH.clear()
            ex = Interp(prog); std(ex)
            ex.dropped = dropped; ex.modsets = modsets; ex.changed = False
            ex.cur = spec.label
            if spec.prune: ex.opts["prune"] = quick_prune
            spec.configure(ex)
            st = State()
            args = spec.setup(ex, st)
            pre = list(st.pc)
            ex.entry = st.fork()
            outs = spec.execute(ex, st, args)
            if ex.changed: continue
            soft = [o for o in ex.obs if o.soft is not None]
            rs = smt.prove_many([(list(o.hyps), o.goal) for o in soft], spec.soft_tmo, spec.soft_port)
            nd = set(o.soft for o, r in zip(soft, rs) if not r.ok)
            if verbose and nd: print("  round", rnd, "dropped", len(nd), "of", len(set(o.soft for o in soft)), sorted(x[1] for x in nd) if verbose > 1 else "")
            if nd: dropped.update(nd); continue
            for s, r in outs: spec.check(ex, s, r)
            break
        else:
            res.error = "loop invariant inference did not converge"
        res.used = ex.used; res.contracts = ex.used_contracts; res.intr = ex.used_intr
        res.paths = ex.paths
        res.inv = sorted(set("%s: %s" % o.soft for o in soft if True))
        hard = [o for o in ex.obs if o.soft is None]
        res.obs = ex.obs; res.trivial = ex.trivial
        rs = smt.prove_many([(list(o.hyps), o.goal) for o in hard], tmo, PORT_FAST)
        todo = [(o, r) for o, r in zip(hard, rs) if not r.ok]
        if todo and full:
            r2 = smt.prove_many([(list(o.hyps), o.goal) for o, r in todo[:24]], tmo * 2, PORT_FULL)
            todo = [(o, r) for (o, _), r in zip(todo[:24], r2) if not r.ok] + todo[24:]
        res.failed = todo
        # vacuity: the precondition and at least one exit must not be refutable
        if smt.prove(pre, FALSE, 2.0, PORT_FAST).ok: res.vacuous = True
        live = 0
        for s, r in outs[:40]:
            if not smt.prove(s.pc, FALSE, 1.0, PORT_FAST).ok: live += 1; break
        if outs and not live: res.vacuous = True
        if not outs and not spec.may_have_no_exit: res.vacuous = True
    except Unsupported as e:
        res.error = "outside the verifier's reach: %s" % e
        if verbose: traceback.print_exc()
    except RecursionError as e:
        res.error = "outside the verifier's reach: recursion"
    res.time = time.time() - t0
    if verbose:
        print("%s: obligations %d (hard %d), failed %d, rounds %d, paths %d, %.1fs %s%s" % (res.name, len(res.obs), len([o for o in res.obs if o.soft is None]), len(res.failed), res.rounds, res.paths, res.time, res.error or "", " VACUOUS" if res.vacuous else ""))
        for o, r in res.failed[:verbose if verbose > 1 else 6]:
            print("   FAILED", o.kind, o.desc, o.pos, "|", r.note)
    return res

class Spec:
    prune = True
    soft_tmo = 2.0
    raw_first = 0
    soft_port = PORT_FAST
    may_have_no_exit = False
    def configure(self, ex): pass
    def execute(self, ex, st, args): return ex.run(self.fn, args, st)
    def check(self, ex, st, r): pass

def sl_param(ex, st, name, owner="caller", t="[]byte"):
    s = fresh(name, SEQ); n = fresh(name + "_nil", BOOL)
    ex.assume(st, Implies(n, Eq(Len(s), I(0))))
    return Sl("I", seq=s, len=Len(s), nil=n, owner=owner, et="byte")
def int_param(ex, name, t): return ex.fresh_int(name, t)
def ref_param(ex, st, name, typ=None, nonnil=True):
    r = fresh(name, REF)
    ex.assume(st, Le(app("birth", r), I(0)))
    if nonnil: ex.assume(st, Ne(r, NULL))
    if typ: ex.assume(st, Implies(Ne(r, NULL), Eq(app("typ", r), I(ex.tag(typ)))))
    return r
