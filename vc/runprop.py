"""Runs the deductive part of one property: every spec and lemma of its modules, in parallel processes."""
import sys, os, json, time, importlib, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "contracts"))
import ssa, smt, driver, registry

def tasks(prop):
    out = []
    for mod, sel in registry.PROPS.get(prop, []):
        m = importlib.import_module(mod)
        for i, s in enumerate(m.specs()):
            if sel is None or sel(s): out.append((mod, "spec", i, s.label, getattr(s, "weight", 1)))
        for i, l in enumerate(m.lemmas() if hasattr(m, "lemmas") else []):
            if sel is None or sel(l): out.append((mod, "lemma", i, l.label, 0))
    return sorted(out, key=lambda t: -t[4])

_prog = None
def _init(path):
    global _prog
    _prog = ssa.load(path=path)
    sys.setrecursionlimit(20000)

def hint_path(mod, label):
    return os.path.join(HERE, "hints", "%s.%s.json" % (mod, "".join(c if c.isalnum() else "_" for c in label)))

def run_task(t):
    mod, kind, i, label, _ = t
    import terms
    m = importlib.import_module(mod)
    t0 = time.time()
    st0 = dict(smt.STATS, by=dict(smt.STATS["by"]))
    r = {"module": mod, "kind": kind, "label": label, "obligations": 0, "discharged": 0, "failed": [], "error": None, "functions": [], "contracts": [],
         "intrinsics": [], "invariants": [], "vacuous": False, "rounds": 0, "paths": 0}
    try:
        if kind == "lemma":
            l = m.lemmas()[i]
            smt.RAW_FIRST[0] = getattr(l, 'raw_first', 0)
            x = smt.prove(list(getattr(l, "hyps", [])), l.goal, 20, driver.PORT_FULL)
            r["obligations"] = 1; r["discharged"] = 1 if x.ok else 0
            if not x.ok: r["failed"].append({"kind": "lemma", "desc": l.label, "pos": "", "solver": x.note, "query": x.text})
        else:
            s = m.specs()[i]
            hp = hint_path(mod, label)
            keep = None
            if os.path.exists(hp): keep = set(tuple(x) for x in json.load(open(hp)))
            res = driver.verify(_prog, s, keep=keep)
            if keep is not None and (res.failed or res.error): res = driver.verify(_prog, s)
            hard = [o for o in res.obs if o.soft is None]
            r["obligations"] = len(res.obs) + res.trivial; r["discharged"] = len(res.obs) + res.trivial - len(res.failed); r["by_simplification"] = res.trivial
            r["failed"] = [{"kind": o.kind, "desc": o.desc, "pos": o.pos, "solver": x.note, "query": x.text} for o, x in res.failed[:8]]
            r["nfailed"] = len(res.failed)
            r["error"] = res.error; r["functions"] = sorted(res.used); r["contracts"] = sorted(res.contracts); r["intrinsics"] = sorted(res.intr)
            r["invariants"] = res.inv; r["invkeys"] = sorted(set(o.soft for o in res.obs if o.soft is not None)); r["vacuous"] = res.vacuous; r["rounds"] = res.rounds; r["paths"] = res.paths
    except Exception as e:
        import traceback
        r["error"] = "verifier error: %s\n%s" % (e, traceback.format_exc()[-1500:])
    r["time"] = time.time() - t0
    r["solver_s"] = smt.STATS["solver_s"] - st0["solver_s"]; r["queries"] = smt.STATS["queries"] - st0["queries"]
    r["by"] = {k: v - st0["by"].get(k, 0) for k, v in smt.STATS["by"].items()}
    return r

def run(prop, ssa_path, procs=8, thorough=False):
    ts = tasks(prop)
    if not ts: return []
    with mp.get_context("fork").Pool(procs, initializer=_init, initargs=(ssa_path,), maxtasksperchild=4) as p:
        return list(p.imap_unordered(run_task, ts, chunksize=1))

if __name__ == "__main__":
    # runprop.py PROP SSA [--save-hints]: development entry
    t0 = time.time()
    tot = [0, 0]
    for r in run(sys.argv[1], sys.argv[2]):
        bad = r["failed"] or r["error"] or r["vacuous"]
        tot[0] += r["obligations"]; tot[1] += r["discharged"]
        print("%s %-60s obl %d/%d rounds %d %.1fs (solver %.1fs) %s" % ("BAD" if bad else "ok ", r["label"], r["discharged"], r["obligations"], r["rounds"], r["time"], r["solver_s"], "VACUOUS" if r["vacuous"] else ""))
        if r["error"]: print("    ", r["error"])
        for f in r["failed"]: print("     FAILED", f["kind"], f["desc"], f["pos"], f["solver"])
        if "--save-hints" in sys.argv and r["kind"] == "spec" and not bad:
            json.dump(r["invkeys"], open(hint_path(r["module"], r["label"]), "w"), indent=0)
    print("total %d/%d in %.1fs" % (tot[1], tot[0], time.time() - t0))
