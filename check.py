#!/usr/bin/env python3
"""check.py PROP [--replay FILE]: decides one property on /repo's current tree.

1. deductive part (deciding): the SSA form of /repo's sources is regenerated and every contract of the property is verified.
2. bounded part (labelled bounded, never counted as proved): harness/ drives the compiled code against an executable oracle; it finds
   the failing inputs that make a failed obligation concrete."""
import sys, os, json, time, subprocess, tempfile, shutil, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
REPO = "/repo"
GO_ENV = dict(os.environ, HOME=os.environ.get("HOME", "/root"), GOROOT="/opt/veriftools/go1.27.3", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
              GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
PKGS = ["./trie", "./models/trie_blake2b", "./models/trie_blake2b/trie_blake2b_verify", "./models/trie_kzg_bn256", "./hive_adaptor"]
KZG = ("C17", "C18")

def log(*a): print(*a, file=sys.stderr, flush=True)

def ensure_ssadump(tmp):
    b = os.path.join(HERE, "bin", "ssadump")
    src = os.path.join(HERE, "ssadump", "main.go")
    if os.path.exists(b) and os.path.getmtime(b) >= os.path.getmtime(src): return b
    for out in (b, os.path.join(tmp, "ssadump")):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        p = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(HERE, "ssadump"), env=dict(GO_ENV, GOFLAGS="-mod=mod"), capture_output=True, text=True)
        if p.returncode == 0: return out
    raise Exception("ssadump does not build: " + p.stderr[-2000:])

def dump_ssa(tmp):
    b = ensure_ssadump(tmp)
    out = os.path.join(tmp, "ssa.json")
    with open(out, "w") as f:
        p = subprocess.run([b, REPO] + PKGS, stdout=f, stderr=subprocess.PIPE, env=GO_ENV, text=True)
    if p.returncode != 0: raise Exception("ssadump failed: " + p.stderr[-2000:])
    return out

class Harness:
    """the bounded stand-in"""
    def __init__(self, prop, tmp):
        self.prop = prop; self.tmp = tmp; self.note = None; self.bin = None; self.stats = []; self.failure = None; self.runs = 0
        self.lock = threading.Lock()
    def build(self):
        rep = {}
        for d, dst in (("ext", "verifharness"), ("kzg", "models/trie_kzg_bn256")):
            for f in sorted(os.listdir(os.path.join(HERE, "harness", d))):
                if f.endswith(".go"): rep["%s/%s/%s" % (REPO, dst, f)] = os.path.join(HERE, "harness", d, f)
        ov = os.path.join(self.tmp, "ov.json"); json.dump({"Replace": rep}, open(ov, "w"))
        pkg = "./models/trie_kzg_bn256" if self.prop in KZG else "./verifharness"
        out = os.path.join(self.tmp, "h.test")
        p = subprocess.run(["go", "test", "-overlay", ov, "-vet=off", "-c", "-o", out, pkg], cwd=REPO, env=GO_ENV, capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            self.note = "bounded part not run (harness does not build): " + p.stderr[-600:]
            return
        self.bin = out
    def one(self, seed, ms, replay=None):
        if self.bin is None: return
        d = tempfile.mkdtemp(dir=self.tmp)
        env = dict(GO_ENV, VERIF_SEED=str(seed), VERIF_BUDGET_MS=str(ms), VERIF_OUT=d, GOMEMLIMIT="3GiB")
        if replay is not None: env["VERIF_REPLAY_SEED"] = str(replay)
        try:
            p = subprocess.run([self.bin, "-test.run", "^Test%s$" % self.prop, "-test.timeout", "%ds" % (ms // 1000 + 120)], cwd=d, env=env, capture_output=True, text=True, timeout=ms / 1000 + 150)
        except subprocess.TimeoutExpired:
            with self.lock: self.note = "a harness run timed out"
            return
        j = os.path.join(d, "Test%s.json" % self.prop)
        with self.lock:
            self.runs += 1
            if os.path.exists(j):
                r = json.load(open(j))
                self.stats.append(r["stats"])
                if r.get("failure") and self.failure is None: self.failure = r["failure"]
            elif p.returncode != 0 and self.failure is None:
                out = (p.stdout + p.stderr)
                if "panic: test timed out" in out: self.note = "a harness run timed out"
                else: self.failure = {"property": self.prop, "test": "Test" + self.prop, "case_seed": None, "what": "the harness process died", "case": "seed %d budget %d ms" % (seed, ms), "panic": out[-3000:]}
        shutil.rmtree(d, ignore_errors=True)
    def sweep(self, seeds, ms):
        ts = [threading.Thread(target=self.one, args=(s, ms)) for s in seeds]
        for t in ts: t.start()
        for t in ts: t.join()

def findings(prop):
    out = []
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        if l.startswith("finding: property=%s " % prop): out.append(l.split(" ", 2)[2].strip())
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    try: seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError: seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(prop, tier, seed, t0, tmp):
    import runprop, registry, assumptions
    h = Harness(prop, tmp)
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        h.build(); h.one(seed, 60000, r["failure"]["case_seed"])
        print(json.dumps(h.failure, indent=1) if h.failure else "the case passes")
        return 1 if h.failure else 0
    quick = tier != "thorough"
    budget, nseeds = (8000, 2) if quick else (120000, 6)
    def bounded():
        h.build()
        h.sweep([seed + 1000 * i for i in range(nseeds)], budget)
    bt = threading.Thread(target=bounded); bt.start()
    results = []; perr = None
    try:
        ssa_path = dump_ssa(tmp)
        results = runprop.run(prop, ssa_path, thorough=not quick)
    except Exception as e:
        perr = "deductive part not run: %s" % e
    bt.join()
    failed = [(r, f) for r in results for f in r["failed"]]
    undecided = [r for r in results if r["error"]]
    vac = [r for r in results if r["vacuous"] and not r["error"]]
    if (failed or undecided or vac) and h.failure is None:
        # look for a failing input that shows what the failed obligation means
        h.sweep([seed + 77 + 1000 * i for i in range(6)], 45000 if quick else 240000)
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    rp = os.path.join(HERE, "evidence", "replays", prop + ".json")
    if os.path.exists(rp): os.unlink(rp)
    tot = sum(r["obligations"] for r in results); dis = sum(r["discharged"] for r in results)
    by = {}
    for r in results:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    fns = sorted(set(f for r in results for f in r["functions"]))
    ev = sum(s["evaluations"] for s in h.stats); dn = sum(s["distinct_nontrivial"] for s in h.stats)
    cov = {"obligations": tot, "discharged": dis,
           "checker_cmd": "python3 /verif/check.py %s (ssadump of /repo -> vc/ -> z3 %s, cvc5 1.1.2)" % (prop, "5.3.2/4.8.12"),
           "trusted_base": assumptions.for_prop(prop, results),
           "functions_under_contract": fns, "specifications": [{"name": r["label"], "obligations": r["obligations"], "discharged": r["discharged"], "paths": r["paths"], "seconds": round(r["time"], 2)} for r in sorted(results, key=lambda r: r["label"])],
           "assumed_contracts_used": sorted(set(x for r in results for x in r["intrinsics"])), "callee_contracts_used": sorted(set(x for r in results for x in r["contracts"])),
           "loop_invariants": sorted(set(i for r in results for i in r["invariants"]))[:200],
           "discharged_by": by, "solver_seconds": round(sum(r.get("solver_s", 0) for r in results), 1), "solver_queries": sum(r.get("queries", 0) for r in results),
           "undecided": [{"spec": r["label"], "why": r["error"][:500]} for r in undecided] + ([{"spec": "all", "why": perr}] if perr else []),
           "vacuous": [r["label"] for r in vac],
           "proved_part": assumptions.PROVED.get(prop, ""), "bounded_part": assumptions.BOUNDED.get(prop, ""),
           "evaluations": ev, "distinct_nontrivial": dn,
           "rule": (h.stats[0]["rule"] if h.stats else "none"), "samples": (h.stats[0]["samples"][:3] if h.stats else []),
           "bounded_note": h.note or "bounded stand-in: %d runs of %d ms, seeds from %d" % (h.runs, budget, seed)}
    level = assumptions.LEVEL.get(prop, "proof")
    if level == "other": cov["explanation"] = assumptions.PROVED.get(prop, "") + " Bounded: " + assumptions.BOUNDED.get(prop, "")
    json.dump({"property": prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2)},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in findings(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d/%d obligations discharged over %d specifications, %d functions; bounded: %d evaluations; %.1fs" % (prop, dis, tot, len(results), len(fns), ev, time.time() - t0))
    for r in undecided: print("UNDECIDED %s: %s" % (r["label"], r["error"][:300]))
    if perr: print("UNDECIDED: " + perr)
    if h.note: print("NOTE: " + h.note)
    viol = None
    if h.failure is not None:
        viol = {"failure": h.failure, "how": "python3 /verif/check.py %s --replay <this file>" % prop,
                "failed_obligations": [dict(spec=r["label"], **{k: v for k, v in f.items() if k != "query"}) for r, f in failed]}
        tail = ""
    elif failed or vac:
        viol = {"failure": None, "failed_obligations": [dict(spec=r["label"], **f) for r, f in failed], "vacuous": [r["label"] for r in vac]}
        tail = " no-failing-input-found"
    if viol is None:
        if not results and h.bin is None:
            print("ERROR: nothing could be checked"); return 2
        return 0
    json.dump(viol, open(rp, "w"), indent=1)
    if h.failure: print("failing case: %s | %s" % (h.failure.get("what"), str(h.failure.get("case"))[:600]))
    for r, f in failed[:6]: print("FAILED OBLIGATION %s: %s %s %s" % (r["label"], f["kind"], f["desc"], f["pos"]))
    for r in vac: print("FAILED OBLIGATION %s: the contract is vacuous on this code (no exit is reachable)" % r["label"])
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
    return 1

if __name__ == "__main__": sys.exit(main())
