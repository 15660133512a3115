#!/usr/bin/env python3
"""Driver of the checks.
  check.py quick C04 | check.py thorough C04     decides one property on /repo's working tree
  check.py replay FILE                           re-executes a recorded violation
Exit 0: held on everything explored; 1: violated (a VIOLATION line was printed); other: the check itself failed.
"""
import json, os, re, subprocess, sys, time, hashlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + "/sim")
import build as simbuild
from checkdefs import CHECKS, HYGIENE, FATAL

WORK = ROOT + "/work"; REPLAYS = WORK + "/replays"
NEVER = {"wall-clock", "harness-exception"}          # trouble of the harness, never a verdict about the code

def runner(mode, check, args=(), stdin=None, budget=None):
    cmd = [ROOT + "/sim/run.sh", mode, "--check", check] + list(args)
    r = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    out, done = [], None
    for l in r.stdout.splitlines():
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except ValueError: continue
        if "done" in d: done = d
        else: out.append(d)
    if done is None: raise RuntimeError("the simulator did not finish: rc %s\n%s" % (r.returncode, r.stdout[-2000:]))
    return out, done

def run_params(check, plist, extra=(), trace=False, per=120):
    txt = ""
    for i, p in enumerate(plist):
        q = dict(p); q["_id"] = str(i)
        txt += "".join("%s=%s\n" % (k, v) for k, v in sorted(q.items())) + "\n"
    out, _ = runner("params", check, ["--params", "-", "--per", str(per)] + (["--trace"] if trace else []) + list(extra), stdin=txt)
    res = [None] * len(plist)
    for d in out: res[int(d["params"]["_id"])] = d
    return res

class Judge:
    """which violation classes count for a property"""
    def __init__(self, spec): self.spec = spec
    def relevant(self, d):
        r = []
        for cls, msg in d["violations"]:
            if cls in NEVER: continue
            if cls in HYGIENE and not self.spec.get("hygiene"): continue
            if "only" in self.spec and cls not in self.spec["only"] and cls not in FATAL: continue
            r.append((cls, msg))
        return r

def load_known():
    """known.txt: lines 'known: property=<id> class=<regex> match=<regex> [when=<parameter>=<value>]  <what>'  and  'fixed: property=...' (which suppress nothing)"""
    ks = []
    for l in open(ROOT + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) class=(\S+) match=(\S+)(?: when=(\S+))?\s+(.*)", l)
        if m: ks.append(m.groups())
    return ks

def is_known(known, prop, cls, msg, params):
    for k in known:
        if k[0] == prop and re.fullmatch(k[1], cls) and re.search(k[2], msg) and (not k[3] or params.get(k[3].split("=", 1)[0]) == k[3].split("=", 1)[1]): return k
    return None

def tree_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(simbuild.B + "/src")):
        for f in sorted(fs): h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]

# ---------------------------------------------------------------- minimisation
def shrink(check, judge, params, cls, deadline):
    def ok(d): return d is not None and any(c == cls for c, _ in judge.relevant(d))
    cur = dict(params); steps = 0
    def variants():
        v = []
        n, np = int(cur.get("a.n", 0)), int(cur.get("np", 1))
        for k in ("m.n",):
            if k in cur and int(cur[k]) > 1: v.append({k: str(int(cur[k]) - 1)})
        if n > 4:
            for m in sorted({max(4, n // 2), max(4, 3 * n // 4), n - 1}): v.append({"a.n": str(m)})
        for m in range(1, np): v.append({"np": str(m)})
        for k in list(cur):
            if k.startswith("f.") or k.startswith("sim.p.") or k in ("sim.strict", "sim.victim", "sim.tasks"): v.append({k: None})
        if cur.get("a.dir", "0") != "0": v.append({"a.dir": "0"})
        if cur.get("a.bs", "1") != "1": v.append({"a.bs": "1"})
        if cur.get("sim.fill", "0") != "0": v.append({"sim.fill": "0"})
        return v
    def apply(b, ch):
        q = dict(b)
        for k, x in ch.items():
            if x is None: q.pop(k, None)
            else: q[k] = x
        return q
    while time.time() < deadline:
        vs = variants()
        if not vs: break
        res = run_params(check, [apply(cur, v) for v in vs], per=60)
        good = [v for v, r in zip(vs, res) if ok(r)]
        if not good: break
        # all removals together, else halves, else the first
        tries = []
        rem = {k: x for g in good for k, x in g.items() if x is None}
        first_size = next((g for g in good if "a.n" in g or "m.n" in g), None); first_np = next((g for g in good if "np" in g), None)
        allin = dict(rem)
        for g in (first_size, first_np):
            if g: allin.update(g)
        tries = [allin, rem] + good
        tries = [t for t in tries if t]
        res = run_params(check, [apply(cur, t) for t in tries], per=60)
        hit = next((t for t, r in zip(tries, res) if ok(r)), None)
        if hit is None: break
        cur = apply(cur, hit); steps += 1
    return cur, steps

def minimise_trace(check, judge, params, cls, deadline):
    def ok(d): return d is not None and any(c == cls for c, _ in judge.relevant(d))
    base = run_params(check, [params], trace=True)[0]
    if not ok(base): return None
    tr = [t for t in base.get("trace", "").split(",") if t]
    def P(t): q = dict(params); q["sim.replay"] = ",".join(t) + ("," if t else ""); return q
    if not ok(run_params(check, [P(tr)])[0]): return None
    cur = tr; n = 2
    if cur and ok(run_params(check, [P([])])[0]): cur = []
    while len(cur) >= 1 and time.time() < deadline:
        k = min(n, len(cur)); cut = [len(cur) * i // k for i in range(k + 1)]
        parts = [cur[cut[i]:cut[i+1]] for i in range(k)]
        cand = [[x for j, p in enumerate(parts) if j != i for x in p] for i in range(k)] + (parts if k > 2 else [])
        res = run_params(check, [P(c) for c in cand])
        hit = None
        for c, r in zip(cand, res):
            if ok(r) and (hit is None or len(c) < len(hit)): hit = c
        if hit is not None: cur = hit; n = max(2, min(n - 1, 16))
        elif k >= len(cur) or n >= 128: break
        else: n = min(2 * n, 128)
    return {"full": len(tr), "choices": cur}

# ---------------------------------------------------------------- reporting
KINDS = ["preempt", "msg_delay", "rendezvous_send", "rank_stall", "any_source_order", "collective_loose", "spurious_or_reordered_wakeup", "task_reorder", "late_send_copy", "reduction_reorder"]
def describe(tok):
    try:
        k, v = tok.split(":"); k = int(k, 16)
        return "run %d, %s, actor %d, occurrence %d: alternative %s" % (k >> 56, KINDS[(k >> 48) & 255], (k >> 40) & 255, k & ((1 << 40) - 1), v)
    except Exception: return tok

def brief(p): return {k: v for k, v in p.items() if k != "_id"}

def decide(tier, prop):
    t0 = time.time(); spec = CHECKS[prop]; judge = Judge(spec); seed = int(os.environ.get("VERIF_SEED", "1"))
    if not simbuild.build():
        print("the simulator does not build against this tree"); return 3
    tb = time.time() - t0
    known = load_known()
    base = (seed - 1) * 10000000 + 1
    fam = spec["family"]
    n = spec["n"] if tier == "quick" else 10**9
    budget = float(os.environ.get("VERIF_BUDGET", spec.get("budget", 240) if tier == "quick" else 1500))
    args = ["--seeds", "%d:%d" % (base, base + n - 1), "--budget", str(budget), "--per", "150"]
    if tier == "quick": args += ["--maxviol", "40"]
    else: args += ["--thorough", "--maxviol", "200"]
    out, done = runner("run", fam, args)
    if not out: print("nothing was run"); return 3
    # determinism gate: the same seeds again, in fresh processes
    clean = [d for d in out if not d["violations"]]
    sample = sorted(clean, key=lambda d: int(d["params"]["seed"]))[: (12 if tier == "quick" else 60)]
    again = run_params(fam, [brief(d["params"]) for d in sample], extra=(["--thorough"] if tier != "quick" else []))
    mism = [d["params"]["seed"] for d, e in zip(sample, again) if e is None or e["hash"] != d["hash"]]
    trouble = [d for d in out if any(c in NEVER for c, _ in d["violations"])]
    bad = {}
    for d in out:
        for c, m in judge.relevant(d)[:1]: bad.setdefault(c, []).append((d, m))
    nviol, lines, unrepro = 0, [], []
    for cls, lst in sorted(bad.items(), key=lambda t: -len(t[1])):
        lst.sort(key=lambda t: (int(t[0]["params"].get("a.n", 0)) * int(t[0]["params"].get("np", 1)), int(t[0]["params"]["seed"])))
        fresh = []
        for d, m in lst:
            k = is_known(known, prop, cls, m, d["params"])
            if k: lines.append("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
            else: fresh.append((d, m))
        if not fresh: continue
        # gate: it has to happen again, twice, in fresh processes and identically
        hit = None
        for d, m in fresh[:4]:
            p = brief(d["params"]); r2 = run_params(fam, [p, p])
            if all(r is not None and any(c == cls for c, _ in judge.relevant(r)) for r in r2): hit = (d, m, p, r2); break
        if not hit:
            unrepro.append({"class": cls, "seed": fresh[0][0]["params"]["seed"], "message": fresh[0][1][:300]}); continue
        d, m, p, r2 = hit
        exact = r2[0]["hash"] == r2[1]["hash"] == d["hash"] and r2[0]["violations"] == d["violations"]
        q, steps = (p, 0)
        if nviol < 2:
            try: q, steps = shrink(fam, judge, p, cls, time.time() + 40)
            except RuntimeError: pass
        mt = None
        if nviol < 2:
            try: mt = minimise_trace(fam, judge, q, cls, time.time() + 40)
            except RuntimeError: mt = None
        rp = dict(q)
        if mt: rp["sim.replay"] = ",".join(mt["choices"]) + ("," if mt["choices"] else "")
        fin = run_params(fam, [rp])[0]
        fm = [x for c, x in (judge.relevant(fin) if fin else []) if c == cls]
        if not fm: rp = p; fm = [m]; mt = None
        os.makedirs(REPLAYS, exist_ok=True)
        path = "%s/%s-%s-%s.json" % (REPLAYS, prop, cls, d["params"]["seed"])
        json.dump({"property": prop, "family": fam, "class": cls, "message": fm[0], "seed": d["params"]["seed"], "first_message": m, "scenarios_failing": len(fresh), "identical_on_repetition": exact,
                   "original_params": p, "params": rp, "shrink_steps": steps,
                   "schedule_and_faults": {"choices_in_the_failing_run": mt["full"] if mt else None, "minimised": [describe(t) for t in mt["choices"]] if mt else "not minimised: the seed decides"},
                   "tree": tree_hash(), "replay": "python3 %s/check.py replay %s" % (ROOT, path)}, open(path, "w"), indent=1)
        nviol += 1
        lines.append("%s: %s  [%d of %d scenarios, seed %s]" % (cls, fm[0][:500], len(fresh), len(out), d["params"]["seed"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for l in dict.fromkeys(lines): print(l)
    evidence(tier, prop, spec, seed, out, done, tb, time.time() - t0, sample, mism, nviol, unrepro, trouble)
    if nviol: return 1
    if unrepro:
        print("violations that did not happen again under the same seed: %s" % unrepro); return 2
    if mism:
        print("same seed, different run: %s" % mism); return 2
    if len(trouble) > max(2, len(out) // 20):
        print("too many scenarios without a verdict: %d, e.g. %s" % (len(trouble), trouble[0]["violations"])); return 2
    nt = sum(1 for d in out if d["nontrivial"])
    print("%s %s: held in %d scenarios (%d nontrivial), %.0f s" % (prop, tier, len(out), nt, time.time() - t0))
    return 0

def evidence(tier, prop, spec, seed, out, done, tb, wall, sample, mism, nviol, unrepro, trouble):
    st = {}
    for d in out:
        for k, v in d["stat"].items(): st[k] = max(st.get(k, 0), v) if k.startswith("max_") else st.get(k, 0) + v
    states = set(); keys = set()
    for d in out:
        states.update(d["states"])
        if d["nontrivial"]: keys.add(json.dumps({k: v for k, v in d["params"].items() if k != "seed" and k != "_id"}, sort_keys=True))
    runs = st.pop("sim_runs", len(out)); simt = st.pop("sim_time_us", 0)
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault_")}
    offered = {k[8:]: v for k, v in st.items() if k.startswith("choices_")}
    rest = {k: v for k, v in st.items() if not k.startswith("fault_") and not k.startswith("choices_")}
    cl = [d for d in out if not d["violations"]]
    samples = []
    for d in (cl or out)[:3]: samples.append({"params": brief(d["params"]), "stat": {k: v for k, v in list(d["stat"].items())[:24]}, "info": {k: v[:200] for k, v in list(d["info"].items())[:8]}, "trace_hash": d["hash"]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
            "evaluations": len(out), "distinct_nontrivial": len(keys),
            "rule": spec["rule"], "samples": samples,
            "simulated_runs": runs, "runs_per_hour": round(runs / max(done["wall"], 1e-3) * 3600), "seeds_per_hour": round(len(out) / max(done["wall"], 1e-3) * 3600),
            "simulated_time_s": round(simt * 1e-6, 3),
            "faults_injected": faults, "choices_offered": offered, "distinct_interleavings": len(states),
            "interleaving_measure": "hash over the order of all scheduling, message and collective events of a run",
            "counters": rest,
            "determinism_gate": {"scenarios_repeated_in_fresh_processes": len(sample), "different": mism},
            "violations_not_reproduced": unrepro, "scenarios_without_verdict": len(trouble),
            "real_code": spec.get("real", "the library's own sources (base, h1, elasticity, stokes) compiled from /repo's working tree; NGSolve/Netgen 6.2.2405 (ParallelDofs, sparse matrices, vectors, communicator wrapper), BLAS/LAPACK"),
            "stubbed": spec.get("stub", "MPI (simulated in process), threads, mutexes and condition variables (scheduled by the simulator), the shared-memory task manager, rand(), heap contents")},
          "assumptions": ["the simulated MPI follows the MPI standard: point-to-point order per pair, communicator and tag; sends may be buffered or synchronous; no process failures, because MPI programs end with the first of them",
                          "problems are small (up to a few hundred unknowns on up to 12 ranks), so that a dense reference can be computed",
                          "sources of NGSolve itself are trusted; the receive-into-send-buffer use in its MasterInverse is tolerated"],
          "wall_s": round(wall, 1), "build_s": round(tb, 1), "violations": nviol}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["samples"] = samples[:1]; ev["coverage"]["counters"] = dict(list(rest.items())[:60]); txt = json.dumps(ev, indent=1)
    open("%s/evidence/%s.json" % (ROOT, prop), "w").write(txt + "\n")

def replay(path):
    r = json.load(open(path)); spec = CHECKS[r["property"]]
    if not simbuild.build(): print("the simulator does not build against this tree"); return 3
    d = run_params(r["family"], [r["params"]])[0]
    rel = Judge(spec).relevant(d) if d else []
    for c, m in rel: print("%s: %s" % (c, m))
    if any(c == r["class"] for c, _ in rel):
        print("same as recorded: %s" % any(m == r["message"] for c, m in rel))
        print("VIOLATION property=%s replay=%s" % (r["property"], path)); return 1
    print("not reproduced on this tree"); return 0

if __name__ == "__main__":
    if len(sys.argv) != 3: print(__doc__); sys.exit(3)
    try: rc = replay(sys.argv[2]) if sys.argv[1] == "replay" else decide(sys.argv[1], sys.argv[2])
    except Exception as e:                    # trouble of the check itself must not look like a verdict
        import traceback; traceback.print_exc(); rc = 3
    sys.exit(rc)
