"""Command line: run a check, write its evidence, replay a recorded violation."""
import argparse
import collections
import importlib
import json
import os
import re
import sys
import traceback

from sim import env

env.install()

from sim import engine  # noqa
import random  # noqa

ROOT = engine.ROOT
KNOWN = os.path.join(ROOT, "known-findings.txt")
IDS = ["C%02d" % i for i in range(1, 20)] + ["C26"]


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def preload():
    """Compile every repository module once, before forking."""
    imp = env.IMPORTER
    for d, sub, files in os.walk(env.REPO):
        sub[:] = [s for s in sub if not s.startswith(".") and s not in ("data", "docs", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                try:
                    imp.get_code(os.path.join(d, f))
                except (SyntaxError, ValueError, OSError):
                    pass


def known_findings(pid):
    """Open findings: lines 'finding: property=<id> kind=<regex> match=<regex> :: text'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


CASE_LIMIT = 60     # seconds of wall time; an ordinary case takes one
HANG_LIMIT = 200


def case_seed(pid, seed, i):
    return "%s/%s/%d" % (pid, seed, i)


def make_case(prop, pid, tier, seed, i):
    s = case_seed(pid, seed, i)
    spec = prop.generate(random.Random(s), tier)
    spec["seed"] = s
    return spec


def run_check(pid, tier, seed, cases=None, workers=None, wall=None, keep_going=False):
    t0 = engine.real_now()
    prop = load(pid)
    preload()
    workers = workers or max(1, min(8, os.cpu_count() or 1))
    n = cases or prop.CASES[tier]
    wall = wall or (420 if tier == "quick" else 6 * 3600)
    deadline = t0 + wall
    known = known_findings(pid)
    agg = {"stats": collections.Counter(), "faults": collections.Counter(), "runs": 0, "steps": 0, "switches": 0,
           "sim_time": 0.0, "perturbed": 0}
    digests, keys, samples, done = set(), set(), [], 0
    failures, harness, timeouts, seen_known = {}, [], [], collections.Counter()

    def classify(r):
        bads = []
        for k, m in r.get("bads", []):
            hit = [t for kr, mr, t in known if kr.fullmatch(k) and mr.search(m)]
            if hit:
                seen_known[hit[0]] += 1
            else:
                bads.append([k, m])
        r["bads"] = bads
        return bads

    def on_result(key, r):
        nonlocal done
        if r.get("timeout"):
            timeouts.append(key)
            return
        if r.get("harness") and not r.get("bads"):
            harness.append((key, r["harness"]))
            return
        done += 1
        for a in ("stats", "faults"):
            agg[a].update(r[a])
        for a in ("runs", "steps", "switches", "sim_time", "perturbed"):
            agg[a] += r[a]
        digests.update(r["digests"])
        keys.update(r["keys"])
        if r.get("sample") and len(samples) < 3:
            samples.append(r["sample"])
        if classify(r):
            failures[key] = r

    def job(i):
        return lambda: engine.run_case(prop, make_case(prop, pid, tier, seed, i))

    def stop(key):
        if not keep_going and len(timeouts) >= workers:
            return key is None
        if keep_going or not failures:
            return False
        return key is None or key > min(failures)
    engine.pool(((i, job(i)) for i in range(n)), workers, CASE_LIMIT, deadline, on_result, stop)

    # cases that ran out of wall time are repeated under a deterministic loop budget
    again = [i for i in sorted(timeouts) if not failures or i < min(failures)][:workers]
    hung = []

    def second(i, r):
        if r.get("timeout"):
            hung.append(i)
            return
        on_result(i, r)
        if i in failures:
            failures[i]["budgeted"] = True
    if again:
        engine.pool([(i, (lambda i=i: engine.budgeted(prop, make_case(prop, pid, tier, seed, i)))) for i in again],
                    workers, HANG_LIMIT, None, second)
    for i in hung:      # no simulator step and no loop of the repository's own was going on: stuck outside both
        if not failures or i < min(failures):
            failures[i] = {"bads": [["hang", "the case does not finish within %d s" % HANG_LIMIT]], "budgeted": True,
                           "spec": make_case(prop, pid, tier, seed, i), "rec": {"choices": {}, "decisions": {}},
                           "digests": []}
    rc, path = 0, None
    if failures:
        rc = 1
        i = min(failures)
        path = report(prop, pid, tier, failures[i], workers, 40 if tier == "quick" else 300)
        if keep_going:
            for j in sorted(failures):
                print("case %d: %.300s" % (j, failures[j]["bads"][0]))
    if harness and rc == 0:
        rc = 2
        for i, h in harness[:3]:
            print("HARNESS case=%s %s" % (i, h), file=sys.stderr)
    for t, c in seen_known.items():
        pass
    for kr, mr, t in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    dt = engine.real_now() - t0
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    evidence(prop, pid, tier, seed, dt, agg, digests, keys, samples, done, n, len(failures), seen_known)
    print("%s %s: %d cases, %d simulated runs in %.1fs, %d distinct interleavings, %d distinct evaluations, rc=%d"
          % (pid, tier, done, agg["runs"], dt, len(digests), len(keys), rc))
    return rc


def report(prop, pid, tier, res, workers, seconds):
    """Minimise, write the replay file, confirm it in a fresh process."""
    b = bool(res.get("budgeted"))
    m = engine.Minimiser(prop, res, workers, seconds, b)
    first = res
    kind = m.kind
    spec, rec = first["spec"], first["rec"]
    if kind != "hang":
        try:
            spec, rec, res = m.go()
        except Exception:  # the unminimised failure stands
            traceback.print_exc()

    def confirm(spec, rec):
        out = []
        engine.pool([(0, lambda: (engine.budgeted if b else engine.run_case)(prop, spec, rec, True))], 1, HANG_LIMIT, None,
                    lambda k, r: out.append(r))
        r = out[0]
        return r if any(x[0] == kind for x in r.get("bads", [])) else None
    r = first if kind == "hang" else confirm(spec, rec)
    if r is None:
        spec, rec, res = first["spec"], first["rec"], first
        r = confirm(spec, rec) or first
    bad = [x for x in r["bads"] if x[0] == kind][0]
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9]+", "-", "%s-%s-%s" % (pid, spec["seed"], kind))
    path = os.path.join(d, name + ".json")
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "budgeted": b, "spec": spec, "choices": rec["choices"],
                   "decisions": rec["decisions"], "violation": {"kind": kind, "message": bad[1]},
                   "digests": r["digests"], "minimiser_trials": m.tried,
                   "trace": [dict(t, events=t["events"][-400:]) for t in r.get("traces", [])]}, f, indent=1)
    print("violation kind=%s: %s" % (kind, bad[1]))
    print("minimised in %d trials; faults and perturbations left: %s" % (
        m.tried, json.dumps(rec["decisions"])[:600]))
    return path


def replay(path):
    d = json.load(open(path))
    prop = load(d["property"])
    preload()
    out = []
    rec = {"choices": d["choices"], "decisions": d["decisions"]}
    fn = engine.budgeted if d.get("budgeted") else engine.run_case
    engine.pool([(0, lambda: fn(prop, d["spec"], None if d["violation"]["kind"] == "hang" else rec, True))], 1, HANG_LIMIT, None,
                lambda k, r: out.append(r))
    r = out[0]
    want = d["violation"]
    if r.get("timeout") and want["kind"] == "hang":
        r = {"bads": [["hang", want["message"]]], "digests": []}
    same = [b for b in r.get("bads", []) if b[0] == want["kind"]]
    if same:
        print("kind=%s: %s" % tuple(same[0]))
        print("trace digests %s" % ("identical" if r["digests"] == d["digests"] else "differ (code changed)"))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if r.get("harness") or r.get("timeout"):
        print(r.get("harness") or "timeout", file=sys.stderr)
        return 2
    print("not reproduced: %s" % (r.get("bads") or "the property held"))
    return 0


def evidence(prop, pid, tier, seed, dt, agg, digests, keys, samples, done, planned, nviol, seen_known):
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(keys),
        "rule": prop.RULE,
        "samples": samples or ["no case completed"],
        "cases": done,
        "planned_cases": planned,
        "perturbed_runs": agg["perturbed"],
        "cases_per_hour": round(done * 3600 / max(dt, 1e-9)),
        "simulated_runs_per_hour": round(agg["runs"] * 3600 / max(dt, 1e-9)),
        "simulated_seconds": round(agg["sim_time"], 3),
        "scheduler_steps": agg["steps"],
        "context_switches": agg["switches"],
        "distinct_interleavings": len(digests),
        "interleaving_measure": "distinct hashes of the complete ordered event log of a run (sends, receives, sizes, "
                                "blocking, faults)",
        "faults_fired": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["stats"].items())),
        "known_findings_hit": dict(seen_known),
        "real_components": getattr(prop, "REAL", REAL),
        "stubbed_components": getattr(prop, "STUB", STUB),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": ASSUME + getattr(prop, "ASSUME", []), "wall_s": round(dt, 2),
                   "violations": nviol}, f, indent=1)


REAL = ["federation/transfer_inst.py", "ml/tree (guest and host)", "ml/feature", "ml/loss", "ml/optim", "ml/param",
        "ml/secureprotol (Paillier, encoding, modes)", "computing/d_table.py", "arch/api (protobuf)", "ml/statistic",
        "ml/utils"]
STUB = ["operating system sockets (simulated streams)", "os.urandom, random, numpy.random (seeded per node)",
        "clocks and sleep (simulated)", "disk (in-memory, where a file is used)",
        "gmpy2 (pure Python integers with the same API)", "numba (decorators only)"]
ASSUME = ["sockets behave as reliable ordered byte streams until closed, reset or cut",
          "the per-party processes share no state other than their connections"]


def selftest():
    """Set-up check: the same seed gives the same execution, in this process tree and at any worker count."""
    preload()
    from sim.props import c02
    seen = {}

    def go(workers):
        out = {}
        engine.pool(((i, lambda i=i: engine.run_case(c02, make_case(c02, "C02", "quick", 99, i))) for i in range(8)),
                    workers, 120, None, lambda k, r: out.__setitem__(k, (r.get("digests"), r.get("bads"),
                                                                         r.get("harness"))))
        return out
    a, b = go(8), go(1)
    if a != b:
        print("selftest: executions differ between worker counts")
        return 1
    if any(h for _, _, h in a.values()):
        print([h for _, _, h in a.values() if h][0])
        return 1
    print("selftest: %d cases identical at 8 and 1 workers" % len(a))
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    try:
        if a.what == "setup":      # nothing to build: everything runs from source
            import numpy
            print("python %s, numpy %s, repository at %s" % (sys.version.split()[0], numpy.__version__, env.REPO))
            return 0
        if a.what == "selftest":
            return selftest()
        if a.what == "replay":
            return replay(a.file)
        if a.what.upper() not in IDS:
            print("unknown property %s" % a.what, file=sys.stderr)
            return 2
        return run_check(a.what.upper(), a.tier, a.seed, a.cases, a.workers, a.wall, a.keep_going)
    except Exception:
        traceback.print_exc()
        return 2
