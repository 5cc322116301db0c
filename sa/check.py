"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree.

Builds the fixture program's monomorphic MIR from /repo, runs the analyses the property needs, and
reports definite violations only.  Exit 0: held on everything analysed (known findings are listed);
exit 1: violation; exit 2: the analysis itself could not run.
"""
import gc
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

import build  # noqa: E402
import engine  # noqa: E402
import props  # noqa: E402
import specs  # noqa: E402
from prog import Prog  # noqa: E402

VERIF = build.VERIF
PROG = None
TIER = "quick"
BUDGET = {"quick": 600, "thorough": 3 * 3600}


STARTED = None
TOTAL = 0
END = 0


def share():
    """Seconds one more analysis may take so that all of them get their turn."""
    with STARTED.get_lock():
        STARTED.value += 1
        left = TOTAL - STARTED.value
    return max(20.0, min(2.5 * (END - time.time()) * 8 / (left + 8), 0.6 * (END - time.time())))


def work(job):
    mod, name = job
    t0 = time.time()
    engine.MAX_SECS = share()
    try:
        gc.disable()
        r = importlib.import_module(mod).run(PROG, specs.TYPES, name, TIER)
    except Exception as e:      # an analysis error is an unanswered job, not a verdict
        r = {"violations": [], "undecided": {"analysis error: %s" % e: 1}, "stats": {}, "error": traceback.format_exc()}
    r["job"] = "%s:%s" % (mod, name)
    r["secs"] = time.time() - t0
    return r


def known_findings():
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if not l.startswith("known: property="):
                continue
            pid, rest = l[len("known: property="):].split(" ", 1)
            key, _, what = rest.partition(" :: ")
            known[(pid, key.strip())] = what.strip()
    return known


def run_jobs(jobs):
    if not jobs:
        return []
    gc.collect()
    gc.freeze()
    n = min(8, len(jobs))
    ctx = multiprocessing.get_context("fork")
    out = []
    global STARTED, TOTAL, END
    end = END = time.time() + BUDGET[TIER]
    STARTED, TOTAL = ctx.Value("i", 0), len(jobs)
    with ctx.Pool(n, maxtasksperchild=24) as pool:
        it = pool.imap_unordered(work, jobs)
        try:
            for _ in jobs:
                out.append(it.next(max(1, end - time.time())))
        except multiprocessing.TimeoutError:
            done = set(r["job"] for r in out)
            for m, j in jobs:
                if "%s:%s" % (m, j) not in done:
                    out.append({"job": "%s:%s" % (m, j), "violations": [], "undecided": {"time budget": 1}, "stats": {}})
    return out


def main():
    global PROG, TIER
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    TIER = a.tier
    t0 = time.time()
    P = props.PROPS[a.property]
    mods = [importlib.import_module(m) for m in P["modules"]]
    dropped = {}
    source = []
    with build.Lock():
        try:
            if any(getattr(m, "NEEDS_PROG", True) for m in mods):
                path, dropped = build.fixtures(specs)
                PROG = Prog(path)
            for m in mods:
                if hasattr(m, "prepare"):
                    source.append(m.prepare(TIER))
        except build.BuildError as e:
            print("ERROR: cannot analyse this tree: %s" % e)
            return 2
    t1 = time.time()
    jobs = []
    for m in mods:
        for j in m.jobs(PROG, specs.TYPES, a.property, TIER):
            if not a.only or a.only in j:
                jobs.append((m.__name__, j))
    res = run_jobs(jobs)
    viol = {}
    und = {}
    stats = {}
    fns = set()
    errors = []
    for r in res:
        for v in r["violations"]:
            if v["property"] == a.property:
                viol.setdefault(v["key"], dict(v, job=r["job"]))
        for k, n in r["undecided"].items():
            und.setdefault(r["job"], {})[k] = n
        for k, n in r["stats"].items():
            if k == "fns":
                fns.update(n)
            else:
                stats[k] = stats.get(k, 0) + n
        if r.get("error"):
            errors.append(r["error"])
    known = known_findings()
    new = []
    kf = []
    for k, v in sorted(viol.items()):
        if (a.property, k) in known:
            kf.append(k)
            print("KNOWN-FINDING: property=%s %s (%s)" % (a.property, v["msg"], known[(a.property, k)]))
        else:
            new.append(v)
    edir = os.path.join(os.environ.get("VERIF_BUILD") or VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    crate_fns = sorted(n for n in fns if "instant_xml" in n or n.startswith("fixtures::") or "fixtures::" in n)
    cov = {
        "explanation": P["explanation"],
        "rule": P["rule"],
        "jobs": len(jobs),
        "jobs_with_undecided_paths": len(und),
        "undecided": {j: dict(list(u.items())[:4]) for j, u in sorted(und.items())[:60]},
        "functions_analysed": len(fns),
        "library_functions_analysed": len(crate_fns),
        "library_functions": crate_fns[:400],
        "abstract_states": stats.get("states", 0),
        "statements": stats.get("steps", 0),
        "paths_to_return": stats.get("paths", 0),
        "obligations": stats.get("obligations", 0),
        "fixture_types_left_out": sorted(dropped),
        "known_findings": kf,
        "violations": [v["key"] for v in new][:50],
        "analysis_errors": errors[:3],
    }
    ev = {"property": a.property, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED") or 1), "level": P["level"],
          "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(edir, a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d analyses, %d library functions, %d abstract states, %d paths; %d analyses with undecided paths; build %.0f s, analysis %.0f s"
          % (a.property, len(jobs), len(crate_fns), stats.get("states", 0), stats.get("paths", 0), len(und), t1 - t0, time.time() - t1))
    if a.verbose or errors:
        for j, u in sorted(und.items())[:80]:
            print("  undecided", j, dict(list(u.items())[:5]))
        for e in errors[:2]:
            print(e)
    if dropped:
        print("  left out (rejected by the current macros): %s" % ", ".join(sorted(dropped)))
    if new:
        rd = os.path.join(edir, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:40]):
            p = os.path.join(rd, "%s-%d.json" % (a.property, i))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            if i < 10:
                print("  %s" % v["msg"])
                if v.get("frames"):
                    print("     in %s" % " <- ".join(reversed(v["frames"][-3:])))
            print("VIOLATION property=%s replay=%s" % (a.property, p))
        return 1
    if not jobs:
        print("ERROR: nothing to analyse")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
