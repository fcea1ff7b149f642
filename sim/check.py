"""What every check shares: seeded generation, parallel simulated runs, judging,
minimisation, replay files, known findings and evidence."""

import argparse
import copy
import json
import os
import random
import subprocess
import sys
import time as _time

from . import lives, runner

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = _time.monotonic

REAL = [
    "ipi/ (engine, forcefields, interfaces, inputs, utils, pes) and bin/i-pi: the code of /repo's working tree",
    "CPython threading, concurrent.futures and queue, on simulated locks",
]
STUB = [
    "kernel scheduler, clocks, signals: sim/kernel.py, sim/seams.py",
    "sockets, select and poll: sim/net.py",
    "files, fsync, rename, crash images: sim/fs.py",
]


class Check:
    """One property.  families: name -> (quick runs, thorough runs, generator).

    A generator takes a random.Random and an index and returns a scenario (JSON
    data that fully determines the run).  run(scn) executes it and returns
    {"viol": [(class, message)...], "harness": str or None, "nontrivial": bool,
     "stats": {...}, "key": hashable} (stats are summed; key identifies the
    behaviour reached)."""

    def __init__(
        self,
        pid,
        families,
        run,
        reducers=(),
        rule="",
        assumptions=(),
        real=(),
        stub=(),
        probes=(),
        level="exploration",
        refs=None,
    ):
        self.refs = refs
        self.pid = pid
        self.families = families
        self.run = run
        self.reducers = list(reducers)
        self.rule = rule
        self.assumptions = list(assumptions)
        self.real = REAL + list(real)
        self.stub = STUB + list(stub)
        self.probes = list(probes)
        self.level = level

    def scenario(self, seed, fam, i):
        rng = random.Random("%s/%s/%s/%d" % (self.pid, seed, fam, i))
        scn = self.families[fam][2](rng, i)
        scn["_id"] = "%s/%s/%d" % (fam, seed, i)
        # how often a woken thread takes over from the one that woke it
        rng = random.Random("wake/%s/%s/%s/%d" % (self.pid, seed, fam, i))
        for x in [scn] + [l for l in scn.get("lives", []) if isinstance(l, dict)]:
            if isinstance(x.get("sched"), dict):
                w = rng.choice([0, 0, 0, 0.1, 0.4, 1.0])
                if w:
                    x["sched"]["wake"] = w
        return scn


# ------------------------------------------------------------------ known findings
def known(pid):
    """Findings recorded (not repaired) for this property."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d["property"] == pid:
                    out.append(d)
    return out


def is_known(d, scn, v):
    import re

    return re.search(d["match"], "%s: %s" % (v[0], v[1])) is not None


# --------------------------------------------------------------------------- runs
def safe_run(check, scn):
    """Runs a scenario; a wall-clock or harness failure is retried once."""
    for attempt in (0, 1):
        s = copy.deepcopy(scn)
        if attempt:
            s["_wall"] = 4 * s.get("_wall", 120)
        try:
            r = check.run(s)
        except lives.RefError as e:
            r = {"viol": [("reference", str(e))], "harness": None, "stats": {}, "key": str(e)}
        except Exception:
            import traceback

            r = {"viol": [], "harness": traceback.format_exc(), "stats": {}}
        if not r.get("harness"):
            return r
    return r


def merge(total, st):
    for k, v in st.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            total[k] = total.get(k, 0) + v


def reductions(red, scn):
    try:
        yield from red(scn)
    except (KeyError, TypeError, ValueError, AttributeError, IndexError):
        # a reduction that makes no sense for this scenario
        return


def shrink(check, scn, cls, budget_s, max_runs=400):
    """Greedy minimisation: keep any reduction that still breaks the same class."""
    end = _now() + budget_s
    runs = [0]

    def fails(c):
        runs[0] += 1
        r = safe_run(check, c)
        if r.get("harness"):
            return None
        for v in r["viol"]:
            if v[0] == cls:
                return r, v
        return None

    best = scn
    progress = True
    while progress and _now() < end and runs[0] < max_runs:
        progress = False
        for red in list(check.reducers) + [no_wake]:
            for cand in reductions(red, best):
                if _now() > end or runs[0] >= max_runs:
                    break
                if fails(cand):
                    best = cand
                    progress = True
                    break
            if progress:
                break
    # explicit, minimal list of preemptions
    r = safe_run(check, best)
    log = r.get("preempt_log")
    if log and "sched" in best:
        c = copy.deepcopy(best)
        c["sched"].pop("gap", None)
        c["sched"]["preempts"] = list(log)
        if fails(c):
            best = c
            n = 2
            lst = list(log)
            while len(lst) >= 1 and _now() < end and runs[0] < 2 * max_runs:
                size = max(1, len(lst) // n)
                hit = False
                for a in range(0, len(lst), size):
                    if _now() > end:
                        break
                    sub = lst[:a] + lst[a + size :]
                    c = copy.deepcopy(best)
                    c["sched"]["preempts"] = sub
                    if fails(c):
                        lst = sub
                        best = c
                        n = max(2, n - 1)
                        hit = True
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(lst), 2 * n)
    return best, runs[0]


def main(check, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--family")
    ap.add_argument("--one", type=int)
    ap.add_argument("--dump", action="store_true", help="list every violation found, do not minimise")
    ap.add_argument("--hashes", help="write the behaviour hash of every run to this file")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        return _main(check, a)
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.__stdout__.flush()
        return 2


def _main(check, a):
    t0 = _now()
    runner.boot()
    out = sys.__stdout__
    if a.replay:
        d = json.load(open(a.replay))
        r = safe_run(check, d["scenario"])
        if r.get("harness"):
            print("HARNESS %s" % r["harness"], file=out)
            return 2
        for v in r["viol"]:
            print("%s: %s" % (v[0], v[1]), file=out)
        if any(v[0] == d["class"] for v in r["viol"]):
            print("VIOLATION property=%s replay=%s" % (check.pid, a.replay), file=out)
            return 1
        return 0

    items = []
    for fam, (nq, nt, _) in check.families.items():
        if a.family and fam != a.family:
            continue
        n = nq if a.tier == "quick" else nt
        n = max(1, int(n * a.scale))
        for i in range(n):
            if a.one is not None and i != a.one:
                continue
            items.append((fam, i))
    # interleave families so that an early stop has seen all of them
    order = random.Random("order-%s" % a.seed)
    order.shuffle(items)

    def job(it):
        scn = check.scenario(a.seed, *it)
        r = safe_run(check, scn)
        return r

    if check.refs:
        # the uninterrupted reference runs, once for all workers
        need = {}
        for it in items:
            for args in check.refs(check.scenario(a.seed, *it)):
                need[lives.ref_key(*args)] = args
        need = sorted(need.items())

        def refjob(kv):
            try:
                return {"ref": lives.reference(*kv[1])}
            except lives.RefError:
                return {"ref": None}

        for idx, r in runner.pmap(refjob, need, a.workers):
            if r.get("ref"):
                lives._refs[need[idx][0]] = r["ref"]
    limit = 420 if a.tier == "quick" else 4 * 3600
    cut_short = False
    findings = known(check.pid)
    seen_known = {}
    stats = {}
    keys = set()
    nontrivial = set()
    evaluations = 0
    bad = []
    harness = []
    samples = []
    hashes = {}
    perfam = {}
    for idx, r in runner.pmap(job, items, a.workers):
        fam, i = items[idx]
        if _now() - t0 > limit:
            cut_short = True
            break
        if r.get("harness"):
            harness.append((fam, i, r["harness"]))
            continue
        evaluations += 1
        perfam[fam] = perfam.get(fam, 0) + 1
        merge(stats, r.get("stats", {}))
        key = r.get("key")
        keys.add(key)
        hashes["%s/%d" % (fam, i)] = repr(key)
        if r.get("nontrivial", True):
            nontrivial.add(key)
        if len(samples) < 3 and r.get("nontrivial", True) and idx % 7 == 0:
            samples.append({"scenario": check.scenario(a.seed, fam, i), "outcome": r.get("sample", "no violation")})
        viol = []
        for v in r["viol"]:
            for d in findings:
                if is_known(d, None, v):
                    seen_known.setdefault(d["id"], v)
                    break
            else:
                viol.append(v)
        if viol:
            bad.append((fam, i, viol))
            if a.dump:
                print((fam, i, [(v[0], v[1][:300]) for v in viol[:2]]), file=out)
            elif len(bad) >= 1:
                break
    wall_runs = _now() - t0
    if a.hashes:
        json.dump(hashes, open(a.hashes, "w"), sort_keys=True, indent=0)
    for d in findings:
        print("KNOWN-FINDING: property=%s %s" % (check.pid, d["what"]), file=out)
    rc = 0
    if bad and not a.dump:
        fam, i, viol = bad[0]
        scn = check.scenario(a.seed, fam, i)
        cls = viol[0][0]
        best, n = shrink(check, scn, cls, 90 if a.tier == "quick" else 240)
        path = None
        for cand in (best, scn):
            r = safe_run(check, cand)
            msgs = [v for v in r.get("viol", []) if v[0] == cls]
            if not msgs:
                continue
            path = os.path.join(ROOT, "out", "%s-%d-%s-%d.json" % (check.pid, a.seed, fam, i))
            json.dump(
                {
                    "property": check.pid,
                    "seed": a.seed,
                    "class": cls,
                    "violation": msgs[0][1],
                    "scenario": cand,
                    "minimised_in_runs": n,
                    "trace": r.get("trace", [])[-60:],
                },
                open(path, "w"),
                indent=1,
                default=str,
            )
            env = dict(os.environ)
            p = subprocess.run(
                [sys.executable, os.path.join(ROOT, "check.py"), check.pid, "--replay", path],
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                env=env,
            )
            if p.returncode == 1:
                break
            path = None
        if path is None:
            print("HARNESS: %s/%d broke %s but does not replay" % (fam, i, viol[:2]), file=out)
            rc = 2
        else:
            print("%s/%d (seed %d): %s: %s" % (fam, i, a.seed, cls, msgs[0][1]), file=out)
            print("VIOLATION property=%s replay=%s" % (check.pid, path), file=out)
            rc = 1
    elif bad:
        rc = 1
    if harness:
        for h in harness[:3]:
            print("HARNESS %s/%d: %s" % (h[0], h[1], str(h[2])[-1500:]), file=out)
        if rc == 0:
            rc = 2
    wall = _now() - t0
    cnt = stats.get("counters", {})
    probes = {p: cnt.get(p, 0) for p in check.probes}
    ev = {
        "property": check.pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": check.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": check.rule,
            "samples": samples[:3] or ["none"],
            "runs_per_family": perfam,
            "simulated_runs_per_hour": int(evaluations / max(wall_runs, 1e-3) * 3600),
            "simulated_seconds": round(stats.get("now", 0) / 1e9, 1),
            "lines_of_ipi_scheduled": int(stats.get("ticks", 0)),
            "context_switches": int(stats.get("switches", 0)),
            "distinct_behaviours": len(keys),
            "distinct_behaviours_measure": "hash of the sequence of task switches with their positions, plus outcome",
            "faults_and_events": {k: v for k, v in sorted(cnt.items())},
            "probes": probes,
            "real_components": check.real,
            "stub_components": check.stub,
            "harness_errors": len(harness),
            "runs_planned": len(items),
            "stopped_by_time_limit": cut_short,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    if not a.no_evidence and not a.family and a.one is None:
        json.dump(
            ev, open(os.path.join(ROOT, "evidence", check.pid + ".json"), "w"), indent=1, default=str
        )
    print(
        "%s %s: %d runs in %.1f s, %d distinct nontrivial, %.0f simulated s, %d violations, %d harness errors"
        % (check.pid, a.tier, evaluations, wall, len(nontrivial), stats.get("now", 0) / 1e9, len(bad), len(harness)),
        file=out,
    )
    out.flush()
    return rc


# ------------------------------------------------------------------ generic reducers
def no_wake(scn):
    if scn.get("sched", {}).get("wake"):
        c = copy.deepcopy(scn)
        c["sched"].pop("wake")
        yield c


def drop_items(path):
    """Reducer: removes one element of the list at the given path."""

    def red(scn):
        lst = scn
        for p in path:
            if not isinstance(lst, dict) or p not in lst:
                return
            lst = lst[p]
        if not isinstance(lst, list):
            return
        for i in range(len(lst)):
            c = copy.deepcopy(scn)
            t = c
            for p in path:
                t = t[p]
            del t[i]
            yield c

    return red


def lower(path, floor=1):
    """Reducer: halves or decrements an integer."""

    def red(scn):
        t = scn
        for p in path[:-1]:
            if not isinstance(t, dict) or p not in t:
                return
            t = t[p]
        v = t.get(path[-1]) if isinstance(t, dict) else None
        if not isinstance(v, (int, float)) or isinstance(v, bool):
            return
        for nv in (floor, v // 2 if isinstance(v, int) else None, v - 1 if isinstance(v, int) else None):
            if nv is None or nv >= v or nv < floor:
                continue
            c = copy.deepcopy(scn)
            t = c
            for p in path[:-1]:
                t = t[p]
            t[path[-1]] = nv
            yield c

    return red


def setval(path, value):
    def red(scn):
        t = scn
        for p in path[:-1]:
            if not isinstance(t, dict) or p not in t:
                return
            t = t[p]
        if not isinstance(t, dict) or t.get(path[-1], value) == value:
            return
        c = copy.deepcopy(scn)
        t = c
        for p in path[:-1]:
            t = t[p]
        t[path[-1]] = value
        yield c

    return red
