"""Scenario generators and judges for the whole-program checks."""

import copy
import re

from . import fullrun, ipigen, lives, oracle, sockgen as sg


def sched(rng):
    return {
        "seed": rng.randrange(1 << 30),
        "gap": rng.choice([0, 0, 300, 2000, 20000]),
        "choice": rng.choice(["rand", "rand", "fifo"]),
        "quantum": rng.choice([3000, 20000]),
    }


def outcfg(rng, chk=True):
    o = {
        "ps": rng.choice([1, 1, 2]),
        "pf": rng.choice([1, 1, 3]),
        "ts": rng.choice([1, 2, 3]),
        "tf": rng.choice([1, 2]),
        "cs": rng.choice([0, 1, 2, 3]) if chk else 0,
    }
    if o["cs"]:
        o["over"] = rng.random() < 0.6
    return o


# ------------------------------------------------------------------ soft exit (any instant)
SOFT_SETUPS = [
    "nve1", "nvt_langevin", "nvt_pile_g", "nvt_gle", "npt_isotropic", "nst", "mts", "rpc",
    "geop_bfgs", "geop_lbfgs", "geop_sd", "remd", "piremd", "two", "two_nve", "remd_nve", "two_nve", "atomswap", "tramp", "bosons", "sc",
    "bias", "committee", "rotations", "vib_fd", "inst_lanczos", "inst_lbfgs", "neb_fire", "eda", "replay", "remd_bias", "pramp",
]


MULTI_SETUPS = [n for n in SOFT_SETUPS if "multi" in ipigen.CAT[n]["tags"]]


def ffcfg(rng, setup, slow=None):
    """Forcefields of a run: in process, with or without a polling thread, fast or slow."""
    out = {}
    for f in ipigen.CAT[setup]["ffs"]:
        d = {"kind": "direct", "threaded": rng.random() < 0.5, "latency": rng.choice([1e-3, 1e-2])}
        if slow:
            d["delay"] = slow
        if rng.random() < 0.3:
            d["offset"] = 2.5
        out[f] = d
    return out


def gen_limit(rng, i):
    """Stops that come from the monitoring thread while the main one is in the middle of a step."""
    setup = rng.choice(MULTI_SETUPS if rng.random() < 0.7 else SOFT_SETUPS)
    return gen_soft(rng, i, setup, rng.choice([0.05, 0.3, 0.3]), 0.9)


def gen_soft(rng, i, setup=None, slow=None, timed=0.4):
    setup = setup or rng.choice(SOFT_SETUPS)
    slow = rng.choice([0, 0, 0.05, 0.3]) if slow is None else slow
    scn = {
        "setup": setup,
        "out": outcfg(rng),
        "safe": rng.choice([1, 1, 1, 2, 3]),
        "ff": ffcfg(rng, setup, slow),
        "lives": [],
    }
    c = ipigen.CAT[setup]
    if "multi" in c["tags"]:
        # (the documentation excludes reproducibility for threads that share the generator)
        scn["threads"] = "det" in c["tags"] and rng.random() < 0.7
    elif rng.random() < 0.2:
        scn["threads"] = rng.random() < 0.7
    for _ in range(rng.choice([1, 1, 2, 3])):
        l = {"sched": sched(rng), "events": []}
        what = rng.choice(["sigint", "sigterm", "exitfile", "exitfile"])
        if slow and rng.random() < timed:
            # wall-clock limits and EXIT files seen by the monitoring thread
            l["events"].append({"what": "exitfile", "time": round(rng.uniform(0.05, 4.0), 3)})
        else:
            l["events"].append({"what": what, "frac": round(rng.uniform(0.10, 1.05), 4)})
        if rng.random() < 0.25:
            d = dict(l["events"][0])
            d["what"] = rng.choice(["sigint", "sigterm", "exitfile"])
            if "frac" in d:
                d["frac"] = round(d["frac"] + rng.choice([0, 1e-4, 1e-3, 1e-2, 0.1]), 5)
            else:
                d["time"] = d["time"] + rng.choice([0, 0.001, 0.5, 1.0])
            l["events"].append(d)
        scn["lives"].append(l)
    if slow and i % 4 == 3:
        # only the time limit stops it, several times
        scn["total_time"] = round(rng.uniform(0.5, 2.0), 2)
        for f in scn["ff"].values():
            f["delay"] = 1.0
        scn["lives"] = [{"sched": sched(rng), "events": []} for _ in range(2)]
    elif slow and rng.random() < 0.3:
        scn["total_time"] = round(rng.uniform(0.5, 3.0), 2)
    return scn


def refs(scn):
    return [(scn["setup"], scn.get("steps"), scn["ff"])]


def make_files(scn):
    return ipigen.make(
        scn["setup"],
        scn["out"],
        steps=scn.get("steps"),
        ff=scn["ff"],
        safe=scn.get("safe", 1),
        total_time=scn.get("total_time"),
        threads=scn.get("threads"),
    )


def no_limit(image):
    out = dict(image)
    for p, d in out.items():
        if lives.short(p) in ("RESTART", "input.xml"):
            out[p] = re.sub(rb"<total_time>[^<]*</total_time>", b"", d)
    return out


def run_soft(scn):
    ref = lives.reference(scn["setup"], scn.get("steps"), scn["ff"])
    files = make_files(scn)
    viol, rs = [], []
    image, inp = None, "input.xml"
    i = 0
    done = False
    rstep = -1
    while i < 14:
        l = scn["lives"][i] if i < len(scn["lives"]) else {}
        if i >= len(scn["lives"]) and scn.get("total_time"):
            # the user takes the limit away and lets it run to the end
            files = make_files(dict(scn, total_time=None))
            image = no_limit(image)
        ls = lives.life_scn(scn, l, inp, files, ref)
        r = fullrun.life(ls, image)
        rs.append(r)
        if r["status"] == "harness":
            return result(scn, viol, rs, r["detail"])
        if r["status"] in ("deadlock", "livelock", "timeout"):
            viol.append(("stuck", "life %d never ends: %s %s" % (i, r["status"], r["detail"])))
            for t in r.get("threads", []):
                r["trace"].append(t)
            break
        evs = r["marks"].get("events", [])
        o = r.get("outcome")
        early = not r["soft"]
        if r["status"] == "killed":
            pass  # a signal before i-PI has set up its handlers
        elif o[0] == "raised" and not (o[1] == "KeyboardInterrupt"):
            viol.append(("crash", "life %d ends with %s: %s" % (i, o[1], o[2])))
            break
        elif o[0] == "raised" and len(evs) + bool(scn.get("total_time") and r["stats"]["now"] / 1e9 >= scn["total_time"]) < 2 and not early:
            # (a second request to stop may interrupt the first; the time limit is one too)
            viol.append(("crash", "life %d ends with %s" % (i, o[1])))
            break
        if evs and r["soft"]:
            late = (r["stats"]["now"] - evs[0][2]) / 1e9
            if late > scn.get("bound", 40.0):
                viol.append(("stuck", "life %d ends %.1f s after it was asked to stop" % (i, late)))
        if scn.get("total_time") and i < len(scn["lives"]) and r["stats"]["now"] / 1e9 > scn["total_time"] + 15.0:
            viol.append(("stuck", "life %d goes on for %.1f s although its time limit is %.1f s" % (i, r["stats"]["now"] / 1e9, scn["total_time"])))
        f = {lives.short(p): d for p, d in r["files"].items()}
        if r["soft"]:
            if "RESTART" not in f:
                viol.append(("no-restart", "life %d made a soft exit but left no RESTART" % i))
                break
            st = lives.judge_chk(f["RESTART"], "RESTART", ref, scn["setup"], viol)
            if st is None or viol:
                break
            # no more than safe_stride steps of work are thrown away
            top = last_row(f, ref, scn)
            if top is not None and st < top - scn.get("safe", 1):
                viol.append(("restart-old", "RESTART is at step %d although step %d was completed" % (st, top)))
            if st < rstep:
                viol.append(("restart-old", "RESTART went back from step %d to %d" % (rstep, st)))
            rstep = st
            finished = st >= ref["steps"] or (not evs and not (scn.get("total_time") and i < len(scn["lives"])))
            inp = "RESTART"
            if finished:
                done = True
        else:
            if not evs:
                viol.append(("crash", "life %d ends without being asked to: %s" % (i, o)))
                break
            if r["status"] != "killed" and o[0] != "raised":
                viol.append(("no-restart", "life %d stopped without a soft exit: %s" % (i, o)))
                break
            # stopped before the handlers were there: start again in the same way
        lives.judge_outputs(r["files"], ref, scn["setup"], scn["out"], viol, need_all=done, partial=not r["soft"])
        for n, d in sorted(f.items()):
            # (a checkpoint that was being written when a second request interrupted everything has another name)
            if n.startswith("sim.chk") and not n.endswith(".new"):
                lives.judge_chk(d, n, ref, scn["setup"], viol)
        if viol:
            viol = [(c, "life %d: %s" % (i, m)) if not m.startswith("life") else (c, m) for c, m in viol]
            break
        if done:
            d = oracle.chk_diff(oracle.chk(f["RESTART"], "RESTART")[1], ref["final"][1], *lives.tol(scn["setup"]), lives.IGNORE)
            if d:
                viol.append(("outputs", "the final RESTART differs from the reference: %s" % d))
            break
        image = {p: d for p, d in r["files"].items() if lives.short(p) != "EXIT"}
        i += 1
    else:
        viol.append(("stuck", "no progress in %d lives" % i))
    return result(scn, viol, rs)


def last_row(f, ref, scn):
    """The last step that the first property file records."""
    if scn["out"]["ps"] != 1:
        return None
    tops = []
    for n in ref["props"]:
        try:
            h, rows = oracle.props(f[n], n)
            tops.append(max(s for s, _ in rows))
        except Exception:
            return None
    return min(tops) if tops else None


def result(scn, viol, rs, harness=None):
    return {
        "viol": viol,
        "harness": harness,
        "stats": lives.stats_of(rs),
        "key": lives.key_of(rs),
        "nontrivial": sum(r.get("stats", {}).get("switches", 0) for r in rs) >= 5,
        "preempt_log": None,
        "sample": "%d lives: %s" % (len(rs), [str(r.get("outcome"))[:60] for r in rs]),
        "trace": sum([r.get("trace", [])[-30:] for r in rs], []),
    }


# ------------------------------------------------------------ a potential that fails
FAIL_SETUPS = [n for n in SOFT_SETUPS if ipigen.CAT[n]["ffs"]] + ["nve4", "nvt1", "nvt_svr", "mtsnpt", "geop_cg", "scnpt", "alchemy"]


def gen_fail(rng, i):
    """The potential raises an exception at one of its evaluations."""
    setup = rng.choice(FAIL_SETUPS)
    c = ipigen.CAT[setup]
    scn = {"setup": setup, "out": outcfg(rng), "ff": ffcfg(rng, setup, rng.choice([0, 0, 0.01])), "lives": [{"sched": sched(rng)}], "max_time": 300.0}
    for f in scn["ff"].values():
        if f["threaded"] and rng.random() < 0.4:
            f["batch"] = rng.choice([2, 3])
    f = scn["ff"][rng.choice(sorted(scn["ff"]))]
    f["fail"] = rng.choice([1, 2, 3, 5, 8, 13, 21])
    if "multi" in c["tags"]:
        scn["threads"] = "det" in c["tags"] and rng.random() < 0.7
    elif rng.random() < 0.5:
        scn["threads"] = rng.random() < 0.7
    return scn


def run_fail(scn):
    ref = lives.reference(scn["setup"], scn.get("steps"), scn["ff"])
    files = make_files(scn)
    viol = []
    r = fullrun.life(lives.life_scn(scn, scn["lives"][0], "input.xml", files, ref))
    rs = [r]
    if r["status"] == "harness":
        return result(scn, viol, rs, r["detail"])
    failed = r["stats"]["counters"].get("pes_failure", 0)
    o = r.get("outcome")
    f = {lives.short(p): d for p, d in r["files"].items()}
    st = None
    if r["status"] in ("deadlock", "livelock", "timeout"):
        viol.append(("stuck", "the run never ends%s: %s %s" % (" after an evaluation failed" if failed else "", r["status"], r["detail"])))
        r["trace"] += r.get("threads", [])
        return result(scn, viol, rs)
    if not failed and o != ("exit", None):
        viol.append(("crash", "the run ends with %s" % (o,)))
        return result(scn, viol, rs)
    if failed and r["marks"].get("t_fail") and r["stats"]["now"] - r["marks"]["t_fail"] > 20e9:
        viol.append(("stuck", "the run goes on for %.1f s after an evaluation failed" % ((r["stats"]["now"] - r["marks"]["t_fail"]) / 1e9)))
    if "RESTART" in f and o[0] != "raised":
        st = lives.judge_chk(f["RESTART"], "RESTART", ref, scn["setup"], viol)
        if failed and st is not None and st >= ref["steps"]:
            viol.append(("success", "an evaluation failed but RESTART claims that the run reached its end"))
    elif o[0] != "raised":
        viol.append(("no-restart", "the run stopped by itself and left no RESTART"))
    for n, d in f.items():
        if n.startswith("sim.chk"):
            lives.judge_chk(d, n, ref, scn["setup"], viol)
    lives.judge_outputs(r["files"], ref, scn["setup"], scn["out"], viol, need_all=not failed, partial=o[0] == "raised", dup=False)
    if viol or not failed:
        return result(scn, viol, rs)
    # the user repairs the potential and carries on
    image = {p: re.sub(rb"(fail\s*:\s*)\d+", rb"\g<1>0", d) if lives.short(p) in ("RESTART", "input.xml") or lives.short(p).startswith("sim.chk") else d for p, d in r["files"].items()}
    inp = "RESTART" if st is not None else "input.xml"
    r = fullrun.life(lives.life_scn(scn, {}, inp, {}, ref), image)
    rs.append(r)
    if r["status"] == "harness":
        return result(scn, viol, rs, r["detail"])
    f = {lives.short(p): d for p, d in r["files"].items()}
    if r["status"] != "ended" or r["outcome"] != ("exit", None):
        viol.append(("crash", "carrying on from %s ends with %s %s" % (inp, r["status"], r.get("outcome"))))
    else:
        # (the failure may come between the records of one step, which are then repeated)
        lives.judge_outputs(r["files"], ref, scn["setup"], scn["out"], viol, need_all=True)
        d = oracle.chk_diff(oracle.chk(f["RESTART"], "RESTART")[1], ref["final"][1], *lives.tol(scn["setup"]), lives.IGNORE)
        if d:
            viol.append(("outputs", "the final RESTART differs from the reference: %s" % d))
    return result(scn, viol, rs)
