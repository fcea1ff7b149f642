"""Workload: a simulation driven from Python (ipi.scripting.InteractiveSimulation), in
pieces of a few steps, with stops at any instant, and continued from its RESTART."""

import re

from . import fullrun, ipigen, lives, oracle
from .fullprops import ffcfg, outcfg, result, sched

SETUPS = [
    "nve1", "nve4", "nvt1", "nvt_langevin", "nvt_pile_g", "nvt_gle", "nvt_svr", "nvt_multi", "npt_isotropic", "nst", "mts", "rpc", "sc",
    "bosons", "bias", "committee", "rotations", "two", "two_nve", "remd", "remd_nve", "piremd", "atomswap", "tramp", "pbc", "dbatch", "fixatoms",
    "tilt_nve", "tilt_nve", "tilt_npt", "tilt_nst",
]
# (those whose state is what get_structures() shows)
PLAIN = {"nve1", "nve4", "nvt1", "nvt_langevin", "nvt_pile_g", "nvt_svr", "nvt_gle", "two_nve", "two", "bias", "committee", "mts", "tilt_nve"}


def script(k, scn):
    """What the user's program does."""
    from ipi.scripting import InteractiveSimulation
    from ipi.utils.softexit import softexit

    sim = InteractiveSimulation(open(scn["input"]))
    k.marks["begin"] = int(sim.step)
    k.marks["runs"] = runs = []
    for op in scn["script"]:
        if op["do"] == "run":
            n = min(op["n"], scn["ref_steps"] - sim.step)
            if n <= 0 or softexit.triggered:
                continue
            e = {"from": int(sim.step), "n": n, "out": op["out"]}
            runs.append(e)
            sim.run(n, write_outputs=op["out"])
            if softexit.triggered:
                continue
            e["to"] = int(sim.step)
            e["restart"] = k.fs.image_kill().get("/simroot/RESTART")
            e["chk"] = {p: d for p, d in k.fs.image_kill().items() if "sim.chk" in p}
        elif op["do"] == "read" and not softexit.triggered:
            pot = sim.properties("potential")
            if runs:
                runs[-1].setdefault("pot", []).append([float(x) for x in (pot if isinstance(pot, list) else [pot])])
        elif op["do"] == "structures" and not softexit.triggered:
            s = sim.get_structures()
            if op.get("set"):
                sim.set_structures(s)
        elif op["do"] == "sleep":
            import time

            time.sleep(op["t"])
    k.marks["complete"] = True
    if scn["finish"] == "trigger":
        softexit.trigger(status="success", message=" @ script: done")
    # the interpreter closes the files that are still open when it ends
    import gc
    import io

    from .fs import SimRaw

    for o in gc.get_objects():
        if isinstance(o, io.TextIOWrapper) and not o.closed and isinstance(getattr(o.buffer, "raw", None), SimRaw) and o.writable():
            o.flush()


def entry(k, scn):
    old = fullrun.main_return
    if scn.get("script") is not None:
        fullrun.main_return = script
    try:
        fullrun.entry(k, scn)
    finally:
        fullrun.main_return = old


def life(scn, image=None):
    from . import runner

    return runner.run_life(entry, scn, image=image, wall=scn.get("_wall", 120))


def gen(rng, i):
    setup = rng.choice(SETUPS)
    slow = rng.choice([0, 0, 0.05, 0.3])
    c = ipigen.CAT[setup]
    scn = {"setup": setup, "out": outcfg(rng), "ff": ffcfg(rng, setup, slow), "safe": rng.choice([1, 1, 1, 2]), "lives": []}
    if "multi" in c["tags"]:
        scn["threads"] = "det" in c["tags"] and rng.random() < 0.7
    elif rng.random() < 0.2:
        scn["threads"] = True
    allout = rng.random() < 0.7
    for j in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append({"do": "run", "n": rng.choice([1, 1, 2, 3]), "out": allout or rng.random() < 0.5})
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops.append(rng.choice([{"do": "read"}, {"do": "read"}, {"do": "sleep", "t": 2.0}, {"do": "structures", "set": setup in PLAIN and rng.random() < 0.6}]))
        if rng.random() < 0.2:
            ops.insert(0, {"do": "read"})
        l = {"script": ops, "sched": sched(rng), "events": [], "finish": rng.choice(["trigger", "return"])}
        if rng.random() < 0.7:
            w = rng.choice(["sigint", "sigterm", "exitfile", "kill"])
            if slow and rng.random() < 0.6:
                l["events"].append({"what": w, "time": round(slow * rng.uniform(0.5, 30), 3)})
            else:
                l["events"].append({"what": w, "frac": round(rng.uniform(0.15, 0.95), 4)})
        scn["lives"].append(l)
    return scn


def refs(scn):
    return [(scn["setup"], scn.get("steps"), scn["ff"])]


def total(image, n):
    """The user asks for more steps."""
    out = dict(image)
    for p in out:
        if lives.short(p) == "RESTART":
            # (not those of a temperature ramp)
            out[p] = re.sub(rb"(\n {0,4}<total_steps>)[^<]*(</total_steps>)", rb"\g<1>%d\g<2>" % n, out[p])
    return out


HARTREE_EV = 27.211386


def potentials(ref):
    """Column of the potential in each property file (atomic units)."""
    out = []
    for n in sorted(ref["props"]):
        h, rows = ref["props"][n]
        names = [re.sub(r"#|-->|column\s*\d+|cols?\.?\s*[\d-]+", " ", x).split(":")[0].split() for x in h]
        col = None
        for j, w in enumerate(names):
            if w and w[0] == "potential":
                col = j
        if col is None or len(names) > len(next(iter(rows.values()))):
            return None
        out.append((col, rows))
    return out


def run(scn):
    from .fullprops import make_files

    ref = lives.reference(scn["setup"], scn.get("steps"), scn["ff"])
    files = make_files(scn)
    rt, at = lives.tol(scn["setup"])
    viol, rs = [], []
    image, inp = None, "input.xml"
    written = set()  # steps whose records are due
    skipped = False  # some run() was told not to write
    dirty = False  # (a life was killed: what it wrote is not fully known)
    start = 0
    pots = potentials(ref)
    n = len(scn["lives"])
    i = 0
    while i <= n:
        l = scn["lives"][i] if i < n else {}
        ls = lives.life_scn(scn, l, inp, files, ref)
        if "script" in l:
            ls["script"], ls["finish"], ls["ref_steps"] = l["script"], l["finish"], ref["steps"]
        r = life(ls, total(image, ref["steps"]) if image else None)
        rs.append(r)
        if r["status"] == "harness":
            return result(scn, viol, rs, r["detail"])
        if r["status"] in ("deadlock", "livelock", "timeout"):
            viol.append(("stuck", "life %d never ends: %s %s" % (i, r["status"], r["detail"])))
            r["trace"] += r.get("threads", [])
            break
        o = r.get("outcome")
        evs = r["marks"].get("events", [])
        killed = r["status"] == "killed"
        dirty = dirty or killed
        if not killed and o[0] == "raised" and not (o[1] == "KeyboardInterrupt" and evs and (not r["soft"] or r["marks"].get("complete"))):
            viol.append(("crash", "life %d ends with %s: %s" % (i, o[1], o[2])))
            break
        f = {lives.short(p): d for p, d in r["files"].items()}
        v = []
        runs = r["marks"].get("runs", [])
        # after each call: the right step, a RESTART of exactly that step, the right energies
        at_least = start
        for j, e in enumerate(runs):
            if "to" not in e:
                continue
            if e["to"] != e["from"] + e["n"] and not (evs and evs[0][0] == "exitfile"):
                v.append(("step", "run(%d) from step %d ends at step %d" % (e["n"], e["from"], e["to"])))
                break
            at_least = e["to"]
            if e.get("restart") is None:
                v.append(("no-restart", "no RESTART after run(%d) from step %d" % (e["n"], e["from"])))
                break
            s = lives.judge_chk(e["restart"], "RESTART", ref, scn["setup"], v)
            if s is not None and s != e["to"] and not v:
                v.append(("step", "after run(%d) from step %d, RESTART is at step %s" % (e["n"], e["from"], s)))
            if v:
                break
            for p in e.get("pot", []):
                if pots and len(pots) == len(p):
                    for (col, rows), x in zip(pots, p):
                        w = rows[e["to"]][col] * HARTREE_EV
                        if abs(w - x) > 1e-5 * (abs(w) + abs(x)) + 1e-5:
                            v.append(("read", "properties('potential') at step %d gives %.8g instead of %.8g eV" % (e["to"], x, w)))
        if runs and not v and not killed:
            last = runs[-1]
            if "to" not in last and not r["soft"] and not evs:
                v.append(("step", "run(%d) did not come to its end" % last["n"]))
        # checkpoints and RESTART that are on disk now
        st = None
        for nm, d in sorted(f.items()):
            if nm.startswith("sim.chk") and not nm.endswith(".new"):
                lives.judge_chk(d, nm, ref, scn["setup"], v)
        if "RESTART" in f and not v:
            st = lives.judge_chk(f["RESTART"], "RESTART", ref, scn["setup"], v)
        if not v and (r["soft"] or at_least > start) and st is None:
            v.append(("no-restart", "life %d leaves no RESTART" % i))
        if not v and st is not None and st < at_least:
            v.append(("restart-old", "RESTART is at step %d although run() had reached step %d" % (st, at_least)))
        # records
        if not v:
            for e in runs:
                if e["out"] and "to" in e:
                    if e["from"] == 0:
                        written.add(0)
                    written.update(range(e["from"] + 1, e.get("to", e["from"]) + 1))
            if i == n and not killed:
                if (start == 0):
                    written.add(0)
                written.update(range(start + 1, ref["steps"] + 1))
            skipped = skipped or any(not e["out"] for e in runs)
            if not skipped and not dirty and st and (runs or i == n):
                # nothing that a continuation will not write again may be missing
                written.update(range(0, st + 1))
            ww = []
            lives.judge_outputs(r["files"], ref, scn["setup"], scn["out"], ww, need_all=False, partial=killed or not r["soft"])
            if not dirty:
                v += ww
                v += missing(r["files"], ref, scn["out"], written)
        if i == n and not v:
            if st != ref["steps"]:
                v.append(("outputs", "the last life ends at step %s" % st))
            else:
                d = oracle.chk_diff(oracle.chk(f["RESTART"], "RESTART")[1], ref["final"][1], rt, at, lives.IGNORE)
                if d:
                    v.append(("outputs", "the final RESTART differs from the reference: %s" % d))
        if v:
            viol += [(c, "life %d: %s" % (i, m)) for c, m in v]
            break
        image = {p: d for p, d in r["files"].items() if lives.short(p) != "EXIT"}
        if st is not None:
            inp, start = "RESTART", st
        if st == ref["steps"]:
            break
        i += 1
    return result(scn, viol, rs)


def missing(files, ref, out, written):
    v = []
    files = {lives.short(p): d for p, d in files.items()}
    for table, stride, reader in ((ref["props"], out["ps"], "props"), (ref["traj"], out["ts"], "xyz")):
        for n in table:
            due = {s for s in written if s % stride == 0}
            if n not in files:
                if due:
                    v.append(("outputs", "%s is missing" % n))
                continue
            if reader == "props":
                have = {s for s, _ in oracle.props(files[n], n)[1]}
            else:
                have = {s for s, _, _ in oracle.xyz(files[n], n)}
            if due - have:
                v.append(("outputs", "%s has no record for steps %s" % (n, sorted(due - have)[:6])))
    return v
