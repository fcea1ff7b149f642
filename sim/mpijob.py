"""Workload: forcefields served by co-launched MPI ranks.  i-PI's side is the real
FFMPI / InterfaceMPI / MPIWorldManager, the ranks run the real run_driver_mpi of the
Python driver; only the MPI library is simulated (sim/mpi.py)."""

import random
import threading
import time

import numpy as np

from . import check as ck
from . import ffs, mpi, runner


def xml(f):
    return "<ffmpi name='%s' pbc='%s'><latency>%g</latency><offset>%r</offset><batch_size>%d</batch_size></ffmpi>" % (f["name"], bool(f.get("pbc")), f["latency"], f["offset"], f["batch"])


def build(f):
    from ipi.inputs import forcefields as inf
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    inp = inf.InputFFMPI()
    inp.parse(xml_parse_string(xml(f)).fields[0][1])
    return inp.fetch()


def launch(k, scn):
    """Starts the driver ranks of the job; i-PI is rank 0."""
    from . import simpes

    ranks = []  # (forcefield, its index)
    for i, f in enumerate(scn["ffs"]):
        ranks += [(f, i)] * f["ranks"]
    if scn.get("mix"):
        random.Random("mix-%s" % scn["mix"]).shuffle(ranks)
    k.main_proc.mpi_rank = 0
    k.mpi_world = mpi.World(k, 1 + len(ranks), scn.get("mpi"))
    k.mpi_ranks = {}

    def body(r, f, i):
        drv = simpes.Sim_driver(scale=f["scale"], tag="%s.%d" % (f["name"], r))
        slow = f["delay"] * (scn.get("slow", 1) if r == 1 else 1)

        def driver(cells, poss):
            if slow:
                k.sleep(slow)
            return drv(cells, poss)

        if f.get("start"):
            k.sleep(f["start"] * (r % 3))
        runner.driver_mod.run_driver_mpi(driver=driver, group_size=f["group"], mpi_name=f["tagged"], mpi_id=i)
        k.mpi_ranks[r] = "ended"

    for r, (f, i) in enumerate(ranks, 1):
        p = k.new_proc("rank%d" % r)
        p.mpi_rank = r
        k.mpi_ranks[r] = "running"
        k.spawn(body, (r, f, i), name=p.name, proc=p)


def entry(k, scn):
    from ipi.engine.beads import Beads
    from ipi.engine.cell import Cell
    from ipi.engine.forces import Forces, ForceComponent
    from ipi.utils.depend import dstrip
    from ipi.utils.messages import verbosity
    from ipi.utils.softexit import softexit

    verbosity.level = "quiet"
    k.pes_calls = []
    rec = []
    k.stage = "start"
    k.leftover = 0

    def done(status, detail):
        return {
            "verdict": judge(k, scn, status, detail, rec),
            "trace": ["%d %.6f %s" % (e[0], e[1] / 1e9, e[2:]) for e in k.events[-120:]],
            "answered": sum(1 for e in rec if e["state"] == "done"),
        }

    k.on_finish = done
    launch(k, scn)
    om = ffs.Outputs()
    F = {f["name"]: build(f) for f in scn["ffs"]}
    for f in F.values():
        f.bind(om)
    for f in F.values():
        f.start()
    softexit.start(0.0)
    rng = random.Random("cfg-%s" % scn.get("cfgseed", 0))
    plan = [[[ffs.make_cfg(rng, c["natoms"]) for b in range(c["nbeads"])] for s in range(scn["steps"])] for c in scn["systems"]]

    def caller(c):
        spec = scn["systems"][c]
        nb = spec["nbeads"]
        beads, cell, frc = Beads(spec["natoms"], nb), Cell(np.eye(3)), Forces()
        frc.bind(beads, cell, [ForceComponent(n, nbeads=0, weight=1.0, mts_weights=np.array([1.0]), interpolate_extras=[]) for n in spec["ffs"]], F, [], om)
        for s, todo in enumerate(plan[c]):
            if scn.get("gap"):
                time.sleep(scn["gap"] * ((s + c) % 3))
            h = todo[0][1]
            beads.q[:] = np.array([q for q, _ in todo])
            cell.h = h.copy()
            ent = {"caller": c, "step": s, "q": [q for q, _ in todo], "h": h, "state": "queued"}
            rec.append(ent)
            frc.queue()
            ent["res"] = [
                (spec["ffs"][n], [(float(p), dstrip(a).copy(), dstrip(v).copy(), x) for p, a, v, x in zip(m.pots, m.f, m.virs, m.extras["dipole"])])
                for n, m in enumerate(frc.mforces)
            ]
            ent["state"] = "done"

    if scn.get("stop_at") is not None:

        def stopper():
            time.sleep(scn["stop_at"])
            k.count("stop_requested")
            softexit.cleanup(message="stop")

        threading.Thread(target=stopper, name="stopper", daemon=True).start()
    errs = []

    def guarded(c):
        try:
            caller(c)
        except SystemExit:
            pass
        except BaseException as e:
            errs.append(e)

    ths = [threading.Thread(target=guarded, args=(c,), name="system%d" % c) for c in range(len(scn["systems"]))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    k.errs = ["%s: %s" % (type(e).__name__, e) for e in errs]
    k.stage = "stop"
    if not softexit.triggered:
        k.sleep(0.2)
        k.leftover = sum(len(x.requests) for x in F.values())
        softexit.cleanup(status="success", message="end")
    else:
        k.wait_until(lambda: not softexit.exiting, poll=0.05)
    k.sleep(1.0)
    k.wait_until(lambda: all(v == "ended" for v in k.mpi_ranks.values()), poll=0.05, timeout=20 * max(f["delay"] for f in scn["ffs"]) * scn.get("slow", 1) + 1)
    k.alive = [n for n, x in F.items() if x._thread is not None and x._thread.is_alive()]
    k.hung = sorted(r for r, v in k.mpi_ranks.items() if v != "ended")
    k.stage = "end"


def judge(k, scn, status, detail, rec):
    v = []
    if scn.get("mismatch"):
        # a job that was launched wrongly must end with an error, not hang
        if status != "mpi-abort":
            v.append(("setup", "a job with %s ended with %s %s instead of an error" % (scn["mismatch"], status, detail)))
        return v
    fs = {f["name"]: f for f in scn["ffs"]}
    ndone = sum(1 for e in rec if e["state"] == "done")
    total = len(scn["systems"]) * scn["steps"]
    for ent in rec:
        if ent["state"] != "done":
            continue
        for name, res in ent["res"]:
            f = dict(fs[name], kind="direct")
            for b, (p, fr, vir, dip) in enumerate(res):
                P, Fx, V, X = ffs.expect(f, ent["q"][b], ent["h"])
                who = "%s (system %d, step %d, replica %d)" % (name, ent["caller"], ent["step"], b)
                if not ffs.close(p, P):
                    v.append(("attribution", "%s: potential %r instead of %r" % (who, p, float(P))))
                elif not ffs.close(fr, Fx):
                    v.append(("attribution", "%s: wrong forces" % who))
                elif not ffs.close(vir, np.triu(V)) and not ffs.close(vir, V):
                    v.append(("attribution", "%s: wrong virial" % who))
                elif not ffs.close(dip, X["dipole"]):
                    v.append(("attribution", "%s: the extras belong to something else" % who))
        if len(v) > 3:
            return v
    stopped = scn.get("stop_at") is not None
    if status in ("timeout", "livelock", "deadlock", "mpi-abort"):
        v.append(("liveness", "%s in stage %s (%d of %d steps done) %s" % (status, k.stage, ndone, total, detail[:150])))
    elif k.outcome and k.outcome[0] == "raised":
        v.append(("liveness", "the main thread died: %s" % (k.outcome[1:3],)))
    elif not stopped:
        if k.errs:
            v.append(("liveness", "the requests end with %s" % k.errs[0]))
        elif ndone != total:
            v.append(("liveness", "%d of %d steps were abandoned" % (total - ndone, total)))
        elif k.leftover:
            v.append(("liveness", "%d released requests are still queued" % k.leftover))
        else:
            for f in scn["ffs"]:
                n = sum(c["nbeads"] * scn["steps"] for c in scn["systems"] if f["name"] in c["ffs"])
                roots = [r for r in k.mpi_ranks]
                got = sum(1 for c in k.pes_calls if c[0].split(".")[0] == f["name"])
                if f["group"] == 1 and got != n:
                    v.append(("once", "%s evaluated %d structures for %d requests" % (f["name"], got, n)))
                if f["group"] > 1 and got < n:
                    v.append(("once", "the groups of %s evaluated %d structures for %d requests" % (f["name"], got, n)))
    if status == "ended" and k.stage == "end":
        if k.alive:
            v.append(("shutdown", "polling threads still run after the end: %s" % k.alive))
        if k.hung:
            v.append(("shutdown", "driver ranks %s were never told to exit" % k.hung))
    return v


# --------------------------------------------------------------------- scenarios
def gen(rng, i):
    nff = rng.choice([1, 1, 2])
    fl = []
    for j in range(nff):
        g = rng.choice([1, 1, 1, 2])
        fl.append(
            {
                "name": "m%d" % j,
                "scale": rng.choice([1.0, 0.5, -2.0]),
                "offset": rng.choice([0.0, 1.5]),
                "batch": rng.choice([1, 1, 2, 3, 5]),
                "latency": rng.choice([2e-4, 1e-3, 0.01]),
                "pbc": rng.random() < 0.3,
                "group": g,
                "ranks": rng.choice([1, 2, 3, 4]) if g == 1 else rng.choice([2, 3, 4]),
                "delay": rng.choice([0, 1e-4, 2e-3, 0.02]),
                "start": rng.choice([0, 0, 0.02]),
                "tagged": "m%d" % j if nff > 1 or rng.random() < 0.5 else "",
            }
        )
    nat = rng.choice([1, 2, 4])
    mixed = rng.random() < 0.35
    systems = []
    for c in range(rng.choice([1, 1, 2, 3])):
        names = [f["name"] for f in fl]
        systems.append({"natoms": rng.choice([1, 2, 3, 5]) if mixed else nat, "nbeads": rng.choice([1, 2, 4, 6]), "ffs": names if rng.random() < 0.7 else [rng.choice(names)]})
    for f in fl:
        if not any(f["name"] in s["ffs"] for s in systems):
            systems[0]["ffs"] = [x["name"] for x in fl]
    return {
        "ffs": fl,
        "systems": systems,
        "steps": rng.choice([1, 2, 3]),
        "gap": rng.choice([0, 0, 1e-3, 0.02]),
        "mix": rng.randrange(100) if rng.random() < 0.5 and all(f["group"] == 1 for f in fl) else 0,
        "slow": rng.choice([1, 1, 1, 8]),
        "mpi": {"seed": rng.randrange(1 << 30), "lat": rng.choice([1e-6, 2e-5, 5e-4, 5e-3]), "rendezvous": rng.choice([0, 0, 0.3, 1.0])},
        "cfgseed": rng.randrange(1 << 30),
        "sched": {"seed": rng.randrange(1 << 30), "gap": rng.choice([0, 150, 800, 5000]), "choice": rng.choice(["random", "random", "pct", "fifo"]), "quantum": rng.choice([300, 3000, 20000])},
        "max_time": 300.0,
        "max_switches": 400000,
    }


def gen_stop(rng, i):
    scn = gen(rng, i)
    scn["stop_at"] = rng.choice([0.0, 1e-4, 1e-3, 0.01, 0.03, 0.1, 0.3])
    # (documented: a rank that waits for its result to be received may hang)
    scn["mpi"]["rendezvous"] = 0
    return scn


def gen_mismatch(rng, i):
    scn = gen(rng, i)
    k = rng.choice(["an untagged driver", "an unknown tag", "a forcefield without drivers"])
    while len(scn["ffs"]) < 2:
        scn = gen(rng, i)
    if k == "an untagged driver":
        scn["ffs"][rng.randrange(2)]["tagged"] = ""
    elif k == "an unknown tag":
        scn["ffs"][rng.randrange(2)]["tagged"] = "else"
    else:
        scn["ffs"][1]["tagged"] = scn["ffs"][0]["tagged"]
    scn["mismatch"] = k
    return scn


REDUCERS = [
    ck.drop_items(["systems"]),
    ck.lower(["steps"]),
    ck.setval(["gap"], 0),
    ck.setval(["slow"], 1),
    ck.setval(["mix"], 0),
    ck.setval(["mpi", "rendezvous"], 0),
    ck.setval(["mpi", "lat"], 1e-6),
    ck.setval(["sched", "choice"], "fifo"),
    ck.setval(["sched", "gap"], 0),
]


def runner_for(classes):
    def run(scn):
        r = runner.run_life(entry, scn, wall=scn.get("_wall", 120))
        if r["status"] == "harness":
            return {"viol": [], "harness": r["detail"], "stats": {}}
        st = r["stats"]
        return {
            "viol": [v for v in r["verdict"] if v[0] in classes],
            "harness": None,
            "stats": st,
            "key": (st["shash"], st["ticks"], r["status"]),
            "nontrivial": st["switches"] > 10,
            "preempt_log": r["preempt_log"],
            "sample": {"status": r["status"], "virtual_s": st["now"] / 1e9, "switches": st["switches"], "counters": st["counters"]},
            "trace": r.get("trace", []),
        }

    return run
