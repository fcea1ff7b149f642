"""Workload: the whole program.  One simulated life of bin/i-pi with its input
and output files on the simulated disk, clients as other processes, signals,
EXIT files, crashes."""

import os
import signal

from . import clients, runner
from .kernel import ref


class Options:
    do_yappi = False
    yappi_clock = "cpu"
    yappi_prefix = "profile"
    verbosity = None
    sockets_prefix = None


def entry(k, scn):
    """scn: input (file name), files {name: text} (written when absent), clients,
    addr, events, crash_image (rng seed)"""
    from ipi.utils.softexit import softexit

    world = clients.World(k)
    k.world = world
    fs = k.fs
    for name, text in scn.get("files", {}).items():
        p = fs_path(name)
        if p not in fs.names:
            fs.put(p, text.encode())
    k.stage = "run"

    def done(status, detail):
        out = {
            "outcome": k.outcome,
            "files": fs.image_kill(),
            "world": {
                "evals": len(world.evals),
                "proto": world.proto,
                "exits": dict(world.exits),
                "fired": world.fired,
                "live": [c.proc.name for c in world.clients if c.proc and c.state == "running"],
                "states": {c.name: c.state for c in world.clients},
            },
            "trace": ["%d %.6f %s" % (e[0], e[1] / 1e9, e[2:]) for e in k.events[-80:]],
            "sockfiles": [p for p in fs.names if p.startswith("/tmp/ipi_")],
            "shm": sorted(getattr(k, "shm", None) or {}),
            "marks": getattr(k, "marks", {}),
            "soft": bool(softexit.triggered),
            "threads": stacks(k) if status in ("timeout", "livelock", "deadlock") else [],
        }
        if scn.get("powerloss"):
            import random

            out["pl_files"] = fs.image_powerloss(random.Random("pl-%s" % scn["powerloss"]))
        if scn.get("want_oplog"):
            out["oplog"] = list(fs.oplog)
        return out

    k.on_finish = done
    k.marks = {}
    addr = scn.get("addr")
    for spec in scn.get("clients", []):
        a = spec.get("addr") or addr
        clients.make(k, world, spec, (a[0], tuple(a[1]) if isinstance(a[1], list) else a[1]))
    for ev in scn.get("events", []):
        arm(k, ev)
    main_return(k, scn)


def stacks(k):
    """Where every thread of the process is (for reports of runs that never end)."""
    import sys
    import traceback

    out = []
    fr = sys._current_frames()
    for t in k.tasks:
        th = getattr(t, "thread", None)
        ident = getattr(th, "ident", None)
        st = traceback.extract_stack(fr[ident])[-8:] if ident in fr else []
        out.append("%s %s %s %s" % (t.name, t.state, t.where, ["%s:%d %s" % (os.path.basename(s.filename), s.lineno, s.name) for s in st]))
    return out


def fs_path(name):
    from .fs import norm

    return norm(name)


def main_return(k, scn):
    inp = scn["input"]
    if not k.fs.exists_any(fs_path(inp)):
        raise FileNotFoundError(inp)
    opt = Options()
    opt.verbosity = scn.get("verbosity", "quiet")
    runner.ipi_script.main(inp, opt)


def arm(k, ev):
    """Arms an external event."""

    def fire():
        k.count("event_" + ev["what"])
        k.log("event", ev["what"])
        k.marks.setdefault("events", []).append((ev["what"], k.tick, k.now))
        w = ev["what"]
        if w == "sigint":
            k.raise_signal(signal.SIGINT)
        elif w == "sigterm":
            k.raise_signal(signal.SIGTERM)
        elif w == "exitfile":
            p = fs_path("EXIT")
            if p not in k.fs.names:
                k.fs.put(p, b"")
        elif w == "kill":
            k.crash("killed by the simulator")
        elif w == "clock":
            k.epoch += int(ev["jump"] * 1e9)
        else:
            raise RuntimeError("unknown event %s" % w)

    if "tick" in ev:
        k.at_tick(ev["tick"], fire)
    else:
        k.after(ev["time"], fire)


def life(scn, image=None):
    return runner.run_life(entry, scn, image=image, wall=scn.get("_wall", 120))
