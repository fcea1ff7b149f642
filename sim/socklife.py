"""Workload: one ffsocket forcefield, several caller threads, several clients.

The forcefield is built from its XML description, started, fed with requests
the way the force engine does it, and stopped.  Everything observed is recorded;
the oracles below judge the record."""

import json
import random
import threading
import time

import numpy as np

from . import clients, net
from .kernel import ref


def ff_xml(f):
    s = "<ffsocket name='ff' mode='%s' matching='%s' pbc='%s'>" % (
        f["mode"],
        f.get("matching", "auto"),
        str(bool(f.get("pbc", False))),
    )
    s += "<address>%s</address>" % ("sim" if f["mode"] != "inet" else "localhost")
    if f["mode"] == "inet":
        s += "<port>31415</port>"
    s += "<latency>%g</latency>" % f.get("latency", 1e-4)
    s += "<timeout>%g</timeout>" % f.get("timeout", 0.0)
    s += "<slots>%d</slots>" % f.get("slots", 4)
    s += "<offset>%r</offset>" % f.get("offset", 0.0)
    s += "<batch_size>%d</batch_size>" % f.get("batch", 1)
    s += "<consolidate_messages>%s</consolidate_messages>" % bool(
        f.get("consolidate", True)
    )
    s += "<exit_on_disconnect>%s</exit_on_disconnect>" % bool(f.get("eod", False))
    s += "<max_workers>%d</max_workers>" % f.get("max_workers", 128)
    if f.get("active"):
        s += "<activelist>[%s]</activelist>" % ",".join(map(str, f["active"]))
    if f.get("pars"):
        s += "<parameters>{%s}</parameters>" % ",".join(
            "%s:%s" % kv for kv in f["pars"].items()
        )
    return s + "</ffsocket>"


def addr_of(f):
    if f["mode"] == "inet":
        return ("inet", ("localhost", 31415))
    return (f["mode"], "/tmp/ipi_sim")


def build_ff(f):
    from ipi.inputs.forcefields import InputFFSocket
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    inp = InputFFSocket()
    inp.parse(xml_parse_string(ff_xml(f)).fields[0][1])
    return inp.fetch()


def make_cfg(rng, natoms, spread=3.0):
    q = np.array([rng.uniform(-spread, spread) for _ in range(3 * natoms)])
    h = np.diag([rng.uniform(4, 6) for _ in range(3)])
    h[0, 1] = rng.uniform(-1, 1)
    h[0, 2] = rng.uniform(-1, 1)
    h[1, 2] = rng.uniform(-1, 1)
    return q, h


def wrap(q, h):
    s = np.dot(np.linalg.inv(h), q.reshape(-1, 3).T)
    s = s - np.round(s)
    return np.dot(h, s).T.reshape(-1)


def entry(k, scn):
    from ipi.engine.atoms import Atoms
    from ipi.engine.cell import Cell
    from ipi.utils.messages import verbosity
    from ipi.utils.softexit import softexit

    verbosity.level = "quiet"
    f = scn["ff"]
    ff = build_ff(f)
    world = clients.World(k)
    k.world = world
    rec = []  # one entry per request
    k.rec = rec
    k.stage = "start"

    def done(status, detail):
        return {
            "verdict": judge(k, scn, status, detail, world, rec),
            "trace": ["%d %.6f %s" % (e[0], e[1] / 1e9, e[2:]) for e in k.events[-200:]],
            "answered": sum(1 for e in rec if e["state"] == "done"),
        }

    k.on_finish = done
    ff.bind()
    ff.start()
    if scn.get("softexit", True):
        softexit.start(0.0)
    for spec in scn["clients"]:
        clients.make(k, world, spec, addr_of(f))
    rng = random.Random("cfg-%s" % scn.get("cfgseed", 0))
    natoms = scn["natoms"]
    plan = []
    for c in range(scn.get("callers", 1)):
        steps = []
        # every replica keeps one identifier object, as in the force engine
        rids = [c * 1000 + scn.get("id0", 0) + b for b in range(scn["nbeads"])]
        for s in range(scn["steps"]):
            steps.append(
                [
                    (rids[b],) + make_cfg(rng, natoms)
                    for b in range(scn["nbeads"])
                ]
            )
        plan.append(steps)
    active = f.get("active")

    def expect(q, h):
        x = wrap(q, h) if f.get("pbc") else q
        if active:
            idx = np.array([[3 * a, 3 * a + 1, 3 * a + 2] for a in active]).flatten()
        else:
            idx = np.arange(len(q))
        return x, idx

    def caller(c):
        for s, todo in enumerate(plan[c]):
            if s == 0 and scn.get("gap0"):
                time.sleep(scn["gap0"])
            if scn.get("gap"):
                time.sleep(scn["gap"] * ((s + c) % 3))
            reqs = []
            for rid, q, h in todo:
                at = Atoms(natoms)
                at.q[:] = q
                cell = Cell(h.copy())
                ent = {
                    "caller": c,
                    "step": s,
                    "id": rid,
                    "q": q,
                    "h": h,
                    "state": "queued",
                }
                rec.append(ent)
                r = ff.queue(at, cell, reqid=rid)
                reqs.append((r, ent))
            for r, ent in reqs:
                while r["status"] != "Done":
                    if r["status"] == "Exit" or softexit.triggered:
                        ent["state"] = "exit"
                        return
                    r._event_done.wait(timeout=1.0)
                res = r["result"]
                ent["state"] = "done"
                ent["t"] = k.now
                ent["res"] = (
                    float(res[0]),
                    np.array(res[1], copy=True),
                    np.array(res[2], copy=True),
                    dict(res[3]),
                )
                ent["exp"] = expect(ent["q"], ent["h"])
                ff.release(r)

    k.stage = "requests"
    if scn.get("stop_at") is not None:
        # the program is told to stop while requests are in flight
        def stopper():
            time.sleep(scn["stop_at"])
            world.closing = True
            k.t_stop0 = k.now
            softexit.cleanup(message="stop")

        th = threading.Thread(target=stopper, name="stopper", daemon=True)
        th.start()
    if scn.get("callers", 1) > 1:
        ths = [
            threading.Thread(target=caller, args=(c,), name="caller%d" % c)
            for c in range(scn["callers"])
        ]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    else:
        caller(0)
    k.leftover = len(ff.requests)
    k.stage = "stop"
    k.t_stop = k.now
    k.live_at_stop = [
        c.proc.name for c in world.clients if c.state == "running" and c.proc
    ]
    world.closing = True
    if softexit.triggered:
        # a soft exit runs the cleanup itself, from its own thread
        k.wait_until(lambda: not softexit.exiting, poll=0.05)
        ff.stop()
    else:
        # the end of a run goes through the soft exit procedures too
        softexit.cleanup(status="success", message="end")
    k.stage = "stopped"
    # grace for EXIT messages to travel
    k.sleep(2.0)
    k.stage = "end"


def healthy_conn(world, conn):
    for c in world.clients:
        if c.proc is not None and c.proc.name == conn and c.state in ("running", "finished") and not c.spec.get("faults"):
            return True
    return False


def cut_off(cl):
    return any(d["how"] in ("cut", "stall", "hang") for c in cl for d in c.spec.get("faults", []))


def same(ev, ent, f):
    x = wrap(ent["q"], ent["h"]) if f.get("pbc") else ent["q"]
    if f.get("active"):
        ids = np.array([[3 * a, 3 * a + 1, 3 * a + 2] for a in f["active"]]).flatten()
        x = x[ids]
    pos, h = ev[3], ev[1]
    return len(pos) == len(x) and np.allclose(pos, x, rtol=0, atol=1e-8) and np.allclose(h, ent["h"], rtol=0, atol=1e-12)


# ---------------------------------------------------------------------- oracles
def judge(k, scn, status, detail, world, rec):
    v = []
    f = scn["ff"]
    off = f.get("offset", 0.0)
    # attribution ------------------------------------------------------------
    used = {}
    for ent in rec:
        if ent["state"] != "done":
            continue
        pot, frc, vir, ext = ent["res"]
        x, idx = ent["exp"]
        n = None
        if "n" in ext:
            n = ext["n"]
        elif "raw" in ext and isinstance(ext["raw"], str) and ext["raw"].startswith("n="):
            n = int(ext["raw"].split()[0][2:])
        who = "request (caller %d, step %d, id %d)" % (
            ent["caller"],
            ent["step"],
            ent["id"],
        )
        if n is None:
            # clients that return no extras: find the evaluation by configuration
            cand = [
                i
                for i, e in enumerate(world.evals)
                if len(e[3]) == len(idx) and np.allclose(e[3], x[idx], rtol=0, atol=1e-8)
                and np.allclose(e[1], ent["h"], rtol=0, atol=1e-12)
            ]
            if not cand:
                v.append(("attribution", who + ": no client ever evaluated its configuration"))
                continue
            n = cand[-1]
            if ext:
                v.append(("attribution", who + ": extras appeared from nowhere: %r" % ext))
        elif not (isinstance(n, int) and 0 <= n < len(world.evals)):
            v.append(("attribution", who + ": corrupted extras"))
            continue
        cname, h, ih, pos, conn = world.evals[n]
        ent["eval"] = n
        ent["client"] = cname
        ent["conn"] = conn
        if len(pos) != len(idx) or not np.allclose(pos, x[idx], rtol=0, atol=1e-8):
            v.append(("attribution", who + ": forces computed for other positions"))
            continue
        if not np.allclose(h, ent["h"], rtol=0, atol=1e-12) or (
            ih is not None
            and not np.allclose(np.dot(ih, h), np.eye(3), rtol=0, atol=1e-8)
        ):
            v.append(("attribution", who + ": forces computed for another cell"))
            continue
        p0, f0, v0 = clients.pes(h, pos)
        full = np.zeros(len(x))
        full[idx] = f0
        tol = 1e-11 * max(1.0, abs(p0), abs(off))
        if abs(pot - (p0 - off)) > tol:
            v.append(
                (
                    "attribution",
                    who
                    + ": potential %r, expected %r minus the offset %r" % (pot, p0, off),
                )
            )
        elif frc.shape != full.shape or not np.allclose(frc, full, rtol=1e-12, atol=1e-14):
            v.append(("attribution", who + ": wrong forces"))
        elif vir.shape != (3, 3) or not np.allclose(vir, v0, rtol=1e-12, atol=1e-14):
            v.append(("attribution", who + ": wrong virial"))
        if n in used and "n" in ext:
            v.append(("attribution", who + ": one evaluation answered two requests"))
        used[n] = ent
        if ext and "n" in ext and (
            abs(ext["dipole"][0] - p0) > 1e-9 * max(1, abs(p0)) or "raw" not in ext
        ):
            v.append(("attribution", who + ": extras do not belong to the evaluation"))
    # liveness ---------------------------------------------------------------
    npend = sum(1 for e in rec if e["state"] == "queued")
    if scn.get("must_finish", True):
        if status in ("timeout", "livelock", "deadlock"):
            v.append(
                (
                    "liveness" if k.stage in ("start", "requests") else "shutdown",
                    "%s in stage %s after %.1f virtual seconds (%d of %d requests unanswered); %s%s"
                    % (
                        status,
                        k.stage,
                        k.now / 1e9,
                        npend,
                        len(rec),
                        detail[:200],
                        "; thread died: %s" % (k.thread_errors[0][:3],) if k.thread_errors else "",
                    ),
                )
            )
        elif status == "ended" and k.outcome and k.outcome[0] == "raised":
            v.append(("liveness", "main thread died: %s" % (k.outcome[1:],)))
        elif npend or any(e["state"] == "exit" for e in rec):
            v.append(("liveness", "requests abandoned"))
        elif len(rec) != scn.get("callers", 1) * scn["steps"] * scn["nbeads"]:
            v.append(("liveness", "caller thread died: %s" % (k.thread_errors,)))
        elif getattr(k, "leftover", 0):
            v.append(("liveness", "%d released requests still queued" % k.leftover))
    # protocol ---------------------------------------------------------------
    for p in world.proto:
        v.append(("protocol", "%s received %s" % p))
    if status in ("timeout", "livelock", "deadlock") and "cut" not in json.dumps(scn["clients"]):
        for c in world.clients:
            if c.state == "running" and c.expects is not None and k.now - c.expects > 30e9 and not c.spec.get("bad"):
                v.append(("protocol", "%s was left with an incomplete message" % c.proc.name))
    # each client evaluates one thing at a time for one owner; no evaluation of
    # something nobody asked for
    for i, (cname, h, ih, pos, conn) in enumerate(world.evals):
        ok = False
        for ent in rec:
            x = wrap(ent["q"], ent["h"]) if f.get("pbc") else ent["q"]
            if f.get("active"):
                ids = np.array(
                    [[3 * a, 3 * a + 1, 3 * a + 2] for a in f["active"]]
                ).flatten()
                x = x[ids]
            if len(pos) == len(x) and np.allclose(pos, x, rtol=0, atol=1e-8) and np.allclose(
                h, ent["h"], rtol=0, atol=1e-12
            ):
                ok = True
                break
        if not ok:
            v.append(("protocol", "%s was asked to evaluate a configuration nobody requested" % conn))
            break
    # lock matching ----------------------------------------------------------
    if f.get("matching") == "lock":
        owner = {}
        for ent in rec:
            if "conn" in ent:
                o = owner.setdefault(ent["id"], ent["conn"])
                if o != ent["conn"]:
                    if o in world.gone or not healthy_conn(world, o):
                        owner[ent["id"]] = ent["conn"]
                        continue
                    v.append(
                        (
                            "lock",
                            "replica %d served by %s and by %s" % (ent["id"], o, ent["conn"]),
                        )
                    )
        inv = {}
        for ent in rec:
            if "conn" in ent:
                inv.setdefault(ent["conn"], set()).add(ent["id"])
        for c, ids in inv.items():
            if len(ids) > 1:
                v.append(("lock", "client %s served replicas %s" % (c, sorted(ids))))
    # shutdown ---------------------------------------------------------------
    if status == "ended" and k.stage == "end":
        for c in getattr(k, "live_at_stop", []):
            if not world.exits.get(c):
                cl = [x for x in world.clients if x.proc and x.proc.name == c]
                if cut_off(cl) or c not in world.greeted or scn.get("must_stop") or (cl and cl[0].spec.get("max_evals")):
                    continue
                if cl and cl[0].state in ("running", "finished", "lost"):
                    v.append(("shutdown", "client %s never received EXIT" % c))
        if f["mode"] in ("unix", "shm") and k.fs.exists_any("/tmp/ipi_sim"):
            v.append(("shutdown", "socket file left behind"))
        if getattr(k, "shm", None):
            v.append(("shutdown", "shared memory left behind: %s" % sorted(k.shm)[:3]))
        for c in world.clients:
            if c.state == "running" and not cut_off([c]):
                v.append(("shutdown", "client %s is still connected after the end" % c.name))
        t0 = getattr(k, "t_stop0", None) or getattr(k, "t_stop", None)
        if t0 is not None and (k.now - t0) / 1e9 > 2.0 + scn.get("stop_bound", 12.0):
            v.append(("shutdown", "stopping took %.1f s" % ((k.now - t0) / 1e9 - 2.0)))
    # stop on request -----------------------------------------------------------
    if scn.get("must_stop"):
        fired = world.fired or scn.get("stop_at") is not None
        if fired and status == "ended":
            from ipi.utils.softexit import softexit

            if not softexit.triggered and (f.get("eod") or f.get("matching") == "lock") and npend:
                v.append(("shutdown", "a client left but no stop was requested"))
        if status in ("timeout", "livelock", "deadlock"):
            v.append(("shutdown", "%s in stage %s: the stop never completes; %s" % (status, k.stage, detail[:200])))
        elif status == "ended" and k.outcome and k.outcome[0] == "raised":
            v.append(("shutdown", "main thread died: %s" % (k.outcome[1:],)))
    # initialisation messages --------------------------------------------------
    pars = f.get("pars") or {}
    ids = {e["id"] for e in rec}
    for conn, rid, text, nev in world.inits:
        if rid not in ids:
            v.append(("protocol", "%s was initialised for the unknown replica %d" % (conn, rid)))
            break
        got = {}
        for tok in text.split(","):
            a, sep, b = tok.partition(":")
            if sep:
                got[a.strip()] = b.strip()
        want = {a: str(b) for a, b in pars.items()}
        if f.get("batch", 1) > 1:
            want["batch_size"] = str(f["batch"])
        if got != want:
            v.append(("protocol", "%s was initialised with %r instead of %r" % (conn, got, want)))
            break
        nxt = [e for e in world.evals[nev:] if e[4] == conn][:1]
        if nxt and f.get("batch", 1) == 1 and scn.get("once"):
            mine = [e for e in rec if e["id"] == rid]
            if not any(same(nxt[0], e, f) for e in mine):
                v.append(("protocol", "%s was initialised for replica %d and given another one" % (conn, rid)))
                break
    if scn.get("once") and status == "ended" and f.get("batch", 1) == 1 and not npend:
        if len(world.evals) != len(rec):
            v.append(("protocol", "%d requests caused %d evaluations although no client failed" % (len(rec), len(world.evals))))
    # healthy clients keep their connection -----------------------------------
    healthy = {c["name"] for c in scn["clients"] if not c.get("faults") and not c.get("bad") and not c.get("max_evals")}
    for name, conn, exc in world.lost:
        if name in healthy:
            v.append(("dropped", "the healthy client %s was cut off (%s)" % (conn, exc)))
            break
    # auto matching ---------------------------------------------------------------
    if scn.get("sticky") and status == "ended":
        last = {}
        for s in range(scn["steps"]):
            cur = {e["id"]: e.get("conn") for e in rec if e["step"] == s}
            inj = len(set(last.values())) == len(last) == scn["nbeads"] and None not in last.values()
            if inj and cur != last:
                d = [i for i in cur if cur[i] != last[i]]
                v.append(("match", "replica %d moved from %s to %s at step %d although its client was free" % (d[0], last[d[0]], cur[d[0]], s)))
                break
            last = cur
    return v
