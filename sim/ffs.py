"""Workload: forcefields that i-PI evaluates itself (in threads, in batches, as
committees, over rotated copies), fed by several systems through ForceBead objects.

The forcefield is built from its XML description; the expected result of every
request is computed here from explicit formulas."""

import random
import threading
import time

import numpy as np

from . import check as ck, runner
from .socklife import make_cfg, wrap
from .sockgen import sched

PES = "/verif/sim/simpes.py"


# ------------------------------------------------------------------- description
def xml(f):
    kind = f["kind"]
    tag = {"direct": "ffdirect", "lj": "fflj", "debye": "ffdebye", "dmd": "ffdmd", "committee": "ffcommittee", "rotations": "ffrotations"}[kind]
    s = "<%s name='%s' pbc='%s' threaded='%s'>" % (tag, f["name"], bool(f.get("pbc")), bool(f.get("threaded")))
    s += "<latency>%g</latency><offset>%r</offset>" % (f.get("latency", 1e-3), f.get("offset", 0.0))
    if kind == "direct":
        s += "<pes>custom</pes><pes_path>%s</pes_path>" % PES
        p = {"scale": f.get("scale", 1.0), "delay": f.get("delay", 0.0), "fail": f.get("fail", 0), "inv": f.get("inv", 0), "com": f.get("com", 0), "tag": f["name"]}
        s += "<parameters>{%s}</parameters>" % ", ".join("%s:%s" % kv for kv in p.items())
        if f.get("batch", 1) > 1:
            s += "<batch_size>%d</batch_size>" % f["batch"]
    elif kind == "lj":
        s += "<parameters>{eps:%r, sigma:%r}</parameters>" % (f["eps"], f["sigma"])
    elif kind == "debye":
        s += "<hessian shape='(%d,%d)'>[%s]</hessian>" % (len(f["xref"]), len(f["xref"]), ",".join(repr(x) for r in f["H"] for x in r))
        s += "<x_reference>[%s]</x_reference><v_reference>%r</v_reference>" % (",".join(map(repr, f["xref"])), f["vref"])
    elif kind == "dmd":
        s += "<dmd_coupling>[%s]</dmd_coupling><dmd_freq>%r</dmd_freq><dmd_dt>%r</dmd_dt><dmd_step>%d</dmd_step>" % (",".join(map(repr, f["coupling"])), f["freq"], f["dt"], f["step"])
    elif kind == "committee":
        s += "".join(xml(m) for m in f["members"])
        s += "<alpha>%r</alpha>" % f.get("alpha", 1.0)
        s += "<parse_json>%s</parse_json>" % bool(f.get("json"))
        if f.get("baseline"):
            s += "<baseline_name>%s</baseline_name><baseline_uncertainty>%r</baseline_uncertainty>" % (f["baseline"], f["sigma_b"])
        if f.get("thresh"):
            s += "<active_thresh>%r</active_thresh><active_output>active</active_output>" % f["thresh"]
    elif kind == "rotations":
        s += xml(f["inner"])
        s += "<grid_order>%d</grid_order><grid_mode>%s</grid_mode><inversion>%s</inversion><random>%s</random><prng><seed>%d</seed></prng>" % (
            f["order"],
            f["grid"],
            bool(f.get("inversion")),
            bool(f.get("random")),
            f.get("seed", 1),
        )
    return s + "</%s>" % tag


def build(f):
    from ipi.inputs import forcefields as inf
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    cls = {"direct": inf.InputFFDirect, "lj": inf.InputFFLennardJones, "debye": inf.InputFFDebye, "dmd": inf.InputFFdmd, "committee": inf.InputFFCommittee, "rotations": inf.InputFFRotations}[f["kind"]]
    inp = cls()
    inp.parse(xml_parse_string(xml(f)).fields[0][1])
    return inp.fetch()


# ------------------------------------------------------------------------ oracle
def rotations(f):
    from ipi.utils import mathtools

    g = mathtools.get_rotation_quadrature_lebedev if f["grid"] == "lebedev" else mathtools.get_rotation_quadrature_legendre
    out = []
    for R, w, _ in g(f["order"]):
        out.append((np.array(R), w))
        if f.get("inversion"):
            out.append((-np.array(R), w))
    return out


def nevals(f):
    """{name of an inner ffdirect: evaluations per request}"""
    if f["kind"] == "direct":
        return {f["name"]: 1}
    if f["kind"] == "committee":
        out = {}
        for m in f["members"]:
            out.update(nevals(m))
        return out
    if f["kind"] == "rotations":
        n = len(rotations(f))
        return {a: n * b for a, b in nevals(f["inner"]).items()}
    return {}


def expect(f, q, h):
    """Returns (pot, f, vir, extras to be found in the result)."""
    from . import simpes  # (imports i-PI)

    kind = f["kind"]
    off = f.get("offset", 0.0)
    x = wrap(q, h) if f.get("pbc") and kind in ("direct", "lj", "dmd") else np.asarray(q)
    ext = {}
    if kind == "direct":
        p, fr, v = simpes.surface(h, x, f.get("inv", 0))
        s = f.get("scale", 1.0)
        p, fr, v = s * p, s * fr.reshape(-1), s * v
        ext = {"dipole": [p, fr[0], 1.0]}
        if f.get("com"):
            m = simpes.committee(p, fr, v, f["com"])
            ext = {"committee_pot": [a[0] for a in m], "committee_force": [a[1] for a in m], "committee_virial": [a[2].reshape(-1) for a in m]}
    elif kind == "lj":
        y = x.reshape(-1, 3)
        p, fr = 0.0, np.zeros(y.shape)
        for i in range(len(y)):
            for j in range(i):
                d = y[i] - y[j]
                r2 = float(np.dot(d, d))
                x6 = (f["sigma"] ** 2 / r2) ** 3
                p += 4 * f["eps"] * (x6 * x6 - x6)
                g = 24 * f["eps"] * (2 * x6 * x6 - x6) / r2 * d
                fr[i] += g
                fr[j] -= g
        fr, v = fr.reshape(-1), np.zeros((3, 3))
    elif kind == "debye":
        d = x - np.array(f["xref"])
        g = np.dot(np.array(f["H"]), d)
        p, fr, v = f["vref"] + 0.5 * float(np.dot(d, g)), -g, np.zeros((3, 3))
    elif kind == "dmd":
        y = x.reshape(-1, 3)
        per = np.sin(f["step"] * f["freq"] * f["dt"])
        p, fr, v = 0.0, np.zeros(y.shape), np.zeros((3, 3))
        n = 0
        for i in range(len(y)):
            for j in range(i):
                s = np.dot(np.linalg.inv(h), y[i] - y[j])
                d = np.dot(h, s - np.round(s))
                r = float(np.sqrt(np.dot(d, d)))
                c = f["coupling"][n]
                n += 1
                p += c * r * per
                g = -c * per * d / r
                fr[i] += g
                fr[j] -= g
                v += np.outer(g, d)
        fr = fr.reshape(-1)
    elif kind == "committee":
        res = [(m["name"],) + expect(m, q, h) for m in f["members"]]
        base = [r for r in res if r[0] == f.get("baseline")]
        mem = []
        for r in res:
            if r[0] == f.get("baseline"):
                continue
            if f.get("json") and "committee_pot" in r[4]:
                mem += [(r[4]["committee_pot"][i], np.asarray(r[4]["committee_force"][i]), np.asarray(r[4]["committee_virial"][i]).reshape(3, 3)) for i in range(len(r[4]["committee_pot"]))]
            else:
                mem.append(r[1:4])
        P = np.array([m[0] for m in mem])
        F = np.array([m[1] for m in mem])
        V = np.array([m[2] for m in mem])
        a = f.get("alpha", 1.0)
        p, fr, v = P.mean(), F.mean(axis=0), V.mean(axis=0)
        Pr = p + a * (P - p)
        var = Pr.var(ddof=1) if len(P) > 1 else 0.0
        ext = {"committee_pot": Pr, "committee_uncertainty": np.sqrt(var), "committee_force": fr + a * (F - fr), "committee_virial": (v + a * (V - v)).reshape(len(P), -1)}
        if base:
            b = base[0]
            s2 = f["sigma_b"] ** 2
            uf = a * a * sum((P[i] - p) * (F[i] - fr) for i in range(len(P))) / (len(P) - 1)
            uv = a * a * sum((P[i] - p) * (V[i] - v) for i in range(len(P))) / (len(P) - 1)
            m = s2 / (s2 + var)
            fr = b[2] + m * fr - 2 * p * s2 / (s2 + var) ** 2 * uf
            v = b[3] + m * v - 2 * p * s2 / (s2 + var) ** 2 * uv
            p = b[1] + m * p
            ext["wb_mixing"] = [m]
            ext["baseline_pot"] = [b[1]]
    elif kind == "rotations":
        W = p = 0.0
        fr, v = np.zeros(len(q)), np.zeros((3, 3))
        pots = []
        for R, w in rotations(f):
            rp, rf, rv, _ = expect(f["inner"], (x.reshape(-1, 3) @ R.T).reshape(-1), R @ h)
            W += w
            p += w * rp
            fr += w * (rf.reshape(-1, 3) @ R).reshape(-1)
            v += w * (R.T @ rv @ R)
            pots.append(rp)
        p, fr, v = p / W, fr / W, v / W
        ext = {"o3grid_pots": pots}
    return p - off, fr, v, ext


def close(a, b, rt=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= rt * (1.0 + np.abs(b).max(initial=0.0))))


# ---------------------------------------------------------------------- workload
class Outputs:
    """Stands in for the output maker (files for active learning)."""

    def __init__(self):
        self.lines = []

    def get_output(self, name, mode):
        return self

    def write(self, s):
        self.lines.append(s)


def subs(ff):
    out = [ff]
    for a in getattr(ff, "fflist", []) or []:
        out += subs(a)
    if hasattr(ff, "ff"):
        out += subs(ff.ff)
    return out


def entry(k, scn):
    from ipi.engine.beads import Beads
    from ipi.engine.cell import Cell
    from ipi.engine.forces import Forces, ForceComponent
    from ipi.utils.depend import dstrip
    from ipi.utils.messages import verbosity
    from ipi.utils.softexit import softexit

    verbosity.level = "quiet"
    f = scn["ff"]
    k.pes_calls = []
    rec = []
    k.stage = "start"
    k.om = Outputs()
    k.leftover = None

    def done(status, detail):
        return {
            "verdict": judge(k, scn, status, detail, rec),
            "trace": ["%d %.6f %s" % (e[0], e[1] / 1e9, e[2:]) for e in k.events[-120:]],
            "answered": sum(1 for e in rec if e["state"] == "done"),
        }

    k.on_finish = done
    ff = build(f)
    ff.bind(k.om)
    ff.start()
    softexit.start(0.0)
    rng = random.Random("cfg-%s" % scn.get("cfgseed", 0))
    natoms = scn["natoms"]
    plan = [[[make_cfg(rng, natoms) for b in range(scn["nbeads"])] for s in range(scn["steps"])] for c in range(scn["callers"])]

    def caller(c):
        nb = scn["nbeads"]
        beads, cell, frc = Beads(natoms, nb), Cell(np.eye(3)), Forces()
        frc.bind(beads, cell, [ForceComponent("ff", nbeads=0, weight=1.0, mts_weights=np.array([1.0]), interpolate_extras=[])], {"ff": ff}, [], k.om)
        prng = random.Random("read-%s-%d" % (scn.get("cfgseed", 0), c))
        for s, todo in enumerate(plan[c]):
            if scn.get("gap"):
                time.sleep(scn["gap"] * ((s + c) % 3))
            h = todo[0][1]
            beads.q[:] = np.array([q for q, _ in todo])
            cell.h = h.copy()
            ents = [{"caller": c, "step": s, "id": b, "q": q, "h": h, "state": "queued", "res": []} for b, (q, _) in enumerate(todo)]
            rec.extend(ents)
            orders = [prng.sample(["pot", "f", "vir", "extra"], 4) for _ in range(1 + scn.get("readers", 0))]
            errs = []

            def read(order):
                try:
                    got = {}
                    for what in order:
                        if what == "pot":
                            got["pot"] = dstrip(frc.pots).copy()
                        elif what == "f":
                            got["f"] = dstrip(frc.f).copy()
                        elif what == "vir":
                            got["vir"] = dstrip(frc.virs).copy()
                        else:
                            got["extra"] = {a: list(x) for a, x in frc.extras.items()}
                    for b, ent in enumerate(ents):
                        ent["res"].append((float(got["pot"][b]), got["f"][b], got["vir"][b], {a: x[b] for a, x in got["extra"].items() if len(x) == nb}))
                except BaseException as e:
                    errs.append(e)

            # the outputs of a step may be computed by several threads at once
            ths = [threading.Thread(target=read, args=(o,), name="output%d" % i) for i, o in enumerate(orders if len(orders) > 1 else [])]
            for t in ths:
                t.start()
            if not ths:
                read(orders[0])
            for t in ths:
                t.join()
            if errs:
                raise errs[0]
            for ent in ents:
                ent["state"] = "done"
                ent["t"] = k.now

    k.stage = "requests"
    if scn.get("stop_at") is not None:
        def stopper():
            time.sleep(scn["stop_at"])
            k.t_stop = k.now
            k.count("stop_requested")
            softexit.cleanup(message="stop")

        threading.Thread(target=stopper, name="stopper", daemon=True).start()
    try:
        if scn["callers"] > 1:
            errs = []

            def guarded(c):
                try:
                    caller(c)
                except SystemExit:
                    pass
                except Exception as e:
                    errs.append(e)

            ths = [threading.Thread(target=guarded, args=(c,), name="system%d" % c) for c in range(scn["callers"])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if errs:
                raise errs[0]
        else:
            caller(0)
    except SystemExit:
        k.exited = True
    except Exception as e:
        # as the program would: the exception ends the run
        k.raised = "%s: %s" % (type(e).__name__, e)
        softexit.cleanup(status="bad", message="error")
    k.stage = "stop"
    if not softexit.triggered:
        k.sleep(0.5)
        k.leftover = sum(len(x.requests) for x in subs(ff))
        softexit.cleanup(status="success", message="end")
    else:
        k.wait_until(lambda: not softexit.exiting, poll=0.05)
    k.sleep(1.0)
    # a polling thread may finish the evaluations it has already picked up
    def running():
        return [x for x in subs(ff) if x._thread is not None and x._thread.is_alive()]

    k.wait_until(lambda: not running(), poll=0.05, timeout=backlog(scn))
    k.alive = [x.name for x in subs(ff) if x._thread is not None and x._thread.is_alive()]
    k.soft = softexit.triggered
    k.stage = "end"


def backlog(scn):
    """Virtual seconds that the evaluations of all requests of one step can take."""
    f = scn["ff"]
    d = max([x.get("delay", 0) for x in [f] + f.get("members", []) + ([f["inner"]] if "inner" in f else [])])
    return 1.2 * d * sum(nevals(f).values()) * scn["nbeads"] * scn["callers"]


def judge(k, scn, status, detail, rec):
    v = []
    f = scn["ff"]
    for ent in rec:
        if ent["state"] != "done":
            continue
        P, F, V, X = expect(f, ent["q"], ent["h"])
        V = np.triu(V)
        for who, (p, fr, vir, ext) in enumerate(ent["res"]):
            who = "request (system %d, step %d, replica %d%s)" % (ent["caller"], ent["step"], ent["id"], ", output %d" % who if who else "")
            if not close(p, P):
                v.append(("attribution", "%s: potential %r instead of %r" % (who, p, float(P))))
            elif not close(fr, F):
                v.append(("attribution", "%s: wrong forces" % who))
            elif not close(vir, V):
                v.append(("attribution", "%s: wrong virial" % who))
            else:
                for a, b in X.items():
                    if a not in ext:
                        v.append(("attribution", "%s: %s is missing from the extras" % (who, a)))
                    elif a == "dipole" or f["kind"] != "direct":
                        try:
                            ok = close(ext[a], b)
                        except (TypeError, ValueError):
                            ok = False
                        if not ok:
                            v.append(("attribution", "%s: %s in the extras belongs to something else" % (who, a)))
        if len(v) > 5:
            return v
    total = scn["callers"] * scn["steps"] * scn["nbeads"]
    ndone = sum(1 for e in rec if e["state"] == "done")
    stopped = scn.get("stop_at") is not None
    failed = hasattr(k, "t_fail")
    stuck = status in ("timeout", "livelock", "deadlock")
    if stuck:
        v.append(
            (
                "liveness" if not failed else "failure",
                "%s in stage %s after %.1f virtual seconds (%d of %d requests answered); %s%s"
                % (status, k.stage, k.now / 1e9, ndone, total, detail[:200], "; thread died: %s" % (k.thread_errors[0][:3],) if k.thread_errors else ""),
            )
        )
    elif k.outcome and k.outcome[0] == "raised":
        v.append(("liveness", "the main thread died: %s" % (k.outcome[1:3],)))
    elif failed:
        bad = [e for e in rec if e["state"] == "done" and e.get("t", 0) > k.t_fail + scn.get("fail_bound", 5.0) * 1e9]
        if ndone == total:
            v.append(("failure", "an evaluation failed and the run carried on to its end"))
        elif bad:
            v.append(("failure", "the run was still going %.1f s after an evaluation failed" % ((bad[-1]["t"] - k.t_fail) / 1e9)))
    elif not stopped:
        if getattr(k, "raised", None):
            v.append(("liveness", "the requests end with %s" % k.raised))
        elif ndone != total:
            v.append(("liveness", "%d of %d requests were abandoned" % (total - ndone, total)))
        elif k.leftover:
            v.append(("liveness", "%d released requests are still queued" % k.leftover))
        else:
            for name, n in nevals(f).items():
                got = sum(1 for c in k.pes_calls if c[0] == name)
                if got != n * total:
                    v.append(("once", "%s evaluated %d structures for %d requests (%d each)" % (name, got, total, n)))
    if status == "ended" and k.stage == "end":
        if k.alive:
            v.append(("shutdown", "polling threads still run after the end: %s" % k.alive))
    return v


# --------------------------------------------------------------------- scenarios
def direct(rng, name, batch=None):
    f = {
        "kind": "direct",
        "name": name,
        "scale": rng.choice([1.0, 0.3, -2.0]),
        "delay": rng.choice([0, 0, 1e-4, 1e-3, 0.02]),
        "threaded": rng.random() < 0.7,
    }
    return common(rng, f)


def common(rng, f):
    f["pbc"] = rng.random() < 0.3
    f["offset"] = rng.choice([0.0, 1.5, -20.25])
    f["latency"] = rng.choice([1e-4, 1e-3, 1e-2])
    return f


def simple(rng, name, natoms, kinds=("direct", "lj", "debye", "dmd")):
    kind = rng.choice(kinds)
    if kind == "direct":
        return direct(rng, name)
    f = common(rng, {"kind": kind, "name": name, "threaded": rng.random() < 0.7})
    if kind == "lj":
        f["pbc"] = False
        f.update(eps=rng.choice([1e-3, 0.1]), sigma=rng.choice([1.0, 2.0]))
    elif kind == "debye":
        n = 3 * natoms
        f["pbc"] = False
        r = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        f.update(H=(0.01 * (r + r.T)).tolist(), xref=[rng.uniform(-1, 1) for _ in range(n)], vref=rng.choice([0.0, 3.5]))
    else:
        f.update(coupling=[rng.uniform(0.1, 1.0) for _ in range(natoms * (natoms - 1) // 2)], freq=0.01, dt=10.0, step=rng.randrange(1, 9))
    return f


def base(rng):
    return {
        "natoms": rng.randint(2, 4),
        "nbeads": rng.choice([1, 2, 3, 4]),
        "steps": rng.choice([1, 2, 4]),
        "callers": rng.choice([1, 1, 2, 3]),
        "gap": rng.choice([0, 0, 1e-3, 0.02]),
        "readers": rng.choice([0, 0, 1, 2]),
        "cfgseed": rng.randrange(1 << 30),
        "sched": sched(rng),
        "max_time": 120.0,
        "max_switches": 400_000,
    }


def gen_single(rng, i):
    scn = base(rng)
    scn["ff"] = simple(rng, "ff", scn["natoms"])
    return scn


def gen_batch(rng, i):
    scn = base(rng)
    f = scn["ff"] = direct(rng, "ff")
    f["batch"] = rng.choice([2, 3, 4, 7])
    if not f["threaded"]:
        # as the manual asks, the number of evaluations is a multiple of the batch
        scn["nbeads"] = f["batch"] * rng.choice([1, 2])
    return scn


def gen_committee(rng, i):
    scn = base(rng)
    n = scn["natoms"]
    m = [simple(rng, "m%d" % j, n, ("direct", "direct", "lj", "debye")) for j in range(rng.choice([2, 3, 4]))]
    f = scn["ff"] = common(rng, {"kind": "committee", "name": "ff", "members": m, "alpha": rng.choice([1.0, 0.5, 2.0]), "threaded": True})
    for x in m:
        if x["kind"] == "direct" and x["threaded"] and rng.random() < 0.3:
            x["batch"] = rng.choice([2, 3])
    if rng.random() < 0.3 and len(m) > 2:
        f["baseline"] = rng.choice(m)["name"]
        f["sigma_b"] = rng.choice([0.1, 1.0])
    if rng.random() < 0.25:
        f["json"] = True
        d = direct(rng, "mj")
        d["com"] = 3
        f["members"] = [d] if not f.get("baseline") else [d] + [x for x in m if x["name"] == f["baseline"]]
    elif rng.random() < 0.4:
        # members that work in threads of their own, and a committee that is eager
        f["latency"] = 1e-6
        for x in m:
            if x["kind"] != "direct":
                x["threaded"] = True
        scn["sched"]["gap"] = rng.choice([4, 8, 15])
        scn["sched"]["choice"] = "rand"
    return scn


def gen_rotations(rng, i):
    scn = base(rng)
    scn["steps"] = min(scn["steps"], 2)
    scn["nbeads"] = min(scn["nbeads"], 2)
    d = direct(rng, "in")
    d["delay"] = min(d["delay"], 1e-3)
    if rng.random() < 0.4 and d["threaded"]:
        d["batch"] = rng.choice([2, 4])
    f = scn["ff"] = common(rng, {"kind": "rotations", "name": "ff", "inner": d, "threaded": True, "inversion": rng.random() < 0.4})
    f["pbc"] = False
    f["grid"], f["order"] = rng.choice([("legendre", 1), ("legendre", 1), ("legendre", 2), ("lebedev", 3)])
    if rng.random() < 0.4:
        f["random"] = True
        f["seed"] = rng.randrange(1, 10000)
        d["inv"] = 1
        d["pbc"] = False
    return scn


def gen_stop(rng, i):
    scn = rng.choice([gen_single, gen_batch, gen_committee, gen_rotations])(rng, i)
    scn["stop_at"] = rng.choice([0.0, 1e-4, 1e-3, 0.01, 0.03, 0.1])
    for m in [scn["ff"]] + scn["ff"].get("members", []) + ([scn["ff"]["inner"]] if "inner" in scn["ff"] else []):
        if m["kind"] == "direct" and rng.random() < 0.5:
            m["delay"] = 0.02
    return scn


def gen_fail(rng, i):
    scn = rng.choice([gen_single, gen_batch, gen_committee, gen_rotations])(rng, i)
    d = [scn["ff"]] + scn["ff"].get("members", []) + ([scn["ff"]["inner"]] if "inner" in scn["ff"] else [])
    d = [x for x in d if x["kind"] == "direct"]
    if not d:
        return gen_fail(rng, i)
    x = rng.choice(d)
    x["fail"] = rng.choice([1, 1, 2, 3, 5])
    return scn


REDUCERS = [
    ck.lower(["callers"]),
    ck.lower(["steps"]),
    ck.lower(["nbeads"]),
    ck.setval(["gap"], 0),
    ck.setval(["readers"], 0),
    ck.setval(["sched", "choice"], "fifo"),
    ck.setval(["sched", "gap"], 0),
    ck.setval(["ff", "offset"], 0.0),
    ck.setval(["ff", "delay"], 0),
    ck.setval(["ff", "pbc"], False),
    ck.setval(["ff", "inversion"], False),
]


def runner_for(classes):
    def run(scn):
        r = runner.run_life(entry, scn, wall=scn.get("_wall", 120))
        if r["status"] == "harness":
            return {"viol": [], "harness": r["detail"], "stats": {}}
        st = r["stats"]
        return {
            "viol": [v for v in r["verdict"] if v[0] in classes],
            "harness": None,
            "stats": st,
            "key": (st["shash"], st["ticks"], r["status"]),
            "nontrivial": st["switches"] > 10 and r.get("answered", 1) > 0,
            "preempt_log": r["preempt_log"],
            "sample": {"status": r["status"], "virtual_s": st["now"] / 1e9, "switches": st["switches"], "counters": st["counters"]},
            "trace": r.get("trace", []),
        }

    return run
