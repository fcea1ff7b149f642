"""Workload: replica exchange.  Every exchange step of the real code is compared with a
small model of the method, and the records of whole histories with each other."""

import math
import re

from . import fullrun, ipigen, lives, oracle
from .fullprops import outcfg, result, sched

KB, MPA = 3.1668116e-06, 3.398827377e-8
MOTIONS = {
    "nve": (1, ipigen.dyn("nve")),
    "langevin": (1, ipigen.dyn("nvt", "langevin")),
    "svr": (1, ipigen.dyn("nvt", "svr")),
    "gle": (1, ipigen.dyn("nvt", "gle")),
    "pile": (2, ipigen.dyn("nvt", "pile_l", 2)),
    "pile4": (4, ipigen.dyn("nvt", "pile_g", 4)),
    "iso": (1, ipigen.dyn("npt", "langevin", bar="isotropic", dt=0.25)),
    "iso2": (2, ipigen.dyn("npt", "pile_l", 2, bar="isotropic", dt=0.25)),
    "flex": (1, ipigen.dyn("npt", "langevin", bar="flexible", dt=0.25)),
    "nst": (1, ipigen.dyn("nst", "langevin", bar="anisotropic", dt=0.25)),
}
DET = ("nve",)
PROPS = "step, conserved, potential, ensemble_temperature{kelvin}, ensemble_pressure{megapascal}, volume"


def table(scn):
    """(T, P, weight of the bias, weights of the Hamiltonian) of each ensemble"""
    return scn["ens"]


def files(scn, total):
    m = scn["motion"]
    nb, motion = MOTIONS[m]
    x = "<simulation verbosity='low'%s>" % (" threading='%s'" % scn["threads"] if scn.get("threads") is not None else "")
    props = PROPS
    forces = "<force forcefield='ff'/>"
    if scn["ham"]:
        forces += "<force forcefield='fg'/>"
        props += ", hweights_component(0), hweights_component(1)"
    if scn["bias"]:
        props += ", bweights_component(0)"
    o = scn["out"]
    out = "<properties stride='%d' flush='%d' filename='out'> [ %s ] </properties>" % (o["ps"], o["pf"], props)
    out += "<trajectory stride='%d' flush='%d' filename='t0' format='xyz'> x_centroid </trajectory>" % (o["ts"], o["tf"])
    if o.get("cs"):
        out += "<checkpoint stride='%d' filename='chk' overwrite='%s'/>" % (o["cs"], o.get("over", True))
    x += "<output prefix='sim'>%s</output><total_steps>%d</total_steps><prng><seed>%d</seed></prng>" % (out, total, scn["prng"])
    for f in ("ff", "fg"):
        x += ipigen.ffxml(f, **scn["ff"][f])
    for i, (t, p, w, h) in enumerate(scn["ens"]):
        e = ""
        if scn["bias"]:
            e += "<bias><force forcefield='fg'/></bias><bias_weights>[%g]</bias_weights>" % w
        if scn["ham"]:
            e += "<hamiltonian_weights>[%g,%g]</hamiltonian_weights>" % tuple(h)
        st = "[%g,%g,0,%g,%g,0,0,0,%g]" % (p, 0.1 * p, 0.1 * p, 2 * p, 3 * p) if m == "nst" else None
        mo = motion
        if m == "nst":
            mo = re.sub(r"<h0 [^>]*>[^<]*</h0>", "<h0 units='angstrom'>[%g,0.1,0,0,%g,0,0,0,5]</h0>" % (5 + 0.1 * i, 5.1 - 0.05 * i), mo)
            assert mo != motion
        x += ipigen.sysxml(mo, nb, T=t, P=None if st else p, forces=forces, prefix="s%d" % i, ens=e, stress=st)
    x += "<smotion mode='remd'><remd><stride>%g</stride><krescale>%s</krescale></remd></smotion></simulation>" % (scn["stride"], scn["krescale"])
    return {"input.xml": x, "init.xyz": ipigen.initxyz("HO", "5.0 5.0 5.0 90 90 90")}


def gen(fam):
    def g(rng, i):
        m = rng.choice(sorted(MOTIONS))
        n = rng.choice([2, 3, 3, 4])
        bias, ham = rng.random() < 0.3, rng.random() < 0.3
        kinds = [k for k in ("T", "P", "w", "h") if (k == "T" and rng.random() < 0.8) or (k == "P" and m in ("iso", "iso2", "flex", "nst")) or (k == "w" and bias) or (k == "h" and ham)]
        ens = []
        for s in range(n):
            ens.append([
                round(rng.uniform(150, 500), 2) if "T" in kinds else 300.0,
                round(rng.uniform(1, 4000), 2) if "P" in kinds else 10.0,
                round(rng.uniform(0, 1.5), 3) if "w" in kinds else 0.5,
                [round(rng.uniform(0.5, 1.5), 3), round(rng.uniform(0, 1.5), 3)] if "h" in kinds else [1.0, 1.0],
            ])
        if rng.random() < 0.15:
            ens[1] = ens[0]
        scn = {
            "motion": m, "ens": ens, "bias": bias, "ham": ham, "stride": rng.choice([0.5, 1, 1, 1, 2, 3]), "krescale": rng.random() < 0.7, "prng": rng.randrange(1, 1 << 20),
            "steps": rng.choice([3, 5, 7]), "out": outcfg(rng), "lives": [], "fam": fam, "threads": rng.choice([None, True, True, False]),
        }
        slow = rng.choice([0, 0, 0.05])
        scn["ff"] = {f: {"kind": "direct", "threaded": rng.random() < 0.5, "latency": rng.choice([1e-3, 1e-2]), "delay": slow} for f in ("ff", "fg")}
        if fam == "whole":
            scn["sort"] = rng.random() < 0.4
        else:
            if m not in DET:
                scn["threads"] = False  # (what is done again must be the same again)
            if fam == "kill":
                scn["out"].update(cs=rng.choice([1, 1, 2]), over=True, pf=1, tf=1)
            for _ in range(rng.choice([1, 1, 2, 3])):
                w = rng.choice(["kill"] if fam == "kill" else ["sigint", "sigterm", "exitfile"])
                scn["lives"].append({"sched": sched(rng), "events": [{"what": w, "frac": round(rng.uniform(0.15, 1.0), 4)}]})
        scn["sched"] = sched(rng)
        return scn

    return g


# ----------------------------------------------------------------------- the model
def snap(s):
    import numpy as np

    e = s.ensemble
    d = {
        "T": float(e.temp), "P": float(e.pext), "S": np.array(e.stressext), "w": np.array(e.bweights), "h": np.array(e.hweights),
        "p": np.array(s.beads.p), "q": np.array(s.beads.q), "cell": np.array(s.cell.h), "m3": np.array(s.beads.m3),
        "econs": float(e.econs), "time": float(e.time),
        "V": [float(f.pot) for f in s.forces.mforces], "B": [float(f.pot) for f in e.bias.mforces[: len(e.bweights)]],
    }
    b = getattr(s.motion, "barostat", None)
    if type(b).__name__ != "Barostat" and b is not None and hasattr(b, "p"):
        d["bp"] = np.array(b.p)
        d["bkin"] = float(b.kin)
    if b is not None and hasattr(b, "h0"):
        d["h0"] = np.array(b.h0.h)
    return d


def ensemble_of(d):
    def c(x):
        return tuple(-9e9 if y != y else float(y) for y in x)  # (nan: not given)

    return (d["T"], c([d["P"]])[0], c(d["S"].ravel()), c(d["w"]), c(d["h"]))


def energy(d, ens, krescale):
    """Minus the logarithm of the weight of configuration d in the given ensemble (terms
    that cannot change are left out)."""
    import numpy as np

    T, P, _, w, h = ens
    nb = len(d["q"])
    e = sum(hh * v for hh, v in zip(h, d["V"])) + sum(ww * b for ww, b in zip(w, d["B"]))
    kt = KB_CODE[0] * T
    if nb > 1:
        om = kt * nb / HBAR[0]
        dq = d["q"] - np.roll(d["q"], 1, axis=0)
        e += 0.5 * om * om * float(np.sum(d["m3"] * dq * dq))
    if not krescale:
        e += 0.5 * float(np.sum(d["p"] ** 2 / d["m3"]))
        if "bkin" in d:
            e += d["bkin"] * d["T"] / T
    if "bp" in d:
        e += P * float(np.linalg.det(d["cell"])) * nb
    return e / (kt * nb)


KB_CODE, HBAR = [1.0], [1.0]


def near(a, b, rt=1e-9, at=1e-14):
    import numpy as np

    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= rt * (np.abs(a) + np.abs(b)) + at))


def model(self, before, state):
    """What the method does to the assignment of the ensembles, or None when two numbers
    are too close to call."""
    import numpy as np

    g = np.random.Generator(np.random.MT19937(0))
    g.bit_generator.state = state
    n = len(before)
    ens = [ensemble_of(d) for d in before]
    own = list(range(n))
    cur = [dict(d) for d in before]
    tried = acc = 0
    for i in range(n):
        for j in range(i):
            u = g.uniform()
            if 1.0 / self.stride < u:
                continue
            tried += 1
            k = self.rescalekin
            x = energy(cur[i], ens[i], k) + energy(cur[j], ens[j], k) - energy(cur[i], ens[j], k) - energy(cur[j], ens[i], k)
            u = g.uniform()
            pxc = math.exp(min(x, 50.0))
            if abs(pxc - u) < 1e-6 * (pxc + u):
                return None
            if pxc > u:
                acc += 1
                ens[i], ens[j] = ens[j], ens[i]
                own[i], own[j] = own[j], own[i]
                for s in (i, j):
                    # (barostat masses depend on the temperature)
                    if "bkin" in cur[s] and not k:
                        cur[s]["bkin"] *= cur[s]["T"] / ens[s][0]
                    cur[s]["T"] = ens[s][0]
    return own, tried, acc


def judge_step(self, step, before, after, index, rec):
    v = rec["viol"]

    def bad(t):
        if len(v) < 3:
            v.append("exchange step %s: %s" % (step, t))

    n = len(before)
    e0, e1 = [ensemble_of(d) for d in before], [ensemble_of(d) for d in after]
    if sorted(e0) != sorted(e1):
        bad("the ensembles before %s and after %s are not the same ones" % (e0, e1))
        return
    new = [int(x) for x in self.repindex]
    if sorted(new) != list(range(n)):
        bad("the list of the replicas is %s" % new)
        return
    own = [index.index(x) for x in new]  # the system that had the ensemble before
    for s in range(n):
        if e1[s] != e0[own[s]]:
            bad("system %d is said to have the ensemble that was in system %d, but has %s instead of %s" % (s, own[s], e1[s][:2], e0[own[s]][:2]))
    for s in range(n):
        a, b = before[s], after[s]
        f = b["T"] / a["T"]
        sc = float(abs(a["p"]).max())
        for what, x, y in (
            ("positions", a["q"], b["q"]), ("cell", a["cell"], b["cell"]), ("time", a["time"], b["time"]),
        ):
            if not near(x, y, 1e-13, 1e-13):
                bad("the %s of system %d change" % (what, s))
        want = a["p"] * math.sqrt(f) if self.rescalekin else a["p"]
        if not near(want, b["p"], 1e-9, 1e-12 * sc):
            bad("the momenta of system %d are not the ones of before%s" % (s, " times sqrt(%g/%g)" % (b["T"], a["T"]) if self.rescalekin else ""))
        if "bp" in a:
            want = a["bp"] * f if self.rescalekin else a["bp"]
            if not near(want, b["bp"], 1e-9, 1e-12 * float(abs(a["bp"]).max())):
                bad("the momentum of the barostat of system %d is not the one of before%s" % (s, " times %g/%g" % (b["T"], a["T"]) if self.rescalekin else ""))
        if "h0" in a and not near(before[own[s]]["h0"], b["h0"], 1e-12, 1e-12):
            bad("the reference cell of system %d is not the one of its ensemble" % s)
        if not near(a["econs"], b["econs"], 1e-9, 1e-9):
            bad("the conserved quantity of system %d goes from %.12g to %.12g" % (s, a["econs"], b["econs"]))
    if rec["state"] is None:
        return
    m = model(self, before, rec["state"]) if not any("h0" in d for d in before) else None
    if m is not None:
        rec["tried"] += m[1]
        rec["accepted"] += m[2]
        if m[0] != own:
            bad("ensembles go to systems %s, where the acceptance rule gives %s" % (own, m[0]))


def entry(k, scn):
    from ipi.engine.smotion.remd import ReplicaExchange
    from ipi.utils.units import Constants

    KB_CODE[0], HBAR[0] = float(Constants.kb), float(Constants.hbar)
    orig = ReplicaExchange.step
    rec = {"viol": [], "tried": 0, "accepted": 0, "steps": 0, "state": None, "rows": {}}

    def step(self, step=None):
        if scn.get("stride", 1) <= 0:
            return orig(self, step)
        before = [snap(s) for s in self.syslist]
        index = [int(x) for x in self.repindex]
        try:
            st = self.prng.state[0]
            rec["state"] = st if st.get("bit_generator") == "MT19937" else None
        except Exception:
            rec["state"] = None
        out = orig(self, step)
        after = [snap(s) for s in self.syslist]
        rec["steps"] += 1
        judge_step(self, step, before, after, index, rec)
        rec["rows"][int(step)] = ([int(x) for x in self.repindex], [int(x) for x in self.repindex] != index)
        k.marks["rx"] = {a: rec[a] for a in ("viol", "tried", "accepted", "steps", "rows")}
        return out

    ReplicaExchange.step = step
    try:
        fullrun.entry(k, scn)
    finally:
        ReplicaExchange.step = orig


def life(scn, image=None):
    from . import runner

    return runner.run_life(entry, scn, image=image, wall=scn.get("_wall", 120))


# ----------------------------------------------------------------------- histories
def index_rows(data, n, viol):
    """step -> list; the last complete line for a step counts"""
    rows = {}
    for l in data.decode("utf-8", "replace").split("\n"):
        t = l.split()
        if not t or t[0].startswith("#"):
            continue
        try:
            t = [int(x) for x in t]
        except ValueError:
            viol.append(("index", "a line of the index file is %r" % l))
            return None
        if len(t) != n + 1 or sorted(t[1:]) != list(range(n)):
            viol.append(("index", "a line of the index file is not a permutation: %r" % l))
            return None
        if t[0] in rows and rows[t[0]] != t[1:]:
            viol.append(("index", "the index file has two different lines for step %d: %s and %s" % (t[0], rows[t[0]], t[1:])))
            return None
        rows[t[0]] = t[1:]
    return rows


def at_step(rows, t, n):
    """who has which ensemble when the records of step t are written"""
    cur = list(range(n))
    for s in sorted(rows):
        if s < t:
            cur = rows[s]
    return cur


def judge_files(scn, got, viol, upto=None):
    n = len(scn["ens"])
    name = [f for f in got if f.startswith("sim.") and "remd" in f.lower()]
    name = name[0] if name else "sim.remd_idx"
    rows = index_rows(got.get(name, b""), n, viol)
    if rows is None:
        return
    # (a kill may come after the exchange, before its line)
    for i in range(n):
        f = "s%d_sim.out" % i
        if f not in got:
            continue
        _, rr = oracle.props(got[f], f)
        for t, v in rr:
            if upto is not None and t > upto:
                continue
            e = scn["ens"][at_step(rows, t, n)[i]]
            want = [e[0], -1 if scn["motion"] == "nst" else e[1]]
            have = list(v[3:5])
            if scn["motion"] == "nst":
                want, have = want[:1], have[:1]
            k = 6
            if scn["ham"]:
                want += list(e[3])
                have += list(v[k : k + 2])
                k += 2
            if scn["bias"]:
                want.append(e[2])
                have.append(v[k])
            if not near(want, have, 1e-6, 1e-6):
                viol.append(("index", "%s at step %d is in ensemble %s, where the index file says %s" % (f, t, have, want)))
                return


def sort_entry(k, scn):
    import importlib.util
    import os

    from . import runner

    def main_return(k, scn):
        p = os.path.join(runner.REPO, "tools", "py", "remdsort.py")
        g = {"__name__": "remdsort", "__file__": p}
        exec(scn["code"], g)
        g["main"]("input.xml")
        k.marks["sorted"] = True
        import gc
        import io

        from .fs import SimRaw

        for o in gc.get_objects():
            if isinstance(o, io.TextIOWrapper) and not o.closed and isinstance(getattr(o.buffer, "raw", None), SimRaw) and o.writable():
                o.flush()

    old = fullrun.main_return
    fullrun.main_return = main_return
    try:
        fullrun.entry(k, scn)
    finally:
        fullrun.main_return = old


def sort_tool(scn, image, base, viol, rs):
    """The real tools/py/remdsort.py on the files of the run: each sorted file must
    belong to one ensemble and hold every record."""
    import os

    from . import runner

    code = open(os.path.join(runner.REPO, "tools", "py", "remdsort.py")).read()
    r = runner.run_life(sort_entry, dict(base, sched=lives.QUIET, input="input.xml", files={}, code=code), image=image, wall=120)
    rs.append(r)
    if r["status"] == "harness":
        return r["detail"]
    if not r["marks"].get("sorted"):
        viol.append(("sort", "remdsort ends with %s" % (r.get("outcome"),)))
        return None
    got = {lives.short(p): d for p, d in r["files"].items()}
    for i, e in enumerate(scn["ens"]):
        f = "SRT_s%d_sim.out" % i
        if f not in got:
            viol.append(("sort", "remdsort writes no %s" % f))
            return None
        _, rr = oracle.props(got[f], f)
        want = list(range(0, scn["steps"] + 1, scn["out"]["ps"]))
        if [t for t, _ in rr] != want:
            viol.append(("sort", "%s has records of steps %s" % (f, [t for t, _ in rr])))
            return None
        for t, v in rr:
            if not near(v[3], e[0], 1e-6) or (scn["bias"] and not near(v[-1], e[2], 1e-6, 1e-9)):
                viol.append(("sort", "the record of step %d in %s belongs to temperature %g, not %g" % (t, f, v[3], e[0])))
                return None
    return None


def run(scn):
    viol, rs = [], []
    n = len(scn["ens"])
    base = {"net": {}, "clients": [], "max_ticks": 60_000_000, "max_time": 2000.0, "stride": scn["stride"], "_wall": scn.get("_wall", 120)}
    dry = None
    todo = list(scn["lives"])
    if todo:
        # how long it takes when nothing happens (and what it writes)
        dry = life(dict(base, sched=lives.QUIET, input="input.xml", files=files(scn, scn["steps"])))
        rs.append(dry)
        if dry["status"] == "harness":
            return result(scn, viol, rs, dry["detail"])
        verdict(dry, "undisturbed", viol)
    image, inp = None, "input.xml"
    rows = {}
    for j, l in enumerate(todo + [{"sched": scn["sched"], "events": []}]):
        if viol:
            break
        evs = lives.resolve(l["events"], dry["stats"]) if l["events"] else []
        r = life(dict(base, sched=l["sched"], input=inp, files=files(scn, scn["steps"]), events=evs), image)
        rs.append(r)
        if r["status"] == "harness":
            return result(scn, viol, rs, r["detail"])
        killed = r["status"] == "killed"
        verdict(r, "life %d" % j, viol, evs, killed)
        got = {lives.short(p): d for p, d in r["files"].items()}
        rx = r["marks"].get("rx") or {"rows": {}}
        for s, (row, changed) in rx["rows"].items():
            s = int(s)
            if s in rows and rows[s] != row:
                viol.append(("history", "step %d is done again with replicas %s instead of %s" % (s, row, rows[s])))
            rows[s] = row
        # what is on disk must tell the truth about the steps that are kept
        st, back = None, "RESTART" if not killed else "sim.chk"
        if back in got:
            try:
                st, flat = oracle.chk(got[back], back)
            except oracle.Corrupt as e:
                viol.append(("restart", str(e)))
        if not viol and not killed:
            judge_files(scn, got, viol)
        if killed and not viol and st is not None:
            judge_files(scn, got, viol, st)
        if not viol and st:
            idx = [int(float(x)) for p, tk in flat if p.endswith("/repindex") for x in tk if isinstance(x, float)]
            want = rows.get(st - 1)
            if want is not None and idx and idx != want:
                viol.append(("restart", "%s of step %d lists the replicas as %s instead of %s" % (back, st, idx, want)))
        image = {p: d for p, d in r["files"].items() if lives.short(p) != "EXIT"}
        if st is not None:
            inp = back
        if st == scn["steps"]:
            break
    if not viol:
        f = "s0_sim.out"
        _, rr = oracle.props(got[f], f)
        steps = {t for t, _ in rr}
        if st != scn["steps"] or any(t not in steps for t in range(0, scn["steps"] + 1, scn["out"]["ps"])):
            viol.append(("records", "the history ends at step %s with records of steps %s" % (st, sorted(steps))))
        else:
            name = [x for x in got if x.startswith("sim.") and "remd" in x.lower()]
            have = index_rows(got[name[0]], n, viol) if name else {}
            cur = list(range(n))
            for s in sorted(rows):
                if rows[s] != cur and have is not None and have.get(s) != rows[s]:
                    viol.append(("index", "the exchange of step %d (%s) is not in the index file: %s" % (s, rows[s], have.get(s))))
                    break
                cur = rows[s]
    if not viol and scn.get("sort"):
        h = sort_tool(scn, image, base, viol, rs)
        if h:
            return result(scn, viol, rs, h)
    return result(scn, viol, rs)


def verdict(r, who, viol, evs=(), killed=False):
    if r["status"] in ("deadlock", "livelock", "timeout"):
        viol.append(("stuck", "%s never ends: %s %s" % (who, r["status"], r["detail"])))
        r["trace"] += r.get("threads", [])
        return
    o = r.get("outcome")
    if not killed and o != ("exit", None) and not (evs and o[0] == "returned") and not (evs and o[0] == "raised" and o[1] == "KeyboardInterrupt" and not r["soft"]):
        viol.append(("crash", "%s ends with %s" % (who, o)))
        return
    for t in (r["marks"].get("rx") or {}).get("viol", []):
        viol.append(("exchange", "%s: %s" % (who, t)))


def drop_life(scn):
    for i in range(len(scn["lives"])):
        yield dict(scn, lives=scn["lives"][:i] + scn["lives"][i + 1 :])


def plain(scn):
    for k in ("bias", "ham"):
        if scn[k]:
            yield dict(scn, **{k: False})
    if len(scn["ens"]) > 2:
        for i in range(len(scn["ens"])):
            yield dict(scn, ens=scn["ens"][:i] + scn["ens"][i + 1 :])
    if scn["steps"] > 2:
        yield dict(scn, steps=scn["steps"] - 1)
