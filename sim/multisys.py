"""Whole runs of several systems in one input.  Systems whose motion uses no random
numbers must do exactly what they do alone, whatever their neighbours are (thermostatted
ones included), whoever computes their forces and however the threads interleave."""

import random
import re

from . import fullrun, ipigen, lives, oracle, sockgen as sg, transport
from .fullprops import sched, outcfg, result

M2 = "<force forcefield='ff'><mts_weights>[0,1]</mts_weights></force><force forcefield='fg'><mts_weights>[1,0]</mts_weights></force>"
RPC = "<force forcefield='ff'/><force forcefield='fg' nbeads='1' weight='0.5'/>"
ONE = "<force forcefield='ff'/>"
TWO = "<force forcefield='ff' weight='0.7'/><force forcefield='fg'/>"
# name: (beads, motion, forces)
DET = {
    "nve1": (1, ipigen.dyn("nve"), ONE),
    "nve1f": (1, ipigen.dyn("nve", fixcom="False"), TWO),
    "nve2": (2, ipigen.dyn("nve", dt=0.3), ONE),
    "nve4": (4, ipigen.dyn("nve"), RPC),
    "nve_baoab": (2, ipigen.dyn("nve", split="baoab"), TWO),
    "mts": (2, ipigen.dyn("nve", nmts="[1,3]"), M2),
    "fix": (1, ipigen.dyn("nve", fixcom="False", fix="[0]"), ONE),
    "sd": (1, ipigen.geop("sd"), ONE),
    "cg": (1, ipigen.geop("cg"), TWO),
    "bfgs": (1, ipigen.geop("bfgs"), ONE),
    "lbfgs": (1, ipigen.geop("lbfgs"), ONE),
    "bias": (1, ipigen.dyn("nve"), ONE, "<bias><force forcefield='fg'/></bias><bias_weights>[0.5]</bias_weights>"),
}
# (line searches amplify the rounding of checkpoints; continuing them is P13's business)
OPT = ("sd", "cg", "bfgs", "lbfgs")
NOISE = {
    "nvt": (1, ipigen.dyn("nvt", "langevin"), ONE),
    "pimd": (2, ipigen.dyn("nvt", "pile_g", 2), TWO),
    "npt": (1, ipigen.dyn("npt", "svr", bar="isotropic", dt=0.25), ONE),
}
PROPS = "step, time{picosecond}, conserved, potential, kinetic_md, virial_md, cell_h, pot_component(0)"


def spec_of(name):
    return DET.get(name) or NOISE[name]


def system(s, x):
    t = spec_of(s["kind"])
    nb, motion, forces = t[:3]
    rng = random.Random("vel-%d" % s["vel"])
    n = 3 * len(s["atoms"]) * nb
    vel = ",".join("%.6f" % rng.uniform(-2e-4, 2e-4) for _ in range(n))
    # (thermal velocities would take random numbers from the common stream)
    v = "<velocities mode='manual' units='atomic_unit'>[%s]</velocities>" % vel if s["kind"] in DET else ipigen.NOVEL
    out = ipigen.sysxml(motion, nb, T=s["T"], P=10, forces=forces, prefix=s["prefix"], ens=t[3] if len(t) > 3 else "")
    out = re.sub(r"<velocities .*?</velocities>", v, out)
    return out.replace(" init.xyz ", " init%s.xyz " % s["prefix"])


def xyz(s):
    a = s["cell"]
    out = "%d\n# CELL(abcABC): %g %g %g 90 90 90 cell{angstrom} positions{angstrom}\n" % (len(s["atoms"]), a, a, a)
    for el, c in zip(s["atoms"], ipigen.COORD):
        out += "%s %f %f %f\n" % ((el,) + tuple(q + s["shift"] for q in c))
    return out


def files(systems, out, steps, ff, threads=None):
    x = "<simulation verbosity='low'%s>" % (" threading='%s'" % threads if threads is not None else "")
    o = "<properties stride='%d' flush='%d' filename='out'> [ %s ] </properties>" % (out["ps"], out["pf"], PROPS)
    for i, t in enumerate(["positions", "forces", "momenta", "x_centroid"]):
        o += "<trajectory stride='%d' flush='%d' filename='t%d'> %s </trajectory>" % (out["ts"], out["tf"], i, t)
    if out.get("cs"):
        o += "<checkpoint stride='%d' filename='chk' overwrite='True'/>" % out["cs"]
    x += "<output prefix='sim'>%s</output><total_steps>%d</total_steps><prng><seed>4711</seed></prng>" % (o, steps)
    for f in ("ff", "fg"):
        x += ipigen.ffxml(f, **ff.get(f, {}))
    d = {}
    for i, s in enumerate(systems):
        x += system(s, i)
        d["init%s.xyz" % s["prefix"]] = xyz(s)
    d["input.xml"] = x + "</simulation>"
    return d


def gen(fam):
    def g(rng, i):
        n = rng.choice([2, 2, 3, 4])
        sock = fam != "direct"
        sizes = fam == "sizes"  # one client per replica, so each sees structures of one size only
        el = rng.choice(["HO", "HOC"])
        systems = []
        for j in range(n):
            kind = rng.choice(["nve1", "nve1f", "nve2", "fix", "nve_baoab"]) if sizes else rng.choice(sorted(DET)) if j == 0 or rng.random() < 0.75 else rng.choice(sorted(NOISE))
            systems.append({
                "kind": kind,
                # (one client serves structures of one size only)
                "atoms": "".join(rng.sample(el, len(el))) if sock and not sizes else rng.choice(["HO", "HOC", "OHHC", "C"] if kind != "fix" and kind not in OPT and kind not in NOISE else ["HO", "HOC"]),
                "prefix": "ABCD"[j],
                "T": rng.choice([200, 300, 500]),
                "vel": rng.randrange(1000),
                "cell": rng.choice([5.0, 6.0, 7.5]),
                "shift": rng.choice([0.0, 0.05, 0.1, -0.4]),
            })
        rng.shuffle(systems)
        steps = rng.choice([2, 3, 5])
        scn = {"systems": systems, "out": outcfg(rng), "steps": steps, "fam": fam, "ff": {}, "clients": [], "sched": sched(rng), "net": {}, "max_time": 4000.0, "cseed": rng.randrange(1 << 30), "threads": rng.choice([None, True, True, False])}
        if rng.random() < 0.35 and steps > 2 and not any(s["kind"] in OPT for s in systems):
            scn["cut"] = rng.randint(1, steps - 1)
        for x, name in enumerate(("ff", "fg")):
            if not sock:
                f = {"kind": "direct", "threaded": rng.random() < 0.7, "latency": rng.choice([1e-4, 1e-3, 1e-2]), "offset": rng.choice([0.0, 1.5]), "pbc": rng.random() < 0.25, "delay": rng.choice([0, 0, 1e-3, 0.02])}
                if rng.random() < 0.4:
                    f["batch"] = rng.choice([2, 3])
                    f["threaded"] = True
                scn["ff"][name] = f
                continue
            scn["net"] = sg.netcfg(rng, 0.4)
            f = sg.ff(rng)
            f = {a: f[a] for a in ("mode", "matching", "latency", "offset", "pbc", "consolidate", "batch")}
            f["kind"] = "socket"
            f["latency"] = max(f["latency"], 1e-3)
            if f["matching"] == "lock":
                f["matching"] = "auto"
            reps = 1
            if sizes:
                f["matching"], f["batch"] = "lock", 1
                reps = sum(spec_of(s["kind"])[0] for s in systems if name in spec_of(s["kind"])[2])
                if not reps:
                    scn["ff"][name] = {"kind": "direct"}
                    continue
            if f["mode"] == "inet":
                f["port"] = 31415 + x
            if fam == "stalls":
                f["timeout"] = rng.choice([1.0, 4.0])
            cl = transport.client_set(rng, f, fam, reps, rng.choice([0, 1, 2]))
            for q in cl:
                if f["batch"] > 1:
                    q.pop("needinit", None)
                q["name"] = "%s_%s" % (name, q["name"])
                q["scale"] = {"ff": 1.0, "fg": 0.3}[name]
                q["addr"] = ["inet", ["localhost", f["port"]]] if f["mode"] == "inet" else [f["mode"], "/tmp/ipi_sim_" + name]
            rng.shuffle(cl)
            scn["ff"][name] = f
            scn["clients"] += cl
        return scn

    return g


def solo(s, scn):
    """The same system alone, forces in the process, nothing going on."""
    ff = {n: {"kind": "direct", "offset": f.get("offset", 0.0), "pbc": f.get("pbc", False)} for n, f in scn["ff"].items()}
    r = fullrun.life({"sched": lives.QUIET, "input": "input.xml", "files": files([s], {"ps": 1, "pf": 1, "ts": 1, "tf": 1}, scn["steps"], ff), "max_ticks": 20_000_000, "max_time": 1e5, "_wall": 120})
    if r["status"] != "ended" or r.get("outcome") != ("exit", None):
        raise RuntimeError("the system alone fails: %s %s %s" % (r["status"], r.get("outcome"), r.get("detail")))
    return r


def judge(scn, r, viol):
    got = {lives.short(p): d for p, d in r["files"].items()}
    cut = "cut" in scn
    try:
        st, flat = oracle.chk(got["RESTART"], "RESTART")
    except (KeyError, oracle.Corrupt) as e:
        viol.append(("files", "no valid RESTART at the end: %r" % e))
        return
    if st != scn["steps"]:
        viol.append(("files", "the final RESTART is at step %d instead of %d" % (st, scn["steps"])))
    for i, s in enumerate(scn["systems"]):
        if s["kind"] in NOISE:
            continue
        rt = 1e-5 if cut else 1e-7
        a = solo(s, scn)
        ref = {"steps": scn["steps"], "props": {}, "traj": {}}
        for p, d in a["files"].items():
            n = lives.short(p)
            if re.search(r"\.out$", n) or ".out" in n:
                h, rows = oracle.props(d, n)
                ref["props"][n] = (h, {t: v for t, v in rows})
            elif ".t" in n:
                ref["traj"][n] = {t: (y, v) for t, y, v in oracle.xyz(d, n)}
        if not ref["props"] or not ref["traj"]:
            raise RuntimeError("no outputs in the run of one system: %s" % sorted(a["files"]))
        v = []
        ipigen.CAT["_p11"] = {"rtol": rt}
        lives.judge_outputs(r["files"], ref, "_p11", scn["out"], v, need_all=True, dup=cut, cls="system")
        viol += [(c, "system %s (%s): %s" % (s["prefix"], s["kind"], t)) for c, t in v]
        st0, f0 = oracle.chk({lives.short(p): d for p, d in a["files"].items()}["RESTART"], "RESTART")
        me = "/system[%d]" % i if i else "/system"
        mine = [("/system" + p[len(me):], t) for p, t in flat if p.startswith(me) and p[len(me):len(me) + 1] in ("/", "@", "")]
        alone = [(p, t) for p, t in f0 if re.match(r"/system($|[/@])", p)]
        d = oracle.chk_diff(mine, alone, rt, 3e-6 if cut else 1e-8)
        if d:
            viol.append(("system", "system %s (%s) in the final RESTART differs from the one alone: %s" % (s["prefix"], s["kind"], d)))
        if viol:
            return


def run(scn):
    viol, rs = [], []
    image, fl, inp = None, None, "input.xml"
    for total in ([scn["cut"]] if "cut" in scn else []) + [scn["steps"]]:
        if image is None:
            fl = files(scn["systems"], scn["out"], total, scn["ff"], scn.get("threads"))
        else:
            chk = image["/simroot/RESTART"].decode()
            image = dict(image)
            image["/simroot/next.xml"] = re.sub(r"<total_steps>.*?</total_steps>", "<total_steps>%d</total_steps>" % total, chk).encode()
            inp, fl = "next.xml", {}
        ls = {"sched": scn["sched"], "net": scn["net"], "input": inp, "files": fl, "clients": scn["clients"], "cseed": scn["cseed"], "max_ticks": 60_000_000, "max_time": scn["max_time"], "_wall": scn.get("_wall", 120)}
        r = fullrun.life(ls, image)
        rs.append(r)
        if r["status"] == "harness":
            return result(scn, viol, rs, r["detail"])
        o = r.get("outcome")
        if r["status"] in ("deadlock", "livelock", "timeout"):
            viol.append(("stuck", "the run never ends: %s %s; clients %s" % (r["status"], r["detail"], r["world"]["states"])))
            r["trace"] += r.get("threads", [])
        elif o != ("exit", None):
            viol.append(("crash", "the run ends with %s; last error of a thread: %s" % (o, r.get("thread_errors"))))
        if viol:
            return result(scn, viol, rs)
        image = r["files"]
    judge(scn, r, viol)
    return result(scn, viol, rs)


def drop_system(scn):
    if len(scn["systems"]) > 1:
        for i in range(len(scn["systems"])):
            yield dict(scn, systems=scn["systems"][:i] + scn["systems"][i + 1 :])
