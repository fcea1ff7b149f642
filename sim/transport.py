"""Whole runs whose forces come through every transport, compared with the same
run with the potential evaluated in process."""

from . import fullrun, ipigen, lives, oracle, sockgen as sg
from .fullprops import sched, outcfg, result

SETUPS = [
    n
    for n, c in sorted(ipigen.CAT.items())
    if ("multi" not in c["tags"] or "det" in c["tags"]) and c["ffs"]
]


def client_set(rng, f, fam, reps, nfault):
    """Clients for one forcefield; the first one is healthy."""
    n = 1 + nfault if f["matching"] != "lock" else reps
    out = []
    for j in range(n):
        c = sg.client(rng, j)
        c["compute"] = min(c["compute"], 0.02)
        if rng.random() < 0.6:
            c["style"] = "real"
            for a in ("needinit", "reinit", "dribble"):
                c.pop(a, None)
        c["extra"] = "json"
        out.append(c)
    if f["matching"] == "lock":
        return out
    for c in out[1:]:
        if fam == "deaths":
            c["faults"] = [sg.death(rng)]
            if c.get("style") == "real":
                c["faults"][0]["at"] = rng.choice(["received", "computed"])
        elif fam == "stalls":
            c.pop("dribble", None)
            d = sg.death(rng, hows=("hang", "stall", "cut", "stall"))
            d.pop("back", None)
            d["at"] = rng.choice(["received", "computed", "getforce", "midreply", "posdata"])
            if c.get("style") == "real":
                d["at"] = rng.choice(["received", "computed"])
            d["seconds"] = rng.choice([0.05, 0.5, 3.0, 8.0])
            d["frac"] = rng.choice([0.0, 0.3, 0.9])
            c["faults"] = [d]
            c["reconnect"] = rng.choice([None, 0.1])
        elif fam == "bad":
            c.pop("style", None)
            c["bad"] = [{"kind": rng.choice(sg.BAD), "nth": rng.choice([1, 1, 2, 3])}]
            c["reconnect"] = rng.choice([None, 0.1])
    return out


def gen(fam):
    def g(rng, i):
        setup = rng.choice(SETUPS)
        c = ipigen.CAT[setup]
        scn = {
            "setup": setup,
            "out": outcfg(rng),
            "fam": fam,
            "ff": {},
            "steps": rng.choice([2, 3, 4]) if fam != "quiet" else rng.choice([3, 6]),
            "clients": [],
            "sched": sched(rng),
            "net": sg.netcfg(rng, 0.4),
            "cseed": rng.randrange(1 << 30),
            "max_time": 3000.0,
        }
        # (the first force evaluation is that of the first step)
        ninet = 0
        for x, name in enumerate(c["ffs"]):
            f = sg.ff(rng)
            f = {a: f[a] for a in ("mode", "matching", "latency", "offset", "pbc", "consolidate", "batch")}
            f["kind"] = "socket"
            f["latency"] = max(f["latency"], 1e-3)
            if f["mode"] == "inet":
                f["port"] = 31415 + x
            reps = c["nb"] * c["system"].count("<system")
            if f["batch"] == 1 and fam == "quiet" and rng.random() < 0.15 and setup[:3] in ("nve", "nvt", "npt"):
                f["matching"] = "lock"
            if fam in ("stalls", "bad"):
                f["timeout"] = rng.choice([1.0, 4.0])
            cl = client_set(rng, f, fam, reps, rng.choice([0, 1, 2]) if fam == "quiet" else rng.choice([1, 2]))
            if f["batch"] > 1:
                for q in cl:
                    q.pop("needinit", None)
            for q in cl:
                q["name"] = "%s_%s" % (name, q["name"])
                q["scale"] = {"ff": 1.0, "fg": 0.3}[name]
                q["addr"] = ["inet", ["localhost", f["port"]]] if f["mode"] == "inet" else [f["mode"], "/tmp/ipi_sim_" + name]
            rng.shuffle(cl)
            scn["ff"][name] = f
            scn["clients"] += cl
        if c["system"].count("<system") > 1:
            scn["threads"] = rng.random() < 0.6
        elif rng.random() < 0.2:
            scn["threads"] = True
        return scn

    return g


def gen_direct(rng, i):
    """No clients: the potential in process, in threads or batches."""
    setup = rng.choice(SETUPS)
    c = ipigen.CAT[setup]
    scn = {
        "setup": setup,
        "out": outcfg(rng),
        "fam": "direct",
        "ff": {},
        "steps": rng.choice([3, 6]),
        "clients": [],
        "sched": sched(rng),
        "net": {},
        "max_time": 3000.0,
    }
    for name in c["ffs"]:
        f = {
            "kind": "direct",
            "threaded": rng.random() < 0.8,
            "latency": rng.choice([1e-4, 1e-3, 1e-2]),
            "offset": rng.choice([0.0, 1.5]),
            "pbc": rng.random() < 0.25,
            "delay": rng.choice([0, 0, 1e-3, 0.02]),
        }
        if rng.random() < 0.5:
            f["batch"] = rng.choice([2, 3, 4])
            f["threaded"] = True  # (as the manual asks)
        scn["ff"][name] = f
    if c["system"].count("<system") > 1:
        scn["threads"] = rng.random() < 0.6
    elif rng.random() < 0.2:
        scn["threads"] = True
    return scn


def refs(scn):
    return [(scn["setup"], scn["steps"], scn["ff"])]


def run(scn):
    ref = lives.reference(scn["setup"], scn["steps"], scn["ff"])
    files = ipigen.make(scn["setup"], scn["out"], steps=scn["steps"], ff=scn["ff"], threads=scn.get("threads"))
    viol = []
    ls = {
        "sched": scn["sched"],
        "net": scn["net"],
        "input": "input.xml",
        "files": files,
        "clients": scn["clients"],
        "cseed": scn.get("cseed", 0),
        "max_ticks": 60_000_000,
        "max_time": scn["max_time"],
        "_wall": scn.get("_wall", 120),
    }
    r = fullrun.life(ls)
    if r["status"] == "harness":
        return result(scn, viol, [r], r["detail"])
    o = r.get("outcome")
    if r["status"] in ("deadlock", "livelock", "timeout"):
        viol.append(("stuck", "the run never ends: %s %s; clients %s" % (r["status"], r["detail"], r["world"]["states"])))
        r["trace"] += r.get("threads", [])
    elif o[0] == "raised" or o != ("exit", None):
        viol.append(("crash", "the run ends with %s; last error of a thread: %s" % (o, r.get("thread_errors"))))
    else:
        lives.judge_outputs(r["files"], ref, scn["setup"], scn["out"], viol, need_all=True, dup=False)
        f = {lives.short(p): d for p, d in r["files"].items()}
        if "RESTART" not in f:
            viol.append(("outputs", "there is no RESTART file at the end"))
        else:
            try:
                st, flat = oracle.chk(f["RESTART"], "RESTART")
                d = oracle.chk_diff(flat, ref["final"][1], *lives.tol(scn["setup"]), lives.IGNORE)
                if st != ref["final"][0]:
                    viol.append(("outputs", "the final RESTART is at step %d instead of %d" % (st, ref["final"][0])))
                elif d:
                    viol.append(("outputs", "the final RESTART differs from the in-process run: %s" % d))
            except oracle.Corrupt as e:
                viol.append(("outputs", str(e)))
        if r["sockfiles"]:
            viol.append(("left", "socket files left behind: %s" % r["sockfiles"]))
        if r["shm"]:
            viol.append(("left", "shared memory left behind: %s" % r["shm"][:3]))
    out = result(scn, viol, [r])
    out["sample"] = "%s, clients %s" % (o, r["world"]["states"])
    return out
