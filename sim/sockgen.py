"""Scenario generators for the socket workloads (socklife)."""

import copy

from . import runner, socklife, check as ck


def sched(rng, fine=True):
    """Who runs next and how often a running thread is preempted."""
    return {
        "seed": rng.randrange(1 << 30),
        "gap": rng.choice([0, 8, 30, 100, 300, 1000] if fine else [0, 100, 1000]),
        "choice": rng.choice(["rand", "rand", "fifo"]),
        "quantum": rng.choice([500, 3000]),
    }


def netcfg(rng, rough=0.5):
    n = {"seed": rng.randrange(1 << 30), "lat": rng.choice([1e-6, 20e-6, 2e-3])}
    if rng.random() < rough:
        n["jitter"] = rng.choice([0.02, 0.1])
        n["jitter_s"] = rng.choice([0.005, 0.03, 0.08])
    if rng.random() < rough:
        n["seg"] = rng.choice([3, 7, 16, 64, 500])
    if rng.random() < rough:
        n["short"] = rng.choice([0.1, 0.5])
    if rng.random() < 0.2 and n["lat"] < 1e-3 and "jitter" not in n:
        # small send buffers; on a slow network they would make sends exceed the
        # interface's own 0.1 s limit, which drops the client by design
        n["cap"] = rng.choice([64, 300, 4096])
    return n


def ff(rng, mode=None, batch=None):
    f = {
        "mode": mode or rng.choice(["unix", "inet", "shm"]),
        "matching": rng.choice(["auto", "auto", "any"]),
        "latency": rng.choice([1e-4, 1e-3, 0.01]),
        "offset": rng.choice([0.0, 1.5, -20.25]),
        "pbc": rng.random() < 0.25,
        "slots": rng.choice([1, 4]),
        "timeout": 0.0,
        "consolidate": rng.random() < 0.5,
        "batch": 1,
        "max_workers": rng.choice([1, 2, 128]),
    }
    if batch is None:
        batch = rng.choice([1, 1, 2, 3])
    if batch > 1:
        f["consolidate"] = True
        f["batch"] = batch
    if rng.random() < 0.3:
        f["pars"] = {"alpha": "1", "beta": "two"}
    return f


def base(rng, mode=None, batch=None, rough=0.5):
    natoms = rng.randint(1, 4)
    scn = {
        "ff": ff(rng, mode, batch),
        "natoms": natoms,
        "nbeads": rng.randint(1, 5),
        "steps": rng.randint(2, 4),
        "callers": rng.choice([1, 1, 1, 2]),
        "id0": rng.choice([0, 0, 500]),
        "gap": rng.choice([0, 0, 0.05]),
        "cseed": rng.randrange(1 << 30),
        "cfgseed": rng.randrange(1 << 30),
        "sched": sched(rng),
        "net": netcfg(rng, rough),
        "max_time": 400.0,
        "max_ticks": 25_000_000,
        "clients": [],
    }
    if natoms > 1 and rng.random() < 0.3:
        k = rng.randint(1, natoms - 1)
        scn["ff"]["active"] = sorted(rng.sample(range(natoms), k))
    return scn


def client(rng, i, start=None):
    c = {
        "name": "c%d" % i,
        "start": rng.choice([0.0, 0.0, 0.02, 0.3]) if start is None else start,
        "compute": rng.choice([0.0, 0.002, 0.02, 0.3]),
        "cjit": rng.choice([0, 0.5]),
        "extra": rng.choice(["json", "json", "json", "text", "none"]),
    }
    if rng.random() < 0.25:
        c["style"] = "real"
    else:
        if rng.random() < 0.3:
            c["needinit"] = False
        if rng.random() < 0.3:
            c["reinit"] = True
        if rng.random() < 0.15:
            c["dribble"] = [rng.choice([5, 40]), rng.choice([0.0, 0.004])]
    return c


def fix_batch_clients(scn):
    if scn["ff"]["timeout"] > 0 or any(c["compute"] >= 0.3 or c["start"] >= 1 for c in scn["clients"]):
        # polling every 0.1 ms through long evaluations costs too many steps
        scn["ff"]["latency"] = max(scn["ff"]["latency"], 1e-3)
    # batching is announced in the initialisation message, so every client of a
    # batched forcefield asks for one; and batches travel whole
    if scn["ff"]["batch"] > 1:
        for c in scn["clients"]:
            c.pop("needinit", None)


def lockify(rng, scn, spare=0):
    """Lock matching serves each replica with its own client."""
    scn["ff"]["matching"] = "lock"
    scn["ff"]["batch"] = 1
    scn["callers"] = 1
    scn["nbeads"] = rng.randint(1, 4)
    n = scn["nbeads"] + spare
    scn["clients"] = [client(rng, i) for i in range(n)]


PHASES = [
    "connected",
    "status",
    "init",
    "posdata",
    "received",
    "computed",
    "getforce",
    "midreply",
    "replied",
]


def death(rng, back=True, hows=("fin", "rst")):
    at = rng.choice(PHASES)
    d = {
        "at": at,
        "nth": rng.choice([1, 1, 2, 3]) if at != "connected" else 1,
        "how": rng.choice(hows),
    }
    if at == "midreply":
        d["frac"] = rng.choice([0.0, 0.02, 0.08, 0.2, 0.5, 0.9, 0.99])
        d["linger"] = rng.choice([0.0, 0.001])
    if back and rng.random() < 0.5:
        d["back"] = rng.choice([0.001, 0.05, 1.0])
    return d


# --------------------------------------------------------------------- families
def gen_quiet(rng, i):
    """No faults: several clients, any transport, any segmentation."""
    scn = base(rng)
    scn["clients"] = [client(rng, j) for j in range(rng.randint(1, 4))]
    fix_batch_clients(scn)
    return scn


def gen_lock(rng, i):
    scn = base(rng, batch=1)
    lockify(rng, scn, rng.choice([0, 0, 1, 2]))
    return scn


def gen_deaths(rng, i):
    """Clients die, leave, reconnect; at least one stays healthy."""
    scn = base(rng)
    n = rng.randint(2, 4)
    scn["clients"] = [client(rng, j) for j in range(n)]
    for c in scn["clients"][1:]:
        c["faults"] = []
        for _ in range(rng.choice([1, 1, 2])):
            d = death(rng)
            if c["faults"]:
                d["inc"] = 2
                c["faults"][0].setdefault("back", rng.choice([0.001, 0.05, 1.0]))
            c["faults"].append(d)
        if rng.random() < 0.15:
            c["max_evals"] = rng.choice([1, 2, 3])
    # the healthy one may come late
    scn["clients"][0]["start"] = rng.choice([0.0, 0.0, 0.2, 3.0, 20.0])
    rng.shuffle(scn["clients"])
    fix_batch_clients(scn)
    return scn


def gen_stalls(rng, i):
    """Clients hang, stall or get cut off; the forcefield has a timeout."""
    scn = base(rng)
    scn["ff"]["timeout"] = rng.choice([1.0, 4.0])
    scn["ff"]["latency"] = rng.choice([5e-3, 0.02])
    n = rng.randint(2, 4)
    scn["clients"] = [client(rng, j) for j in range(n)]
    for c in scn["clients"]:
        c["compute"] = min(c["compute"], 0.05)
        c.pop("dribble", None)
    for c in scn["clients"][1:]:
        d = death(rng, hows=("hang", "stall", "cut", "stall"))
        d.pop("back", None)
        d["at"] = rng.choice(["received", "computed", "getforce", "midreply", "posdata"])
        if c.get("style") == "real":
            d["at"] = rng.choice(["received", "computed"])
        d["seconds"] = rng.choice([0.05, 0.5, 3.0, 8.0, 30.0])
        d["frac"] = rng.choice([0.0, 0.3, 0.9])
        c["faults"] = [d]
        c["reconnect"] = rng.choice([None, 0.1])
    rng.shuffle(scn["clients"])
    fix_batch_clients(scn)
    return scn


def gen_silent(rng, i):
    """Clients fall silent for ever at any point of the conversation."""
    scn = gen_stalls(rng, i)
    for c in scn["clients"]:
        if c["name"] == "c0":
            c["start"] = rng.choice([0.0, 0.3, 12.0])
            continue
        c["start"] = rng.choice([0.0, 0.02, 0.3])
        d = death(rng, hows=("hang",))
        d.pop("back", None)
        if c.get("style") == "real":
            d["at"] = rng.choice(["received", "computed"])
        elif rng.random() < 0.4:
            d["at"] = rng.choice(["status", "init", "connected"])
            if d["at"] == "connected":
                d["nth"] = 1
        c["faults"] = [d]
    return scn


def gen_lock_deaths(rng, i):
    scn = base(rng, batch=1)
    lockify(rng, scn, rng.choice([0, 1]))
    for c in scn["clients"]:
        if rng.random() < 0.6:
            d = death(rng)
            while d["at"] == "connected":
                d = death(rng)
            d["back"] = rng.choice([0.001, 0.05, 1.0])
            c["faults"] = [d]
    # losing a locked client ends the run
    scn["must_finish"] = False
    scn["must_stop"] = True
    scn["stop_bound"] = 60.0
    return scn


def gen_once(rng, i):
    """No faults and no timeouts: the conversation itself is under scrutiny."""
    scn = base(rng)
    scn["clients"] = [client(rng, j) for j in range(rng.randint(1, 4))]
    for c in scn["clients"]:
        if rng.random() < 0.7:
            c.pop("style", None)
            c["reinit"] = rng.random() < 0.4
    scn["once"] = True
    fix_batch_clients(scn)
    return scn


def gen_once_lock(rng, i):
    scn = gen_lock(rng, i)
    scn["once"] = True
    return scn


def gen_sticky(rng, i):
    """Automatic matching with at least as many clients as replicas."""
    scn = base(rng, batch=1)
    scn["ff"]["matching"] = "auto"
    scn["ff"]["consolidate"] = True
    scn["callers"] = 1
    scn["steps"] = rng.randint(3, 6)
    scn["nbeads"] = rng.randint(2, 4)
    scn["clients"] = [client(rng, j, start=0.0) for j in range(scn["nbeads"] + rng.choice([0, 0, 1]))]
    scn["id0"] = rng.choice([0, 500])
    scn["sticky"] = True
    scn["gap0"] = 2.0
    return scn


BAD = ["status_garbage", "raw_key", "utf8", "forceready_garbage", "natoms", "natoms_less", "garbage_connect", "early_reply", "stuck_needinit", "stuck_havedata", "natoms_neg", "natoms_huge", "extra_long", "duplicate", "natoms_count", "status_cut"]


def gen_bad(rng, i):
    """Clients that break the protocol, next to at least one that does not."""
    scn = base(rng)
    n = rng.randint(2, 4)
    scn["clients"] = [client(rng, j) for j in range(n)]
    # nothing tells a silent client from a slow one, so there is a timeout
    scn["ff"]["timeout"] = rng.choice([2.0, 5.0])
    for c in scn["clients"]:
        c["compute"] = min(c["compute"], 0.02)
        c.pop("dribble", None)
    for c in scn["clients"][1:]:
        c.pop("style", None)
        c["bad"] = [{"kind": rng.choice(BAD), "nth": rng.choice([1, 1, 2, 3])}]
        if rng.random() < 0.3:
            c["bad"].append({"kind": rng.choice(BAD), "nth": rng.choice([1, 2])})
        c["reconnect"] = rng.choice([None, None, 0.1, 1.0])
        if rng.random() < 0.3:
            # hangs up at any byte
            c["faults"] = [death(rng)]
            if c["faults"][0]["at"] == "midreply":
                c["faults"][0]["frac"] = rng.random()
            if rng.random() < 0.5:
                c["bad"] = []
    scn["clients"][0]["start"] = rng.choice([0.0, 0.0, 0.3, 2.0])
    rng.shuffle(scn["clients"])
    fix_batch_clients(scn)
    return scn


def gen_stop(rng, i):
    """The program stops while requests are in flight."""
    r = rng.random()
    scn = gen_quiet(rng, i) if r < 0.4 else gen_deaths(rng, i) if r < 0.7 else gen_stalls(rng, i)
    scn["stop_at"] = round(rng.choice([rng.uniform(0, 0.1), rng.uniform(0, 1.5), rng.uniform(0, 6)]), 4)
    scn["must_finish"] = False
    scn["must_stop"] = True
    scn["stop_bound"] = 30.0
    return scn


def gen_eod(rng, i):
    """A client leaves and the forcefield is told to exit when that happens."""
    scn = base(rng)
    scn["ff"]["eod"] = True
    scn["clients"] = [client(rng, j) for j in range(rng.randint(1, 3))]
    c = scn["clients"][0]
    d = death(rng, back=False)
    while d["at"] == "connected":
        d = death(rng, back=False)  # that one never became a client
    if c.get("style") == "real" and d["at"] not in ("received", "computed"):
        d["at"] = "computed"
    c["faults"] = [d]
    scn["must_finish"] = False
    scn["must_stop"] = True
    scn["stop_bound"] = 60.0
    fix_batch_clients(scn)
    return scn


def _drop_client(scn):
    """Fewer clients, but never without the healthy ones the run needs."""
    need = scn["nbeads"] * scn["callers"] if scn["ff"].get("matching") == "lock" else 1
    if scn.get("sticky"):
        return
    for c in ck.drop_items(["clients"])(scn):
        ok = [
            x
            for x in c["clients"]
            if not x.get("bad") and not x.get("max_evals") and not x.get("faults")
        ]
        was = [
            x
            for x in scn["clients"]
            if not x.get("bad") and not x.get("max_evals") and not x.get("faults")
        ]
        if len(ok) >= min(need, len(was)):
            yield c


def _drop_client_any(scn):
    for c in ck.drop_items(["clients"])(scn):
        if all(
            any(
                x["addr"] == y["addr"] and not (x.get("bad") or x.get("max_evals") or x.get("faults"))
                for x in c["clients"]
            )
            for y in scn["clients"]
        ) and not any(f.get("matching") == "lock" for f in scn["ff"].values()):
            yield c


def fewer_atoms(scn):
    for c in ck.lower(["natoms"])(scn):
        if max(c["ff"].get("active") or [0]) < c["natoms"]:
            yield c


REDUCERS = [
    _drop_client,
    lambda scn: (
        c
        for i, cl in enumerate(scn["clients"])
        for j in range(len(cl.get("faults", [])) + len(cl.get("bad", [])))
        for c in [_drop_fault(scn, i, j)]
    ),
    ck.lower(["callers"]),
    ck.lower(["steps"]),
    ck.lower(["nbeads"]),
    fewer_atoms,
    ck.setval(["gap"], 0),
    ck.setval(["net"], {}),
    ck.setval(["net", "seg"], 0),
    ck.setval(["net", "short"], 0),
    ck.setval(["net", "jitter"], 0),
    ck.setval(["sched", "choice"], "fifo"),
    ck.setval(["sched", "gap"], 0),
    ck.setval(["ff", "batch"], 1),
    ck.setval(["ff", "pbc"], False),
    ck.setval(["ff", "offset"], 0.0),
    ck.setval(["ff", "active"], None),
    ck.setval(["ff", "pars"], None),
    lambda scn: (
        c
        for i, cl in enumerate(scn["clients"])
        for key, val in (("compute", 0.0), ("start", 0.0), ("dribble", None), ("reinit", False), ("cjit", 0))
        if cl.get(key)
        for c in [_set_client(scn, i, key, val)]
    ),
]


def _drop_fault(scn, i, j):
    c = copy.deepcopy(scn)
    cl = c["clients"][i]
    nf = len(cl.get("faults", []))
    if j < nf:
        del cl["faults"][j]
    else:
        del cl["bad"][j - nf]
    return c


def _set_client(scn, i, key, val):
    c = copy.deepcopy(scn)
    if val is None:
        c["clients"][i].pop(key)
    else:
        c["clients"][i][key] = val
    return c


def runner_for(classes):
    """Runs a socklife scenario and keeps the violations of the given classes."""

    def run(scn):
        if not scn["clients"]:
            return {"viol": [], "harness": None, "stats": {}}
        r = runner.run_life(socklife.entry, scn, wall=scn.get("_wall", 120))
        if r["status"] == "harness":
            return {"viol": [], "harness": r["detail"], "stats": {}}
        st = r["stats"]
        return {
            "viol": [v for v in r["verdict"] if v[0] in classes],
            "harness": None,
            "stats": st,
            "key": (st["shash"], st["ticks"], r["status"]),
            "nontrivial": st["switches"] > 10 and r.get("answered", 1) > 0,
            "preempt_log": r["preempt_log"],
            "sample": {
                "status": r["status"],
                "virtual_s": st["now"] / 1e9,
                "switches": st["switches"],
                "counters": st["counters"],
            },
            "trace": r.get("trace", []),
        }

    return run
