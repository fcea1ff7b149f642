"""Workload: the repository's Python driver (drivers/py/driver.py: run_driver) as a
simulated process, facing a scripted server that may hold any legal conversation, cut it
into any pieces, and vanish at any byte."""

import json
import random
import socket
import zlib

import numpy as np

from . import check as ck
from . import clients, net, runner

HDR = 12
PATH = "/tmp/ipi_peer"


def msg(s):
    return s.upper().ljust(HDR).encode()


def structure(rng, nat):
    h = np.diag([rng.uniform(5, 9) for _ in range(3)])
    h[0, 1], h[0, 2], h[1, 2] = (rng.uniform(-1, 1) for _ in range(3))
    return h, np.linalg.inv(h), np.array([rng.uniform(-4, 4) for _ in range(3 * nat)])


def evaluate(h, x, kind):
    pot, f, vir = clients.pes(h, x)
    key = zlib.crc32(np.asarray(x, float).tobytes())
    extra = {"json": json.dumps({"key": key}), "none": "", "text": "k%d \u00e5\u4e16\u754c" % key, "long": json.dumps({"key": key, "pad": "z" * 3000})}[kind]
    return pot, f, vir, extra


def reply_of(sts, shm, kind):
    res = [evaluate(h, x, kind) for h, ih, x in sts]
    out = msg("forceready")
    if not shm:
        out += np.array([r[0] for r in res]).tobytes() + np.int32(len(sts[0][2]) // 3).tobytes()
        out += np.array([r[1] for r in res]).tobytes() + np.array([r[2] for r in res]).tobytes()
    for r in res:
        e = r[3].encode("utf-8")
        out += np.int32(len(e)).tobytes() + e
    return out, res


def pos_bytes(sts, shm, segs, batch, nat):
    if shm:
        return msg("posdata") + np.int32(nat).tobytes()
    if batch > 1:
        out = msg("posdata") + np.int32(nat).tobytes()
        for h, ih, x in sts:
            out += h.tobytes() + ih.tobytes()
        return out + b"".join(x.tobytes() for h, ih, x in sts)
    h, ih, x = sts[0]
    return msg("posdata") + h.tobytes() + ih.tobytes() + np.int32(nat).tobytes() + x.tobytes()


class Gone(Exception):
    pass


def entry(k, scn):
    rng = random.Random("peer-%s" % scn["cfgseed"])
    shm, nat, batch = scn["mode"] == "shm", scn["nat"], scn["batch"]
    v = []
    evals = []  # what the driver evaluated
    asked = []  # what it was asked for, in order
    st = {"driver": "running", "end": None, "where": "start"}
    k.stage = "start"

    def done(status, detail):
        out = list(v)
        if not out:
            if status in ("deadlock", "livelock", "timeout"):
                out.append(("liveness", "%s (%s; driver %s) %s" % (status, st["where"], st["driver"], detail[:200])))
            elif k.outcome and k.outcome[0] == "raised":
                out.append(("liveness", "server side: %s" % (k.outcome[1:3],)))
        return {"verdict": out, "trace": ["%d %.6f %s" % (e[0], e[1] / 1e9, e[2:]) for e in k.events[-120:]]}

    k.on_finish = done

    # ---- the driver process
    keep = {}

    def one(h, x):
        evals.append((np.array(h), np.array(x).reshape(-1)))
        pot, f, vir, extra = evaluate(np.array(h), np.array(x), scn["extra"])
        f = f.reshape(-1, 3)
        if scn["style"] == "fortran":
            f = np.asfortranarray(f)
        elif scn["style"] == "reuse":
            # a potential that always returns the same arrays
            keep.setdefault("vir", np.zeros((3, 3)))[:] = vir
            vir = keep["vir"]
        return pot, f, vir, extra

    def potential(cell, pos):
        if scn["compute"]:
            k.sleep(scn["compute"])
        if isinstance(cell, list):
            if scn["style"] == "reuse":
                return [tuple(np.array(y) if i == 2 else y for i, y in enumerate(one(h, x))) for h, x in zip(cell, pos)]
            return [one(h, x) for h, x in zip(cell, pos)]
        return one(cell, pos)

    def driver():
        kw = dict(unix=scn["mode"] == "unix", shm=shm, address="peer") if scn["mode"] != "inet" else dict(address="localhost", port=31415)
        try:
            k.sleep(scn["start"])
            runner.driver_mod.run_driver(driver=potential, f_verbose=scn["verbose"], **kw)
            st["driver"] = "returned"
        except BaseException as e:
            st["driver"] = "raised %s: %s" % (type(e).__name__, e)
            if not isinstance(e, Exception):
                raise
        finally:
            k.log("driver", st["driver"])
            st["t"] = k.now
            net.kill_connections(proc)

    # ---- the server
    ls = socket.socket(socket.AF_INET if scn["mode"] == "inet" else socket.AF_UNIX, socket.SOCK_STREAM)
    ls.bind(("localhost", 31415) if scn["mode"] == "inet" else PATH)
    ls.listen(1)
    proc = k.new_proc("driver")
    k.spawn(driver, name="driver", proc=proc)
    sock, _ = ls.accept()
    ls.close()
    segs = {}
    if shm:
        from multiprocessing import shared_memory

        for kd, n in zip(clients.KINDS, (3 * nat, 9, 9, 1, 3 * nat, 9)):
            segs[kd] = shared_memory.SharedMemory(name="seg_%s" % kd, create=True, size=8 * n * batch)
    view = lambda kd, n: np.ndarray((batch, n), float, buffer=segs[kd].buf)
    sent = [0]
    got = [0]

    def send(data):
        """In pieces; the server dies at the byte the scenario says."""
        cut = scn["end"]
        if cut["how"] in ("fin", "rst") and cut["dir"] == "send" and sent[0] + len(data) > cut["byte"]:
            m = cut["byte"] - sent[0]
            if m > 0:
                sock.sendall(data[:m])
            sent[0] += m
            raise Gone()
        sent[0] += len(data)
        g = scn["chop"]
        if not g:
            sock.sendall(data)
            return
        i = 0
        while i < len(data):
            m = rng.randint(1, g)
            sock.sendall(data[i : i + m])
            i += m
            if rng.random() < 0.2:
                k.sleep(rng.choice([1e-5, 1e-3, 0.05]))

    def recv(n):
        cut = scn["end"]
        out = b""
        while len(out) < n:
            want = n - len(out)
            if cut["how"] in ("fin", "rst") and cut["dir"] == "recv":
                want = min(want, cut["byte"] - got[0])
                if want <= 0:
                    raise Gone()
            b = sock.recv(want)
            if not b:
                raise EOFError
            got[0] += len(b)
            out += b
        return out

    inited = False
    havedata = None
    attached = False
    b = 1
    k.stage = "talk"
    try:
        for group in scn["talk"]:
            data, expect, checks = b"", [], []
            for op in group:
                if op == "status":
                    data += msg("status")
                    expect.append((msg("needinit" if not inited else "havedata" if havedata else "ready"), "STATUS"))
                elif op == "init":
                    pars = scn["pars"]
                    if batch > 1 or scn["say1"]:
                        pars = (pars + "," if pars else "") + "batch_size:%d" % batch
                    p = pars.encode("utf-8")
                    data += msg("init") + np.int32(rng.randrange(100)).tobytes() + np.int32(len(p)).tobytes() + p
                    inited = True
                    b = batch
                elif op == "pos":
                    sts = [structure(rng, nat) for _ in range(b)]
                    if shm:
                        # the segments may be written only when the driver is not using them
                        for i, (h, ih, x) in enumerate(sts):
                            view("pos", 3 * nat)[i] = x
                            view("h", 9)[i] = h.reshape(-1)
                            view("ih", 9)[i] = ih.reshape(-1)
                    data += pos_bytes(sts, shm, segs, b, nat)
                    if shm and not attached:
                        for kd in clients.KINDS:
                            nm = segs[kd].name.encode()
                            data += np.int32(len(nm)).tobytes() + nm
                        attached = True
                    havedata = sts
                    asked += [(h, x) for h, ih, x in sts]
                elif op == "get":
                    data += msg("getforce")
                    rep, res = reply_of(havedata, shm, scn["extra"])
                    expect.append((rep, "GETFORCE"))
                    checks.append(res)
                    havedata = None
            st["where"] = "talk %s" % (group,)
            send(data)
            for want, what in expect:
                r = recv(HDR)
                if what == "GETFORCE" and shm and r == want[:HDR]:
                    # the acknowledgement says that the results are there
                    for i, (pot, f, vir, ex) in enumerate(checks.pop(0)):
                        if view("pot", 1)[i] != pot or not np.array_equal(view("force", 3 * nat)[i], f) or not np.array_equal(view("vir", 9)[i], vir.reshape(-1)):
                            v.append(("answer", "structure %d: results in shared memory are not those of its configuration" % i))
                            return
                r += recv(len(want) - HDR)
                if r != want:
                    v.append(("answer", "the answer to %s is %r instead of %r" % (what, r[:60], want[:60])))
                    return
            if rng.random() < 0.3:
                k.sleep(rng.choice([1e-4, 0.1, 40.0]))
        if scn["end"]["how"] == "exit":
            st["where"] = "exit"
            send(msg("exit"))
            st["end"] = "exit"
        else:
            raise Gone()
    except Gone:
        st["end"] = scn["end"]["how"]
        k.count("server_" + st["end"])
        if st["end"] == "rst":
            net.kill_connections(k.cur.proc, reset=True)
        else:
            sock.close()
    except (EOFError, OSError) as e:
        v.append(("answer", "the driver broke the conversation (%s) in %s: %s" % (type(e).__name__, st["where"], st["driver"])))
        return
    t0 = k.now
    k.stage = "end"
    st["where"] = "after the server's %s" % st["end"]
    while st["driver"] == "running" and k.now - t0 < int((5 + 3 * scn["compute"]) * 1e9):
        k.sleep(0.05)
    if st["driver"] == "running":
        v.append(("end", "the driver is still there %.1f s after the server's %s" % ((k.now - t0) / 1e9, st["end"])))
    elif st["end"] == "exit" and st["driver"] != "returned":
        v.append(("end", "told to exit, the driver %s" % st["driver"]))
    for i, (h, x) in enumerate(evals):
        if i >= len(asked) or not np.array_equal(h, asked[i][0]) or not np.array_equal(x, asked[i][1]):
            v.append(("answer", "evaluation %d is not of structure %d that was sent" % (i, i)))
            break
    if st["end"] == "exit" and len(evals) != len(asked):
        v.append(("answer", "%d evaluations for %d structures" % (len(evals), len(asked))))
    if shm and sorted(getattr(k, "shm", {})) != sorted(s.name for s in segs.values()):
        v.append(("end", "the driver removed shared memory that belongs to the server"))


def talk(rng, shm):
    """A legal conversation: groups of messages that are sent without waiting for replies."""
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append("status")
    ops.append("init")
    for _ in range(rng.randint(0, 5)):
        ops += ["status"] * rng.choice([0, 1, 1, 2])
        if rng.random() < 0.1:
            ops.append("init")
        ops.append("pos")
        ops += ["status"] * rng.choice([0, 0, 1, 2, 3])
        if rng.random() < 0.93:
            ops.append("get")
    # (a conversation may stop anywhere)
    if rng.random() < 0.2:
        ops = ops[: rng.randint(0, len(ops))]
    fixed, have = [], False
    for o in ops:
        if o == "pos" and have:
            continue
        have = True if o == "pos" else False if o == "get" else have
        fixed.append(o)
    groups, cur = [], []
    p = rng.choice([0.0, 0.3, 0.7])
    for o in fixed:
        # (shared memory is written again only after the results have been read)
        if cur and (rng.random() >= p or (shm and o == "pos")):
            groups.append(cur)
            cur = []
        cur.append(o)
    return groups + ([cur] if cur else [])


def gen(rng, i, end=None):
    mode = rng.choice(["unix", "inet", "shm"])
    scn = {
        "mode": mode,
        "nat": rng.choice([1, 2, 3, 7]),
        "batch": rng.choice([1, 1, 2, 3]),
        "say1": rng.random() < 0.3,
        "pars": rng.choice(["", "", "a:1", "name: x, k:2", "\u00e5ngstr\u00f6m:1", "x" * 400]),
        "extra": rng.choice(["json", "none", "text", "long"]),
        "style": rng.choice(["plain", "fortran", "reuse"]),
        "compute": rng.choice([0, 0, 1e-3, 0.2]),
        "start": rng.choice([0, 0.01]),
        "verbose": rng.random() < 0.2,
        "chop": rng.choice([0, 0, 3, 11, 30, 200]),
        "talk": talk(rng, mode == "shm"),
        "net": {"seed": rng.randrange(1 << 30), "lat": rng.choice([1e-6, 5e-5, 5e-3]), "seg": rng.choice([0, 0, 4, 12, 40]), "short": rng.choice([0, 0.3]), "cap": rng.choice([1 << 20, 1 << 20, 512])},
        "cfgseed": rng.randrange(1 << 30),
        "sched": {"seed": rng.randrange(1 << 30), "gap": rng.choice([0, 20, 150, 800]), "choice": rng.choice(["random", "random", "pct", "fifo"]), "quantum": rng.choice([300, 3000])},
        "max_time": 1000.0,
        "max_switches": 400000,
        "end": end or {"how": "exit"},
    }
    if any(len(g) > 2 for g in scn["talk"]):
        # (a server that sends without reading needs room for the answers)
        scn["net"]["cap"] = 1 << 20
    return scn


def gen_gone(rng, i):
    d = rng.choice(["send", "send", "recv"])
    return gen(rng, i, {"how": rng.choice(["fin", "fin", "rst"]), "dir": d, "byte": int(10 ** rng.uniform(0, 3.4))})


REDUCERS = [
    ck.setval(["chop"], 0),
    ck.setval(["net", "seg"], 0),
    ck.setval(["net", "short"], 0),
    ck.setval(["net", "cap"], 1 << 20),
    ck.setval(["batch"], 1),
    ck.setval(["nat"], 1),
    ck.setval(["pars"], ""),
    ck.setval(["extra"], "none"),
    ck.setval(["style"], "plain"),
    ck.setval(["compute"], 0),
    ck.setval(["start"], 0),
    ck.setval(["verbose"], False),
    ck.setval(["sched", "choice"], "fifo"),
    ck.setval(["sched", "gap"], 0),
]


def runner_for(classes):
    def run(scn):
        r = runner.run_life(entry, scn, wall=scn.get("_wall", 120))
        if r["status"] == "harness":
            return {"viol": [], "harness": r["detail"], "stats": {}}
        st = r["stats"]
        return {
            "viol": [x for x in r["verdict"] if x[0] in classes],
            "harness": None,
            "stats": st,
            "key": (st["shash"], st["ticks"], r["status"]),
            "nontrivial": st["switches"] > 10,
            "preempt_log": r["preempt_log"],
            "sample": {"status": r["status"], "virtual_s": st["now"] / 1e9, "switches": st["switches"], "counters": st["counters"]},
            "trace": r.get("trace", []),
        }

    return run
