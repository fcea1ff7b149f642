"""Workload: i-PI's dependency machinery (ipi/utils/depend.py), which every cached
quantity of a simulation relies on.  Random networks of values, arrays, pipes,
synchronised pairs and computed quantities are written by one thread per system and read by
several threads at once, while functions take time or fail."""

import random
import threading

import numpy as np

from . import check as ck
from . import runner


class Boom(RuntimeError):
    pass


SHAPE = (3, 2)


def T(seed):
    return np.random.RandomState(seed).rand(3, 3) + 2 * np.eye(3)


# ------------------------------------------------------------------- description
def gen_graph(rng, shared=()):
    """A list of nodes: (name, kind, data).  Dependencies only point backwards."""
    nodes = []
    for i in range(rng.randint(1, 3)):
        nodes.append({"n": "a%d" % i, "k": "val", "v": round(rng.uniform(-1, 1), 3)})
    for i in range(rng.randint(1, 2)):
        nodes.append({"n": "b%d" % i, "k": "arr", "v": [round(rng.uniform(-1, 1), 3) for _ in range(6)]})
    if rng.random() < 0.7:
        nodes.append({"n": "x", "k": "sync", "peer": "y", "t": rng.randrange(1000), "v": [round(rng.uniform(-1, 1), 3) for _ in range(6)]})
    for i in range(rng.randint(3, 9)):
        names = []
        for n in nodes:
            names += [n["n"]] + ([n["peer"]] if n["k"] == "sync" else [])
        names += list(shared)
        k = rng.choice(["fval", "farr", "farr", "fval", "pipe", "pipeitem"])
        if k == "pipe":
            nodes.append({"n": "p%d" % i, "k": "pipe", "d": [rng.choice(names)]})
        elif k == "pipeitem":
            ar = [n for n in names if is_arr(nodes, n)]
            if not ar:
                continue
            nodes.append({"n": "q%d" % i, "k": "pipeitem", "d": [rng.choice(ar)], "i": rng.randrange(3)})
        else:
            d = rng.sample(names, min(len(names), rng.randint(1, 3)))
            nodes.append({"n": "f%d" % i, "k": k, "d": d, "style": [rng.choice([0, 1, 2, 3, 0, 1, 2, 3, 4 + rng.randrange(39)]) for _ in d], "delay": rng.choice([0, 0, 0, 1e-4])})
    return nodes


def is_arr(nodes, name):
    for n in nodes:
        if n["n"] == name or n.get("peer") == name:
            if n["k"] in ("arr", "farr", "sync"):
                return True
            if n["k"] == "pipe":
                return is_arr(nodes, n["d"][0])
            return False
    return name.startswith("sb")  # shared array


# ------------------------------------------------------------------------ oracle
def fun(kind, vals):
    s = 0.3
    acc = np.zeros(SHAPE)
    for i, v in enumerate(vals):
        v = np.asarray(v, float)
        if v.shape == (2,):
            v = np.tile(v, (3, 1))
        acc = acc + np.sin((i + 1.3) * v) * (0.5 + 0.1 * i) + s
    return acc if kind == "farr" else float(acc.sum() + acc[1, 0])


class Shadow:
    def __init__(self, nodes, shared):
        self.nodes = {n["n"]: n for n in nodes}
        self.base = {}
        self.shared = shared
        for n in nodes:
            if n["k"] == "val":
                self.base[n["n"]] = n["v"]
            elif n["k"] in ("arr", "sync"):
                self.base[n["n"]] = np.array(n["v"], float).reshape(SHAPE)
            if n["k"] == "sync":
                self.nodes[n["peer"]] = {"n": n["peer"], "k": "peer", "of": n["n"], "t": n["t"]}

    def value(self, name):
        if name not in self.nodes:
            return self.shared.value(name)
        n = self.nodes[name]
        if name in self.base:
            return self.base[name]
        if n["k"] == "peer":
            return T(n["t"]) @ self.base[n["of"]]
        if n["k"] == "pipe":
            return self.value(n["d"][0])
        if n["k"] == "pipeitem":
            return self.value(n["d"][0])[n["i"]]
        return fun(n["k"], [self.value(d) for d in n["d"]])

    def above(self, name):
        """Names of everything that depends on name."""
        out = {name}
        n = self.nodes.get(name)
        if n is not None and n["k"] == "sync":
            out.add(n["peer"])
        if n is not None and n["k"] == "peer":
            out.add(n["of"])
        for m, d in self.nodes.items():
            if any(x in out for x in d.get("d", [])):
                out.add(m)
        return out


# ------------------------------------------------------------------ the real thing
def build(k, nodes, shared, scn, gid, calls):
    from ipi.utils import depend as dp

    class Holder:
        pass

    h = Holder()
    names = []

    def read(name, style):
        o = h if "_" + name in h.__dict__ else shared
        v = getattr(o, name)
        if not isinstance(v, dp.depend_array):
            return v
        if style == 0:
            return dp.dstrip(v).copy()
        if style == 1:
            return np.array(v)  # a copy, as for any array
        if style == 2:
            return np.array([dp.dstrip(v[j]) for j in range(len(v))])
        return v * 1.0

    hold = {}

    def read_held(name, how):
        """Through a reference, or a view, that was taken earlier."""
        o = h if "_" + name in h.__dict__ else shared
        key = (name, how % 3)
        if key not in hold:
            v = o.__dict__["_" + name]
            if not isinstance(v, dp.depend_array):
                return read(name, 0)
            v = getattr(o, name)
            hold[key] = v if how % 3 == 0 else (v[0:] if how % 3 == 1 else v.flatten())
        v = hold[key]
        how = how // 3
        if how == 0:
            r = np.asarray(v)
        elif how == 1:
            r = np.add(v, 0.0)
        elif how == 2:
            r = v * 1.0
        elif how == 3:
            r = np.array([np.asarray(x) for x in v])
        elif how == 4:
            r = np.array([np.asarray(v[j]) for j in range(len(v))])
        elif how == 5:
            r = np.asarray(v[:])
        elif how == 6:
            r = -(-v)
        elif how == 7:
            r = 0.0 + v
        elif how == 8:
            r = v.T.T
        elif how == 9:
            r = list(v.flat)
        elif how == 10:
            r = v.copy()
        elif how == 11:
            r = v.real
        else:
            r = v.tolist()
        return np.array(r).reshape(o.__dict__["_" + name].shape)

    def caller(n):
        def f():
            c = calls.setdefault((gid, n["n"]), [0])
            c[0] += 1
            k.evals = getattr(k, "evals", 0) + 1
            vals = [read(d, s) if s < 4 else read_held(d, s - 4) for d, s in zip(n["d"], n["style"])]
            if n.get("delay"):
                k.sleep(n["delay"])
            if scn.get("fail") and k.evals in scn["fail"]:
                k.count("function_failure")
                raise Boom(n["n"])
            return fun(n["k"], vals)

        return f

    def dep(name):
        o = h if "_" + name in h.__dict__ else shared
        return o.__dict__["_" + name]

    for n in nodes:
        nm = n["n"]
        if scn.get("ghosts") and n.get("d"):
            # a quantity of a clone that no longer exists
            ghost = dp.depend_value(name="ghost", func=lambda: 0.0, dependencies=[dep(d) for d in n["d"]])
            del ghost
        if n["k"] == "val":
            o = dp.depend_value(name=nm, value=n["v"])
        elif n["k"] == "arr":
            o = dp.depend_array(name=nm, value=np.array(n["v"], float).reshape(SHAPE))
        elif n["k"] == "sync":
            sy = dp.synchronizer()
            t = T(n["t"])
            ti = np.linalg.inv(t)
            h._x = dp.depend_array(name="x", value=np.array(n["v"], float).reshape(SHAPE), func={"y": lambda: ti @ dp.dstrip(h.y)}, synchro=sy)
            h._y = dp.depend_array(name="y", value=np.zeros(SHAPE), func={"x": lambda: t @ dp.dstrip(h.x)}, synchro=sy)
            # as the engine does: the first one is given, the other follows
            h._x.set(np.array(n["v"], float).reshape(SHAPE))
            names += ["x", "y"]
            continue
        elif n["k"] == "pipe":
            if is_arr(nodes, n["d"][0]):
                o = dp.depend_array(name=nm, value=np.zeros(SHAPE))
            elif is_row(nodes, n["d"][0]):
                o = dp.depend_array(name=nm, value=np.zeros(2))
            else:
                o = dp.depend_value(name=nm, value=0.0)
            dp.dpipe(dep(n["d"][0]), o)
        elif n["k"] == "pipeitem":
            o = dp.depend_array(name=nm, value=np.zeros(2))
            dp.dpipe(dep(n["d"][0]), o, n["i"])
        elif n["k"] == "fval":
            o = dp.depend_value(name=nm, func=caller(n), dependencies=[dep(d) for d in n["d"]])
        else:
            o = dp.depend_array(name=nm, value=np.zeros(SHAPE), func=caller(n), dependencies=[dep(d) for d in n["d"]])
        h.__dict__["_" + nm] = o
        names.append(nm)
    dp.dproperties(Holder, names)
    h.__class__ = Holder

    def any_read(name, style):
        return read(name, style) if style < 4 else read_held(name, style - 4)

    return h, any_read


def is_row(nodes, name):
    for n in nodes:
        if n["n"] == name:
            if n["k"] == "pipeitem":
                return True
            if n["k"] == "pipe":
                return is_row(nodes, n["d"][0])
    return False


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-8 * (1 + np.abs(b))))


def write(rng, h, shadow, name, dp):
    """One random write to a settable quantity, in the ways the engine writes."""
    n = shadow.nodes[name]
    if n["k"] == "val":
        v = round(rng.uniform(-1, 1), 3)
        if rng.random() < 0.3:
            setattr(h, name, getattr(h, name) + v)
            shadow.base[name] = shadow.base[name] + v
        else:
            setattr(h, name, v)
            shadow.base[name] = v
        return
    base = n["of"] if n["k"] == "peer" else name
    cur = np.array(shadow.value(name), float)
    how = rng.randrange(12)
    held = h.__dict__.setdefault("_held_for_writing", {})
    if how >= 8 and name not in held:
        held[name] = (getattr(h, name), [getattr(h, name)[r] for r in range(3)])
    new = np.array([rng.uniform(-1, 1) for _ in range(6)]).reshape(SHAPE)
    i, j = rng.randrange(3), rng.randrange(2)
    if how == 0:
        setattr(h, name, new)
        cur = new
    elif how == 1:
        getattr(h, name)[:] = new
        cur = new
    elif how == 2:
        getattr(h, name)[i] = new[i]
        cur[i] = new[i]
    elif how == 3:
        getattr(h, name)[i, j] = new[i, j]
        cur[i, j] = new[i, j]
    elif how == 4:
        getattr(h, name)[i:] *= 1.5
        cur[i:] *= 1.5
    elif how == 5:
        v = getattr(h, name)[i]
        v[:] = new[i]
        cur[i] = new[i]
    elif how == 6:
        v = getattr(h, name).flatten()
        v[2 * i + j] = new[i, j]
        cur[i, j] = new[i, j]
    elif how == 8:  # through a reference that was taken earlier
        held[name][0][i] = new[i]
        cur[i] = new[i]
    elif how == 9:
        held[name][1][i][j] = new[i, j]
        cur[i, j] = new[i, j]
    elif how == 10:
        held[name][1][i][:] = new[i]
        cur[i] = new[i]
    elif how == 11:
        held[name][0][:, j] = new[:, j]
        cur[:, j] = new[:, j]
    else:
        v = getattr(h, name)
        v += new
        setattr(h, name, v)
        cur = cur + new
    if n["k"] == "peer":
        shadow.base[base] = np.linalg.inv(T(n["t"])) @ cur
    else:
        shadow.base[base] = cur


def entry(k, scn):
    from ipi.utils import depend as dp

    v = []
    k.stage = "start"

    def done(status, detail):
        out = list(v)
        if status in ("deadlock", "livelock", "timeout"):
            out.append(("liveness", "%s %s" % (status, detail[:200])))
        elif k.outcome and k.outcome[0] == "raised":
            out.append(("liveness", "the main thread died: %s" % (k.outcome[1:3],)))
        elif k.thread_errors:
            out.append(("liveness", "a thread died: %s" % (k.thread_errors[0][:3],)))
        return {"verdict": out, "trace": ["%d %.6f %s" % (e[0], e[1] / 1e9, e[2:]) for e in k.events[-120:]]}

    k.on_finish = done
    calls = {}
    sh_nodes = scn["shared"]
    sh_shadow = Shadow(sh_nodes, None)
    shared, sread = build(k, sh_nodes, None, scn, "s", calls)
    graphs = []
    for g, nodes in enumerate(scn["graphs"]):
        h, read = build(k, nodes, shared, scn, g, calls)
        graphs.append((h, read, Shadow(nodes, sh_shadow)))
    dirty = {(g, n) for g, (h, r, s) in enumerate(graphs) for n in s.nodes} | {("s", n) for n in sh_shadow.nodes}
    quiet = not scn.get("fail")
    snaps = []

    def mark(gid, shadow, name):
        up = shadow.above(name)
        dirty.update((gid, n) for n in up)
        if gid == "s":
            for g, (h, r, s) in enumerate(graphs):
                for n, d in s.nodes.items():
                    if any(x in up for x in d.get("d", [])):
                        dirty.update((g, m) for m in s.above(n))

    def reader(gid, h, read, shadow, seed, todo):
        rng = random.Random(seed)
        for name in todo:
            own = name in shadow.nodes
            try:
                got = read(name, rng.randrange(4) if rng.random() < 0.6 else 4 + rng.randrange(39))
            except Boom:
                continue
            want = shadow.value(name)
            snaps.append((name, got, np.array(np.asarray(got))))
            if not same(got, want):
                v.append(("stale", "system %s reads %s as %s instead of %s" % (gid, name, np.asarray(got).tolist(), np.asarray(want).tolist())))
                return

    def system(gid, rnd):
        h, read, shadow = graphs[gid]
        rng = random.Random("sys-%s-%d-%d" % (scn["seed"], gid, rnd))
        settable = [n for n, d in shadow.nodes.items() if d["k"] in ("val", "arr", "sync", "peer")]
        names = list(shadow.nodes) + list(sh_shadow.nodes)
        for it in range(scn["iters"]):
            for w in range(rng.randint(0, 3)):
                nm = rng.choice(settable)
                try:
                    write(rng, h, shadow, nm, dp)
                except Boom:
                    continue
                mark(gid, shadow, nm)
                if rng.random() < 0.4:
                    reader(gid, h, read, shadow, rng.random(), [rng.choice(names)])
            before = {key: c[0] for key, c in calls.items()}
            ths = []
            for r in range(scn["readers"]):
                ths.append(threading.Thread(target=reader, args=(gid, h, read, shadow, rng.random(), [rng.choice(names) for _ in range(scn["reads"])]), name="read%d.%d" % (gid, r)))
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if quiet:
                for (g, n), c in calls.items():
                    if g == gid and c[0] - before.get((g, n), 0) > 1:
                        v.append(("once", "system %s: %s was computed %d times although nothing changed in the meantime" % (g, n, c[0] - before.get((g, n), 0))))
            if v:
                return

    for rnd in range(scn["rounds"]):
        rng = random.Random("round-%s-%d" % (scn["seed"], rnd))
        if rnd:
            for n in sh_nodes:
                if n["k"] in ("val", "arr") and rng.random() < 0.7:
                    write(rng, shared, sh_shadow, n["n"], dp)
                    mark("s", sh_shadow, n["n"])
        before = {key: c[0] for key, c in calls.items()}
        ths = [threading.Thread(target=system, args=(g, rnd), name="system%d" % g) for g in range(len(graphs))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if quiet:
            for (g, n), c in calls.items():
                if g == "s" and c[0] - before.get((g, n), 0) > 1:
                    v.append(("once", "shared quantity %s was computed %d times although nothing changed" % (n, c[0] - before.get((g, n), 0))))
        if v:
            break
    if quiet and not v:
        # at rest: everything is read once, then again; the second time nothing is computed
        for again in (0, 1):
            before = {key: c[0] for key, c in calls.items()}
            for g, (h, read, s) in enumerate(graphs):
                reader(g, h, read, s, 1, list(s.nodes))
            if again:
                for key, c in calls.items():
                    if c[0] != before.get(key, 0):
                        v.append(("once", "%s is computed again although nothing changed" % (key,)))
    for name, got, then in snaps:
        if not v and not np.array_equal(np.asarray(got), then):
            v.append(("stale", "a copy of %s changed after it was taken" % name))
    k.stage = "end"


def gen(rng, i):
    sh = [{"n": "sa", "k": "val", "v": 0.4}, {"n": "sb", "k": "arr", "v": [0.1, 0.2, 0.3, 0.4, 0.5, 0.6]}]
    if rng.random() < 0.6:
        sh.append({"n": "sf", "k": "fval", "d": ["sa", "sb"], "style": [0, 1], "delay": rng.choice([0, 1e-4])})
    graphs = [gen_graph(rng, [n["n"] for n in sh]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {
        "seed": rng.randrange(1 << 30),
        "shared": sh,
        "graphs": graphs,
        "ghosts": rng.random() < 0.4,
        "rounds": rng.choice([1, 2, 3]),
        "iters": rng.choice([1, 2, 4]),
        "readers": rng.choice([1, 2, 3, 4]),
        "reads": rng.choice([1, 2, 4]),
        "sched": {"seed": rng.randrange(1 << 30), "gap": rng.choice([1, 3, 10, 40, 200]), "choice": rng.choice(["random", "random", "pct", "fifo"]), "quantum": rng.choice([300, 3000, 20000])},
        "max_time": 300.0,
        "max_switches": 400000,
    }


def gen_fail(rng, i):
    scn = gen(rng, i)
    scn["fail"] = sorted(rng.sample(range(1, 25), rng.randint(1, 4)))
    return scn


REDUCERS = [
    ck.drop_items(["graphs"]),
    ck.lower(["rounds"]),
    ck.lower(["iters"]),
    ck.lower(["readers"]),
    ck.lower(["reads"]),
    ck.setval(["sched", "choice"], "fifo"),
    ck.setval(["sched", "gap"], 0),
]


def runner_for(classes):
    def run(scn):
        r = runner.run_life(entry, scn, wall=scn.get("_wall", 120))
        if r["status"] == "harness":
            return {"viol": [], "harness": r["detail"], "stats": {}}
        st = r["stats"]
        return {
            "viol": [x for x in r["verdict"] if x[0] in classes],
            "harness": None,
            "stats": st,
            "key": (st["shash"], st["ticks"], r["status"]),
            "nontrivial": st["switches"] > 10,
            "preempt_log": r["preempt_log"],
            "sample": {"status": r["status"], "virtual_s": st["now"] / 1e9, "switches": st["switches"], "counters": st["counters"]},
            "trace": r.get("trace", []),
        }

    return run
