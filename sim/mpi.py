"""A simulated MPI: ranks are simulated processes, messages are delayed and
non-overtaking per (source, destination), sends may be eager or rendezvous."""

import random
import sys
import types

import numpy as np

from .kernel import ref, HarnessError

ANY_SOURCE = -1
ANY_TAG = -1


class _DT:
    def __init__(self, name, size):
        self.name = name
        self.size = size


INT = _DT("INT", 4)
DOUBLE = _DT("DOUBLE", 8)
BYTE = _DT("BYTE", 1)


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1
        self.nbytes = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, dt=BYTE):
        return self.nbytes // dt.size


class _Msg:
    __slots__ = ("src", "tag", "data", "done", "waiter", "dt")


class World:
    """Shared state of the simulated job; lives on the kernel."""

    def __init__(self, k, nranks, cfg=None):
        cfg = cfg or {}
        self.k = k
        self.n = nranks
        self.rng = random.Random("mpi-%s" % cfg.get("seed", 0))
        self.lat = cfg.get("lat", 20e-6)
        self.rendezvous = cfg.get("rendezvous", 0.0)
        self.groups = {}
        self.comm_world = CommState(self, list(range(nranks)))
        self.aborted = False


class CommState:
    def __init__(self, world, ranks):
        self.world = world
        self.ranks = ranks  # world ranks
        self.queues = {r: [] for r in ranks}
        self.last = {}
        self.waiters = {r: [] for r in ranks}
        self.coll = {}
        self.collseq = {r: 0 for r in ranks}


def _myrank():
    r = getattr(ref.k.cur.proc, "mpi_rank", None)
    if r is None:
        raise HarnessError("MPI call from a process that is not a rank")
    return r


def _buf(spec):
    if isinstance(spec, (list, tuple)):
        return np.asarray(spec[0]), spec[1]
    a = np.asarray(spec)
    return a, BYTE


class Comm:
    def __init__(self, getter):
        self._get = getter

    @property
    def s(self):
        return self._get()

    def Get_rank(self):
        return self.s.ranks.index(_myrank())

    def Get_size(self):
        return len(self.s.ranks)

    rank = property(Get_rank)
    size = property(Get_size)

    # -- point to point
    def Send(self, spec, dest, tag=0):
        k = ref.k
        k.point("mpi-send")
        s = self.s
        w = s.world
        a, dt = _buf(spec)
        m = _Msg()
        m.src = self.Get_rank()
        m.tag = tag
        m.data = a.tobytes()
        m.dt = dt.name
        m.done = False
        m.waiter = None
        dst = s.ranks[dest]
        key = (m.src, dest)
        k._sync_clock()
        t = max(
            s.last.get(key, 0),
            k.now + int(w.rng.expovariate(1.0 / w.lat) * 1e9),
        )
        s.last[key] = t
        k.log("mpi-send", m.src, dest, tag, len(m.data))

        def arrive():
            s.queues[dst].append(m)
            ws, s.waiters[dst] = s.waiters[dst], []
            for x in ws:
                k.make_ready(x, "mpi")

        k.at(t, arrive)
        if w.rendezvous and w.rng.random() < w.rendezvous:
            k.count("mpi_rendezvous_send")
            while not m.done:
                m.waiter = k.cur
                k.park("mpi-send")

    def _find(self, source, tag):
        s = self.s
        q = s.queues[_myrank()]
        cand = []
        seen = set()
        for m in q:
            if source not in (ANY_SOURCE, m.src):
                continue
            if tag not in (ANY_TAG, m.tag):
                continue
            if m.src in seen:
                continue
            seen.add(m.src)
            cand.append(m)
        return cand

    def _await(self, source, tag, where):
        k = ref.k
        while True:
            c = self._find(source, tag)
            if c:
                return (
                    c[0] if len(c) == 1 else c[self.s.world.rng.randrange(len(c))]
                )
            self.s.waiters[_myrank()].append(k.cur)
            k.park(where)

    def _fill(self, status, m):
        if status is not None:
            status.source = m.src
            status.tag = m.tag
            status.nbytes = len(m.data)

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        ref.k.point("mpi-probe")
        m = self._await(source, tag, "mpi-probe")
        self._fill(status, m)
        return True

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        ref.k.point("mpi-iprobe")
        c = self._find(source, tag)
        if not c:
            return False
        self._fill(status, c[0])
        return True

    def Recv(self, spec, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        k = ref.k
        k.point("mpi-recv")
        m = self._await(source, tag, "mpi-recv")
        self.s.queues[_myrank()].remove(m)
        a, dt = _buf(spec)
        nb = a.size * a.itemsize
        if nb < len(m.data):
            raise RuntimeError("MPI_ERR_TRUNCATE: message truncated")
        if a.size:
            flat = a.reshape(-1).view(np.uint8)
            flat[: len(m.data)] = np.frombuffer(m.data, np.uint8)
        self._fill(status, m)
        m.done = True
        if m.waiter is not None:
            k.make_ready(m.waiter, "mpi")

    # -- collectives
    def _collective(self, value):
        """All ranks contribute a value; returns the dict rank -> value."""
        k = ref.k
        k.point("mpi-coll")
        s = self.s
        me = _myrank()
        n = s.collseq[me]
        s.collseq[me] += 1
        ent = s.coll.setdefault(n, {"v": {}, "w": [], "out": None})
        ent["v"][me] = value
        if len(ent["v"]) == len(s.ranks):
            for x in ent["w"]:
                k.make_ready(x, "mpi")
        else:
            while len(ent["v"]) < len(s.ranks):
                ent["w"].append(k.cur)
                k.park("mpi-coll")
        return ent

    def allgather(self, v):
        ent = self._collective(v)
        return [ent["v"][r] for r in self.s.ranks]

    def Barrier(self):
        self._collective(None)

    def Split(self, color=0, key=0):
        ent = self._collective((color, key))
        if ent["out"] is None:
            out = {}
            for r in self.s.ranks:
                out.setdefault(ent["v"][r][0], []).append((ent["v"][r][1], r))
            ent["out"] = {
                c: CommState(self.s.world, [r for _, r in sorted(v)])
                for c, v in out.items()
            }
        st = ent["out"][color]
        return Comm(lambda: st)

    def Bcast(self, spec, root=0):
        a, dt = _buf(spec)
        me_root = self.Get_rank() == root
        ent = self._collective(a.tobytes() if me_root else None)
        if not me_root:
            data = ent["v"][self.s.ranks[root]]
            flat = a.reshape(-1).view(np.uint8)
            flat[: len(data)] = np.frombuffer(data, np.uint8)

    def Abort(self, code=1):
        k = ref.k
        k.log("mpi-abort", code)
        k.finish("mpi-abort", "MPI_Abort(%d)" % code)


COMM_WORLD = Comm(lambda: ref.k.mpi_world.comm_world)


def install():
    pkg = types.ModuleType("mpi4py")
    mod = types.ModuleType("mpi4py.MPI")
    for n in (
        "ANY_SOURCE",
        "ANY_TAG",
        "INT",
        "DOUBLE",
        "BYTE",
        "Status",
        "Comm",
        "COMM_WORLD",
    ):
        setattr(mod, n, globals()[n])
    mod.Finalize = lambda: None
    mod.Is_initialized = lambda: True
    mod.Query_thread = lambda: 3
    mod.THREAD_MULTIPLE = 3
    mod.THREAD_SERIALIZED = 2
    mod.UNSIGNED_CHAR = BYTE
    mod.CHAR = BYTE
    mod.FLOAT64 = DOUBLE
    mod.INT32_T = INT
    pkg.MPI = mod
    pkg.rc = types.SimpleNamespace(thread_level="multiple", initialize=True)
    pkg.__path__ = []
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mod
