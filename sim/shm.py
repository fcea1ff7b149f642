"""In-memory stand-in for multiprocessing.shared_memory / resource_tracker."""

from multiprocessing import shared_memory, resource_tracker

from .kernel import ref

_RealSHM = shared_memory.SharedMemory


class SimSharedMemory:
    def __init__(self, name=None, create=False, size=0, **kw):
        k = ref.k
        if k is None:
            raise RuntimeError("shared memory used outside the simulation")
        reg = k.__dict__.setdefault("shm", {})
        k.point("shm-open")
        if create:
            if size <= 0:
                raise ValueError("'size' must be a positive number different from zero")
            if name is None:
                name = "psm_%08x" % (len(reg) + 1)
            if name in reg:
                raise FileExistsError(17, "File exists", "/" + name)
            reg[name] = bytearray(size)
            k.log("shm-create", name, size, k.cur.proc.name)
        else:
            if name not in reg:
                raise FileNotFoundError(2, "No such file or directory", "/" + name)
            k.log("shm-attach", name, k.cur.proc.name)
        self._name = "/" + name
        self.name = name
        self._mem = reg[name]
        self.size = len(self._mem)
        self._closed = False

    @property
    def buf(self):
        return None if self._closed else memoryview(self._mem)

    def close(self):
        self._closed = True

    def unlink(self):
        k = ref.k
        reg = k.__dict__.setdefault("shm", {})
        if self.name not in reg:
            raise FileNotFoundError(2, "No such file or directory", self._name)
        del reg[self.name]
        k.log("shm-unlink", self.name, k.cur.proc.name)

    def __del__(self):
        pass


def install():
    shared_memory.SharedMemory = SimSharedMemory
    resource_tracker.unregister = lambda *a, **k: None
    resource_tracker.register = lambda *a, **k: None
