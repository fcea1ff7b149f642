"""The reference potential of the simulator, as a custom PES for i-PI."""

import json
import time

import numpy as np

from ipi.pes.dummy import Dummy_driver

__DRIVER_NAME__ = "simpes"
__DRIVER_CLASS__ = "Sim_driver"


class Injected(RuntimeError):
    """The failure of an evaluation, injected by the simulator."""


def surface(h, x, inv=0, anh=0.0):
    """pot, forces (n,3), virial.  inv=1: invariant under rotations; anh: strength of an
    anharmonic term that depends on the orientation."""
    from sim.clients import pes

    if not inv:
        p, f, v = pes(h, x)
        f = f.reshape(-1, 3)
        if anh:
            q = np.asarray(x, float).reshape(-1, 3)
            c = anh * (np.array([1.0, 0.4, 0.1]) + 0.05 * np.arange(len(q))[:, None])
            d = -c * (3 * q**2 + 0.4 * q**3)
            p, f, v = p + float(np.sum(c * (q**3 + 0.1 * q**4))), f + d, v + np.dot(d.T, q)
        return p, f, v
    x = np.asarray(x, float).reshape(-1, 3)
    h = np.asarray(h, float).reshape(3, 3)
    w = 0.01 * (1.0 + 0.1 * np.arange(len(x)))[:, None]
    f = -w * x
    hh = np.dot(h, h.T)
    return 0.5 * float(np.sum(w * x * x)) + 1e-3 * float(np.trace(hh)), f, np.dot(f.T, x) + 2e-3 * hh


def committee(p, f, v, n):
    """The members of a committee that one evaluation returns in its extras."""
    return [((1 + 0.1 * m) * p + m, (1 + 0.1 * m) * f, (1 + 0.1 * m) * v) for m in range(n)]


class Sim_driver(Dummy_driver):
    def __init__(self, scale=1.0, delay=0.0, fail=0, inv=0, com=0, tag="", anh=0.0, bec=0, *args, **kwargs):
        self.scale = float(scale)
        self.delay = float(delay)
        self.fail = int(fail)
        self.inv = int(inv)
        self.com = int(com)
        self.anh = float(anh)
        self.bec = int(bec)
        self.tag = str(tag).strip()
        self.calls = 0
        super().__init__(*args, **kwargs)

    def compute_structure(self, cell, pos):
        from sim.kernel import ref

        self.calls += 1
        n = self.calls
        k = ref.k
        log = getattr(k, "pes_calls", None) if k is not None else None
        if log is not None:
            log.append((self.tag, np.array(cell, copy=True), np.array(pos, copy=True)))
        if self.delay:
            time.sleep(self.delay)
        if self.fail and n == self.fail:
            if k is not None:
                k.count("pes_failure")
                k.log("pes", "fails")
                k.t_fail = k.now
                if hasattr(k, "marks"):
                    k.marks["t_fail"] = k.now
            raise Injected("evaluation %d of %s fails" % (n, self.tag))
        pot, f, vir = surface(cell, pos, self.inv, self.anh)
        s = self.scale
        pot, f, vir = s * pot, s * f.reshape(np.shape(pos)), s * vir
        ext = {"dipole": [pot, float(f.reshape(-1)[0]), 1.0]}
        if self.bec:
            n = np.size(pos) // 3
            z = np.zeros((n, 3, 3))
            for i in range(n - 1):
                z[i] = (0.3 + 0.1 * i) * np.eye(3) + 0.02 * np.outer(f.reshape(-1, 3)[i], pos.reshape(-1, 3)[i])
            z[-1] = -z[:-1].sum(axis=0) + 0.01
            ext["BEC"] = z.reshape(3 * n, 3).tolist()
        if self.com:
            m = committee(pot, f, vir, self.com)
            ext = {
                "committee_pot": [a[0] for a in m],
                "committee_force": [list(a[1].reshape(-1)) for a in m],
                "committee_virial": [list(a[2].reshape(-1)) for a in m],
            }
        return pot, f, vir, json.dumps(ext)
