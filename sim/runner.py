"""Boots the simulated world once, then forks one child per simulated process
lifetime so that every run starts from the same pristine interpreter state."""

import gc
import importlib
import importlib.util
import io
import json
import os
import pickle
import pkgutil
import select as _select
import signal as _signal
import struct
import sys
import time as _t

REPO = os.environ.get("SIM_REPO", "/repo")  # (another tree only while developing)

_rt = _t.monotonic
_rselect = _select.select
_rread = os.read
_rwrite = os.write
_rclose = os.close
_rkill = os.kill
_rwaitpid = os.waitpid
_rpipe = os.pipe
_rfork = os.fork

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
}

booted = False
ipi_script = None
driver_mod = None
notes = {}


def reexec():
    """Pins the environment (hash seed, BLAS threads) by re-executing once."""
    want = dict(ENV)
    want["PYTHONHASHSEED"] = os.environ.get("SIM_HASHSEED", "0")
    want["PYTHONDONTWRITEBYTECODE"] = "1"
    if any(os.environ.get(k) != v for k, v in want.items()):
        env = dict(os.environ)
        env.update(want)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)


_prctl = None


def die_with_parent():
    """The calling process is killed when its parent ends."""
    global _prctl
    if _prctl is None:
        import ctypes

        _prctl = ctypes.CDLL(None).prctl
    _prctl(1, int(_signal.SIGKILL))


def _load(path, name):
    import importlib.machinery

    loader = importlib.machinery.SourceFileLoader(name, path)
    spec = importlib.util.spec_from_loader(name, loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    loader.exec_module(mod)
    return mod


def boot():
    """Installs the seams, imports everything of i-PI, instruments its lines."""
    global booted, ipi_script, driver_mod
    if booted:
        return
    booted = True
    sys.dont_write_bytecode = True
    if any(m == "ipi" or m.startswith("ipi.") for m in sys.modules):
        raise RuntimeError("i-PI was imported before the simulator was in place")
    sys.path.insert(0, REPO)
    # imports of third parties happen with the real primitives
    import numpy
    import numpy.linalg
    import numpy.random
    import numpy.fft
    import scipy
    import scipy.linalg
    import scipy.interpolate
    import scipy.special
    import scipy.optimize
    import scipy.sparse
    import scipy.integrate
    import json, copy, xml.sax, tracemalloc, logging, warnings, optparse, argparse
    import concurrent.futures, concurrent.futures.thread
    import traceback, shutil, tempfile, hashlib

    try:
        import ase, ase.io, ase.calculators.lj
    except Exception:
        pass
    warnings.simplefilter("ignore")
    from . import seams

    seams.install()
    # concurrent.futures keeps module-level locks: make them simulated ones
    import concurrent.futures.thread as cft
    from .fs import _uninterruptible

    # CPython's pool is not safe against exceptions raised by signal handlers while
    # it adds a worker; that is not what is checked here
    cft.ThreadPoolExecutor.submit = _uninterruptible(cft.ThreadPoolExecutor.submit)
    import threading

    cft._global_shutdown_lock = threading.Lock()

    import ipi

    bad = []
    for m in pkgutil.walk_packages(ipi.__path__, "ipi."):
        if ".external" in m.name or ".pes." in m.name or ".utils.tools" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception as e:
            bad.append((m.name, repr(e)[:100]))
    notes["unimportable"] = bad
    for p in ("dummy", "harmonic", "lj", "dw", "dw_explicit", "dw_friction", "morse", "DW_bath", "water_dip_pol"):
        try:
            importlib.import_module("ipi.pes." + p)
        except Exception:
            pass
    try:
        import ipi.pes as pes

        for p in ("dummy", "harmonic"):
            pes.load_pes(p)
    except Exception as e:
        notes["pes"] = repr(e)
    ipi_script = _load(REPO + "/bin/i-pi", "sim_ipi_script")
    driver_mod = _load(REPO + "/drivers/py/driver.py", "sim_py_driver")
    notes["codes"] = seams.instrument((REPO + "/ipi/", REPO + "/drivers/py/", REPO + "/bin/i-pi"))
    gc.collect()
    gc.freeze()
    gc.disable()


def _read_all(fd, wall):
    """Reads until EOF or the wall-clock limit; returns (bytes, timed_out)."""
    buf = io.BytesIO()
    end = _rt() + wall
    while True:
        left = end - _rt()
        if left <= 0:
            return buf.getvalue(), True
        r, _, _ = _rselect([fd], [], [], min(left, 5.0))
        if not r:
            continue
        b = _rread(fd, 1 << 16)
        if not b:
            return buf.getvalue(), False
        buf.write(b)


def run_life(entry, scn, image=None, wall=120.0):
    """Runs entry(k, scn) as the main task of a fresh simulated i-PI process.

    Returns the result dictionary shipped by Kernel.finish()."""
    r, w = _rpipe()
    pid = _rfork()
    if pid == 0:
        try:
            die_with_parent()
            _rclose(r)
            _child(entry, scn, image, w)
        except BaseException:
            import traceback

            try:
                data = pickle.dumps(
                    {"status": "harness", "detail": traceback.format_exc()}
                )
                _rwrite(w, data)
            except BaseException:
                pass
        os._exit(0)
    _rclose(w)
    data, late = _read_all(r, wall)
    _rclose(r)
    if late:
        _rkill(pid, _signal.SIGKILL)
    _rwaitpid(pid, 0)
    if late:
        return {"status": "harness", "detail": "wall-clock limit", "wall": True}
    if not data:
        return {"status": "harness", "detail": "child died without a result"}
    return pickle.loads(data)


def _child(entry, scn, image, w):
    from . import kernel, net, fs, seams, mpi

    _signal.setitimer if False else None
    k = kernel.Kernel(
        scn.get("sched", {}),
        w,
        max_ticks=scn.get("max_ticks", 3_000_000),
        max_time=scn.get("max_time", 3600.0),
    )
    k.scn = scn
    k.max_switches = scn.get("max_switches", 1 << 60)
    k.net = net.Net(k, net.NetCfg(scn.get("net")))
    k.fs = fs.SimFS(k, image, scn.get("fs", {}).get("seed", 0))
    for f in scn.get("fs", {}).get("faults", []):
        k.fs.faults.append(dict(f))
    sys.stdout = seams.SimStdout()
    sys.stderr = seams.SimStdout()
    kernel.ref.k = k
    k.outcome = None
    try:
        entry(k, scn)
        k.outcome = ("returned", None)
    except SystemExit as e:
        k.outcome = ("exit", e.code)
    except kernel.HarnessError:
        raise
    except KeyboardInterrupt as e:
        k.outcome = ("raised", "KeyboardInterrupt", "", "")
    except BaseException as e:
        import traceback

        tb = traceback.format_exc()
        k.outcome = ("raised", type(e).__name__, str(e)[:300], tb[-2500:])
        # an exception whose innermost frame is simulator code, not i-PI's
        # behaviour, still ends the process like any exception would
    try:
        shutdown(k)
    except (SystemExit, KeyboardInterrupt):
        pass  # (the interpreter reports and ignores them, and joins nobody else)
    k.finish("ended")


def shutdown(k):
    """What the interpreter does when the main thread is over: runs the exit
    hooks of the thread machinery and joins every non-daemon thread."""
    import threading

    for call in reversed(list(threading._threading_atexits)):
        call()
    k.allow_signals = True
    for t in list(k.tasks):
        if t is k.main or t.daemon or t.proc is not k.main_proc:
            continue
        while t.state != 2:
            k._sync_clock()
            k.park("exit-join", k.now + 50_000_000)


def pmap(fn, items, workers, progress=None):
    """Maps fn over items in forked workers; yields (index, result) unordered.

    Each item is processed in a worker that never runs i-PI code itself."""
    items = list(items)
    if not items:
        return
    workers = max(1, min(workers, len(items)))
    jr, jw = _rpipe()
    pids, fds = [], []
    for _ in range(workers):
        r, w = _rpipe()
        pid = _rfork()
        if pid == 0:
            try:
                die_with_parent()
                _rclose(r)
                _rclose(jw)
                while True:
                    b = _rread(jr, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack("<I", b)[0]
                    try:
                        res = fn(items[i])
                    except BaseException:
                        import traceback

                        res = {"harness": traceback.format_exc()}
                    data = pickle.dumps((i, res), protocol=4)
                    data = struct.pack("<Q", len(data)) + data
                    mv = memoryview(data)
                    while mv:
                        n = _rwrite(w, mv[: 1 << 16])
                        mv = mv[n:]
            finally:
                os._exit(0)
        _rclose(w)
        pids.append(pid)
        fds.append(r)
    _rclose(jr)
    nxt = 0
    bufs = {f: bytearray() for f in fds}
    live = set(fds)
    # feed the job pipe lazily (it holds at most 64 kB)
    inflight = 0
    try:
        while nxt < len(items) and inflight < 4000:
            _rwrite(jw, struct.pack("<I", nxt))
            nxt += 1
            inflight += 1
        if nxt >= len(items):
            _rclose(jw)
            jw = None
        while live:
            r, _, _ = _rselect(sorted(live), [], [], 10.0)
            for f in r:
                b = _rread(f, 1 << 20)
                if not b:
                    live.discard(f)
                    continue
                bufs[f] += b
                while len(bufs[f]) >= 8:
                    ln = struct.unpack("<Q", bytes(bufs[f][:8]))[0]
                    if len(bufs[f]) < 8 + ln:
                        break
                    i, res = pickle.loads(bytes(bufs[f][8 : 8 + ln]))
                    del bufs[f][: 8 + ln]
                    inflight -= 1
                    if jw is not None:
                        if nxt < len(items):
                            _rwrite(jw, struct.pack("<I", nxt))
                            nxt += 1
                            inflight += 1
                        if nxt >= len(items):
                            _rclose(jw)
                            jw = None
                    yield i, res
    finally:
        if jw is not None:
            _rclose(jw)
        for f in fds:
            try:
                _rclose(f)
            except OSError:
                pass
        for p in pids:
            try:
                _rkill(p, _signal.SIGKILL)
            except OSError:
                pass
            _rwaitpid(p, 0)
