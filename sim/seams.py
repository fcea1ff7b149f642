"""Seams: every source of nondeterminism i-PI touches is routed to the kernel.

`install()` must run before anything of i-PI is imported.  With no kernel active
(the parent process, which only imports and prepares) every replacement behaves
like the original, single-threaded.
"""

import _thread
import builtins
import errno
import io
import os
import queue
import random
import select
import selectors
import signal
import socket
import sys
import threading
import time
import types

from . import kernel as _kernel
from .kernel import ref, HarnessError, BLOCKED, READY, DONE

real = types.SimpleNamespace(
    time=time.time,
    monotonic=time.monotonic,
    perf_counter=time.perf_counter,
    sleep=time.sleep,
    time_ns=time.time_ns,
    localtime=time.localtime,
    strftime=time.strftime,
    gmtime=time.gmtime,
    ctime=time.ctime,
    open=builtins.open,
    allocate_lock=_thread.allocate_lock,
    start_new_thread=_thread.start_new_thread,
    signal=signal.signal,
    getpid=os.getpid,
    socket=socket.socket,
    select=select.select,
)


# ------------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock"""

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = ref.k
        if k is None:
            if self._locked:
                if not blocking:
                    return False
                raise HarnessError("deadlock outside the simulation")
            self._locked = True
            return True
        k.point("lock")
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            k._sync_clock()
            deadline = k.now + int(timeout * 1e9)
        while self._locked:
            t = k.cur
            self._waiters.append(t)
            try:
                why = k.park("lock", deadline)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
            if self._locked and why == "timeout":
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._force_release()
        k = ref.k
        if k is not None:
            k.point("unlock")

    def _force_release(self):
        self._locked = False
        k = ref.k
        if k is not None and self._waiters:
            n = len(self._waiters)
            i = k.rng.randrange(n) if (n > 1 and k.choice == "rand") else 0
            k.make_ready(self._waiters.pop(i), "lock")

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    __copy__ = None

    def __copy__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    """threading.RLock, with the private hooks Condition needs."""

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def _me(self):
        k = ref.k
        return ("p", 0) if k is None else ("t", k.cur.tid)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner == me and self._count:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner != self._me() or not self._count:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        # not interruptible in CPython: handlers run once the lock is held again
        k = ref.k
        sig = k is not None and k.cur is k.main
        if sig:
            k.nosig += 1
        try:
            self._block.acquire()
        finally:
            if sig:
                k.nosig -= 1
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return st

    def _is_owned(self):
        return self._owner == self._me() and self._count > 0

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.RLock' object")

    def __copy__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


def _set_sentinel():
    lock = SimLock()
    k = ref.k
    if k is not None:
        k.cur.sentinels.append(lock)
    return lock


def _start_new_thread(fn, args=(), kwargs=None):
    k = ref.k
    if k is None:
        return real.start_new_thread(fn, args, kwargs or {})
    k.point("thread-start")
    thr = getattr(fn, "__self__", None)
    name = getattr(thr, "name", "") or "thread"
    daemon = bool(getattr(thr, "daemon", True))
    t = k.spawn(
        lambda: fn(*args, **(kwargs or {})), name=name, proc=k.cur.proc, daemon=daemon
    )
    t.thread = thr
    k.count("threads_started")
    return t.tid + 1


def _excepthook(args):
    k = ref.k
    if k is None:
        return threading.__excepthook__(args)
    if args.exc_type is SystemExit:
        return
    import traceback

    if issubclass(args.exc_type, HarnessError):
        k.finish("harness", "".join(traceback.format_exception(args.exc_value)))
    k.thread_errors.append(
        (
            k.cur.name,
            args.exc_type.__name__,
            str(args.exc_value)[:300],
            "".join(traceback.format_exception(args.exc_value))[-1500:],
        )
    )
    k.log("thread-died", k.cur.name, args.exc_type.__name__)


# -------------------------------------------------------------------------- time
def _time():
    k = ref.k
    if k is None:
        return real.time()
    return (k.epoch + k.time_ns() + k.wall_skew) / 1e9


def _time_ns():
    k = ref.k
    if k is None:
        return real.time_ns()
    return k.epoch + k.time_ns() + k.wall_skew


def _mono():
    k = ref.k
    if k is None:
        return real.monotonic()
    return k.time_ns() / 1e9


def _mono_ns():
    k = ref.k
    if k is None:
        return int(real.monotonic() * 1e9)
    return k.time_ns()


def _sleep(s):
    k = ref.k
    if k is None:
        return real.sleep(s)
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    k._sync_clock()
    end = k.now + int(s * 1e9)
    k.point("sleep")
    while True:
        why = k.park("sleep", end)
        k._sync_clock()
        if why == "timeout" or k.now >= end:
            return


def _localtime(secs=None):
    return real.gmtime(_time() if secs is None else secs)


def _strftime(fmt, t=None):
    return real.strftime(fmt, _localtime() if t is None else t)


def _ctime(secs=None):
    return real.ctime(_time() if secs is None else secs)


# ----------------------------------------------------------------------- signals
def _signal(signum, handler):
    k = ref.k
    if k is None:
        return real.signal(signum, handler)
    if k.cur is not k.main:
        raise ValueError("signal only works in main thread of the main interpreter")
    old = k.handlers.get(signum, signal.SIG_DFL)
    if signum == signal.SIGINT and signum not in k.handlers:
        old = signal.default_int_handler
    k.handlers[signum] = handler
    return old


def _getsignal(signum):
    k = ref.k
    if k is None:
        return _real_getsignal(signum)
    return k.handlers.get(signum, signal.SIG_DFL)


_real_getsignal = signal.getsignal


def _getpid():
    k = ref.k
    return real.getpid() if k is None else k.cur.proc.pid


# ------------------------------------------------------------------------ stdout
class SimStdout(io.TextIOBase):
    def write(self, s):
        k = ref.k
        if k is not None and s and s != "\n" and k.cur.proc is k.main_proc:
            k.stdout.append(s[:2000])
            if len(k.stdout) > 4000:
                del k.stdout[:2000]
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# --------------------------------------------------------------- line monitoring
TOOL = 3
_codes = 0


def _on_line(code, lineno):
    k = ref.k
    if k is not None:
        k.tick += 1
        if k.tick >= k.next_slow and not k.busy:
            k.slow()


def instrument(prefixes):
    """Turns on LINE events for every function defined in files under prefixes."""
    global _codes
    import gc

    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "ipi-sim")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
    seen = set()

    def visit(code):
        global _codes
        if code in seen:
            return
        seen.add(code)
        if code.co_name != "<module>":
            mon.set_local_events(TOOL, code, mon.events.LINE)
            _codes += 1
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                visit(c)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            fn = obj.__code__.co_filename
            if any(fn.startswith(p) for p in prefixes):
                visit(obj.__code__)
    return _codes


# ----------------------------------------------------------------------- install
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    threading._set_sentinel = _set_sentinel
    threading._start_new_thread = _start_new_thread
    threading.excepthook = _excepthook
    queue.SimpleQueue = queue._PySimpleQueue
    threading._time = _mono
    queue.time = _mono
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _mono
    time.monotonic_ns = _mono_ns
    time.perf_counter = _mono
    time.perf_counter_ns = _mono_ns
    time.process_time = _mono
    time.sleep = _sleep
    time.localtime = _localtime
    time.strftime = _strftime
    time.ctime = _ctime
    signal.signal = _signal
    signal.getsignal = _getsignal
    os.getpid = _getpid
    from . import net, fs, shm, mpi

    net.install()
    fs.install()
    shm.install()
    mpi.install()
    install_memory()


# ------------------------------------------------------------ uninitialised memory
def _poison(a):
    """Memory nobody wrote holds a fixed, conspicuous value instead of what happens to be there."""
    if a.dtype.kind in "fc":
        a.fill(-7.7e3)
    elif a.dtype.kind in "iu":
        a.fill(77)
    elif a.dtype.kind == "b":
        a.fill(True)
    return a


def install_memory():
    import numpy as np

    empty, empty_like = np.empty, np.empty_like

    def _empty(*a, **kw):
        return _poison(empty(*a, **kw))

    def _empty_like(*a, **kw):
        return _poison(empty_like(*a, **kw))

    np.empty, np.empty_like = _empty, _empty_like
