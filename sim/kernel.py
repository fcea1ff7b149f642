"""Deterministic scheduler: one seed, one execution.

Real Python threads are parked and released one at a time (each owns a baton
lock); which one runs next, when a running one is preempted, when timers fire,
when signals are delivered and when the process is killed are all decided here,
from the scenario document and the pseudo-random streams it seeds.

Time is virtual (integer nanoseconds).  It advances by a fixed cost per executed
line of i-PI code, and jumps to the next timer when nothing is runnable.
"""

import _thread
import gc
import heapq
import io
import os
import pickle
import random
import sys
import types

_os_write = os.write

LINE_NS = 200  # virtual cost of one executed line / one intercepted operation
MAX_SLICE = 256  # ticks between two looks at the timer queue


class ref:
    """Holder for the active kernel (None in the parent process)."""

    k = None


READY, BLOCKED, DONE = 0, 1, 2


class Proc:
    """A simulated operating-system process."""

    def __init__(self, name, pid):
        self.name = name
        self.pid = pid
        self.fds = {}
        self.alive = True
        self.tasks = []

    def lowest_fd(self):
        fd = 3
        while fd in self.fds:
            fd += 1
        return fd


class Task:
    __slots__ = (
        "tid",
        "name",
        "proc",
        "baton",
        "state",
        "wake",
        "timer",
        "daemon",
        "sentinels",
        "ran_at",
        "where",
        "thread",
    )

    def __init__(self, tid, name, proc, daemon):
        self.tid = tid
        self.name = name
        self.proc = proc
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = READY
        self.wake = None
        self.timer = None
        self.daemon = daemon
        self.sentinels = []
        self.ran_at = 0
        self.where = ""
        self.thread = None


class HarnessError(Exception):
    """Something the simulator does not support, or an error of its own."""


class Kernel:
    def __init__(self, sched, out_fd, max_ticks=3_000_000, max_time=3600.0):
        """sched: dict with
            seed     - seed of the scheduling stream
            gap      - mean number of ticks between random preemptions (0: none)
            preempts - explicit list of ticks to preempt at (replaces gap)
            quantum  - ticks after which a running task yields to others
            choice   - "rand" or "fifo": who runs next
            wake     - probability that a task woken by another one takes over
                       within the next few lines
        """
        self.sched = dict(sched)
        self.rng = random.Random("sched-%s" % sched.get("seed", 0))
        self.out_fd = out_fd
        self.now = 0
        self.epoch = 1_700_000_000 * 10**9
        self.wall_skew = 0
        self.tick = 0
        self.last_tick = 0
        self.next_slow = 0
        self.max_ticks = max_ticks
        self.max_switches = 1 << 60
        self.max_time = int(max_time * 1e9)
        self.tasks = []
        self.timers = []
        self.tseq = 0
        self.busy = False
        self.procs = []
        self.main_proc = self.new_proc("ipi")
        self.main = Task(0, "main", self.main_proc, False)
        self.main.ran_at = 0
        self.tasks.append(self.main)
        self.main_proc.tasks.append(self.main)
        self.cur = self.main
        self.slice_start = 0
        self.preempts = sched.get("preempts")
        self.preempt_log = []
        self.quantum = int(sched.get("quantum", 5000))
        self.gap = sched.get("gap", 0)
        self.choice = sched.get("choice", "rand")
        self.wake = sched.get("wake", 0)
        self.wake_rng = random.Random("wake-%s" % sched.get("seed", 0))
        self.wake_at = 1 << 60
        self.woken = None
        self.pi = 0
        self.next_preempt = self._draw_preempt()
        self.tick_events = []  # sorted list of (tick, seq, fn)
        self.nosig = 0  # inside an uninterruptible system call
        self.pending_signals = []
        self.handlers = {}
        self.switches = 0
        self.switch_hash = 0
        self.events = []  # the recorded history
        self.counters = {}
        self.thread_errors = []
        self.stdout = []
        self.on_finish = None
        self.finished = False
        self.allow_signals = True

    # ---------------------------------------------------------------- processes
    def new_proc(self, name):
        p = Proc(name, 1000 + len(self.procs))
        self.procs.append(p)
        return p

    def kill_proc(self, proc):
        """Kills a simulated process other than i-PI: its tasks never run again."""
        proc.alive = False
        for t in proc.tasks:
            if t.state != DONE:
                t.state = DONE
        if self.cur.proc is proc:
            self._leave()

    # ------------------------------------------------------------------ history
    def log(self, *ev):
        self.events.append((self.tick, self.now) + ev)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # -------------------------------------------------------------------- timers
    def at(self, t, fn):
        self.tseq += 1
        ent = [int(t), self.tseq, fn]
        heapq.heappush(self.timers, ent)
        return ent

    def after(self, seconds, fn):
        self._sync_clock()
        return self.at(self.now + int(max(0.0, seconds) * 1e9), fn)

    def cancel(self, ent):
        if ent is not None:
            ent[2] = None

    def at_tick(self, tick, fn):
        self.tseq += 1
        self.tick_events.append((tick, self.tseq, fn))
        self.tick_events.sort(key=lambda e: e[:2])
        self.next_slow = min(self.next_slow, tick)

    def _sync_clock(self):
        self.now += (self.tick - self.last_tick) * LINE_NS
        self.last_tick = self.tick

    def _fire_due(self):
        while self.timers and self.timers[0][0] <= self.now:
            ent = heapq.heappop(self.timers)
            if ent[2] is not None:
                fn = ent[2]
                ent[2] = None
                fn()

    # ----------------------------------------------------------------- ticking
    def _draw_preempt(self):
        if self.preempts is not None:
            if self.pi < len(self.preempts):
                self.pi += 1
                return self.preempts[self.pi - 1]
            return 1 << 60
        if not self.gap:
            return 1 << 60
        return self.tick + 1 + int(self.rng.expovariate(1.0 / self.gap))

    def line(self):
        """One line of i-PI code is about to be executed by the running task."""
        self.tick += 1
        if self.tick >= self.next_slow and not self.busy:
            self.slow()

    def point(self, what=""):
        """An intercepted operation (lock, sleep, socket, file ...) is starting."""
        if self.busy:
            return
        self.tick += 1
        self.slow()

    def slow(self):
        self.busy = True
        try:
            self._sync_clock()
            if self.tick > self.max_ticks:
                self.finish("livelock", "tick budget exhausted")
            if self.switches > self.max_switches:
                self.finish("livelock", "task switch budget exhausted")
            if self.now > self.max_time:
                self.finish("timeout", "virtual time budget exhausted")
            self._fire_due()
            while self.tick_events and self.tick_events[0][0] <= self.tick:
                self.tick_events.pop(0)[2]()
            do_switch = False
            if self.tick >= self.next_preempt:
                do_switch = True
                self.preempt_log.append(self.tick)
                self.next_preempt = self._draw_preempt()
                while self.next_preempt <= self.tick:
                    self.next_preempt = self._draw_preempt()
            elif self.tick - self.slice_start >= self.quantum:
                do_switch = True
            first = None
            if self.tick >= self.wake_at:
                do_switch = True
                first, self.woken, self.wake_at = self.woken, None, 1 << 60
            nxt = min(self.tick + MAX_SLICE, self.wake_at)
            if self.next_preempt < nxt:
                nxt = self.next_preempt
            if self.tick_events and self.tick_events[0][0] < nxt:
                nxt = self.tick_events[0][0]
            self.next_slow = nxt
            if do_switch:
                others = [
                    t for t in self.tasks if t.state == READY and t is not self.cur
                ]
                if first in others:
                    self._switch_to(first)
                elif others:
                    self._switch_to(self._pick(others))
                else:
                    self.slice_start = self.tick
        finally:
            self.busy = False
        self._signals()

    # --------------------------------------------------------------- scheduling
    def _pick(self, ready):
        if len(ready) == 1:
            return ready[0]
        if self.choice == "fifo":
            return min(ready, key=lambda t: (t.ran_at, t.tid))
        return ready[self.rng.randrange(len(ready))]

    def _switch_to(self, nxt):
        cur = self.cur
        if nxt is cur:
            self.slice_start = self.tick
            return
        self.switches += 1
        self.switch_hash = (
            self.switch_hash * 1000003 + nxt.tid * 7919 + (self.tick & 0xFFFF)
        ) & 0xFFFFFFFFFFFFFFFF
        self.cur = nxt
        nxt.ran_at = self.switches
        self.slice_start = self.tick
        self.next_slow = self.tick
        self.busy = False
        nxt.baton.release()
        cur.baton.acquire()
        # running again
        self.busy = True

    def _next_runnable(self):
        """Returns a task to run; advances virtual time if nothing is ready."""
        while True:
            ready = [t for t in self.tasks if t.state == READY]
            if ready:
                return self._pick(ready)
            while self.timers and self.timers[0][2] is None:
                heapq.heappop(self.timers)
            if not self.timers:
                self.finish(
                    "deadlock",
                    "no task can run: "
                    + "; ".join(
                        "%s@%s" % (t.name, t.where)
                        for t in self.tasks
                        if t.state == BLOCKED
                    ),
                )
            self._sync_clock()
            self.now = max(self.now, self.timers[0][0])
            if self.now > self.max_time:
                self.finish("timeout", "virtual time budget exhausted")
            self._fire_due()
            if (
                self.pending_signals
                and self.main.state == BLOCKED
                and self.allow_signals
                and not self.nosig
            ):
                self.make_ready(self.main, "signal")

    def park(self, where, deadline=None):
        """Blocks the running task until make_ready() or the deadline (virtual ns).

        Returns the wake reason ("timeout" when the deadline passed)."""
        cur = self.cur
        self.busy = True
        try:
            self._sync_clock()
            cur.state = BLOCKED
            cur.wake = None
            cur.where = where
            if deadline is not None:
                cur.timer = self.at(
                    deadline, lambda: self.make_ready(cur, "timeout", True)
                )
            if (
                self.pending_signals
                and cur is self.main
                and self.allow_signals
                and not self.nosig
            ):
                self.make_ready(cur, "signal")
            self._switch_to(self._next_runnable())
            if cur.timer is not None:
                self.cancel(cur.timer)
                cur.timer = None
            cur.where = ""
        finally:
            self.busy = False
        why = cur.wake
        self._signals()
        return why

    def make_ready(self, task, why, from_timer=False):
        if task.state != BLOCKED:
            return
        if from_timer:
            task.timer = None
        task.state = READY
        task.wake = why
        if self.wake and not from_timer and self.wake_rng.random() < self.wake:
            self.woken = task
            self.wake_at = self.tick + self.wake_rng.choice([1, 1, 2, 3, 5])
            self.next_slow = min(self.next_slow, self.wake_at)

    def _leave(self):
        """The running task is over: hand the baton on, never come back."""
        self.busy = True
        self._sync_clock()
        cur = self.cur
        cur.state = DONE
        nxt = self._next_runnable()
        self.switches += 1
        self.cur = nxt
        nxt.ran_at = self.switches
        self.slice_start = self.tick
        self.next_slow = self.tick
        self.busy = False
        nxt.baton.release()
        while True:
            cur.baton.acquire()

    def spawn(self, fn, args=(), name="", proc=None, daemon=True):
        proc = proc or self.cur.proc
        t = Task(len(self.tasks), name or "t%d" % len(self.tasks), proc, daemon)
        self.tasks.append(t)
        proc.tasks.append(t)

        def body():
            t.baton.acquire()
            self.busy = False
            try:
                fn(*args)
            except SystemExit:
                pass
            except HarnessError as e:
                self.finish("harness", repr(e))
            except BaseException as e:
                import traceback

                self.thread_errors.append(
                    (t.name, type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
                )
            for s in t.sentinels:
                s._force_release()
            self.busy = True
            self._sync_clock()
            t.state = DONE
            nxt = self._next_runnable()
            self.switches += 1
            self.cur = nxt
            nxt.ran_at = self.switches
            self.slice_start = self.tick
            self.next_slow = self.tick
            self.busy = False
            nxt.baton.release()

        _thread.start_new_thread(body, ())
        return t

    def sleep(self, seconds):
        self.point("sleep")
        self._sync_clock()
        self.park("sleep", self.now + max(0, int(seconds * 1e9)))

    def wait_until(self, pred, where="wait", poll=None, timeout=None):
        """Used by harness tasks: polls pred at virtual intervals."""
        self._sync_clock()
        end = None if timeout is None else self.now + int(timeout * 1e9)
        while not pred():
            self._sync_clock()
            if end is not None and self.now >= end:
                return False
            self.park(where, self.now + int((poll or 0.01) * 1e9))
        return True

    # ------------------------------------------------------------------ signals
    def raise_signal(self, signum):
        self.pending_signals.append(signum)
        if self.main.state == BLOCKED and not self.nosig:
            self.make_ready(self.main, "signal")

    def _signals(self):
        while (
            self.pending_signals
            and self.cur is self.main
            and self.main.state == READY
            and self.allow_signals
            and not self.nosig
        ):
            s = self.pending_signals.pop(0)
            h = self.handlers.get(s)
            self.count("signal_delivered")
            self.log("signal", s)
            if callable(h):
                h(s, sys._getframe(2))
            else:
                self.finish("killed", "signal %d" % s)

    # ---------------------------------------------------------------------- time
    def time_ns(self):
        if not self.busy:
            self.tick += 1
            if self.tick >= self.next_slow:
                self.slow()
        self._sync_clock()
        return self.now

    # -------------------------------------------------------------------- finish
    def finish(self, status, detail=""):
        """Ends the simulated execution: evaluates, ships the result, exits."""
        if self.finished:
            while True:
                _thread.allocate_lock().acquire()
                _thread.exit()
        self.finished = True
        self.busy = True
        self._sync_clock()
        res = {"status": status, "detail": detail}
        try:
            if self.on_finish is not None:
                extra = self.on_finish(status, detail)
                if extra:
                    res.update(extra)
        except BaseException:
            import traceback

            res["status"] = "harness"
            res["detail"] = traceback.format_exc()
        res.setdefault("stats", {}).update(
            ticks=self.tick,
            now=self.now,
            switches=self.switches,
            shash=self.switch_hash,
            counters=self.counters,
            tasks=len(self.tasks),
        )
        res["preempt_log"] = self.preempt_log
        res["thread_errors"] = self.thread_errors
        res["stdout"] = self.stdout[-400:]
        data = pickle.dumps(res, protocol=4)
        view = memoryview(data)
        while view:
            n = _os_write(self.out_fd, view[: 1 << 16])
            view = view[n:]
        os._exit(0)

    def crash(self, detail="killed"):
        self.finish("killed", detail)
