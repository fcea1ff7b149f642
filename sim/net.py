"""Simulated stream sockets (AF_UNIX and AF_INET), select/poll and name space.

Connections are pairs of unidirectional byte pipes.  What is written is cut into
segments and delivered in order after a (seeded) latency; receives may be short;
the send buffer is bounded, so a peer that does not read makes writers block.
"""

import errno
import os
import random
import select
import selectors
import socket

from .kernel import ref, HarnessError

_consts = socket
SOCK_STREAM = socket.SOCK_STREAM
_RealSocket = socket.socket
_real_dup = socket.dup
_real_select = select.select


class NetCfg:
    """Per-run network behaviour."""

    def __init__(self, d=None):
        d = d or {}
        self.lat = d.get("lat", 20e-6)  # mean latency (s)
        self.jitter = d.get("jitter", 0.0)  # probability of a long delay
        self.jitter_s = d.get("jitter_s", 0.05)
        self.seg = d.get("seg", 0)  # mean segment size, 0 = never cut
        self.short = d.get("short", 0.0)  # probability of a short read
        self.cap = d.get("cap", 1 << 20)  # send buffer
        self.seed = d.get("seed", 0)


class Net:
    def __init__(self, k, cfg):
        self.k = k
        self.cfg = cfg
        self.rng = random.Random("net-%s" % cfg.seed)
        self.names = {}  # unix path or (host, port) -> Desc
        self.nconn = 0
        self.links = []
        self.paused = set()  # names of blackholed processes


def net():
    return ref.k.net


class Desc:
    """Open file description: what dup()ed descriptors share."""

    def __init__(self, family):
        self.family = family
        self.refs = 0
        self.listening = False
        self.backlog = []
        self.slots = 0
        self.name = None
        self.peer = None  # peer Desc, once connected
        self.connected = False
        self.rx = bytearray()
        self.rx_eof = False
        self.rx_err = None
        self.tx_closed = False
        self.rx_closed = False
        self.tx_inflight = 0  # bytes written by us, not yet read by the peer
        self.tx_last = 0  # delivery time of the last segment
        self.waiters = []
        self.proc = None
        self.conn_id = None
        self.side = None
        self.closed = False
        self.stalled = []  # deliveries held back by a partition
        self.rd_total = 0
        self.wr_total = 0

    # -- notification
    def wake(self):
        k = ref.k
        ws, self.waiters = self.waiters, []
        for t in ws:
            k.make_ready(t, "io")

    # -- state
    def readable(self):
        if self.listening:
            return bool(self.backlog)
        return (
            bool(self.rx)
            or self.rx_eof
            or self.rx_err is not None
            or self.rx_closed
            or not self.connected
        )

    def writable(self):
        if self.listening:
            return False
        if not self.connected:
            return True
        p = self.peer
        return (
            self.tx_closed
            or self.rx_err is not None
            or p is None
            or p.closed
            or self.tx_inflight < net().cfg.cap
        )

    # -- transfer
    def _deliver_later(self, fn):
        """Schedules fn (delivery to the peer) in order, honouring partitions."""
        k = ref.k
        n = net()
        c = n.cfg
        lat = n.rng.expovariate(1.0 / c.lat) if c.lat > 0 else 0.0
        if c.jitter and n.rng.random() < c.jitter:
            lat += n.rng.random() * c.jitter_s
            k.count("net_long_delay")
        k._sync_clock()
        t = max(self.tx_last, k.now + int(lat * 1e9))
        self.tx_last = t

        def go():
            if (
                self.proc is not None
                and self.peer is not None
                and (
                    self.proc.name in n.paused
                    or (self.peer.proc is not None and self.peer.proc.name in n.paused)
                )
            ):
                self.stalled.append(fn)
                k.count("net_held_by_partition")
                return
            if self.stalled:
                self.stalled.append(fn)
                return
            fn()

        k.at(t, go)

    def flush_stalled(self):
        q, self.stalled = self.stalled, []
        for fn in q:
            fn()

    def write(self, data):
        """Queues data towards the peer (already within capacity)."""
        k = ref.k
        n = net()
        peer = self.peer
        self.tx_inflight += len(data)
        self.wr_total += len(data)
        parts = []
        data = bytes(data)
        if n.cfg.seg and len(data) > 1:
            pos = 0
            while pos < len(data):
                ln = 1 + int(n.rng.expovariate(1.0 / n.cfg.seg))
                parts.append(data[pos : pos + ln])
                pos += ln
            if len(parts) > 1:
                k.count("net_segmented")
        else:
            parts = [data]
        for p in parts:

            def arrive(p=p):
                if peer.closed or peer.rx_closed:
                    self.tx_inflight -= len(p)
                    if peer.closed and self.rx_err is None and not self.rx_eof:
                        # data for a closed socket: reset
                        self.rx_err = errno.ECONNRESET
                        self.wake()
                    return
                peer.rx += p
                if peer.tap is not None:
                    peer.tap(p)
                peer.wake()

            self._deliver_later(arrive)

    tap = None

    def read(self, n):
        c = net().cfg
        k = ref.k
        m = min(n, len(self.rx))
        if m > 1 and c.short and net().rng.random() < c.short:
            m = 1 + net().rng.randrange(m - 1)
            k.count("net_short_read")
        out = bytes(self.rx[:m])
        del self.rx[:m]
        self.rd_total += m
        if self.peer is not None:
            self.peer.tx_inflight -= m
            self.peer.wake()
        return out

    def close_desc(self, reset=False):
        if self.closed:
            return
        k = ref.k
        self.closed = True
        n = net()
        if self.family != socket.AF_UNIX and n.names.get(self.name) is self:
            del n.names[self.name]
        for d in self.backlog:
            d.close_desc(reset=True)
        self.backlog = []
        if self.connected and self.peer is not None:
            rst = reset or bool(self.rx)
            self.send_fin(rst)
        self.wake()

    def send_fin(self, rst=False):
        peer = self.peer
        k = ref.k

        def fin():
            if peer.closed:
                return
            if rst:
                peer.rx_err = errno.ECONNRESET
                k.count("net_reset")
            else:
                peer.rx_eof = True
            peer.wake()

        if not self.tx_closed:
            self.tx_closed = True
            self._deliver_later(fin)
        elif rst:
            self._deliver_later(fin)


def pair(family):
    a, b = Desc(family), Desc(family)
    a.peer, b.peer = b, a
    a.connected = b.connected = True
    n = net()
    n.nconn += 1
    a.conn_id = b.conn_id = n.nconn
    a.side, b.side = "c", "s"
    n.links.append((a, b))
    return a, b


def _err(e):
    return OSError(e, os.strerror(e))


def _fd_desc(fd):
    k = ref.k
    d = k.cur.proc.fds.get(fd)
    if d is None or not isinstance(d, Desc):
        raise _err(errno.EBADF)
    return d


def _alloc_fd(desc):
    p = ref.k.cur.proc
    fd = p.lowest_fd()
    p.fds[fd] = desc
    desc.refs += 1
    desc.proc = p
    return fd


def _release_fd(proc, fd):
    d = proc.fds.pop(fd, None)
    if isinstance(d, Desc):
        d.refs -= 1
        if d.refs <= 0:
            d.close_desc()


def kill_connections(proc, reset=False):
    """What the operating system does to a dead process's sockets."""
    for fd in sorted(proc.fds):
        d = proc.fds.pop(fd)
        if isinstance(d, Desc):
            d.refs -= 1
            if d.refs <= 0:
                d.close_desc(reset=reset)


def pause(procname):
    net().paused.add(procname)


def heal(procname):
    n = net()
    n.paused.discard(procname)
    for a, b in n.links:
        for d in (a, b):
            o = d.peer
            if d.proc is not None and d.proc.name in n.paused:
                continue
            if o.proc is not None and o.proc.name in n.paused:
                continue
            if d.stalled:
                d.flush_stalled()


class SimSocket:
    """Drop-in for socket.socket."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        if family == -1:
            family = socket.AF_INET
        if type == -1:
            type = socket.SOCK_STREAM
        if proto == -1:
            proto = 0
        self.family = family
        self.type = type
        self.proto = proto
        self._timeout = _default_timeout[0]
        self._fd = -1
        self._sproc = None
        k = ref.k
        if k is None:
            raise HarnessError("socket used outside the simulation")
        if fileno is None:
            self._fd = _alloc_fd(Desc(family))
        else:
            if fileno < 0:
                raise ValueError("negative file descriptor")
            _fd_desc(fileno)
            self._fd = fileno
        self._sproc = k.cur.proc

    # -- plumbing
    @property
    def _d(self):
        if self._fd < 0:
            raise _err(errno.EBADF)
        d = self._sproc.fds.get(self._fd)
        if not isinstance(d, Desc):
            raise _err(errno.EBADF)
        return d

    def fileno(self):
        return self._fd

    def settimeout(self, t):
        if t is not None and t < 0:
            raise ValueError("Timeout value out of range")
        self._timeout = None if t is None else float(t)

    def gettimeout(self):
        return self._timeout

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._timeout != 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    @property
    def timeout(self):
        return self._timeout

    def dup(self):
        s = self.__class__(self.family, self.type, self.proto, fileno=dup(self._fd))
        s.settimeout(self.gettimeout())
        return s

    def detach(self):
        fd, self._fd = self._fd, -1
        return fd

    def close(self):
        if self._fd >= 0:
            fd, self._fd = self._fd, -1
            if ref.k is not None and not ref.k.finished:
                _release_fd(self._sproc, fd)

    def __del__(self):
        try:
            if self._fd >= 0 and ref.k is not None and self._sproc.alive:
                self.close()
        except Exception:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return "<SimSocket fd=%d>" % self._fd

    def _wait(self, ready, where):
        """Blocks until ready(desc); raises TimeoutError per the socket timeout."""
        k = ref.k
        k.point(where)
        d = self._d
        if ready(d):
            return d
        if self._timeout == 0.0:
            raise BlockingIOError(
                errno.EAGAIN, "Resource temporarily unavailable"
            )
        deadline = None
        if self._timeout is not None:
            k._sync_clock()
            deadline = k.now + int(self._timeout * 1e9)
        while True:
            d = self._d
            if ready(d):
                return d
            t = k.cur
            d.waiters.append(t)
            try:
                why = k.park(where, deadline)
            finally:
                if t in d.waiters:
                    d.waiters.remove(t)
            if why == "timeout":
                d = self._d
                if ready(d):
                    return d
                raise TimeoutError("timed out")

    # -- naming
    def bind(self, addr):
        k = ref.k
        k.point("bind")
        n = net()
        key = addr if self.family == socket.AF_UNIX else ("inet", addr[1])
        if key in n.names or (
            self.family == socket.AF_UNIX and k.fs.exists_any(addr)
        ):
            raise OSError(errno.EADDRINUSE, "Address already in use")
        d = self._d
        d.name = key
        n.names[key] = d
        if self.family == socket.AF_UNIX:
            k.fs.make_socket(addr)

    def listen(self, backlog=128):
        d = self._d
        d.listening = True
        d.slots = backlog
        ref.k.log("listen", d.name)

    def accept(self):
        d = self._wait(lambda d: d.backlog or not d.listening, "accept")
        if not d.listening or not d.backlog:
            raise _err(errno.EINVAL)
        c = d.backlog.pop(0)
        d.wake()
        s = SimSocket(self.family, self.type, self.proto, fileno=_alloc_fd(c))
        s.settimeout(_default_timeout[0])
        if self.family == socket.AF_UNIX:
            return s, ""
        return s, ("127.0.0.1", 40000 + c.conn_id)

    def connect(self, addr):
        k = ref.k
        k.point("connect")
        n = net()
        key = addr if self.family == socket.AF_UNIX else ("inet", addr[1])
        if self.family == socket.AF_UNIX and not k.fs.exists_any(addr):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        lst = n.names.get(key)
        if lst is None or not lst.listening or lst.closed:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        while len(lst.backlog) > lst.slots:
            lst.waiters.append(k.cur)
            k.park("connect", k.now + 10**9)
            if lst.closed or not lst.listening:
                raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        d = self._d
        a, b = pair(self.family)
        # graft the client side onto this socket's description
        a.refs = d.refs
        a.proc = self._sproc
        for fd, x in list(self._sproc.fds.items()):
            if x is d:
                self._sproc.fds[fd] = a
        b.proc = k.main_proc
        lst.backlog.append(b)
        lst.wake()
        k.log("connect", a.conn_id, self._sproc.name)

    def getpeername(self):
        d = self._d
        if not d.connected or (d.rx_err is not None and self.family != socket.AF_UNIX):
            raise _err(errno.ENOTCONN)
        if self.family == socket.AF_UNIX:
            return ""
        return ("127.0.0.1", 40000 + (d.conn_id or 0))

    def getsockname(self):
        return ""

    # -- data
    def send(self, data, flags=0):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            data = memoryview(data)
        data = bytes(data)

        d = self._wait(Desc.writable, "send")
        if d.rx_err is not None:
            if d.rx_err == errno.ECONNRESET and not d.tx_closed:
                d.tx_closed = True
                raise ConnectionResetError(
                    errno.ECONNRESET, "Connection reset by peer"
                )
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if not d.connected:
            raise _err(errno.ENOTCONN)
        if d.tx_closed or (d.peer.closed and self.family == socket.AF_UNIX):
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        room = max(0, net().cfg.cap - d.tx_inflight)
        m = min(len(data), room) if not d.peer.closed else len(data)
        if m < len(data):
            ref.k.count("net_partial_send")
        d.write(data[:m])
        return m

    def sendall(self, data, flags=0):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            data = memoryview(data)
        data = bytes(data)
        k = ref.k
        end = None
        keep = self._timeout
        if keep is not None and keep > 0:
            k._sync_clock()
            end = k.now + int(keep * 1e9)
        try:
            pos = 0
            while pos < len(data) or not data:
                if end is not None:
                    k._sync_clock()
                    left = (end - k.now) / 1e9
                    if left <= 0:
                        raise TimeoutError("timed out")
                    self._timeout = left
                pos += self.send(data[pos:], flags)
                if not data:
                    break
        finally:
            self._timeout = keep

    def _recv(self, n):
        d = self._wait(Desc.readable, "recv")
        if not d.connected:
            raise _err(errno.ENOTCONN)
        if d.rx:
            return d.read(n)
        if d.rx_err is not None:
            e = d.rx_err
            d.rx_err = None
            d.rx_eof = True
            d.tx_closed = True
            if e == errno.ECONNRESET:
                raise ConnectionResetError(e, "Connection reset by peer")
            raise _err(e)
        return b""

    def recv(self, n, flags=0):
        if n < 0:
            raise ValueError("negative buffersize in recv")
        return self._recv(n)

    def recv_into(self, buf, nbytes=0, flags=0):
        mv = memoryview(buf).cast("B")
        n = nbytes or len(mv)
        if n > len(mv):
            raise ValueError("nbytes is greater than the length of the buffer")
        data = self._recv(n)
        mv[: len(data)] = data
        return len(data)

    def shutdown(self, how=socket.SHUT_RDWR):
        ref.k.point("shutdown")
        d = self._d
        if d.listening:
            d.listening = False
            if self.family != socket.AF_UNIX:
                for b in d.backlog:
                    b.close_desc(reset=True)
                d.backlog = []
            d.wake()
            return
        if not d.connected or (
            self.family != socket.AF_UNIX and (d.rx_err is not None)
        ):
            raise _err(errno.ENOTCONN)
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            d.send_fin(False)
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            d.rx_closed = True
        d.wake()

    def makefile(self, *a, **k):
        raise HarnessError("socket.makefile not simulated")


_default_timeout = [None]


def dup(fd):
    k = ref.k
    if k is None:
        return _real_dup(fd)
    return _alloc_fd(_fd_desc(fd))


def sim_close_fd(fd):
    _release_fd(ref.k.cur.proc, fd)


def _to_desc(obj):
    fd = obj if isinstance(obj, int) else obj.fileno()
    if fd < 0:
        raise ValueError(
            "file descriptor cannot be a negative integer (%d)" % fd
        )
    d = ref.k.cur.proc.fds.get(fd)
    if not isinstance(d, Desc):
        raise _err(errno.EBADF)
    return d


def sim_select(r, w, x, timeout=None):
    k = ref.k
    if k is None:
        return _real_select(r, w, x, timeout)
    k.point("select")
    if timeout is not None and timeout < 0:
        raise ValueError("timeout must be non-negative")
    r, w, x = list(r), list(w), list(x)
    rd = [(o, _to_desc(o)) for o in r]
    wd = [(o, _to_desc(o)) for o in w]
    for o in x:
        _to_desc(o)
    deadline = None
    if timeout is not None:
        k._sync_clock()
        deadline = k.now + int(timeout * 1e9)
    while True:
        ro = [o for o, d in rd if d.readable()]
        wo = [o for o, d in wd if d.writable()]
        if ro or wo:
            return ro, wo, []
        if deadline is not None:
            k._sync_clock()
            if k.now >= deadline:
                return [], [], []
        t = k.cur
        for _, d in rd + wd:
            if t not in d.waiters:
                d.waiters.append(t)
        try:
            k.park("select", deadline)
        finally:
            for _, d in rd + wd:
                if t in d.waiters:
                    d.waiters.remove(t)


class SimPoll:
    """select.poll on top of sim_select."""

    def __init__(self):
        self._fds = {}

    def register(self, fd, eventmask=select.POLLIN | select.POLLPRI | select.POLLOUT):
        self._fds[fd if isinstance(fd, int) else fd.fileno()] = eventmask

    def modify(self, fd, eventmask):
        self.register(fd, eventmask)

    def unregister(self, fd):
        del self._fds[fd if isinstance(fd, int) else fd.fileno()]

    def poll(self, timeout=None):
        r = [f for f, e in self._fds.items() if e & (select.POLLIN | select.POLLPRI)]
        w = [f for f, e in self._fds.items() if e & select.POLLOUT]
        ro, wo, _ = sim_select(
            r, w, [], None if timeout is None or timeout < 0 else timeout / 1000.0
        )
        out = {}
        for f in ro:
            out[f] = out.get(f, 0) | select.POLLIN
        for f in wo:
            out[f] = out.get(f, 0) | select.POLLOUT
        return list(out.items())


class _SockMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, SimSocket)


def install():
    socket.socket = SimSocket
    socket.SocketType = SimSocket
    socket.dup = dup
    select.select = sim_select
    select.poll = SimPoll
    selectors.SelectSelector._select = staticmethod(sim_select)
    selectors.DefaultSelector = selectors.SelectSelector
    socket.getdefaulttimeout = lambda: _default_timeout[0]

    def setdefaulttimeout(t):
        _default_timeout[0] = t

    socket.setdefaulttimeout = setdefaulttimeout
