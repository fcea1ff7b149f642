"""Simulated force clients.

ScriptedClient speaks the wire protocol exactly as documented (and, when told
to, misbehaves at a chosen point); RealClient runs the repository's own Python
driver loop.  Both record every configuration they were asked to evaluate and
check that the messages they receive form a legal conversation.
"""

import json
import random
import socket
import zlib

import numpy as np

from . import net
from .kernel import ref

HDR = 12
KINDS = ("pos", "h", "ih", "pot", "force", "vir")


def msg(s):
    return s.upper().ljust(HDR).encode()


def pes(h, x):
    """The reference potential: cheap, smooth, and different for any two
    configurations."""
    x = np.asarray(x, float).reshape(-1)
    h = np.asarray(h, float).reshape(3, 3)
    w = 0.01 * (1.0 + 0.1 * np.arange(len(x)))
    pot = 0.5 * float(np.sum(w * x * x)) + 1e-3 * float(np.sum(h * H0))
    f = -w * x
    q = x.reshape(-1, 3)
    vir = np.dot(f.reshape(-1, 3).T, q) + 1e-3 * h * H0
    return pot, f, vir


H0 = np.array([[1.0, 0.3, 0.2], [0.0, 1.1, 0.4], [0.0, 0.0, 1.2]])


class Died(Exception):
    """Raised inside a client when its script says it dies."""


class World:
    """Registry shared by the clients of a run and the oracle."""

    def __init__(self, k):
        self.k = k
        self.evals = []  # (client, h, ih, pos)
        self.proto = []  # illegal messages seen by a client
        self.clients = []
        self.exits = {}  # client name -> received EXIT
        self.shm_names = {}
        self.greeted = set()  # connections that were sent something
        self.gone = set()  # connections whose client died or left
        self.inits = []  # (connection, replica, text, evaluations so far)
        self.lost = []  # (connection, exception) of clients cut off by the server
        self.fired = 0  # client faults that actually happened

    def new_eval(self, cname, h, ih, pos, conn):
        self.evals.append((cname, h.copy(), None if ih is None else ih.copy(), pos.copy(), conn))
        return len(self.evals) - 1


class Client:
    """Base: process management, faults, evaluation."""

    def __init__(self, k, world, spec, addr):
        self.k = k
        self.w = world
        self.spec = spec
        self.addr = addr
        self.name = spec["name"]
        self.rng = random.Random("cl-%s-%s" % (k.scn.get("cseed", 0), self.name))
        self.incarnation = 0
        self.proc = None
        self.state = "new"
        self.counts = {}
        self.expects = None
        world.clients.append(self)
        k.after(spec.get("start", 0.0), self.launch)

    def launch(self):
        self.incarnation += 1
        self.proc = self.k.new_proc("%s.%d" % (self.name, self.incarnation))
        self.counts = {}
        self.state = "starting"
        self.expects = None
        self.k.spawn(self.body, name=self.proc.name, proc=self.proc)

    def body(self):
        try:
            self.main()
            self.state = "finished"
            net.kill_connections(self.proc)
        except Died:
            pass
        except (OSError, RuntimeError, EOFError) as e:
            self.state = "lost"
            self.k.log("client-lost", self.proc.name, type(e).__name__)
            if not self.w_done():
                self.w.lost.append((self.name, self.proc.name, type(e).__name__))
            net.kill_connections(self.proc)
            if self.spec.get("reconnect") is not None and not self.w_done():
                self.k.after(self.spec["reconnect"], self.launch)

    def w_done(self):
        return getattr(self.w, "closing", False)

    # -- faults
    def maybe_die(self, phase):
        """Called at the named protocol points; carries out scripted deaths."""
        n = self.counts[phase] = self.counts.get(phase, 0) + 1
        for d in self.spec.get("faults", []):
            if d.get("inc", 1) != self.incarnation or d["at"] != phase:
                continue
            if d.get("nth", 1) != n:
                continue
            self.do_fault(d)

    def do_fault(self, d):
        k = self.k
        how = d["how"]
        self.w.fired += 1
        self.w.gone.add(self.proc.name)
        k.count("client_" + how)
        k.log("client-fault", self.proc.name, d["at"], how)
        if how in ("fin", "rst"):
            self.state = "dead"
            net.kill_connections(self.proc, reset=(how == "rst"))
            if d.get("back") is not None:
                k.after(d["back"], self.launch)
            raise Died()
        if how == "hang":
            # alive but silent for ever; the connection stays open
            self.state = "hung"
            k.park("client-hang")
            raise Died()
        if how == "stall":
            self.state = "stalled"
            k.sleep(d.get("seconds", 1.0))
            self.state = "running"
            return
        if how == "cut":
            # the network stops delivering; heals later
            net.pause(self.proc.name)
            name = self.proc.name
            k.after(d.get("seconds", 1.0), lambda: net.heal(name))
            return
        raise RuntimeError("unknown fault " + how)

    def connect(self):
        k = self.k
        tries = 0
        while True:
            fam = socket.AF_INET if self.addr[0] == "inet" else socket.AF_UNIX
            s = socket.socket(fam, socket.SOCK_STREAM)
            try:
                s.connect(self.addr[1])
                return s
            except OSError:
                s.close()
                tries += 1
                if tries > 200 or self.w_done():
                    raise
                k.sleep(0.05)

    def evaluate(self, h, ih, pos):
        n = self.w.new_eval(
            self.name, np.asarray(h), ih, np.asarray(pos).reshape(-1), self.proc.name
        )
        pot, f, vir = pes(h, pos)
        if "scale" in self.spec:
            s = self.spec["scale"]
            pot, f, vir = s * pot, s * f, s * vir
        cfg = np.asarray(pos, float).tobytes() + np.asarray(h, float).tobytes()
        if self.spec.get("extra", "json") == "json":
            extra = json.dumps(
                {"key": zlib.crc32(cfg), "n": n, "dipole": [pot, float(f[0]), 1.0]}
            )
        elif self.spec["extra"] == "text":
            extra = "n=%d free text \u00e5\u00df" % n
        else:
            extra = ""
        return n, pot, f, vir, extra

    def compute_time(self):
        c = self.spec.get("compute", 0.0)
        if c and self.spec.get("cjit"):
            c *= 1.0 + self.spec["cjit"] * (2 * self.rng.random() - 1)
        return c


class ScriptedClient(Client):
    """Follows the documented protocol strictly, and polices the server."""

    def main(self):
        k = self.k
        self.sock = s = self.connect()
        self.state = "running"
        self.maybe_die("connected")
        if self.bad("garbage_connect"):
            s.sendall(b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n")
        need = self.spec.get("needinit", True)
        announced = None
        data = None
        batch = 1
        self.attached = {}
        self.stuck = None
        nreply = 0
        while True:
            hdr = self.recv_exact(HDR, eof_ok=True)
            if hdr is None:
                raise EOFError("server went away")
            name = hdr.decode("latin1").strip()
            self.w.greeted.add(self.proc.name)
            if name == "STATUS" and hdr == msg("status"):
                self.maybe_die("status")
                if need:
                    announced = "NEEDINIT"
                elif data is not None:
                    announced = "HAVEDATA"
                else:
                    announced = "READY"
                if self.bad("stuck_needinit") or self.stuck == "NEEDINIT":
                    # asks for the initialisation again and again
                    self.stuck = announced = "NEEDINIT"
                    need = True
                if self.bad("stuck_havedata") or self.stuck == "HAVEDATA":
                    # claims to have results that nobody asked for
                    self.stuck = announced = "HAVEDATA"
                if self.bad("early_reply"):
                    # says more than it was asked
                    self.sock.sendall(msg(announced) + b"NOBODY ASKED")
                    continue
                if self.bad("status_garbage"):
                    self.sock.sendall(b"WHATSUPDOC  ")
                    continue
                if self.bad("status_cut"):
                    self.sock.sendall(msg(announced)[: 1 + self.incarnation % 11])
                    self.w.gone.add(self.proc.name)
                    net.kill_connections(self.proc)
                    raise Died()
                if self.bad("status_short"):
                    self.sock.sendall(b"REA")
                    k.sleep(self.spec.get("gap", 0.3))
                    self.sock.sendall(msg(announced)[3:])
                    continue
                self.sock.sendall(msg(announced))
            elif hdr == msg("init"):
                self.maybe_die("init")
                if announced != "NEEDINIT" or not need:
                    self.illegal("INIT although the client announced %s" % announced)
                rid, ln = np.frombuffer(self.recv_exact(8), np.int32)
                if ln < 0 or ln > 100000:
                    self.illegal("INIT string of length %d" % ln)
                    raise RuntimeError("bad init")
                text = self.recv_exact(int(ln)).decode()
                self.w.k.log("init", self.proc.name, int(rid), text)
                self.w.inits.append((self.proc.name, int(rid), text, len(self.w.evals)))
                batch = 1
                for tok in text.split(","):
                    a, sep, b = tok.partition(":")
                    if sep and a.strip() == "batch_size":
                        batch = int(b)
                need = False
                announced = None
            elif hdr == msg("posdata"):
                if need:
                    self.illegal("POSDATA before INIT")
                if data is not None:
                    self.illegal("POSDATA while a result is uncollected")
                if announced not in ("READY",) and self.strict_ready:
                    self.illegal("POSDATA after announcing %s" % announced)
                announced = None
                self.maybe_die("posdata")
                structs = self.read_structs(batch)
                self.maybe_die("received")
                ct = self.compute_time()
                if ct:
                    k.sleep(ct)
                data = [self.evaluate(h, ih, x) for (h, ih, x) in structs]
                self.maybe_die("computed")
            elif hdr == msg("getforce"):
                if data is None:
                    self.illegal("GETFORCE without data")
                    raise RuntimeError("no data")
                self.maybe_die("getforce")
                self.reply(data, batch)
                data = None
                announced = None
                nreply += 1
                if self.spec.get("reinit"):
                    need = True
                self.maybe_die("replied")
                if self.spec.get("max_evals") and nreply >= self.spec["max_evals"]:
                    # leaves politely after a number of evaluations
                    k.count("client_leaves")
                    return
            elif hdr == msg("exit"):
                self.w.exits[self.proc.name] = True
                self.k.log("got-exit", self.proc.name)
                rest = self.recv_exact(1, eof_ok=True)
                if rest is not None:
                    self.illegal("data after EXIT")
                return
            else:
                self.illegal("unknown header %r" % hdr)
                raise RuntimeError("unknown header")

    strict_ready = True

    def illegal(self, what):
        self.w.proto.append((self.proc.name, what))
        self.k.log("proto", self.proc.name, what)

    def bad(self, kind):
        n = self.counts["bad_" + kind] = self.counts.get("bad_" + kind, 0) + 1
        for d in self.spec.get("bad", []):
            if (
                d["kind"] == kind
                and d.get("nth", 1) == n
                and d.get("inc", 1) == self.incarnation
            ):
                self.w.fired += 1
                self.k.count("client_bad_" + kind)
                self.k.log("client-bad", self.proc.name, kind)
                return True
        return False

    def recv_exact(self, n, eof_ok=False):
        out = b""
        while len(out) < n:
            # (time since which more of an unfinished message is expected)
            self.expects = self.k.now if (out or not eof_ok) else None
            b = self.sock.recv(n - len(out))
            self.expects = None
            if not b:
                if eof_ok and not out:
                    return None
                raise EOFError("short message")
            out += b
        return out

    def read_structs(self, batch):
        mode = self.addr[0]
        if mode == "shm":
            nat = int(np.frombuffer(self.recv_exact(4), np.int32)[0])
            if not self.attached:
                from multiprocessing import shared_memory

                for kind in KINDS:
                    ln = int(np.frombuffer(self.recv_exact(4), np.int32)[0])
                    name = self.recv_exact(ln).decode()
                    self.attached[kind] = shared_memory.SharedMemory(name=name)
                self.w.shm_names[self.proc.name] = [
                    a.name for a in self.attached.values()
                ]
            self.nat = nat
            v = self.views(batch)
            return [
                (v["h"][i].copy(), v["ih"][i].copy(), v["pos"][i].copy())
                for i in range(batch)
            ]
        if batch > 1:
            nat = int(np.frombuffer(self.recv_exact(4), np.int32)[0])
            self.nat = nat
            cells = np.frombuffer(self.recv_exact(batch * 144), float).reshape(
                batch, 2, 3, 3
            )
            pos = np.frombuffer(self.recv_exact(batch * nat * 24), float).reshape(
                batch, 3 * nat
            )
            return [(cells[i, 0], cells[i, 1], pos[i]) for i in range(batch)]
        h = np.frombuffer(self.recv_exact(72), float).reshape(3, 3)
        ih = np.frombuffer(self.recv_exact(72), float).reshape(3, 3)
        nat = int(np.frombuffer(self.recv_exact(4), np.int32)[0])
        if nat < 0 or nat > 10000:
            self.illegal("atom count %d" % nat)
            raise RuntimeError("bad natoms")
        self.nat = nat
        pos = np.frombuffer(self.recv_exact(nat * 24), float)
        return [(h, ih, pos)]

    def views(self, batch):
        n = self.nat
        shapes = {
            "pos": (batch, 3 * n),
            "h": (batch, 3, 3),
            "ih": (batch, 3, 3),
            "pot": (batch,),
            "force": (batch, 3 * n),
            "vir": (batch, 3, 3),
        }
        return {
            kd: np.ndarray(shapes[kd], float, buffer=self.attached[kd].buf)
            for kd in KINDS
        }

    def reply(self, data, batch):
        """Sends the results.  A reply that the server has to refuse carries
        numbers that are wrong, so that it cannot be accepted unnoticed."""
        mode = self.addr[0]
        nat = self.nat
        ex = [d[4].encode("utf-8") for d in data]
        wrong = False
        if self.bad("raw_key"):
            ex[0] = b'{"raw": 1}'
            wrong = True
        if self.bad("utf8"):
            ex[0] = b"\xff\xfe\xfa"
            wrong = True
        head = msg("forceready")
        if self.bad("forceready_garbage"):
            head = b"HELLOTHERE  "
            wrong = True
        count, more = nat, 0
        if mode != "shm":
            if self.bad("natoms"):
                # as a client with another atom in its system would do
                count, more = nat + 1, 1
            elif self.bad("natoms_less") and nat > 1:
                count, more = nat - 1, -1
            elif self.bad("natoms_neg"):
                count = -nat
            elif self.bad("natoms_huge"):
                count = 0x2AAAAAAB if nat % 2 else 3000000
            elif self.bad("natoms_count"):
                count = nat + 1
            wrong = wrong or count != nat
        long = self.bad("extra_long")
        if wrong:
            data = [(d[0], d[1] + 1000.0, d[2] + 10.0, d[3] - 5.0, d[4]) for d in data]
        out = head
        if mode == "shm":
            v = self.views(batch)
            for i, d in enumerate(data):
                v["pot"][i] = d[1]
                v["force"][i] = d[2]
                v["vir"][i] = d[3]
        else:
            out += np.array([d[1] for d in data]).tobytes()
            out += np.int32(count).tobytes()
            for d in data:
                x = d[2]
                if more > 0:
                    x = np.concatenate([x, np.ones(3)])
                elif more < 0:
                    x = x[:-3]
                out += x.tobytes()
            out += np.array([d[3] for d in data]).tobytes()
        for e in ex:
            out += np.int32(len(e) + (50 if long else 0)).tobytes() + e
        if self.bad("duplicate"):
            out += out
        cut = None
        n = self.counts["reply"] = self.counts.get("reply", 0) + 1
        for f in self.spec.get("faults", []):
            if (
                f["at"] == "midreply"
                and f.get("nth", 1) == n
                and f.get("inc", 1) == self.incarnation
            ):
                cut = f
        if cut is not None:
            m = max(0, min(len(out) - 1, int(cut.get("frac", 0.5) * len(out))))
            if m:
                self.sock.sendall(out[:m])
            if cut["how"] in ("fin", "rst"):
                self.k.sleep(cut.get("linger", 0.0))
            self.do_fault(cut)
            self.sock.sendall(out[m:])
            return
        g = self.spec.get("dribble")
        if g:
            for i in range(0, len(out), g[0]):
                self.sock.sendall(out[i : i + g[0]])
                self.k.sleep(g[1])
        else:
            self.sock.sendall(out)


class RealClient(Client):
    """The repository's own Python driver loop as a simulated process."""

    def main(self):
        from . import runner

        k = self.k
        # wait until the server is up, as a launch script would
        tries = 0
        while (self.addr[1] if self.addr[0] != "inet" else ("inet", self.addr[1][1])) not in k.net.names:
            k.sleep(0.05)
            tries += 1
            if tries > 200 or self.w_done():
                return
        self.state = "running"
        me = self

        def driver(cell, pos):
            single = not isinstance(cell, list)
            cl, pl = ([cell], [pos]) if single else (cell, pos)
            me.maybe_die("received")
            ct = me.compute_time()
            if ct:
                k.sleep(ct)
            out = []
            for h, x in zip(cl, pl):
                me.w.greeted.add(me.proc.name)
                n, pot, f, vir, extra = me.evaluate(
                    np.array(h), None, np.array(x)
                )
                out.append((pot, f.reshape(-1, 3), vir, extra))
            me.maybe_die("computed")
            return out[0] if single else out

        mode = self.addr[0]
        kw = {}
        if mode == "inet":
            kw = dict(unix=False, address=self.addr[1][0], port=self.addr[1][1])
        else:
            kw = dict(
                unix=(mode == "unix"),
                shm=(mode == "shm"),
                address=self.addr[1][len("/tmp/ipi_") :],
            )
        runner.driver_mod.run_driver(driver=driver, **kw)
        self.w.exits[self.proc.name] = True
        self.k.log("got-exit", self.proc.name)


def make(k, world, spec, addr):
    return (RealClient if spec.get("style") == "real" else ScriptedClient)(
        k, world, spec, addr
    )
