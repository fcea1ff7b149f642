From eb9389788413a8e83cc56e28eee93764fc24ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:49 +0000
Subject: [PATCH 01/36] fix: Python driver reads whole headers and stops when
 the server disappears

A header split over two segments made the driver lose track of the protocol,
a closed connection made it spin for ever, and a timeout while reading data
shifted the data by one byte.
---
 drivers/py/driver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..82d6bb8 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -20,7 +20,7 @@ def recv_data(sock, data):
     while bpos < blen:
         timeout = False
         try:
-            bpart = 1
+            bpart = 0
             bpart = sock.recv_into(buf[bpos:], blen - bpos)
         except socket.timeout:
             print(" @SOCKET:   Timeout in status recvall, trying again!")
@@ -98,7 +98,8 @@ def run_driver(
     force = np.zeros(0, float)
     vir = np.zeros((3, 3), float)
     while True:  # ah the infinite loop!
-        header = sock.recv(HDRLEN)
+        # waits for a whole header, and fails if the server has gone away
+        header = recv_data(sock, np.empty(HDRLEN, dtype="S1")).tobytes()
         if f_verbose:
             print("Received ", header)
         if header == Message("STATUS"):
-- 
2.43.0


From 87b8744cb6a4a295331c47bb92ec633914a81940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:49 +0000
Subject: [PATCH 02/36] fix: Python driver sends complete messages, with the
 extras length in bytes

send() may transmit only part of a large array, and the length announced for
the extras was counted in characters, so that non-ASCII extras shifted every
following message.
---
 drivers/py/driver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index 82d6bb8..6dacf94 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -41,7 +41,7 @@ def send_data(sock, data):
     if np.isscalar(data):
         data = np.array([data], data.dtype)
     buf = data.tobytes()
-    sock.send(buf)
+    sock.sendall(buf)
 
 
 HDRLEN = 12  # number of characters of the default message strings
@@ -214,9 +214,9 @@ def run_driver(
                 shm_views["vir"][i] = np.asarray(res[2]).reshape(3, 3)
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -236,9 +236,9 @@ def run_driver(
             )
             send_data(sock, virs)
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -271,8 +271,9 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
-            send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            extra = extras.encode("utf-8")
+            send_data(sock, np.int32(len(extra)))
+            sock.sendall(extra)
 
             f_data = False
         elif header == Message("EXIT"):
-- 
2.43.0


From cde7c7f85548d8d992b8c21cae940e5c85e7c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:48 +0000
Subject: [PATCH 03/36] fix: socket interface accepts headers that arrive in
 several pieces

A stream socket may split a 12-byte header; the server took a partial status
reply for a disconnection, and a partial FORCEREADY for an unexpected one.
---
 ipi/interfaces/sockets.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..5ae7964 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -150,10 +150,28 @@ class DriverSocket(socket.socket):
     def recv_msg(self, length=HDRLEN):
         """Get the next message send through the socket.
 
+        A stream socket can deliver a message in several pieces, so this keeps
+        reading until the message is complete. If nothing arrives at all a
+        socket.timeout is raised; if the client disappears or stalls half-way
+        the (short) piece that has been received is returned.
+
         Args:
            l: Length of the accepted message. Defaults to HDRLEN.
         """
-        return self.recv(length)
+        msg = self.recv(length)
+        ntimeout = 0
+        while 0 < len(msg) < length:
+            try:
+                part = self.recv(length - len(msg))
+            except socket.timeout:
+                ntimeout += 1
+                if ntimeout > NTIMEOUT:
+                    break
+                continue
+            if len(part) == 0:
+                break
+            msg += part
+        return msg
 
     def recvall(self, dest):
         """Gets the potential energy, force and virial from the driver.
-- 
2.43.0


From 5a5cdd2892672730586db0b3c13f3f8ccd3ba6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:48 +0000
Subject: [PATCH 04/36] fix: notice that a client closed the connection while
 FORCEREADY is expected

The reply is a bytes object, so the comparison with an empty string never
matched and the dispatch thread kept reading from a closed connection.
---
 ipi/interfaces/sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 5ae7964..a97cdf6 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -471,7 +471,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) < HDRLEN:
                 raise Disconnected()
 
     def _recv_force_data(self):
-- 
2.43.0


From 3eb793cdd0a950390bb165da5d7317493252ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:15 +0000
Subject: [PATCH 05/36] fix: a client that vanishes while connecting does not
 stop the socket interface

getpeername() on a connection that has been reset raises an OSError, which
ended the polling thread and left the simulation waiting for ever.
---
 ipi/interfaces/sockets.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index a97cdf6..d4179a3 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1436,9 +1436,17 @@ class InterfaceSocket(object):
                 [self.server], [], [], searchtimeout
             )
             if self.server in readable:
-                client, address = self.server.accept()
-                client.settimeout(TIMEOUT)
-                driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                try:
+                    client, address = self.server.accept()
+                    client.settimeout(TIMEOUT)
+                    driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                except OSError as e:
+                    # the client was gone before it could be welcomed
+                    warning(
+                        " @SOCKET:   Could not accept a connection: %s" % str(e),
+                        verbosity.low,
+                    )
+                    continue
                 driver.batch_size = self.batch_size
                 info(
                     " @interfacesocket.pool_update:   Client asked for connection from "
-- 
2.43.0


From 7b607c2ff43691e9583b1cb65f842d73a6648267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:15 +0000
Subject: [PATCH 06/36] fix: a client that fails while returning its forces is
 dropped, not fatal

A connection reset, a reply with the wrong number of atoms or extras that
cannot be parsed raised out of the polling thread (or got stuck in the future
of the dispatch thread), and the simulation waited for ever even though other
clients were available.
---
 ipi/interfaces/sockets.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index d4179a3..8ccad67 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -522,6 +522,18 @@ class Driver(DriverSocket):
 
         return self._recv_force_data()
 
+    def _client_error(self, exc):
+        """Marks the client as disconnected after a failure to get its forces,
+        so that it gets dropped and its request is handed to another client."""
+
+        if not isinstance(exc, Disconnected):
+            warning(
+                " @SOCKET:   Could not get the forces from client %s: %s: %s"
+                % (str(self.peername), type(exc).__name__, str(exc)),
+                verbosity.low,
+            )
+        self.status = Status.Disconnected
+
     def dispatch(self, r):
         """Dispatches a request r and looks after it setting results
         once it has been evaluated. This is meant to be launched as a
@@ -562,15 +574,14 @@ class Driver(DriverSocket):
 
         try:
             r["result"] = self.getforce()
-        except Disconnected:
-            self.status = Status.Disconnected
+            if len(r["result"][1]) != len(r["pos"][r["active"]]):
+                raise InvalidSize("Inconsistent number of atoms in the forces")
+        except Exception as e:
+            self._client_error(e)
             return
 
         r["result"][0] -= r["offset"]
 
-        if len(r["result"][1]) != len(r["pos"][r["active"]]):
-            raise InvalidSize
-
         # If only a piece of the system is active, resize forces and reassign
         if len(r["active"]) != len(r["pos"]):
             rftemp = r["result"][1]
@@ -663,8 +674,8 @@ class Driver(DriverSocket):
         natoms = len(r["pos"][r["active"]]) // 3
         try:
             r["result"] = self._recv_forces_bulk(natoms)
-        except Disconnected:
-            self.status = Status.Disconnected
+        except Exception as e:
+            self._client_error(e)
             return False
 
         r["result"][0] -= r["offset"]
@@ -741,7 +752,7 @@ class Driver(DriverSocket):
         mlen = int(np.frombuffer(buf, dtype=np.int32, count=1, offset=off)[0])
         off += 4
         if mlen != natoms:
-            raise InvalidSize
+            raise InvalidSize("Inconsistent number of atoms in the forces")
         # Copy out of the scratch buffer so the result outlives the next dispatch.
         mf = np.frombuffer(buf, dtype=np.float64, count=3 * natoms, offset=off).copy()
         off += 24 * natoms
@@ -857,8 +868,8 @@ class Driver(DriverSocket):
         natoms = len(reqs[0]["pos"][reqs[0]["active"]]) // 3
         try:
             results = self._recv_forces_bulk_batch(natoms, len(reqs))
-        except Disconnected:
-            self.status = Status.Disconnected
+        except Exception as e:
+            self._client_error(e)
             return False
 
         for r, res in zip(reqs, results):
@@ -903,7 +914,7 @@ class Driver(DriverSocket):
         pots = self.recvall(np.zeros(nbatch, np.float64))
         mlen = int(self.recvall(np.int32()))
         if mlen != natoms:
-            raise InvalidSize
+            raise InvalidSize("Inconsistent number of atoms in the forces")
         forces = self.recvall(np.zeros((nbatch, 3 * natoms), np.float64))
         virs = self.recvall(np.zeros((nbatch, 3, 3), np.float64))
 
-- 
2.43.0


From f1f3db0ce43db533ffe7592b51f9bcef73b2f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:49 +0000
Subject: [PATCH 07/36] fix: requests of threaded dispatches that fail or time
 out are always requeued

A dispatch thread that met an unexpected client state left its request marked
as running for ever; a request that timed out was removed from the job list
before pool_update could put it back in the queue; and pool_update waited for
(or raised the errors of) the dispatch threads of unrelated clients.
---
 ipi/interfaces/sockets.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 8ccad67..381fd02 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -559,10 +559,15 @@ class Driver(DriverSocket):
                 " @SOCKET:   Inconsistent client state in dispatch thread! (II)",
                 verbosity.low,
             )
+            self.status = Status.Disconnected
             return
 
         r["start"] = time.time()
-        self.sendpos(r["pos"][r["active"]], r["cell"])
+        try:
+            self.sendpos(r["pos"][r["active"]], r["cell"])
+        except Exception as e:
+            self._client_error(e)
+            return
 
         self.get_status()
         if not (self.status & Status.HasData):
@@ -570,6 +575,7 @@ class Driver(DriverSocket):
                 " @SOCKET:   Inconsistent client state in dispatch thread! (III)",
                 verbosity.low,
             )
+            self.status = Status.Disconnected
             return
 
         try:
@@ -1427,14 +1433,23 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        if tc is not None:
+                            # waits for the dispatch thread to let go of the request
+                            exc = tc.exception()
+                            if exc is not None:
+                                warning(
+                                    " @SOCKET:   Dispatch thread failed: %s" % str(exc),
+                                    verbosity.low,
+                                )
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
 
-                        k["status"] = "Queued"
-                        k["start"] = -1
+                        for kk in k if isinstance(k, list) else [k]:
+                            if kk["status"] != "Done":
+                                kk["status"] = "Queued"
+                                kk["start"] = -1
 
         if len(self.clients) == 0:
             searchtimeout = SERVERTIMEOUT
@@ -1566,8 +1581,9 @@ class InterfaceSocket(object):
                 nfinished += 1
                 finished_ids.append(ijob)
             elif chk == 0:
-                self.poll_iter = UPDATEFREQ  # client disconnected. force a pool_update
-                finished_ids.append(ijob)
+                # client disconnected. force a pool_update, that will take care
+                # of the job
+                self.poll_iter = UPDATEFREQ
             nchecked += 1
         # batch removal of finished/disconnected jobs (reverse order to preserve indices)
         for ijob in reversed(finished_ids):
-- 
2.43.0


From 07ad4bfee06ce544f2df086dbbfcc1113ce1b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:49 +0000
Subject: [PATCH 08/36] fix: do not loop for ever when the free clients cannot
 take any request

In threaded mode a disconnected client that was still in the list kept the
distribution loop spinning, so that it could never be removed.
---
 ipi/interfaces/sockets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 381fd02..b3bc63d 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1544,6 +1544,7 @@ class InterfaceSocket(object):
         ndispatch = 0
         tdispatch -= time.time()
         while len(freec) > 0 and len(self.prlist) > 0:
+            nprevious = ndispatch
             for match_ids in match_seq:
                 for fc in freec[:]:
                     if self.dispatch_free_client(fc, match_ids):
@@ -1559,6 +1560,9 @@ class InterfaceSocket(object):
 
             if len(freec) > 0:
                 self.prlist = [r for r in self.requests if r["status"] == "Queued"]
+            # no free client could take a request (e.g. they are all dead)
+            if ndispatch == nprevious:
+                break
         tdispatch += time.time()
 
         # now check for client status
-- 
2.43.0


From 1898ebc81d55b08222b436528de4de534603d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:08 +0000
Subject: [PATCH 09/36] fix: shared-memory segments of different clients never
 share a name

The names were built from the descriptor of the accepted socket, which is
closed as soon as it has been duplicated: two clients could be given the same
names, and the first one then worked on the memory of the second one.
---
 ipi/interfaces/sockets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3bc63d..6b9fa4f 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -966,7 +966,9 @@ class SHMDriver(Driver):
         self._first_posdata = True
         self._shm = {}  # kind -> SharedMemory handle (owned)
         self._view = {}  # kind -> numpy view, shape (batch_size, ...)
-        self._shm_prefix = f"ipi_shm_{os.getpid()}_{sock.fileno()}_"
+        # uses the descriptor owned by this object, that cannot be given to
+        # another client as long as this one is in use
+        self._shm_prefix = f"ipi_shm_{os.getpid()}_{self.fileno()}_"
 
     # -- segment lifecycle ---------------------------------------------------
     def _create_segment(self, kind, nbytes):
-- 
2.43.0


From c02c5c02606983d92271dab73549d3abd5439b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:08 +0000
Subject: [PATCH 10/36] fix: drop a client whose position data could only be
 sent in part

In threaded mode a timeout while sending POSDATA was followed by a STATUS
message, which the client took for the rest of the positions.
---
 ipi/interfaces/sockets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 6b9fa4f..b6b17fa 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -568,6 +568,10 @@ class Driver(DriverSocket):
         except Exception as e:
             self._client_error(e)
             return
+        if self.status & Status.Timeout:
+            # part of the message may have been sent: the connection is unusable
+            self.status = Status.Disconnected
+            return
 
         self.get_status()
         if not (self.status & Status.HasData):
-- 
2.43.0


From ffa22c037a58445f42bc258404f039bd968ef090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 11/36] fix: do not time out a client whose answer is already
 there

A client that stalls in the middle of its answer keeps the polling thread busy
for a couple of seconds; the other clients, that had answered in time, were
then dropped because their request had exceeded the timeout.
---
 ipi/interfaces/sockets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b6b17fa..e7f5644 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1699,6 +1699,10 @@ class InterfaceSocket(object):
                 for ijob, [r, c, _] in enumerate(self.jobs):
                     start = (r[0] if isinstance(r, list) else r)["start"]
                     if start > 0 and now - start > self.timeout:
+                        # the answer might have arrived while another client
+                        # was being served: it is collected in the next round
+                        if len(select.select([c], [], [], 0.0)[0]) > 0:
+                            continue
                         warning(
                             " @SOCKET:  Timeout! request has been running for "
                             + str(now - start)
-- 
2.43.0


From 69ff212fb206ff3f9ae703b0688dd51569b94100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 12/36] fix: the timeout of a socket forcefield also applies to
 status requests

A client that connects, or returns its forces, and then falls silent blocked
the polling thread (and hence all other clients) for ever, even when a timeout
had been set.
---
 ipi/interfaces/sockets.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index e7f5644..3116f12 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -250,6 +250,7 @@ class Driver(DriverSocket):
         self.locked = False
         self.exit_on_disconnect = False
         self.batch_size = 1  # >1 enables batched POSDATA/GETFORCE for this client
+        self.status_timeout = 0.0  # seconds to wait for a status reply (0: no limit)
 
     def shutdown(self, how=socket.SHUT_RDWR):
         """Tries to send an exit message to clients to let them exit gracefully."""
@@ -274,12 +275,13 @@ class Driver(DriverSocket):
            of Status.
         """
 
+        wait = SELECTTIMEOUT
+        if self.status_timeout > 0:
+            wait = min(wait, self.status_timeout)
         if not self.waitstatus:
             try:
                 # This can sometimes hang with no timeout.
-                readable, writable, errored = select.select(
-                    [], [self], [], SELECTTIMEOUT
-                )
+                readable, writable, errored = select.select([], [self], [], wait)
                 if self in writable:
                     self.send_msg("status")
                     self.waitstatus = True
@@ -287,14 +289,14 @@ class Driver(DriverSocket):
                 return Status.Disconnected
 
         try:
-            readable, writable, errored = select.select([self], [], [], SELECTTIMEOUT)
+            readable, writable, errored = select.select([self], [], [], wait)
             if self in readable:
                 reply = self.recv_msg(HDRLEN)
                 self.waitstatus = False  # got some kind of reply
             else:
                 # This is usually due to VERY slow clients.
                 warning(
-                    f" @SOCKET: Couldn't find readable socket in {SELECTTIMEOUT}s, will try again",
+                    f" @SOCKET: Couldn't find readable socket in {wait}s, will try again",
                     verbosity.low,
                 )
                 return Status.Busy
@@ -366,9 +368,17 @@ class Driver(DriverSocket):
 
     def get_status(self):
         """Sets (and returns) the client internal status. Wait for an answer if
-        the client is busy."""
+        the client is busy, unless this takes longer than the timeout."""
+        start = time.time()
         status = self._getstatus()
         while status & Status.Busy:
+            if 0 < self.status_timeout < time.time() - start:
+                warning(
+                    " @SOCKET:   Client " + str(self.peername) + " does not answer.",
+                    verbosity.low,
+                )
+                status = Status.Disconnected
+                break
             status = self._getstatus()
         self.status = status
         return status
@@ -1480,6 +1490,7 @@ class InterfaceSocket(object):
                     )
                     continue
                 driver.batch_size = self.batch_size
+                driver.status_timeout = self.timeout
                 info(
                     " @interfacesocket.pool_update:   Client asked for connection from "
                     + str(address)
-- 
2.43.0


From 67a45e736b68d06cb3b00fc74c1038bd895798e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 13/36] fix: soft exits requested at the same time or from
 several threads are carried out once and in full

---
 ipi/utils/softexit.py | 82 ++++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/ipi/utils/softexit.py b/ipi/utils/softexit.py
index 8b6dc71..2295b89 100644
--- a/ipi/utils/softexit.py
+++ b/ipi/utils/softexit.py
@@ -44,6 +44,8 @@ class Softexit(object):
         self.triggered = False
         self.exiting = False
         self._doloop = [False]
+        self._lock = threading.RLock()
+        self._owner = None  # the thread that runs the emergency procedures
 
     def register_function(self, func, *args, **kwargs):
         """Adds another function to flist.
@@ -77,10 +79,25 @@ class Softexit(object):
         """
 
         if self.triggered:
+            self.wait()
             return
         self.cleanup(status, message)
         self.kill()
 
+    def wait(self):
+        """Lets another thread that is running the emergency procedures finish.
+
+        Only the main thread has to wait, as the process ends with it.
+        """
+
+        thread = threading.current_thread()
+        while (
+            self.exiting
+            and thread is threading.main_thread()
+            and thread is not self._owner
+        ):
+            time.sleep(0.01)
+
     def cleanup(self, status="restartable", message=""):
         """Runs registered cleanup functions without exiting the process."""
 
@@ -89,19 +106,23 @@ class Softexit(object):
             threading.currentThread(),
             message,
         )
-        if not self.triggered:  # avoid double calls from different threads
-            self.exiting = True
-            self.triggered = True
-
-            if status == "restartable":
-                message += " Restartable as is: YES."
-            elif status == "success":
-                message += " I-PI reports success. Restartable as is: NO."
-            elif status == "bad":
-                message += " I-PI reports a problem. Restartable as is: NO."
-            else:
-                raise ValueError("Unknown option for softexit status.")
-
+        if status == "restartable":
+            message += " Restartable as is: YES."
+        elif status == "success":
+            message += " I-PI reports success. Restartable as is: NO."
+        elif status == "bad":
+            message += " I-PI reports a problem. Restartable as is: NO."
+        else:
+            raise ValueError("Unknown option for softexit status.")
+
+        with self._lock:  # avoid double calls from different threads
+            first = not self.triggered
+            if first:
+                self._owner = threading.current_thread()
+                self.exiting = True
+                self.triggered = True
+
+        if first:
             warning(
                 "Soft exit has been requested with message: '"
                 + message
@@ -110,17 +131,22 @@ class Softexit(object):
             )
 
             # calls all the registered emergency softexit procedures
-            for f, a, ka in self.flist:
-                try:
-                    f(*a, **ka)
-                except RuntimeError as err:
-                    print("Error running emergency softexit, ", err)
-                    pass
-
-            self.exiting = False  # emergency is over, signal we can be relaxed
-
-            for t, dl in self.tlist:  # set thread exit flag
-                dl[0] = False
+            try:
+                for f, a, ka in self.flist:
+                    try:
+                        f(*a, **ka)
+                    except Exception as err:
+                        print("Error running emergency softexit, ", err)
+                        pass
+            finally:
+                for t, dl in self.tlist:  # set thread exit flag
+                    dl[0] = False
+
+                # emergency is over, signal we can be relaxed
+                self.exiting = False
+
+        else:
+            self.wait()
 
         # wait for all (other) threads to finish
         for t, dl in self.tlist:
@@ -178,14 +204,20 @@ class Softexit(object):
             " @SOFTEXIT:   Kill signal. Trying to make a clean exit.", verbosity.low
         )
 
+        if self.exiting and self._owner is threading.current_thread():
+            # we are already trying to make a clean exit, let it finish
+            return
+
         self.trigger(status="restartable", message=" @SOFTEXIT: Kill signal received")
 
         try:
             self.__del__()
         except AttributeError:
             pass
-        if signal in self._kill:
+        if callable(self._kill.get(signal)):
             self._kill[signal](signal, frame)
+        else:
+            self.kill()
 
     def _softexit_monitor(self):
         """Keeps checking for soft exit conditions."""
-- 
2.43.0


From d9eb3844812e769f82cf2d2f1ba7c4793e4b736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 14/36] fix: a soft exit requested between steps leaves a
 RESTART that matches its step number

---
 ipi/engine/simulation.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..6a1302c 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -313,12 +313,12 @@ class Simulation:
         written out.
         """
 
-        if self.step < self.tsteps:
-            self.step += 1
         if not self.rollback:
             info(
                 " @simulation.softexit: Saving the latest status at the end of the step"
             )
+            if self.step < self.tsteps:
+                self.step += 1
             self.chk.store()
 
         self.chk.write(store=False)
@@ -363,7 +363,10 @@ class Simulation:
             # exit requests without screwing the trajectory
 
             steptime = -time.time()
-            if softexit.triggered or self.finished:
+            if softexit.triggered:
+                # the soft exit procedures will deal with the RESTART file
+                return
+            if self.finished:
                 break
 
             # save a consistent state of the simulation that will be saved as a RESTART file in case of premature (soft) exit
@@ -372,8 +375,10 @@ class Simulation:
 
             self.run_step(self.step)
 
-            if softexit.triggered or self.finished:
-                # Don't write if we are about to exit.
+            # Don't write if we are about to exit.
+            if softexit.triggered:
+                return
+            if self.finished:
                 break
 
             if write_outputs:
@@ -390,6 +395,10 @@ class Simulation:
                     for o in self.outputs:
                         o.write()
 
+            if softexit.triggered:
+                # some outputs might be missing, so this step must be repeated
+                return
+
             steptime += time.time()
             ttot += steptime
             cstep += 1
-- 
2.43.0


From 8793cbff51773ac311f6315c3c2b2cd9a1fd5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 15/36] fix: back up existing output files that are not in the
 working directory

---
 ipi/utils/io/__init__.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..e405b3e 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -428,6 +428,26 @@ def iter_file_name_raw(filename):
     return iter_file_raw(mode=os.path.splitext(filename)[1], filedesc=open(filename))
 
 
+def backup_file(filename):
+    """Renames a file, if it exists, to the first free backup file name."""
+
+    i = 0
+    fn_backup = filename
+    head, tail = os.path.split(filename)
+    while os.path.isfile(fn_backup):
+        fn_backup = os.path.join(head, "#" + tail + "#%i#" % i)
+        i += 1
+
+    if fn_backup != filename:
+        os.rename(filename, fn_backup)
+        info(
+            " @open_backup: Backup performed: {0:s} -> {1:s}".format(
+                filename, fn_backup
+            ),
+            verbosity.low,
+        )
+
+
 def open_backup(filename, mode="r", buffering=-1):
     """A wrapper around `open` which saves backup files.
 
@@ -446,21 +466,7 @@ def open_backup(filename, mode="r", buffering=-1):
 
     if mode.startswith("w"):
         # If writing, make sure nothing is overwritten.
-
-        i = 0
-        fn_backup = filename
-        while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
-            i += 1
-
-        if fn_backup != filename:
-            os.rename(filename, fn_backup)
-            info(
-                " @open_backup: Backup performed: {0:s} -> {1:s}".format(
-                    filename, fn_backup
-                ),
-                verbosity.low,
-            )
+        backup_file(filename)
 
     else:
         # There is no need to back up.
-- 
2.43.0


From cb0158a7a64b1fa57dde9df6ff929c47d5cc73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 16/36] fix: a checkpoint is replaced only once the new one is
 complete, and never while it is being updated

---
 ipi/engine/outputs.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index d8db273..ced31c5 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -18,7 +18,7 @@ from ipi.utils.softexit import softexit
 from ipi.utils.depend import *
 import ipi.utils.io as io
 from ipi.utils.io.inputs.io_xml import *
-from ipi.utils.io import open_backup
+from ipi.utils.io import open_backup, backup_file
 from ipi.engine.properties import getkey
 from ipi.engine.atoms import *
 from ipi.engine.cell import *
@@ -693,7 +693,6 @@ class CheckpointOutput:
         self.stride = stride
         self._step = depend_value(name="step", value=step)
         self.overwrite = overwrite
-        self._storing = False
         self._continued = False
 
     def bind(self, simul):
@@ -706,8 +705,11 @@ class CheckpointOutput:
         self.simul = simul
         import ipi.inputs.simulation as isimulation
 
+        # a new status is stored in `_spare`, that becomes `status` only when it
+        # is complete, so `status` can be written at any time, by any thread
         self.status = isimulation.InputSimulation()
         self.status.store(simul)
+        self._spare = isimulation.InputSimulation()
 
     def active(self):
         """Whether we will output at this step"""
@@ -723,9 +725,8 @@ class CheckpointOutput:
         positions would have been consistent.
         """
 
-        self._storing = True
-        self.status.store(self.simul)
-        self._storing = False
+        self._spare.store(self.simul)
+        self.status, self._spare = self._spare, self.status
 
     def write(self, store=True):
         """Writes out the required trajectories.
@@ -744,23 +745,11 @@ class CheckpointOutput:
               stored before writing the checkpoint file.
         """
 
-        if self._storing:
-            info(
-                "@ CHECKPOINT: Write called while storing. Force re-storing",
-                verbosity.low,
-            )
-            self.store()
-
         if not self.active():
             return
 
-        # function to use to open files
-        open_function = open_backup
-
         if self.overwrite:
             filename = self.filename
-            if self._continued:
-                open_function = open
         else:
             filename = self.filename + "_" + str(self.step)
 
@@ -770,12 +759,20 @@ class CheckpointOutput:
             self.store()
             self.status.step.store(self.simul.step + 1)
 
-        with open_function(filename, "w") as check_file:
+        # The new checkpoint takes the place of the old one only when it is safely
+        # stored, so there is a usable file even if we are killed at any time.
+        filename_new = filename + ".new"
+        with open(filename_new, "w") as check_file:
             info_string = get_identification_info_xml()
             check_file.write(info_string + "\n")
             check_file.write(self.status.write(name="simulation"))
+            check_file.flush()
+            os.fsync(check_file)
 
-        # Do not use backed up file open on subsequent writes.
+        # Do not back up on subsequent writes.
+        if not (self.overwrite and self._continued):
+            backup_file(filename)
+        os.replace(filename_new, filename)
         self._continued = True
 
 
-- 
2.43.0


From c8e933bb4d42628f94ae01b0b444b36898a1a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 17/36] fix: lines and frames of the outputs are written in
 full or not at all when a soft exit intervenes

---
 ipi/engine/outputs.py | 74 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index ced31c5..fe7ba11 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -9,6 +9,8 @@ and the restart files.
 # See the "licenses" directory for full license information.
 
 import os
+import threading
+from io import StringIO
 
 import numpy as np
 
@@ -116,7 +118,22 @@ class BaseOutput(object):
     def softexit(self):
         """Emergency call when i-pi must exit quickly"""
 
-        self.close_stream()
+        # does not interfere with a write that is taking place in another thread
+        with self._lock:
+            self.close_stream()
+
+    def write_block(self, stream, text, flush=False):
+        """Writes a complete block of output (a line, a frame), or nothing at all
+        if the stream has been closed because of a soft exit."""
+
+        with self._lock:
+            if stream is None or stream.closed:
+                return
+            if len(text) > 0:
+                stream.write(text)
+            if flush:
+                stream.flush()
+                os.fsync(stream)
 
     def close_stream(self):
         """Closes the output stream"""
@@ -135,15 +152,14 @@ class BaseOutput(object):
         """Stores a reference to system and registers for exiting"""
 
         self.system = system
+        self._lock = threading.RLock()
         self.open_stream(mode)
         softexit.register_function(self.softexit)
 
     def force_flush(self):
         """Tries hard to flush the output stream"""
 
-        if self.out is not None:
-            self.out.flush()
-            os.fsync(self.out)
+        self.write_block(self.out, "", flush=True)
 
     def remove(self):
         """Removes (temporary) output"""
@@ -155,8 +171,7 @@ class BaseOutput(object):
     def write(self, data):
         """Writes data to file"""
 
-        if self.out is not None:
-            return self.out.write(data)
+        self.write_block(self.out, data)
 
     def active(self):
         """Whether we will output at this step"""
@@ -275,7 +290,7 @@ class PropertyOutput(BaseOutput):
 
         if not self.active():
             return
-        self.out.write("  ")
+        line = "  "
         for what in self.outlist:
             try:
                 quantity, dimension, unit = self.system.properties[what]
@@ -284,17 +299,16 @@ class PropertyOutput(BaseOutput):
             except KeyError:
                 raise KeyError(what + " is not a recognized property")
             if not hasattr(quantity, "__len__"):
-                self.out.write(write_type(float, quantity) + "   ")
+                line += write_type(float, quantity) + "   "
             else:
                 for el in quantity:
-                    self.out.write(write_type(float, el) + " ")
-
-        self.out.write("\n")
+                    line += write_type(float, el) + " "
 
         self.nout += 1
-        if self.flush > 0 and self.nout >= self.flush:
-            self.force_flush()
+        doflush = self.flush > 0 and self.nout >= self.flush
+        if doflush:
             self.nout = 0
+        self.write_block(self.out, line + "\n", flush=doflush)
 
 
 class TrajectoryOutput(BaseOutput):
@@ -540,6 +554,34 @@ class TrajectoryOutput(BaseOutput):
               after each write to file or not.
         """
 
+        if format in ["binary", "bin"]:
+            # these are written directly to the underlying file
+            with self._lock:
+                if stream.closed:
+                    return
+                self.print_traj(
+                    data, what, stream, b, format, dimension, units, cell_units
+                )
+                self.write_block(stream, "", flush)
+        else:
+            # prepares the whole frame so it cannot be written only in part
+            frame = StringIO()
+            self.print_traj(data, what, frame, b, format, dimension, units, cell_units)
+            self.write_block(stream, frame.getvalue(), flush)
+
+    def print_traj(
+        self,
+        data,
+        what,
+        stream,
+        b=0,
+        format="xyz",
+        dimension="",
+        units="automatic",
+        cell_units="automatic",
+    ):
+        """Prints a frame of a trajectory to the given stream. See write_traj."""
+
         key = getkey(what)
         if key in ["extras", "extras_component_raw", "extras_bias"]:
             if key == "extras_component_raw":
@@ -612,9 +654,6 @@ class TrajectoryOutput(BaseOutput):
                             "No specialized writer for arrays of dimension > 2"
                         )
                     stream.write("\n")
-            if flush:
-                stream.flush()
-                os.fsync(stream)
             return
         elif getkey(what) in [
             "positions",
@@ -654,9 +693,6 @@ class TrajectoryOutput(BaseOutput):
             units=units,
             cell_units=cell_units,
         )
-        if flush:
-            stream.flush()
-            os.fsync(stream)
 
 
 class CheckpointOutput:
-- 
2.43.0


From 97f23975098dd02559827358f50d726f89e9cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:21 +0000
Subject: [PATCH 18/36] fix: update the scaled time step of the centroid
 propagator when masses or the time step change

---
 ipi/engine/motion/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..972f0cf 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -320,6 +320,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From 73c4caae0d69cf65092d09c1dbb43bbefce5e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:57 +0000
Subject: [PATCH 19/36] fix: a thread that asks for forces while another one
 collects them does not queue a second request

---
 ipi/engine/forces.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..ac59a26 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -133,11 +133,18 @@ class ForceBead:
         Returns True if a calculation is running
         """
 
+        # another thread is collecting the results, and takes care of the request
+        if not self._ufvx._threadlock.acquire(blocking=False):
+            return True
+
         # only dispatches a request if the forcefield needs it
-        with self._threadlock:
-            is_tainted = self._ufvx.tainted()
-            if self.request is None and is_tainted:
-                self.request = self.ff.queue(self.atoms, self.cell, reqid=self.uid)
+        try:
+            with self._threadlock:
+                is_tainted = self._ufvx.tainted()
+                if self.request is None and is_tainted:
+                    self.request = self.ff.queue(self.atoms, self.cell, reqid=self.uid)
+        finally:
+            self._ufvx._threadlock.release()
         return is_tainted
 
     def get_all(self):
-- 
2.43.0


From 9315088f561bab8f6bf72d69cb6eb28c31cb2c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:58 +0000
Subject: [PATCH 20/36] fix: a thread that fails or stops while waiting for
 forces does not leave the others waiting for it

---
 ipi/engine/forces.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ac59a26..2196610 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -167,7 +167,12 @@ class ForceBead:
 
         # this is converting the distribution library requests into [ u, f, v ]  lists
         if self.request is None:
-            self.queue()
+            try:
+                self.queue()
+            except Exception:
+                with self._threadlock:
+                    self._getallcount -= 1
+                raise
 
         # sleeps until the request has been evaluated
         request = self.request
@@ -178,6 +183,8 @@ class ForceBead:
                 # if we return, we may as well output wrong numbers, or mess up things.
                 # so we can only call soft-exit and wait until that is done. then kill the thread
                 # we are in.
+                with self._threadlock:
+                    self._getallcount -= 1
                 softexit.trigger(
                     message=" @ FORCES : cannot return so will die off here"
                 )
-- 
2.43.0


From f73a9939e74109b16b6840d72a02525ec4f29c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:58 +0000
Subject: [PATCH 21/36] fix: do not mark as outdated, or as up to date, what
 other threads have evaluated in the meantime

---
 ipi/utils/depend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index bae8afe..671e3c6 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -232,7 +232,9 @@ class depend_base(object):
         with self._threadlock:
             if self._tainted[0]:
                 self.update_auto()
-                self.taint(taintme=False)
+                # the dependants have been dealt with before the value became
+                # available: other threads might have used it in the meantime
+                self._tainted[0] = False
 
 
 class depend_value(depend_base):
-- 
2.43.0


From a657b9467035838e54adad22684d4f7338f79969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:58 +0000
Subject: [PATCH 22/36] fix: a request of a rotated forcefield that is already
 done does not go back to running

---
 ipi/engine/forcefields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..a1b6b87 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1779,7 +1779,8 @@ class FFRotations(ForceField):
         req = ForceField.queue(
             self, atoms, cell, reqid, template=dict(ff_handles=ffh, rots=rots)
         )
-        req["status"] = "Running"
+        # NB: the polling thread might have finished with the request already, so
+        # its status must not be touched here
         req["t_dispatched"] = time.time()
         return req
 
-- 
2.43.0


From e22be2f31e940e2eebd8cad2e746a98436993718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:11 +0000
Subject: [PATCH 23/36] fix: the offset is applied before a request is reported
 as done

---
 ipi/engine/forcefields.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index a1b6b87..e688d45 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -393,8 +393,17 @@ class FFEval(ForceField):
 
     def _eval_thread(self, request):
         """Evaluates a single request and applies the offset."""
-        self.evaluate(request)
-        request["result"][0] -= self.offset
+
+        # works on a copy, as the request must look finished only when its result
+        # is complete
+        work = ForceRequest(request)
+        self.evaluate(work)
+        work["result"][0] -= self.offset
+
+        request["result"] = work["result"]
+        request["t_finished"] = time.time()
+        request["status"] = "Done"
+        request._event_done.set()
 
     def poll(self):
         """Polls the forcefield checking if there are requests that should
-- 
2.43.0


From c3a7de3d3a0f708de99b6ee36c555251c8394654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:11 +0000
Subject: [PATCH 24/36] fix: a potential that fails in a thread stops the run
 instead of leaving it waiting for ever

---
 ipi/engine/forcefields.py | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index e688d45..dd7a4f9 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -13,6 +13,7 @@ import time
 import threading
 import json
 import sys
+import traceback
 from contextlib import nullcontext
 
 import numpy as np
@@ -209,7 +210,13 @@ class ForceField:
             self.requests.append(newreq)
 
         if not self.threaded:
-            self.poll()
+            try:
+                self.poll()
+            except Exception:
+                if threading.current_thread() is not threading.main_thread():
+                    # other threads might be waiting for what failed
+                    self._abort()
+                raise
 
         return newreq
 
@@ -244,7 +251,25 @@ class ForceField:
         while self._doloop[0]:
             time.sleep(self.latency)
             if len(self.requests) > 0:
-                self.poll()
+                try:
+                    self.poll()
+                except Exception:
+                    self._abort()
+                    break
+
+    def _abort(self):
+        """Stops the simulation because of an error in one of the threads, that
+        otherwise would leave requests pending forever."""
+
+        traceback.print_exc()
+        # this needs a separate thread, as a soft exit waits for the polling threads
+        threading.Thread(
+            target=softexit.trigger,
+            kwargs={
+                "status": "bad",
+                "message": f" @ForceField ({self.name}): Error evaluating the forces.",
+            },
+        ).start()
 
     def release(self, request, lock=True):
         """Removes a request from the evaluation queue.
@@ -397,8 +422,14 @@ class FFEval(ForceField):
         # works on a copy, as the request must look finished only when its result
         # is complete
         work = ForceRequest(request)
-        self.evaluate(work)
-        work["result"][0] -= self.offset
+        try:
+            self.evaluate(work)
+            work["result"][0] -= self.offset
+        except Exception:
+            if not self.threaded:
+                raise
+            self._abort()
+            return
 
         request["result"] = work["result"]
         request["t_finished"] = time.time()
-- 
2.43.0


From 7d2a598676e4abc5013fb71cd175b4b174d14ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:11 +0000
Subject: [PATCH 25/36] fix: committees with direct forcefields can be stored
 in checkpoints

---
 ipi/inputs/forcefields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..7c70b49 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1019,6 +1019,10 @@ class InputFFCommittee(InputForceField):
                     _iobj = InputFFSocket()
                     _iobj.store(_obj)
                     self.extra[_ii] = ("ffsocket", _iobj)
+                elif isinstance(_obj, FFDirect):
+                    _iobj = InputFFDirect()
+                    _iobj.store(_obj)
+                    self.extra[_ii] = ("ffdirect", _iobj)
                 elif isinstance(_obj, FFLennardJones):
                     _iobj = InputFFLennardJones()
                     _iobj.store(_obj)
-- 
2.43.0


From 30f020eff0749a2e1e2a2d31ec57d562aead72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:11 +0000
Subject: [PATCH 26/36] fix: hamiltonian weights take effect when replicas
 exchange them

---
 ipi/engine/ensembles.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..c2cbe2a 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,7 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(name="hweights", value=np.asarray(hweights))
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +199,10 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
 
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -290,6 +291,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From daeff6f7cca92afea2f91a1de77be1f145cdb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:11 +0000
Subject: [PATCH 27/36] fix: instanton searches can be continued from a
 checkpoint written before the first step

---
 ipi/engine/motion/instanton.py |  3 +++
 ipi/inputs/motion/instanton.py | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/instanton.py b/ipi/engine/motion/instanton.py
index 835a325..765443d 100644
--- a/ipi/engine/motion/instanton.py
+++ b/ipi/engine/motion/instanton.py
@@ -1082,6 +1082,9 @@ class DummyOptimizer:
                 * imvector[:]
             )
 
+        # it has served its purpose, and must not be stored in the checkpoints any more
+        self.optarrays["initial_hessian"] = None
+
     def exitstep(self, d_x_max, step):
         """Exits the simulation step. Computes time, checks for convergence."""
         self.qtime += time.time()
diff --git a/ipi/inputs/motion/instanton.py b/ipi/inputs/motion/instanton.py
index 878e25e..dbbd4ad 100644
--- a/ipi/inputs/motion/instanton.py
+++ b/ipi/inputs/motion/instanton.py
@@ -362,13 +362,19 @@ class InputInst(InputDictionary):
         self.old_force.store(optarrays["old_f"])
         self.energy_shift.store(optarrays["energy_shift"])
 
+        # the 1-bead hessian is kept until the first step makes a geometry out of it
+        initial_hessian = geop.optimizer.optarrays.get("initial_hessian")
+        if initial_hessian is not None:
+            self.hessian.store(initial_hessian)
+
         # Now we decide what to store depending on optimization algorithm
         if (
             geop.options["opt"] == "nichols"
             or geop.options["opt"] == "NR"
             or geop.options["opt"] == "lanczos"
         ):
-            self.hessian.store(optarrays["hessian"])
+            if initial_hessian is None:
+                self.hessian.store(optarrays["hessian"])
             self.hessian_update.store(options["hessian_update"])
             self.hessian_asr.store(options["hessian_asr"])
             if options["friction"]:
@@ -384,7 +390,7 @@ class InputInst(InputDictionary):
             self.corrections_lbfgs.store(options["corrections"])
             self.ls_options.store(options["ls_options"])
             self.hessian_final.store(options["hessian_final"])
-            if options["hessian_final"] == "true":
+            if options["hessian_final"] == "true" and initial_hessian is None:
                 self.hessian.store(optarrays["hessian"])
 
     def fetch(self):
-- 
2.43.0


From d640e030e88332d801bd1e66eea047820fa5a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:57 +0000
Subject: [PATCH 28/36] fix: threaded random number generation fills the array
 it is given, not a copy

---
 ipi/utils/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 890907f..f78ca70 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -188,7 +188,7 @@ class Random(object):
             out: The array to be filled.
         """
 
-        out_flat = out.flatten()
+        out_flat = out.reshape(-1)  # a view, so that out itself is filled
         step_size = np.ceil(len(out_flat) / self.n_threads).astype(int)
         if step_size < _MIN_STEP_THREADED:
             # falls back to serial if the vector is too small
-- 
2.43.0


From 051a32524c7407854b96f84802aa7b276ab61ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:57 +0000
Subject: [PATCH 29/36] fix: checkpoints of bfgs and l-bfgs optimizations keep
 the line search options

---
 ipi/inputs/motion/geop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/inputs/motion/geop.py b/ipi/inputs/motion/geop.py
index 75e7de9..7842059 100644
--- a/ipi/inputs/motion/geop.py
+++ b/ipi/inputs/motion/geop.py
@@ -212,6 +212,7 @@ class InputGeop(InputDictionary):
             self.old_direction.store(geop.d)
             self.invhessian_bfgs.store(geop.invhessian)
             self.biggest_step.store(geop.big_step)
+            self.ls_options.store(geop.ls_options)
         elif geop.mode == "bfgstrm":
             self.hessian_trm.store(geop.hessian)
             self.tr_trm.store(geop.tr)
@@ -223,6 +224,7 @@ class InputGeop(InputDictionary):
             self.corrections_lbfgs.store(geop.corrections)
             self.scale_lbfgs.store(geop.scale)
             self.biggest_step.store(geop.big_step)
+            self.ls_options.store(geop.ls_options)
         elif geop.mode == "sd":
             self.ls_options.store(geop.ls_options)
         elif geop.mode == "cg":
-- 
2.43.0


From 4190cc86f10e0de0cab50b3a9ab2b65bda7d53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:02 +0000
Subject: [PATCH 30/36] fix: attributes of prng, normal_modes and forcefields
 are written as attributes, so that checkpoints that hold them can be read

---
 ipi/inputs/forcefields.py | 4 ++--
 ipi/inputs/normalmodes.py | 6 ++----
 ipi/inputs/prng.py        | 2 +-
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index 7c70b49..c633f63 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -281,7 +281,7 @@ class InputFFSocket(InputForceField):
 
     # FFSocket polling mechanism won't work with non-threaded execution
     attribs["threaded"] = (
-        InputValue,
+        InputAttribute,
         {
             "dtype": bool,
             "default": True,
@@ -483,7 +483,7 @@ class InputFFMPI(InputForceField):
     attribs.update(InputForceField.attribs)
     # the polling mechanism requires threaded execution
     attribs["threaded"] = (
-        InputValue,
+        InputAttribute,
         {
             "dtype": bool,
             "default": True,
diff --git a/ipi/inputs/normalmodes.py b/ipi/inputs/normalmodes.py
index 4742540..e1fd6a3 100644
--- a/ipi/inputs/normalmodes.py
+++ b/ipi/inputs/normalmodes.py
@@ -159,21 +159,19 @@ class InputNormalModes(Input):
             },
         ),
         "fft_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
                 "help": "The number of threads to be used for the FFT.",
-                "dimension": None,
             },
         ),
         "fft_float32": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": bool,
                 "default": False,
                 "help": "Whether to use single precision FFT.",
-                "dimension": None,
             },
         ),
     }
diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index 5a66027..54d42d2 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -34,7 +34,7 @@ class InputRandom(Input):
 
     attribs = {
         "n_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
-- 
2.43.0


From ec1e3ec807e61814da36113de83302a316301fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:38 +0000
Subject: [PATCH 31/36] fix: structures with different numbers of atoms are
 never bundled into one MPI request

---
 ipi/interfaces/mpi.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ipi/interfaces/mpi.py b/ipi/interfaces/mpi.py
index 593878c..4060cd9 100644
--- a/ipi/interfaces/mpi.py
+++ b/ipi/interfaces/mpi.py
@@ -298,14 +298,16 @@ class InterfaceMPI:
         if not queued:
             return
 
-        qi = 0
         for slot in self._ranks.values():
-            if slot["state"] != "IDLE" or qi >= len(queued):
+            if slot["state"] != "IDLE" or not queued:
                 continue
-            batch = queued[qi : qi + self.batch_size]
-            qi += len(batch)
+            # all the structures in a batch must have the same number of atoms
+            nat = len(queued[0]["pos"]) // 3
+            batch = [r for r in queued if len(r["pos"]) == 3 * nat]
+            batch = batch[: self.batch_size]
+            for r in batch:
+                queued.remove(r)
 
-            nat = len(batch[0]["pos"]) // 3
             slot["nat"] = nat
             header = np.array([nat, len(batch)], dtype=np.int32)
             body = np.empty(len(batch) * (18 + 3 * nat), dtype=np.float64)
-- 
2.43.0


From 152f5e0aa3e35407a7d56880bd2bc9b2c2740f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:33 +0000
Subject: [PATCH 32/36] fix: a stop request during InteractiveSimulation.run
 does not replace RESTART with the state in the middle of a step

---
 ipi/scripting/interactive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipi/scripting/interactive.py b/ipi/scripting/interactive.py
index 69763bd..cb08ea1 100644
--- a/ipi/scripting/interactive.py
+++ b/ipi/scripting/interactive.py
@@ -11,6 +11,7 @@ from copy import deepcopy
 import numpy as np
 
 from ipi.utils.depend import dstrip
+from ipi.utils.softexit import softexit
 from ipi.utils.units import unit_to_internal, unit_to_user, Constants
 from ipi.engine.simulation import Simulation
 from ipi.engine.motion import Dynamics
@@ -95,6 +96,11 @@ class InteractiveSimulation(Simulation):
 
         self.tsteps = self.step + steps
         super().run(write_outputs=write_outputs)
+        if softexit.triggered:
+            # the soft exit procedures deal with the RESTART file: by now the
+            # simulation might be half-way through a step
+            softexit.wait()
+            return
         # saves the RESTART file
         self.chk.write(store=True)
         self.step += 1
-- 
2.43.0


From af9b81dbdd48af5276de65f24f248d6297854b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:45 +0000
Subject: [PATCH 33/36] fix: a part of a synchronized array is written through
 an older reference only after the rest followed its peer

---
 ipi/utils/depend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index 671e3c6..539381b 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -487,6 +487,10 @@ class depend_array(depend_base):
         )
 
     def __setitem__(self, index, value):
+        # a part of a synchronized array is written through a reference that was
+        # taken before a peer was changed: the rest must follow the peer first
+        if self._synchro is not None and self._tainted[0]:
+            self._refresh()
         with self._threadlock:
             self._value[index] = value
             # Skip update_man() on plain leaf-storage arrays (no synchro,
-- 
2.43.0


From 9846e1306b7107ef4ba65dc5743ecf285b465117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:15 +0000
Subject: [PATCH 34/36] fix: methods and attributes of a dependent array refer
 to its current value, also through an older reference

---
 ipi/utils/depend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index 539381b..f0ea3f0 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -381,10 +381,14 @@ class depend_array(depend_base):
 
     @property
     def T(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.T
 
     @property
     def flat(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.flat
 
     @property
@@ -397,10 +401,14 @@ class depend_array(depend_base):
 
     @property
     def real(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.real
 
     @property
     def imag(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.imag
 
     # ------------------------------------------------------------------
@@ -416,6 +424,8 @@ class depend_array(depend_base):
             value = object.__getattribute__(self, "_value")
         except AttributeError:
             raise AttributeError(name)
+        if self._tainted[0]:
+            self._refresh()
         return getattr(value, name)
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 44fd08228de7f5703b3063a4f02379e115fb744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:41 +0000
Subject: [PATCH 35/36] fix: np.array of a dependent array is a copy, as for
 any array

---
 ipi/utils/depend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index f0ea3f0..82067a8 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -340,7 +340,7 @@ class depend_array(depend_base):
             self._refresh()
         v = self._value
         if dtype is None or dtype == v.dtype:
-            return v
+            return v.copy() if copy else v
         return v.astype(dtype)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-- 
2.43.0


From 26c0e08844c3d19d56c1d9c9bc9b7fe67545667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:08 +0000
Subject: [PATCH 36/36] fix: systems with different numbers of atoms can share
 a forcefield

---
 ipi/engine/forcefields.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index dd7a4f9..db2e130 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -167,7 +167,9 @@ class ForceField:
         # Indexes come from input in a per atom basis and we need to make a per atom-coordinate basis
         # Reformat indexes for full system (default) or piece of system
         # active atoms do not change but we only know how to build this array once we get the positions once
-        if self.iactive is None:
+        # (when all are active, systems of different sizes may share the forcefield)
+        iactive = self.iactive
+        if iactive is None or (self.active[0] == -1 and len(iactive) != len(pbcpos)):
             if self.active[0] == -1:
                 activehere = np.arange(len(pbcpos))
             else:
@@ -182,7 +184,7 @@ class ForceField:
             if len(activehere) > len(pbcpos) or activehere[-1] > (len(pbcpos) - 1):
                 raise ValueError("There are more active atoms than atoms!")
 
-            self.iactive = activehere
+            iactive = self.iactive = activehere
 
         if self.dopbc:
             cell.array_pbc(pbcpos)
@@ -190,7 +192,7 @@ class ForceField:
         fields = {
             "id": reqid,
             "pos": pbcpos,
-            "active": self.iactive,
+            "active": iactive,
             "cell": (dstrip(cell.h).copy(), dstrip(cell.ih).copy()),
             "pars": par_str,
             "result": None,
-- 
2.43.0

