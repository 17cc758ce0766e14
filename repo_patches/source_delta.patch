From d49bc3abba4f7b24a56352928af64eebeda453da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 01/44] fix: mask write register stores signed values on a
 signed slave

---
 modbus_tk/modbus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..66b5378 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -642,7 +642,10 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        # store it in the same representation (signed or unsigned) as the other write functions
+        fmt = "H" if self.unsigned else "h"
+        block[offset] = struct.unpack(">"+fmt, struct.pack(">H", value & 0xffff))[0]
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From 3f87a9a8bb8e697b8bc790ca913426baefc3e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 02/44] fix: Server.stop could join a thread that was never
 started

---
 modbus_tk/modbus.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 66b5378..955f901 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1058,9 +1058,11 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
-            self._go.clear()
-            self._thread.join()
+        # the server thread replaces these attributes when it ends: always use the same ones
+        thread, go = self._thread, self._go
+        if thread.is_alive():
+            go.clear()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
-- 
2.43.0


From 11027852052fffabc11e7fa37fdd8c354ab0e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 03/44] fix: add_block missed overlaps when blocks were not
 added in address order

---
 modbus_tk/modbus.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 955f901..cda4b2e 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -795,16 +795,15 @@ class Slave(object):
             # check that the new block doesn't overlap an existing block
             # it means that only 1 block per type must correspond to a given address
             # for example: it must not have 2 holding registers at address 100
+            # the blocks of a type are sorted by starting address
             index = 0
-            for i in range(len(self._memory[block_type])):
-                block = self._memory[block_type][i]
+            for block in self._memory[block_type]:
                 if block.is_in(starting_address, size):
                     raise OverlapModbusBlockError(
                         "Overlap block at {0} size {1}".format(block.starting_address, block.size)
                     )
-                if block.starting_address > starting_address:
-                    index = i
-                    break
+                if block.starting_address < starting_address:
+                    index += 1
 
             # if the block is ok: register it
             self._blocks[block_name] = (block_type, starting_address)
-- 
2.43.0


From d1914962d7124336f7289a0b82ac50a4d4e7a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 04/44] fix: call_hooks held a global lock during user
 functions and skipped functions uninstalled meanwhile

---
 modbus_tk/hooks.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..6c992b0 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -98,13 +98,12 @@ def uninstall_hook(name, fct=None):
 
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
+    # do not hold the lock while calling the functions: they may wait for other threads calling hooks.
+    # work on a copy: the functions may install or uninstall hooks
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
-        return None
-
+        fcts = list(_HOOKS.get(name, ()))
+    for fct in fcts:
+        retval = fct(args)
+        if retval is not None:
+            return retval
+    return None
-- 
2.43.0


From c1cb0fea5b4bafeed4bad554d77f425dddbde5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 05/44] fix: TcpServer stopped listening when accepting a
 connection or on_connect failed

---
 modbus_tk/modbus_tcp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..6d75561 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -356,5 +356,7 @@ class TcpServer(Server):
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                if sock is not self._sock:
+                    # never close the listening socket: the next connection may be accepted
+                    sock.close()
+                    self._sockets.remove(sock)
-- 
2.43.0


From b3b668114e6c9c376900a3eee4c28f7cc50c4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 06/44] fix: an exception in an on_error hook stopped the
 server

---
 modbus_tk/modbus_rtu.py | 5 ++++-
 modbus_tk/modbus_tcp.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..32a8c36 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -311,4 +311,7 @@ class RtuServer(Server):
 
         except Exception as excpt:
             LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
-            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            try:
+                call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            except Exception as msg:
+                LOGGER.error("Error in on_error hook, Exception occurred: %s", msg)
diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 6d75561..6020ce5 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -355,7 +355,10 @@ class TcpServer(Server):
                                 )
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
-                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                try:
+                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                except Exception as msg:
+                    LOGGER.error("Error in on_error hook, Exception occurred: %s", msg)
                 if sock is not self._sock:
                     # never close the listening socket: the next connection may be accepted
                     sock.close()
-- 
2.43.0


From e426e67887972cb2a2922dd982ad55e2a1b5144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 07/44] fix: a broadcast failed when slaves were added or
 removed at the same time

---
 modbus_tk/modbus.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index cda4b2e..f59c9c0 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -950,9 +950,11 @@ class Databank(object):
 
             # get the slave and let him executes the action
             if slave_id == 0:
-                # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                # broadcast: slaves may be added or removed by other threads at the same time
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    slave.handle_request(request_pdu, broadcast=True)
                 return
             else:
                 try:
-- 
2.43.0


From 777ed43eed230c4f9cffc97a48994a1b4bafb484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 08/44] fix: a broadcast failing on one slave was answered and
 not applied to the others

---
 modbus_tk/modbus.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index f59c9c0..88b7d34 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -954,7 +954,14 @@ class Databank(object):
                 with self._lock:
                     slaves = list(self._slaves.values())
                 for slave in slaves:
-                    slave.handle_request(request_pdu, broadcast=True)
+                    try:
+                        slave.handle_request(request_pdu, broadcast=True)
+                    except ModbusInvalidRequestError:
+                        raise
+                    except Exception as excpt:
+                        # the other slaves must still get it and a broadcast is never answered
+                        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
+                        LOGGER.error("handle broadcast failed: " + str(excpt))
                 return
             else:
                 try:
-- 
2.43.0


From 07757d27ccbe01cc5be60c53780f1af9fd89c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 09/44] fix: requests with a function code above 127 were not
 answered

---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 88b7d34..29c25c6 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -774,7 +774,7 @@ class Slave(object):
             except ModbusError as excpt:
                 LOGGER.debug(str(excpt))
                 call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
-                return struct.pack(">BB", function_code+128, excpt.get_exception_code())
+                return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())
 
     def add_block(self, block_name, block_type, starting_address, size):
         """Add a new block identified by its name"""
@@ -993,7 +993,7 @@ class Databank(object):
         if len(request_pdu) > 0:
             (func_code, ) = struct.unpack(">B", request_pdu[0:1])
 
-        return struct.pack(">BB", func_code + 0x80, defines.SLAVE_DEVICE_FAILURE)
+        return struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE)
 
 
 class Server(object):
-- 
2.43.0


From 4406180dbc8c1911375a4b6f52216b40c7c35f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 10/44] fix: server error responses were sent without MBAP
 header or RTU address and CRC

---
 modbus_tk/modbus.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 29c25c6..4ae4b6e 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -943,7 +943,7 @@ class Databank(object):
         """
         when a request is received, handle it and returns the response pdu
         """
-        request_pdu = ""
+        slave_id, request_pdu = None, ""
         try:
             # extract the pdu and the slave id
             (slave_id, request_pdu) = query.parse_request(request)
@@ -988,6 +988,10 @@ class Databank(object):
             call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
             LOGGER.error("handle request failed: " + str(excpt))
 
+        if not slave_id:
+            # broadcast or not even a valid frame: do not send any response
+            return ""
+
         # If the request was not handled correctly, return a server error response
         func_code = 1
         if len(request_pdu) > 0:
@@ -1100,6 +1104,9 @@ class Server(object):
             request = retval
 
         response = self._databank.handle_request(query, request)
+        if response and len(response) == 2:
+            # the databank could not handle the request and returned the pdu of a server error response
+            response = query.build_response(response)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
         if retval:
             response = retval
-- 
2.43.0


From 535f785e751a10174a7087ba7f9677ed0719b964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 11/44] fix: TCP master and server could send only a part of a
 frame

---
 modbus_tk/modbus_tcp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 6020ce5..2e1f982 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -202,7 +202,7 @@ class TcpMaster(Master):
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
             self._do_open()
-        self._sock.send(request)
+        self._sock.sendall(request)
 
     def _recv(self, expected_length=-1):
         """
@@ -342,17 +342,23 @@ class TcpServer(Server):
 
                         # send back the response
                         if response:
+                            is_broken = False
                             try:
                                 retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                 if retval is not None:
                                     response = retval
-                                sock.send(response)
+                                is_broken = True
+                                sock.sendall(response)
+                                is_broken = False
                                 call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                             except Exception as msg:
                                 is_ok = False
                                 LOGGER.error(
                                     "Error while sending on socket %d, Exception occurred: %s", sock.fileno(), msg
                                 )
+                                if is_broken:
+                                    # a part of the response may have been sent: close the connection
+                                    raise
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 try:
-- 
2.43.0


From 683718310ce2bf4dcc8547aeefa3baa63378acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 12/44] fix: a server that failed kept its sockets and could
 not be restarted

---
 modbus_tk/modbus.py     | 18 +++++++++++-------
 modbus_tk/modbus_tcp.py |  3 ++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 4ae4b6e..8ccd7fb 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1079,16 +1079,20 @@ class Server(object):
     def _run_server(self):
         """main function of the main thread"""
         try:
-            self._do_init()
-            while self._go.isSet():
-                self._do_run()
-            LOGGER.debug("%s has stopped", self.__class__)
-            self._do_exit()
+            try:
+                self._do_init()
+                while self._go.isSet():
+                    self._do_run()
+                LOGGER.debug("%s has stopped", self.__class__)
+            finally:
+                # release the sockets and ports also if the server could not start or failed
+                self._do_exit()
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-        # make possible to rerun in future
-        self._make_thread()
+        finally:
+            # make possible to rerun in future
+            self._make_thread()
 
     def _handle(self, request):
         """handle a received sentence"""
diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 2e1f982..104c668 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -278,7 +278,8 @@ class TcpServer(Server):
             except Exception as msg:
                 LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
         self._sockets = []
-        self._sock.close()
+        if self._sock:
+            self._sock.close()
         self._sock = None
 
     def _do_run(self):
-- 
2.43.0


From 106509e115093cffc971a8abd51abc24a18bb650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 13/44] fix: a client socket that select can not poll stopped
 the TCP server

---
 modbus_tk/modbus_tcp.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 104c668..745dc19 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -282,10 +282,35 @@ class TcpServer(Server):
             self._sock.close()
         self._sock = None
 
+    def _close_invalid_sockets(self, excpt):
+        """close the client sockets which can not be polled. Returns the number of closed sockets"""
+        nb_of_closed = 0
+        for sock in self._sockets[:]:
+            if sock is self._sock:
+                continue
+            try:
+                select.select([sock], [], [], 0.0)
+            except (ValueError, select.error):
+                LOGGER.warning("Error while polling socket %d: %s", sock.fileno(), excpt)
+                try:
+                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                except Exception as msg:
+                    LOGGER.error("Error in on_error hook, Exception occurred: %s", msg)
+                sock.close()
+                self._sockets.remove(sock)
+                nb_of_closed += 1
+        return nb_of_closed
+
     def _do_run(self):
         """called in a almost-for-ever loop by the server"""
         # check the status of every socket
-        inputready = select.select(self._sockets, [], [], 1.0)[0]
+        try:
+            inputready = select.select(self._sockets, [], [], 1.0)[0]
+        except (ValueError, select.error) as excpt:
+            # the descriptor of a socket is too high for select or a hook closed a socket
+            if not self._close_invalid_sockets(excpt):
+                raise
+            return
 
         # handle data on each a socket
         for sock in inputready:
-- 
2.43.0


From 2f74b005c8cbc4e6dabf197144c3b63cd94b9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 14/44] fix: truncated write requests were partly executed

---
 modbus_tk/modbus.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 8ccd7fb..e4d0fd1 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -624,6 +624,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 10 + byte_count_to_write:
+            # some of the values are missing: do not write the others
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
@@ -659,6 +663,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some of the values are missing: do not write the others
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
 
@@ -684,6 +692,10 @@ class Slave(object):
             # maximum allowed size is 1968 coils
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some of the values are missing: do not write the others
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
 
-- 
2.43.0


From 3cfeb36e35614a8cbcc1c662e128b67da0d3d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 15/44] fix: RtuOverTcpMaster looped forever when the
 connection was closed

---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..91af6e0 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -26,6 +26,9 @@ class RtuOverTcpMaster(TcpMaster):
             rcv_byte = self._sock.recv(1)
             if rcv_byte:
                 response += rcv_byte
+            else:
+                # the connection is closed
+                break
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From e48a10f43df8c4ab7f85c29d122eaf9d4c58d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 16/44] fix: TcpMaster reused a socket whose connection or
 sending had failed

A connect that timed out left a half-open socket which the following
requests kept using until the connection attempt ended, and a request
sent in part made the slave take the next one for its end.
---
 modbus_tk/modbus_tcp.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 745dc19..42c2e40 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -170,7 +170,13 @@ class TcpMaster(Master):
         self.set_timeout(self.get_timeout())
         self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
         call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
-        self._sock.connect((self._host, self._port))
+        try:
+            self._sock.connect((self._host, self._port))
+        except Exception:
+            # the connection may still be in progress: this socket must not be reused by the next request
+            self._sock.close()
+            self._sock = None
+            raise
         call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))
 
     def _do_close(self):
@@ -202,7 +208,13 @@ class TcpMaster(Master):
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
             self._do_open()
-        self._sock.sendall(request)
+        try:
+            self._sock.sendall(request)
+        except Exception:
+            # a part of the request may have been sent: the next request needs a new connection
+            self._sock.close()
+            self._sock = None
+            raise
 
     def _recv(self, expected_length=-1):
         """
-- 
2.43.0


From 35eb8ec1b1eb893af3bec78d4394baea721947a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 17/44] fix: RtuOverTcpMaster timed out on exception responses

The length of the normal response was expected.
---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index 91af6e0..ad018a4 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -31,6 +31,9 @@ class RtuOverTcpMaster(TcpMaster):
                 break
             if expected_length >= 0 and len(response) >= expected_length:
                 break
+            if len(response) >= 5 and bytearray(response)[1] & 0x80:
+                # an exception response is always 5 bytes long
+                break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
         if retval is not None:
             return retval
-- 
2.43.0


From 6e7a14e96a5a96851d620d7568d08f988eed1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 18/44] fix: RtuOverTcpMaster could not receive responses of
 unknown length

DEVICE_INFO and RAW requests always timed out.
---
 modbus_tk/modbus_rtu_over_tcp.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index ad018a4..9609b9b 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -9,6 +9,8 @@
  This is distributed under GNU LGPL license, see license.txt
 """
 
+import socket
+
 from modbus_tk.hooks import call_hooks
 from modbus_tk.modbus_rtu import RtuQuery
 from modbus_tk.modbus_tcp import TcpMaster
@@ -21,9 +23,15 @@ class RtuOverTcpMaster(TcpMaster):
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
         response = to_data('')
-        length = 255
+        length = 256
         while len(response) < length:
-            rcv_byte = self._sock.recv(1)
+            try:
+                rcv_byte = self._sock.recv(1)
+            except socket.timeout:
+                if expected_length < 0 and len(response) > 0:
+                    # the length of the response is unknown: it ends with a silence
+                    break
+                raise
             if rcv_byte:
                 response += rcv_byte
             else:
-- 
2.43.0


From 2ffcad61ad2f1884386494fd0e3aaab6adf163de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 19/44] fix: DIAGNOSTIC responses could not be decoded with the
 default format

The default format left out the sub-function code.
---
 modbus_tk/modbus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index e4d0fd1..67d8ab8 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -297,7 +297,8 @@ class Master(object):
                     # copy data in pdu
                     pdu += struct.pack(">B", j)
                 if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
+                    # sub-function code and data
+                    data_format = ">H" + (len(output_value) * "B")
                 if expected_length < 0:
                     # No length was specified and calculated length can be used:
                     # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-- 
2.43.0


From cd8164e3554e7a15bf4f3ca9d166c27030b94959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 20/44] fix: RtuMaster with software timeout dropped the bytes
 received last

Exception responses, which are shorter than expected and so end with the
timeout, were never received.
---
 modbus_tk/modbus_rtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 32a8c36..bafef49 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -155,9 +155,9 @@ class RtuMaster(Master):
                 read_duration = time.time() - start_time
             else:
                 read_duration = 0
+            response += read_bytes
             if (not read_bytes) or (read_duration > self._serial.timeout):
                 break
-            response += read_bytes
             if expected_length >= 0 and len(response) >= expected_length:
                 # if the expected number of byte is received consider that the response is done
                 # improve performance by avoiding end-of-response detection by timeout
-- 
2.43.0


From 69f687280a9dbc4f3244e987f904eef730df0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 21/44] fix: RtuMaster took the end of a local echo received in
 several parts for the response

---
 modbus_tk/modbus_rtu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index bafef49..1883d2e 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -137,7 +137,13 @@ class RtuMaster(Master):
 
         # Read the echo data, and discard it
         if self.handle_local_echo:
-            self._serial.read(len(request))
+            echo_length = len(request)
+            while echo_length > 0:
+                echo_bytes = self._serial.read(echo_length)
+                if not echo_bytes:
+                    break
+                # the echo may be received in several parts
+                echo_length -= len(echo_bytes)
 
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
-- 
2.43.0


From 6082a6a9159318de76daa76a0ef5a0cd0e77d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 22/44] fix: RtuServer.stop could block when the port could not
 be opened again

The serial port kept its infinite timeout after a failed re-opening.
---
 modbus_tk/modbus_rtu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 1883d2e..04a474e 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -276,7 +276,9 @@ class RtuServer(Server):
                 except Exception as e:
                     self._serial.close()
                     self._serial.open()
-                self._serial.timeout = self._timeout
+                finally:
+                    # also if the port could not be opened again: the next read must not block forever
+                    self._serial.timeout = self._timeout
 
             # Read rest of the request
             while True:
-- 
2.43.0


From a4276908ed1455073a0c001ea7d4fd85ee2a6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 23/44] fix: RtuServer.stop failed while the server thread was
 closing the port

---
 modbus_tk/modbus_rtu.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 04a474e..3304651 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -248,7 +248,11 @@ class RtuServer(Server):
         if self._serial.is_open:
             # cancel any pending read from server thread, it most likely is
             # blocking read(1) call
-            self._serial.cancel_read()
+            try:
+                self._serial.cancel_read()
+            except Exception as msg:
+                # the server thread may be closing the port after an error
+                LOGGER.warning("Error while cancelling read, Exception occurred: %s", msg)
         super(RtuServer, self).stop()
 
     def _do_init(self):
-- 
2.43.0


From c9571d5885b7fb96980a7d58652ecbf709341e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 24/44] fix: RtuServer did not recover when the device was
 disconnected while not reading

---
 modbus_tk/modbus_rtu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 3304651..0e34534 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -273,8 +273,9 @@ class RtuServer(Server):
             request = utils.to_data('')
             if self._block_on_first_byte:
                 # do a blocking read for first byte
-                self._serial.timeout = None
                 try:
+                    # changing the timeout fails too if the device was disconnected
+                    self._serial.timeout = None
                     read_bytes = self._serial.read(1)
                     request += read_bytes
                 except Exception as e:
-- 
2.43.0


From 9ba8b1e85ff3c5e9195f1dfb10ea140755f2fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 25/44] fix: the RPC interface of the simulator did not work on
 Python 3

---
 modbus_tk/simulator.py            | 4 +++-
 modbus_tk/simulator_rpc_client.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..ffdfeeb 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -91,12 +91,14 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # self.request is the TCP socket connected to the client
         # read the incoming command
         request = self.request.recv(1024).strip()
+        if not modbus_tk.utils.PY2:
+            request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
         INPUT_QUEUE.put(request)
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        self.request.send(response if modbus_tk.utils.PY2 else response.encode("utf-8"))
 
 
 class RpcInterface(threading.Thread):
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..15a1dd1 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import socket
 import modbus_tk.defines
+from modbus_tk.utils import PY2
 
 
 class SimulatorRpcClient(object):
@@ -28,9 +29,11 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
+        sock.send(query if PY2 else query.encode("utf-8"))
         response = sock.recv(1024)
         sock.close()
+        if not PY2:
+            response = response.decode("utf-8")
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
     def _response_to_values(self, response, command):
-- 
2.43.0


From f7c83b743b36a2329c5b399b1261c28e46444fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 26/44] fix: simulator RPC commands and answers could be cut
 and a silent RPC client blocked quit

---
 modbus_tk/simulator.py            | 22 ++++++++++++++++++++--
 modbus_tk/simulator_rpc_client.py | 15 +++++++++++----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index ffdfeeb..a9369ee 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -18,6 +18,7 @@ import os
 import sys
 import select
 import serial
+import socket
 import threading
 import time
 
@@ -86,11 +87,28 @@ class CompositeServer(modbus.Server):
 class RpcHandler(SocketServer.BaseRequestHandler):
     """An instance of this class is created every time an RPC call is received by the server"""
 
+    def _receive(self):
+        """read a command: up to the end of the line, the end of the connection or a pause of the client"""
+        request = b""
+        deadline = time.time() + 5.0
+        self.request.settimeout(5.0)
+        while b"\n" not in request and time.time() < deadline:
+            try:
+                data = self.request.recv(1024)
+            except socket.timeout:
+                break
+            if not data:
+                break
+            request += data
+            self.request.settimeout(0.2)
+        self.request.settimeout(5.0)
+        return request
+
     def handle(self):
         """This function is called automatically by the SocketServer"""
         # self.request is the TCP socket connected to the client
         # read the incoming command
-        request = self.request.recv(1024).strip()
+        request = self._receive().strip()
         if not modbus_tk.utils.PY2:
             request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
@@ -98,7 +116,7 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response if modbus_tk.utils.PY2 else response.encode("utf-8"))
+        self.request.sendall(response if modbus_tk.utils.PY2 else response.encode("utf-8"))
 
 
 class RpcInterface(threading.Thread):
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 15a1dd1..ee905a7 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -28,10 +28,17 @@ class SimulatorRpcClient(object):
         """send a rpc call and return the result"""
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
-        sock.connect((self.host, self.port))
-        sock.send(query if PY2 else query.encode("utf-8"))
-        response = sock.recv(1024)
-        sock.close()
+        try:
+            sock.connect((self.host, self.port))
+            sock.sendall(query if PY2 else query.encode("utf-8"))
+            sock.shutdown(socket.SHUT_WR)
+            response = b""
+            data = sock.recv(1024)
+            while data:
+                response += data
+                data = sock.recv(1024)
+        finally:
+            sock.close()
         if not PY2:
             response = response.decode("utf-8")
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
-- 
2.43.0


From bb8b8d601b1fa7b5f1ea12cd2e8b00cac6cce15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 27/44] fix: simulator console and RPC commands could get the
 answer of each other

---
 modbus_tk/simulator.py | 43 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a9369ee..1db7ab1 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -41,12 +41,9 @@ LOGGER = modbus_tk.utils.create_logger(name="console", record_format="%(message)
 
 # The communication between the server and the user interfaces (console or rpc) are done through queues
 
-# command received from the interfaces
+# (command, queue where the response must be put) received from the interfaces
 INPUT_QUEUE = queue.Queue()
 
-# response to be sent back by the interfaces
-OUTPUT_QUEUE = queue.Queue()
-
 
 class CompositeServer(modbus.Server):
     """make possible to have several servers sharing the same databank"""
@@ -112,9 +109,10 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         if not modbus_tk.utils.PY2:
             request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
-        INPUT_QUEUE.put(request)
-        # wait for the server answer in the output queue
-        response = OUTPUT_QUEUE.get(timeout=5.0)
+        output_queue = queue.Queue()
+        INPUT_QUEUE.put((request, output_queue))
+        # wait for the server answer to this command
+        response = output_queue.get(timeout=5.0)
         # send back the answer
         self.request.sendall(response if modbus_tk.utils.PY2 else response.encode("utf-8"))
 
@@ -147,7 +145,6 @@ class ConsoleInterface(threading.Thread):
         """constructor: initialize communication with the console"""
         super(ConsoleInterface, self).__init__()
         self.inq = INPUT_QUEUE
-        self.outq = OUTPUT_QUEUE
 
         if os.name == "nt":
             ctypes.windll.Kernel32.GetStdHandle.restype = ctypes.c_ulong
@@ -186,9 +183,21 @@ class ConsoleInterface(threading.Thread):
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
                 cmd = sys.stdin.readline() #read it
-                self.inq.put(cmd) #dispatch it tpo the server
-                response = self.outq.get(timeout=2.0) #wait for an answer
-                sys.stdout.write(response) #write the answer on the console
+                outq = queue.Queue()
+                self.inq.put((cmd, outq)) #dispatch it tpo the server
+                response = self._wait_response(outq) #wait for an answer
+                if response is not None:
+                    sys.stdout.write(response) #write the answer on the console
+
+    def _wait_response(self, outq):
+        """returns the answer to a command or None if the interface is closed before"""
+        while True:
+            closed = not self._go.isSet()
+            try:
+                return outq.get(timeout=0.5)
+            except queue.Empty:
+                if closed:
+                    return None
 
     def close(self):
         """terminates the thread"""
@@ -207,7 +216,7 @@ class Simulator(object):
             self.server = server
         self.rpc = RpcInterface()
         self.console = ConsoleInterface()
-        self.inq, self.outq = INPUT_QUEUE, OUTPUT_QUEUE
+        self.inq = INPUT_QUEUE
         self._hooks_fct = {}
 
         self.cmds = {
@@ -349,19 +358,19 @@ class Simulator(object):
     def _handle(self):
         """almost-for-ever loop in charge of listening for command and executing it"""
         while True:
-            cmd = self.inq.get()
+            cmd, outq = self.inq.get()
             args = cmd.strip('\r\n').split(' ')
             if cmd.find('quit') == 0:
-                self.outq.put('bye-bye\r\n')
+                outq.put('bye-bye\r\n')
                 break
             elif args[0] in self.cmds:
                 try:
                     answer = self.cmds[args[0]](args)
-                    self.outq.put("%s done: %s\r\n" % (args[0], answer))
+                    outq.put("%s done: %s\r\n" % (args[0], answer))
                 except Exception as msg:
-                    self.outq.put("%s error: %s\r\n" % (args[0], msg))
+                    outq.put("%s error: %s\r\n" % (args[0], msg))
             else:
-                self.outq.put("error: unknown command %s\r\n" % (args[0]))
+                outq.put("error: unknown command %s\r\n" % (args[0]))
 
     def close(self):
         """close every server"""
-- 
2.43.0


From 100bce5ac6e702e1aecbee42bc297b233f96c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 28/44] fix: the simulator kept its RPC port open after closing

---
 modbus_tk/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 1db7ab1..b6abb7f 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -133,6 +133,7 @@ class RpcInterface(threading.Thread):
         """force the socket server to exit"""
         try:
             self.rpc_server.shutdown()
+            self.rpc_server.server_close()
             self.join(1.0)
         except Exception:
             LOGGER.warning("An error occurred while closing RPC interface")
-- 
2.43.0


From 4cfea8418cff84b8420430ea7cfef4fbde1377a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 29/44] fix: the software timeout of RtuMaster was wrong when
 the system time was changed

---
 modbus_tk/modbus_rtu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 0e34534..3bd89d6 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -148,7 +148,9 @@ class RtuMaster(Master):
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
         response = utils.to_data("")
-        start_time = time.time() if self.use_sw_timeout else 0
+        # the system time may be changed meanwhile: use the monotonic clock if available (Python 3)
+        get_time = getattr(time, "monotonic", time.time)
+        start_time = get_time() if self.use_sw_timeout else 0
         readed_len = 0
         while True:
             if self._serial.timeout:
@@ -158,7 +160,7 @@ class RtuMaster(Master):
             else:
                 read_bytes = self._serial.read(expected_length if expected_length > 0 else 1)
             if self.use_sw_timeout:
-                read_duration = time.time() - start_time
+                read_duration = get_time() - start_time
             else:
                 read_duration = 0
             response += read_bytes
-- 
2.43.0


From fcd1e25f1502befab7e05a334e7d12a11943195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 30/44] fix: a simulator RPC command could be cut when the
 system time was changed

---
 modbus_tk/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index b6abb7f..8375f18 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -87,9 +87,11 @@ class RpcHandler(SocketServer.BaseRequestHandler):
     def _receive(self):
         """read a command: up to the end of the line, the end of the connection or a pause of the client"""
         request = b""
-        deadline = time.time() + 5.0
+        # the system time may be changed meanwhile: use the monotonic clock if available (Python 3)
+        get_time = getattr(time, "monotonic", time.time)
+        deadline = get_time() + 5.0
         self.request.settimeout(5.0)
-        while b"\n" not in request and time.time() < deadline:
+        while b"\n" not in request and get_time() < deadline:
             try:
                 data = self.request.recv(1024)
             except socket.timeout:
-- 
2.43.0


From fc69b2bbe5b71727718c3cecd3910ec4721c95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 31/44] fix: the read functions of PyModbusClientTCP failed or
 returned an unusable result

---
 modbus_tk/pymodbusclient.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..bfc5688 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -15,10 +15,7 @@ class PyModbusClientTCP():
         return self.client._is_opened
 
     def read_input_registers(self, register, num=1):
-        ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num))
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -28,17 +25,10 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
-        registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number))
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From 03357c851e1f5669d3130381dd09ea32ee5b3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 32/44] fix: a failing log destination disturbed the servers
 and masters

---
 modbus_tk/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index 3d6be34..17ffa5d 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -78,7 +78,11 @@ class ConsoleHandler(logging.Handler):
 
     def emit(self, record):
         """format and print the record on the console"""
-        print(self.format(record))
+        try:
+            print(self.format(record))
+        except Exception:
+            # must not disturb the code which is logging
+            self.handleError(record)
 
 
 class LogitHandler(logging.Handler):
@@ -92,10 +96,14 @@ class LogitHandler(logging.Handler):
 
     def emit(self, record):
         """format and send the record over udp"""
-        data = self.format(record) + "\r\n"
-        if PY3:
-            data = to_data(data)
-        self._sock.sendto(data, self._dest)
+        try:
+            data = self.format(record) + "\r\n"
+            if PY3:
+                data = data.encode("utf-8")
+            self._sock.sendto(data, self._dest)
+        except Exception:
+            # must not disturb the code which is logging
+            self.handleError(record)
 
 
 class DummyHandler(logging.Handler):
-- 
2.43.0


From b10e6c7bbe1d21cede9068e465f7e4cf1a2ca285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 33/44] fix: an empty message returned by a server hook was
 ignored

---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 67d8ab8..4ad285d 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1117,7 +1117,7 @@ class Server(object):
         query = self._make_query()
 
         retval = call_hooks("modbus.Server.before_handle_request", (self, request))
-        if retval:
+        if retval is not None:
             request = retval
 
         response = self._databank.handle_request(query, request)
@@ -1125,7 +1125,7 @@ class Server(object):
             # the databank could not handle the request and returned the pdu of a server error response
             response = query.build_response(response)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
-        if retval:
+        if retval is not None:
             response = retval
 
         if response and self._verbose:
-- 
2.43.0


From 810f37e21833212ea4f26f14350c01117f9a1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 34/44] fix: TcpMaster stayed open when it was closed after a
 failed connection

---
 modbus_tk/modbus_tcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 42c2e40..8e028f2 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -186,7 +186,7 @@ class TcpMaster(Master):
             self._sock.close()
             call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
             self._sock = None
-            return True
+        return True
 
     def set_timeout(self, timeout_in_sec):
         """Change the timeout value"""
-- 
2.43.0


From ef73f47253043a10098b02897c192e3769f458cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:47 +0000
Subject: [PATCH 35/44] fix: remove_all_blocks separated the block types which
 share a list

A memory map can give several block types the same list. remove_all_blocks gave
every type a new list, so the types did not share the blocks added afterwards.
---
 modbus_tk/modbus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 4ad285d..7ce9055 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -844,7 +844,8 @@ class Slave(object):
         with self._data_lock:
             self._blocks.clear()
             for key in self._memory:
-                self._memory[key] = []
+                # several block types may share the same list: keep it
+                del self._memory[key][:]
 
     def _get_block(self, block_name):
         """Find a block by its name and raise and exception if not found"""
-- 
2.43.0


From ca4fb349c92a2af905ed6cf5573f019c65aa49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:23 +0000
Subject: [PATCH 36/44] fix: a simulator RPC command which took more than 5
 seconds was not answered

---
 modbus_tk/simulator.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 8375f18..d1eb058 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -103,6 +103,16 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         self.request.settimeout(5.0)
         return request
 
+    def _wait_response(self, output_queue):
+        """returns the answer to a command or None if the interface is closed before"""
+        while True:
+            closed = self.server.is_closing
+            try:
+                return output_queue.get(timeout=0.5)
+            except queue.Empty:
+                if closed:
+                    return None
+
     def handle(self):
         """This function is called automatically by the SocketServer"""
         # self.request is the TCP socket connected to the client
@@ -114,7 +124,9 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         output_queue = queue.Queue()
         INPUT_QUEUE.put((request, output_queue))
         # wait for the server answer to this command
-        response = output_queue.get(timeout=5.0)
+        response = self._wait_response(output_queue)
+        if response is None:
+            return
         # send back the answer
         self.request.sendall(response if modbus_tk.utils.PY2 else response.encode("utf-8"))
 
@@ -126,6 +138,8 @@ class RpcInterface(threading.Thread):
         """Constructor"""
         super(RpcInterface, self).__init__()
         self.rpc_server = SocketServer.TCPServer(("", 2711), RpcHandler)
+        # tells the handlers that the commands will not be answered anymore
+        self.rpc_server.is_closing = False
 
     def run(self):
         """run the server and wait that it returns"""
@@ -134,6 +148,7 @@ class RpcInterface(threading.Thread):
     def close(self):
         """force the socket server to exit"""
         try:
+            self.rpc_server.is_closing = True
             self.rpc_server.shutdown()
             self.rpc_server.server_close()
             self.join(1.0)
-- 
2.43.0


From 4ae1577d3ba76cf71abb4d763e17bdb6dcb7266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:40 +0000
Subject: [PATCH 37/44] fix: PyModbusClientTCP could not be used without a
 timeout, host or port

---
 modbus_tk/pymodbusclient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index bfc5688..86d9455 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,9 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        # the settings which are not given have the default value of the master
+        settings = {"host": host, "port": port, "timeout_in_sec": timeout}
+        self.client = modbus_tcp.TcpMaster(**{key: val for key, val in settings.items() if val is not None})
 
     def open(self):
         self.client.open()
-- 
2.43.0


From 6d8a6012cb73af56dedd5ec543f4cf252ebbb493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:47 +0000
Subject: [PATCH 38/44] fix: RtuMaster without a timeout failed on every
 response

---
 modbus_tk/modbus_rtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 3bd89d6..ac816d2 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -164,7 +164,7 @@ class RtuMaster(Master):
             else:
                 read_duration = 0
             response += read_bytes
-            if (not read_bytes) or (read_duration > self._serial.timeout):
+            if (not read_bytes) or (self.use_sw_timeout and read_duration > self._serial.timeout):
                 break
             if expected_length >= 0 and len(response) >= expected_length:
                 # if the expected number of byte is received consider that the response is done
-- 
2.43.0


From b678d3507b3772363b93d883ce722b8cdb0f92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:21 +0000
Subject: [PATCH 39/44] fix: the simulator command uninstall_hook ignored the
 name of the function

---
 modbus_tk/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index d1eb058..165e093 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -362,8 +362,9 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        fct = self._hooks_fct[args[2]] if len(args) > 2 and args[2] else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From c5fa162fefb580138b9427487fb91550049a2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:19 +0000
Subject: [PATCH 40/44] fix: SimulatorRpcClient.get_values failed when there
 are no values

---
 modbus_tk/simulator_rpc_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index ee905a7..300b05c 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -99,7 +99,7 @@ class SimulatorRpcClient(object):
         """get the values of some registers"""
         query = "get_values %d %s %d %d" % (slave_id, block_name, address, length)
         ret_values = self._rpc_call(query)
-        return tuple([int(val) for val in ret_values.split(' ')])
+        return tuple([int(val) for val in ret_values.split()])
 
     def install_hook(self, hook_name, fct_name):
         """add a hook"""
-- 
2.43.0


From 9609f8440aa8c59501a61cf02c23ebceb8ee59ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:24 +0000
Subject: [PATCH 41/44] fix: RtuMaster stayed open when it was closed after its
 port

---
 modbus_tk/modbus_rtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index ac816d2..9cef069 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -114,7 +114,7 @@ class RtuMaster(Master):
         if self._serial.is_open:
             self._serial.close()
             call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
+        return True
 
     def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
         """Change the timeout value"""
-- 
2.43.0


From 8fa863543e99017598cc0cebae7ad6f414e69e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:32 +0000
Subject: [PATCH 42/44] fix: a hook which does not find a block left the
 request without answer

A MissingKeyError raised while a slave handles a request was taken for
a missing slave: the client got no answer instead of exception code 4.
---
 modbus_tk/modbus.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 7ce9055..42f74c7 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -980,11 +980,11 @@ class Databank(object):
             else:
                 try:
                     slave = self.get_slave(slave_id)
-                except MissingKeyError:
+                except MissingKeyError as excpt:
+                    # No slave with this ID in server, do not send any response
                     if self.error_on_missing_slave:
-                        raise
-                    else:
-                        return ""
+                        LOGGER.error("handle request failed: " + str(excpt))
+                    return ""
 
                 response_pdu = slave.handle_request(request_pdu)
                 # make the full response
@@ -994,10 +994,6 @@ class Databank(object):
             # Request is invalid, do not send any response
             LOGGER.error("invalid request: " + str(excpt))
             return ""
-        except MissingKeyError as excpt:
-            # No slave with this ID in server, do not send any response
-            LOGGER.error("handle request failed: " + str(excpt))
-            return ""
         except Exception as excpt:
             call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
             LOGGER.error("handle request failed: " + str(excpt))
-- 
2.43.0


From 3763418122c8908a51809438dcc36e7acb982c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:32 +0000
Subject: [PATCH 43/44] fix: a slave which rejects a broadcast as invalid kept
 it from the others

A ModbusInvalidRequestError raised by a hook of one slave ended the
broadcast: the slaves behind it did not get the request.
---
 modbus_tk/modbus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 42f74c7..8bbbb70 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -970,8 +970,9 @@ class Databank(object):
                 for slave in slaves:
                     try:
                         slave.handle_request(request_pdu, broadcast=True)
-                    except ModbusInvalidRequestError:
-                        raise
+                    except ModbusInvalidRequestError as excpt:
+                        # the request is invalid for this slave (only): the other slaves must still get it
+                        LOGGER.error("invalid request: " + str(excpt))
                     except Exception as excpt:
                         # the other slaves must still get it and a broadcast is never answered
                         call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
-- 
2.43.0


From 59082488f38b22e65205dea3d48305ed67c2041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:11 +0000
Subject: [PATCH 44/44] fix: the exception code of a refusing handle_request
 hook was lost

A ModbusError raised by a modbus.Slave.handle_request hook ended in an
UnboundLocalError: the client got exception code 4 and the on_exception
hook was not called.
---
 modbus_tk/modbus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 8bbbb70..558a2ce 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -786,6 +786,8 @@ class Slave(object):
 
             except ModbusError as excpt:
                 LOGGER.debug(str(excpt))
+                # the handle_request hook may raise before the function code is known
+                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
                 call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
                 return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())
 
-- 
2.43.0

