From 8055d713fc3d5042f75d0e0364b290a82000ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 01/85] fix: raise KatcpSyntaxError for malformed lines that
 are not valid UTF-8

---
 katcp/compat.py | 10 ++++++++++
 katcp/core.py   |  7 ++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/katcp/compat.py b/katcp/compat.py
index bb9dbb2..dca78de 100644
--- a/katcp/compat.py
+++ b/katcp/compat.py
@@ -36,6 +36,16 @@ else:
                 "Invalid type for string conversion: {}".format(type(value)))
 
 
+def native_str_lossy(value):
+    """Native string version of a byte string, for use in log and error messages.
+
+    Never fails: bytes that are not valid UTF-8 are shown as backslash escapes.
+    """
+    if future.utils.PY2:
+        return ensure_native_str(value)
+    return value.decode('utf-8', 'backslashreplace')
+
+
 def byte_chars(byte_string):
     """Return list of characters from a byte string (PY3-compatible).
 
diff --git a/katcp/core.py b/katcp/core.py
index c34423c..27a37f6 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -30,7 +30,8 @@ from tornado import gen
 from tornado.concurrent import Future as tornado_Future
 from tornado.gen import with_timeout
 
-from .compat import byte_chars, ensure_native_str, is_bytes, is_text
+from .compat import (byte_chars, ensure_native_str, is_bytes, is_text,
+                     native_str_lossy)
 
 SEC_TO_MS_FAC = 1000
 MS_TO_SEC_FAC = 1./1000
@@ -590,7 +591,7 @@ class MessageParser(object):
         type_char = line[:1]
         if type_char not in self.TYPE_SYMBOL_LOOKUP:
             raise KatcpSyntaxError(
-                "Bad type character %r." % (ensure_native_str(type_char),))
+                "Bad type character %r." % (native_str_lossy(type_char),))
 
         mtype = self.TYPE_SYMBOL_LOOKUP[type_char]
 
@@ -611,7 +612,7 @@ class MessageParser(object):
             mid = match.group('id')
         else:
             raise KatcpSyntaxError("Bad message name (and possibly id) %r." %
-                                   (ensure_native_str(name),))
+                                   (native_str_lossy(name),))
 
         name = ensure_native_str(name)
 
-- 
2.43.0


From b2c2d393bfb242c09336d69812d958cf7f215c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 02/85] fix: do not accept a newline at the end of a message
 name

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 27a37f6..bdcfb6c 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -547,7 +547,7 @@ class MessageParser(object):
 
     ## @brief Regular expression matching name and ID
     NAME_RE = re.compile(
-        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?$")
+        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?\Z")
 
     def _unescape_match(self, match):
         """Given an re.Match, unescape the escape code it represents."""
-- 
2.43.0


From 06f3a0e734c71578c133143ca3360bf1afa1a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 03/85] fix: keep the message id when copying a message

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index bdcfb6c..a035231 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -331,7 +331,7 @@ class Message(object):
             A copy of the message object.
 
         """
-        return Message(self.mtype, self.name, self.arguments)
+        return Message(self.mtype, self.name, self.arguments, self.mid)
 
     def __bytes__(self):
         """Return Message serialized for transmission.
-- 
2.43.0


From 99a1eae87660f6fb607f016bb62a26615ab8dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 04/85] fix: return a boolean from Message.reply_ok for replies
 without arguments

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index a035231..cb79fdf 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -417,7 +417,7 @@ class Message(object):
 
     def reply_ok(self):
         """Return True if this is a reply and its first argument is 'ok'."""
-        return (self.mtype == self.REPLY and self.arguments and
+        return (self.mtype == self.REPLY and bool(self.arguments) and
                 self.arguments[0] == self.OK)
 
     # * and ** magic useful here
-- 
2.43.0


From d3ccbd0dabb58504bbc0fe90ce9eed17c6348bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 05/85] fix: call AsyncCallbackEvent callback with False when
 the event is cleared

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index cb79fdf..0d78de2 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1719,7 +1719,7 @@ class AsyncCallbackEvent(AsyncEvent):
     def clear(self):
         super(AsyncCallbackEvent, self).clear()
         try:
-            self._callback(True)
+            self._callback(False)
         except Exception:
             logger.exception('Unhandled exception calling event change callback')
 
-- 
2.43.0


From 363b4964c6375261e41e0b03db2e4540c5a1c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 06/85] fix: reject non-ASCII message names and ids, which
 cannot be serialised

---
 katcp/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 0d78de2..915df02 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -266,7 +266,7 @@ class Message(object):
             self.mid = None
         else:
             if not is_bytes(mid):
-                self.mid = str(mid).encode('ascii')
+                self.mid = str(mid).encode('utf-8')
             else:
                 self.mid = mid
 
@@ -297,6 +297,11 @@ class Message(object):
             raise KatcpSyntaxError("Command name should start with an "
                                    "alphabetic character (got %r)."
                                    % (name,))
+        try:
+            name.encode('ascii')
+        except UnicodeError:
+            raise KatcpSyntaxError("Command name should consist only of "
+                                   "ASCII characters (got %r)." % (name,))
 
     def format_argument(self, arg):
         """Format a Message argument to a byte string"""
-- 
2.43.0


From 004b32a93b1000cc085738533f9084eed31b8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 07/85] fix: round instead of truncate when encoding timestamps
 as milliseconds

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index b05e82f..d72c288 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -418,7 +418,7 @@ class Timestamp(KatcpType):
             return b"%.6f" % float(value)
         else:
             # In milliseconds please!
-            return b"%i" % int(float(value) * SEC_TO_MS_FAC)
+            return b"%i" % int(round(float(value) * SEC_TO_MS_FAC))
 
     def decode(self, value, major):
         try:
-- 
2.43.0


From db81ac6f78c29d782520a6163ec8cd3f16328f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 08/85] fix: pass the protocol major version correctly in
 Parameter.pack

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index d72c288..45aaee8 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -627,7 +627,7 @@ class Parameter(object):
             The unescaped KATCP string representing the value.
 
         """
-        return self._kattype.pack(value, self.major)
+        return self._kattype.pack(value, major=self.major)
 
     def unpack(self, value):
         """Unpack the parameter using its kattype.
-- 
2.43.0


From 8f5a7ac7ceedef6b2d640ddcfc887097d380994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 09/85] fix: reject not-a-number for Float parameters that
 declare a range

---
 katcp/kattypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 45aaee8..f41d9fc 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -224,10 +224,10 @@ class Float(KatcpType):
 
         Raise a ValueError if it is not.
         """
-        if self._min is not None and value < self._min:
+        if self._min is not None and not value >= self._min:
             raise ValueError("Float %g is lower than minimum %g."
                              % (value, self._min))
-        if self._max is not None and value > self._max:
+        if self._max is not None and not value <= self._max:
             raise ValueError("Float %g is higher than maximum %g."
                              % (value, self._max))
 
-- 
2.43.0


From 537413acc9345447acc3ce2b0a8eee269181e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 10/85] fix: handle messages with arguments that are not valid
 UTF-8 in the server

Formatting such a message for the (debug) log raised UnicodeDecodeError before
the message was dispatched, so that the request never got a reply.
---
 katcp/server.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index f9190e2..3d6ce63 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -41,6 +41,7 @@ from tornado.util import ObjectDict
 # does not exist at this stage
 import katcp
 
+from .compat import native_str_lossy
 from .core import (DEFAULT_KATCP_MAJOR, MS_TO_SEC_FAC, SEC_TO_MS_FAC,
                    SEC_TS_KATCP_MAJOR, VERSION_CONNECT_KATCP_MAJOR, AsyncReply,
                    DeviceServerMetaclass, FailReply, Message, MessageParser,
@@ -555,7 +556,8 @@ class KATCPServer(object):
                         yield self._device.on_message(client_conn, msg)
                 except Exception:
                     self._logger.error('Error handling message {0!s}'
-                                       .format(msg), exc_info=True)
+                                       .format(native_str_lossy(bytes(msg))),
+                                       exc_info=True)
                 # Allow the ioloop to run since we may be starving it if
                 # there is buffered data in the stream, resulting in yield
                 # stream.read_until_regex('\n|\r') never actually yielding
@@ -648,7 +650,8 @@ class KATCPServer(object):
         except Exception:
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
-                              .format(str(msg), addr), exc_info=True)
+                              .format(native_str_lossy(bytes(msg)), addr),
+                              exc_info=True)
             stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
@@ -858,7 +861,8 @@ class MessageHandlerThread(object):
                             ready_future.set_result(res)
                     except Exception as e:
                         err_msg = ('Error calling message '
-                                   'handler for msg:\n {0!s}'.format(msg))
+                                   'handler for msg:\n {0!s}'
+                                   .format(native_str_lossy(bytes(msg))))
                         self._logger.error(err_msg, exc_info=True)
                         client_conn.inform(self.log_inform_formatter(
                             'error', 'See device logs:\n' + err_msg, 'root'))
@@ -1024,7 +1028,8 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         # log messages received so that no one else has to
-        self._logger.debug('received: {0!s}'.format(msg))
+        self._logger.debug('received: {0!s}'
+                           .format(native_str_lossy(bytes(msg))))
 
         if msg.mtype == msg.REQUEST:
             return self.handle_request(client_conn, msg)
@@ -1034,7 +1039,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
             return self.handle_reply(client_conn, msg)
         else:
             reason = "Unexpected message type received by server ['%s']." \
-                     % (msg,)
+                     % (native_str_lossy(bytes(msg)),)
             client_conn.inform(self.create_log_inform("error", reason, "root"))
 
     def handle_request(self, connection, msg):
-- 
2.43.0


From 0ad410dc43481d31cfb0196466b4edf614edfb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 11/85] fix: handle messages with arguments that are not valid
 UTF-8 in the client

With debug logging enabled such a message raised UnicodeDecodeError before it
was dispatched, so that its request was never resolved.
---
 katcp/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a34191e..19a15d2 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -28,6 +28,7 @@ from tornado import gen
 from tornado.concurrent import Future as tornado_Future
 from tornado.util import ObjectDict
 
+from .compat import native_str_lossy
 from .core import (FLOAT_TS_KATCP_MAJOR, SEC_TO_MS_FAC, SEC_TS_KATCP_MAJOR,
                    AsyncEvent, DeviceMetaclass, KatcpClientDisconnected,
                    KatcpClientError, KatcpVersionError, LatencyTimer, Message,
@@ -438,7 +439,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self._stream.write(data)
         except Exception:
             self._logger.warn('Could not send message {0!r} to {1!r}'
-                              .format(str(msg), self._bindaddr), exc_info=True)
+                              .format(native_str_lossy(bytes(msg)), self._bindaddr),
+                              exc_info=True)
             self._disconnect(exc_info=True)
 
     @gen.coroutine
@@ -545,7 +547,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(
                 "received from {}: {}"
-                .format(self.bind_address_string, repr(str(msg))))
+                .format(self.bind_address_string, repr(native_str_lossy(bytes(msg)))))
 
         if msg.mtype == Message.INFORM:
             return self.handle_inform(msg)
@@ -555,7 +557,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self.handle_request(msg)
         else:
             self._logger.error("Unexpected message type from server ['%s']."
-                               % (msg,))
+                               % (native_str_lossy(bytes(msg)),))
 
     def handle_inform(self, msg):
         """Dispatch an inform message to the appropriate method.
@@ -760,7 +762,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 except Exception:
                     self._logger.exception(
                         'Unhandled exception in handle_message() from {0} for '
-                        'message {1!r}'.format(self.bind_address_string, str(msg)))
+                        'message {1!r}'.format(self.bind_address_string,
+                                               native_str_lossy(bytes(msg))))
 
         self._disconnect()
 
-- 
2.43.0


From 203af23915c3465bce33130d3b4a61cfe76c878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 12/85] fix: stop reading from a client whose line exceeds the
 size limit

The read loop carried on with the previous line, handling that request twice,
or failed on an unbound variable leaving the connection open but unserved.
---
 katcp/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 3d6ce63..55cb41f 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -535,9 +535,13 @@ class KATCPServer(object):
                     # Assume that _stream_closed_callback() will handle this
                     break
                 except Exception:
-                        self._logger.warn('Unhandled Exception '
-                                          'while reading from client {0}:'
-                                          .format(client_address), exc_info=True)
+                    self._logger.warn('Unhandled Exception '
+                                      'while reading from client {0}:'
+                                      .format(client_address), exc_info=True)
+                    # No line was read (e.g. the maximum message size was
+                    # exceeded), so there is nothing to handle
+                    stream.close(exc_info=True)
+                    break
                 try:
                     line = line.replace(b"\r", b"\n").split(b"\n")[0]
                     msg = self._parser.parse(line) if line else None
-- 
2.43.0


From 8bcd03a0608f81ad97dd78c063ac01bc709c6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 13/85] fix: support setting the device log level to all

---
 katcp/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/server.py b/katcp/server.py
index 55cb41f..4d670e5 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2545,6 +2545,7 @@ class DeviceLogger(object):
 
     ## @brief Map of Python logging level to corresponding to KATCP levels
     PYTHON_LEVEL = {
+        ALL: 0,
         TRACE: 0,
         DEBUG: logging.DEBUG,
         INFO: logging.INFO,
-- 
2.43.0


From 4425a4314c509506f52f248a6eacaf4d2099321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 14/85] fix: send log informs for messages that are not valid
 format strings

---
 katcp/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 4d670e5..bbe3195 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2665,8 +2665,9 @@ class DeviceLogger(object):
                 name = self._root_logger_name
             try:
                 inform_msg = msg % args
-            except TypeError:
-                # Catch the "not enough arguments for format string" exception.
+            except (TypeError, ValueError):
+                # Catch the "not enough arguments for format string" and
+                # "unsupported format character" exceptions.
                 inform_msg = "{} {}".format(
                     msg,
                     args if args else '').strip()
-- 
2.43.0


From a1ad5c368c3396ae3eaa1c7d8b69a33452cfc936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 15/85] fix: report the v4 sampling period rounded to the
 millisecond, not truncated

---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index bbe3195..0d9c9e9 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2378,7 +2378,7 @@ class DeviceServer(DeviceServerBase):
         if katcp_version < SEC_TS_KATCP_MAJOR and strategy == b'period':
             # Another slightly nasty hack, but since period is the only
             # v4 strategy involving timestamps it's not _too_ nasty :)
-            params = [int(float(params[0]) * SEC_TO_MS_FAC)] + params[1:]
+            params = [int(round(float(params[0]) * SEC_TO_MS_FAC))] + params[1:]
 
         # Let the ioloop run so that the #sensor-status inform is sent before
         # the reply. Not strictly necessary, but a number of tests depend on
-- 
2.43.0


From 89d67683df768fb673bbfc102b384a9b1cf47804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 16/85] fix: iterate over a copy of the clients in the
 client-list request

---
 katcp/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 0d9c9e9..16295c9 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2011,7 +2011,9 @@ class DeviceServer(DeviceServerBase):
         """
         # TODO Get list of ClientConnection* instances and implement a standard
         # 'address-print' method in the ClientConnection class
-        clients = self._client_conns
+        # Copy, since clients may connect or disconnect in the ioloop thread
+        # while we are sending the informs from a handler thread
+        clients = list(self._client_conns)
         num_clients = len(clients)
         for conn in clients:
             addr = conn.address
-- 
2.43.0


From 5989d99d3f17b8599efd0a271a88e0b17fc12933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 17/85] fix: validate the numeric parameters of sampling
 strategies

A period or difference of not-a-number was accepted (nan <= 0 is false), which
corrupts the order of the ioloop's timeouts or never reports anything. The
difference of the differential-rate strategy was not checked at all. Differences
for integer sensors are now also accepted as `5.0`, which is what
resource.normalize_strategy_parameters() makes of `5`.
---
 katcp/sampling.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 14fed93..bd800f8 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -43,6 +43,22 @@ def format_inform_v5(sensor, *reading):
         "sensor-status", timestamp, "1", sensor.name, status, value)
 
 
+def is_finite(value):
+    """Whether a number is neither infinite nor not-a-number."""
+    return value - value == 0
+
+
+def integer_difference(param):
+    """Threshold for an integer sensor; also accepts the form `5.0`."""
+    try:
+        return int(param)
+    except ValueError:
+        difference = float(param)
+        if difference != int(difference):
+            raise
+        return int(difference)
+
+
 def update_in_ioloop(update):
     """Decorator that ensures an update() method is run in the tornado ioloop.
 
@@ -326,7 +342,7 @@ class SampleDifferential(SampleStrategy):
             raise ValueError("The 'differential' strategy is only valid for "
                              "float, integer and timestamp sensors.")
         if sensor._sensor_type == Sensor.INTEGER:
-            self._threshold = int(params[0])
+            self._threshold = integer_difference(params[0])
             if self._threshold <= 0:
                 raise ValueError("The diff amount must be a positive integer.")
         elif sensor._sensor_type == Sensor.FLOAT:
@@ -343,6 +359,8 @@ class SampleDifferential(SampleStrategy):
             if self._threshold <= 0:
                 raise ValueError("The diff amount must be a positive number "
                                  "of seconds.")
+        if not is_finite(self._threshold):
+            raise ValueError("The diff amount must be a finite number.")
         self._lastStatus = None
         self._lastValue = None
 
@@ -369,7 +387,7 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         period = float(params[0])
-        if period <= 0:
+        if period <= 0 or not is_finite(period):
             raise ValueError("The period must be a positive float in seconds. "
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
@@ -536,12 +554,14 @@ class SampleDifferentialRate(SampleEventRate):
 
         difference = params[0]
         if sensor.stype == 'integer':
-            difference = int(difference)
+            difference = integer_difference(difference)
         elif sensor.stype == 'float':
             difference = float(difference)
         else:
             raise ValueError('The differential-rate strategy can only be '
                              'defined for integer or float sensors')
+        if difference <= 0 or not is_finite(difference):
+            raise ValueError("The diff amount must be a positive number.")
         self.difference = difference
         # Initial value that should not cause errors in _sensor_changed(),
         # but should let it return True
-- 
2.43.0


From 3f0381221dccb65a8f5c8b0f8d4feaaf481218aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 18/85] fix: do not lose a rate-limited sensor update

If an update was sent after the short timeout became due but before it was
handled, a following update was never reported (until the longest period).
---
 katcp/sampling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index bd800f8..0cc393f 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -473,8 +473,14 @@ class SampleEventRate(SampleStrategy):
 
     def _short_timeout_handler(self):
         self._short_timeout_handle = None
-        if (self.ioloop.time() >= self._not_before):
-            self.inform(self._sensor.read())
+        reading = self._sensor.read()
+        if self.ioloop.time() >= self._not_before:
+            self.inform(reading)
+        elif self._sensor_changed(reading):
+            # Another update was sent since this timeout was scheduled. Try
+            # again once the shortest period since that update has expired
+            self._short_timeout_handle = self.ioloop.call_at(
+                self._not_before, self._short_timeout_handler)
 
     def _sensor_changed(self, reading):
         _, status, value = reading
-- 
2.43.0


From 39fdc3b716afcceed942cbc358b85f964b5e4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 19/85] fix: do not miss sensor updates from other threads when
 a strategy starts

---
 katcp/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 0cc393f..3fb6dab 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -246,8 +246,9 @@ class SampleStrategy(object):
     def attach(self):
         """Attach strategy to its sensor and send initial update."""
         s = self._sensor
+        # Attach first, or updates from other threads may be missed
+        s.attach(self)
         self.update(s, s.read())
-        self._sensor.attach(self)
 
     def detach(self):
         """Detach strategy from its sensor."""
-- 
2.43.0


From a0b1039a960ae4c1be6b180ecb0d2e60efefc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 20/85] fix: make cancelling a sampling strategy final

A strategy that was cancelled before its start had run in the ioloop still
attached itself to the sensor and kept on reporting, and updates queued by
other threads or due timeouts were still reported after cancel().
---
 katcp/sampling.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 3fb6dab..b9af9b3 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -72,10 +72,15 @@ def update_in_ioloop(update):
     """
     @wraps(update)
     def wrapped_update(self, sensor, reading):
+        def do_update():
+            # The strategy may have been cancelled in the meantime
+            if not self._cancelled:
+                update(self, sensor, reading)
+
         if get_thread_ident() == self._ioloop_thread_id:
-            update(self, sensor, reading)
+            do_update()
         else:
-            self.ioloop.add_callback(update, self, sensor, reading)
+            self.ioloop.add_callback(do_update)
 
     return wrapped_update
 
@@ -125,6 +130,7 @@ class SampleStrategy(object):
         self._inform_callback = inform_callback
         self._sensor = sensor
         self._params = params
+        self._cancelled = False
 
     @classmethod
     def get_strategy(cls, strategyName, inform_callback, sensor,
@@ -256,6 +262,7 @@ class SampleStrategy(object):
 
     def cancel(self):
         """Detach strategy from its sensor and cancel ioloop callbacks."""
+        self._cancelled = True
         if self.OBSERVE_UPDATES:
             self.detach()
         self.ioloop.add_callback(self.cancel_timeouts)
@@ -271,12 +278,15 @@ class SampleStrategy(object):
         """
         def first_run():
             self._ioloop_thread_id = get_thread_ident()
-            if self.OBSERVE_UPDATES:
+            if self.OBSERVE_UPDATES and not self._cancelled:
                 self.attach()
+        self._cancelled = False
         self.ioloop.add_callback(first_run)
 
     def inform(self, reading):
         """Inform strategy creator of the sensor status."""
+        if self._cancelled:
+            return
         try:
             self._inform_callback(self._sensor, reading)
         except Exception:
@@ -393,6 +403,7 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         self._period = period
+        self.next_timeout_handle = None
 
     def start(self):
         super(SamplePeriod, self).start()
@@ -403,6 +414,8 @@ class SamplePeriod(SampleStrategy):
 
     def _run_once(self):
         assert get_thread_ident() == self._ioloop_thread_id
+        if self._cancelled:
+            return
         now = self.ioloop.time()
         self.inform(self._sensor.read())
         self.next_time += self._period
@@ -416,7 +429,9 @@ class SamplePeriod(SampleStrategy):
         return SampleStrategy.PERIOD
 
     def cancel_timeouts(self):
-        self.ioloop.remove_timeout(self.next_timeout_handle)
+        if self.next_timeout_handle:
+            self.ioloop.remove_timeout(self.next_timeout_handle)
+            self.next_timeout_handle = None
 
 
 class SampleEventRate(SampleStrategy):
@@ -445,6 +460,7 @@ class SampleEventRate(SampleStrategy):
                              "satisfy 0 <= shortest_period <= longest_period")
         self._shortest_period = shortest_period
         self._short_timeout_handle = None
+        self._periodic_timeout_handle = None
         self._longest_period = longest_period
         # don't send updates until timestamp _not_before
         self._not_before = 0
@@ -462,6 +478,8 @@ class SampleEventRate(SampleStrategy):
         self.ioloop.add_callback(self._periodic_sampling)
 
     def _periodic_sampling(self):
+        if self._cancelled:
+            return
         if self._not_after >= AGE_OF_UNIVERSE:
             # Ignore stupidly long periods
             self._periodic_timeout_handle = None
@@ -474,6 +492,8 @@ class SampleEventRate(SampleStrategy):
 
     def _short_timeout_handler(self):
         self._short_timeout_handle = None
+        if self._cancelled:
+            return
         reading = self._sensor.read()
         if self.ioloop.time() >= self._not_before:
             self.inform(reading)
-- 
2.43.0


From 712f02e6c479e1e12885a74c8f2b2f182adc428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 21/85] fix: handle duplicate names in a bulk sensor-sampling
 request once

The strategy of a sensor named twice was cancelled and started again.
---
 katcp/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 16295c9..69b75c8 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2403,7 +2403,10 @@ class DeviceServer(DeviceServerBase):
             client.inform(cb_msg)
 
         names_arg = ensure_native_str(msg.arguments[0])
-        names = names_arg.split(',')
+        names = []
+        for name in names_arg.split(','):
+            if name not in names:
+                names.append(name)
 
         if len(msg.arguments) <= 1:
             raise FailReply("Cannot query multiple sensors.")
-- 
2.43.0


From 21f6d517a2de61bef674a654eb7cd214462d4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 22/85] fix: reply to requests that are dropped since the
 handler queue is full

---
 katcp/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index 69b75c8..adbf4c4 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -838,6 +838,9 @@ class MessageHandlerThread(object):
             # This should never happen if callers to handle_message wait
             # for its futures to resolve before sending another message.
             # NM 2014-10-06: Except when there are multiple clients. Oops.
+            if msg.mtype == Message.REQUEST:
+                client_conn.reply(Message.reply_to_request(
+                    msg, 'fail', 'Too many requests queued.'), msg)
             raise RuntimeError('MessageHandlerThread unhandled '
                                'message queue full, not handling message')
         ready_future = Future()
-- 
2.43.0


From d7c514cbc7fbaf6bad3557badfbf7e828dff1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 23/85] fix: refuse to start a managed ioloop that is already
 running

Thread.isAlive() no longer exists in Python 3.9, and the resulting
AttributeError was taken to mean that there is no thread yet.
---
 katcp/ioloop_manager.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 8f87cdc..0b14ed9 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -89,13 +89,10 @@ class IOLoopManager(object):
 
         with self._start_lock:
             t = threading.Thread(target=run_ioloop)
-            t.setDaemon(self._daemonize)
-            try:
-                if self._ioloop_thread.isAlive():
-                    raise RuntimeError('Seems that managed ioloop has already been '
-                                       'started, can only restart after stop()')
-            except AttributeError:
-                pass
+            t.daemon = self._daemonize
+            if self._ioloop_thread is not None and self._ioloop_thread.is_alive():
+                raise RuntimeError('Seems that managed ioloop has already been '
+                                   'started, can only restart after stop()')
             self._ioloop_thread = t
             self._ioloop_thread.start()
 
-- 
2.43.0


From 77c50fac62fdca8a345d15a718a71d70c2d03737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 24/85] fix: report requests that could not be sent as a proper
 fail reply

The reply passed to the callbacks was a request message. A request that raised
any other exception stayed pending, and its callback was called with a timeout.
---
 katcp/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 19a15d2..d2cef94 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1288,9 +1288,14 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.request(msg.name, "fail", str(e))
-            error_reply.mid = mid
+            error_reply = Message.reply(msg.name, "fail", str(e), mid=mid)
             self.handle_reply(error_reply)
+        except Exception:
+            # The caller gets the exception, so the request is not pending
+            self._pop_async_request(mid, None)
+            if timeout_handle is not None:
+                self.ioloop.remove_timeout(timeout_handle)
+            raise
 
     def future_request(self, msg, timeout=None, use_mid=None):
         """Send a request message, with future replies.
-- 
2.43.0


From 81bfc11e812c29f68a29ee9e3f480b55e734cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 25/85] fix: match replies and informs without message id to
 the right request

A reply without id cancelled the timeout of a pending request of the same name
that was sent with an id, and was not matched with a request that was sent
without an id if an older one of the same name was sent with an id.
---
 katcp/client.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index d2cef94..99c56e8 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1239,11 +1239,18 @@ class AsyncClient(DeviceClient):
     def _msg_id_for_name(self, msg_name):
         """Find the msg_id for a given request name.
 
+        This is the oldest pending request with this name that was sent without
+        a message id, else the oldest pending request with this name.
+
         Return None if no message id exists.
 
         """
-        if msg_name in self._async_id_stack and self._async_id_stack[msg_name]:
-            return self._async_id_stack[msg_name][0]
+        msg_ids = self._async_id_stack.get(msg_name)
+        if msg_ids:
+            for msg_id in msg_ids:
+                if self._async_queue[msg_id][0].mid is None:
+                    return msg_id
+            return msg_ids[0]
 
     @make_threadsafe
     def callback_request(self, msg, reply_cb=None, inform_cb=None,
@@ -1515,7 +1522,7 @@ class AsyncClient(DeviceClient):
                 _request, reply_cb, _inform_cb, user_data, timeout_handle = \
                     self._pop_async_request(None, msg.name)
             else:
-                reply_cb, user_data = None, None
+                reply_cb, user_data, timeout_handle = None, None, None
 
         if timeout_handle is not None:
             self.ioloop.remove_timeout(timeout_handle)
-- 
2.43.0


From 957aee8ec02ada0f45f5ea2f0a1754c316f3391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 26/85] fix: do not lose a pending request if its message id is
 used again

The later request took the place of the pending one, which was then never
resolved.
---
 katcp/client.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index 99c56e8..ba3014a 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1194,6 +1194,13 @@ class AsyncClient(DeviceClient):
         # msg_name -> [ list of msg_ids ]
         self._async_id_stack = {}
 
+    def _next_id(self):
+        msg_id = super(AsyncClient, self)._next_id()
+        while msg_id in self._async_queue:
+            # In use by a pending request that was made with its own message id
+            msg_id = super(AsyncClient, self)._next_id()
+        return msg_id
+
     def _push_async_request(self, msg_id, request, reply_cb, inform_cb,
                             user_data, timeout_handle):
         """Store reply / inform callbacks for request we've sent."""
@@ -1282,6 +1289,13 @@ class AsyncClient(DeviceClient):
             timeout = self._request_timeout
 
         mid = self._get_mid_and_update_msg(msg, use_mid)
+        if mid in self._async_queue:
+            # E.g. the same Message object sent again while it is pending
+            self._do_fail_callback(
+                'Message id {0} is already in use by a pending request'
+                .format(native_str_lossy(mid)),
+                msg, reply_cb, inform_cb, user_data, None)
+            return
 
         if timeout is None:  # deal with 'no timeout', i.e. None
             timeout_handle = None
-- 
2.43.0


From 54c7baaff80b35b85da096cd8e6aebf29b0e2f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 27/85] fix: do not report superseded or unchanged readings in
 the rate strategies

---
 katcp/sampling.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index b9af9b3..6e61e8b 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -495,9 +495,13 @@ class SampleEventRate(SampleStrategy):
         if self._cancelled:
             return
         reading = self._sensor.read()
+        if not self._sensor_changed(reading):
+            # Already reported since this timeout was scheduled, or changed
+            # back to the last reported value
+            return
         if self.ioloop.time() >= self._not_before:
             self.inform(reading)
-        elif self._sensor_changed(reading):
+        else:
             # Another update was sent since this timeout was scheduled. Try
             # again once the shortest period since that update has expired
             self._short_timeout_handle = self.ioloop.call_at(
@@ -510,6 +514,10 @@ class SampleEventRate(SampleStrategy):
 
     @update_in_ioloop
     def update(self, sensor, reading):
+        if self._shortest_period > 0:
+            # An update from another thread may have been superseded (and the
+            # newer reading already reported) while it waited for the ioloop
+            reading = sensor.read()
         sensor_changed = self._sensor_changed(reading)
         if not sensor_changed:
             # Ignore update if sensor value/status is unchanged
-- 
2.43.0


From 344f4f8ad824dcb33ff51253198211f3a0a7ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 28/85] fix: do not discard buffered output of a closing
 connection on a refused send

---
 katcp/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index adbf4c4..28f803b 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -656,7 +656,10 @@ class KATCPServer(object):
             self._logger.warn('Could not send message {0!r} to {1}'
                               .format(native_str_lossy(bytes(msg)), addr),
                               exc_info=True)
-            stream.close(exc_info=True)
+            # A stream that is closing is being flushed and will be closed as
+            # soon as that is done, don't discard what is still buffered
+            if not stream.KATCPServer_closing:
+                stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
         """Flush tornado iostream write buffer and prevent further writes.
-- 
2.43.0


From 6ec8188efb77034daa6d1056961dc2fbadb24a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 29/85] fix: do not lose the wake-up of other waiters when
 until_any() resolves

---
 katcp/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 915df02..a66075d 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1914,8 +1914,10 @@ def until_any(*futures, **kwargs):
             # memory leak where one of the futures resolves quickly, particularly when
             # used together with AsyncState.until_state(). Also addresses Jira issue
             # CM-593
+            # Leave resolved futures alone: their callbacks are being called right now
+            # (so others would be skipped) and will be dropped by themselves
             for f in futures:
-                if f._callbacks:
+                if not f.done() and f._callbacks:
                     try:
                         f._callbacks.remove(handle_done)
                     except ValueError:
-- 
2.43.0


From e1b0fdd0a37c10069b08dc54fe5a38ad254e2ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 30/85] fix: make deregistering a sensor from an aggregate tree
 consistent

---
 katcp/sensortree.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index aa08f4f..2cd142b 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -448,26 +448,25 @@ class AggregateSensorTree(GenericSensorTree):
         if child_name not in self._registered_sensors:
             raise ValueError("Sensor %r not registered with aggregate"
                              " tree" % child_name)
-        child = self._registered_sensors[child_name]
-        del self._registered_sensors[child_name]
-        try:
-            parents = self.parents(child)
-            for parent in parents:
-                if parent in self._incomplete_aggregates:
-                    (rule, names, sensors) = self._incomplete_aggregates[parent]
-                    names.add(child_name)
-                else:
-                    (rule, sensors) = self._aggregates[parent]
-                    names = set()
-                    names.add(child_name)
+        child = self._registered_sensors.pop(child_name)
+        # Aggregates that are waiting for other sensors have to wait for this
+        # one again too
+        for _rule, names, sensors in self._incomplete_aggregates.values():
+            if child in sensors:
                 sensors.discard(child)
-                self._incomplete_aggregates[parent] = (rule, names, sensors)
-                self.remove_links(parent, [child])
-                self.remove(parent)
-                if parent.stype == 'bool':
-                    parent.set_value(False)
-        except ValueError:
-            pass
+                names.add(child_name)
+        if child not in self:
+            return
+        for parent in self.parents(child):
+            rule, children = self._aggregates[parent]
+            sensors = set(children)
+            sensors.discard(child)
+            self._aggregates[parent] = (rule, sensors)
+            self.remove(parent)
+            self._incomplete_aggregates[parent] = (
+                rule, set([child_name]), sensors)
+            if parent.stype == 'bool':
+                parent.set_value(False)
 
     def _child_from_reference(self, reference):
         """Returns the child sensor from its reference.
-- 
2.43.0


From 3e5ee55171501e0fe935fac8b0951a37b1c27529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 31/85] fix: ignore links that do not exist when removing links
 from a sensor tree

---
 katcp/sensortree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index 2cd142b..88aae0f 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -153,6 +153,8 @@ class GenericSensorTree(object):
 
         """
         old_sensors = []
+        links = self._parent_to_children.get(parent, ())
+        children = [child for child in children if child in links]
         if parent in self:
             for child in children:
                 if child not in self:
@@ -170,7 +172,8 @@ class GenericSensorTree(object):
 
         for sensor in old_sensors:
             sensor.detach(self)
-        self.recalculate(parent, children)
+        if children:
+            self.recalculate(parent, children)
 
     def children(self, parent):
         """Return set of children of parent.
-- 
2.43.0


From 370c8748dcba2a30ed089eb7514ae83dc85efad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 32/85] fix: do not notify a disconnection if the connection
 was never announced

---
 katcp/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index ba3014a..1cac695 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -518,6 +518,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         try:
             assert stream is self._stream
             self._stream = None
+            was_connected = self._connected.isSet()
             self._connected.clear()
             self._disconnected.set()
             error_repr = '{0!r}'.format(stream.error) if stream.error else ''
@@ -525,10 +526,12 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 self._logger.warn('Client stream for server '
                                   '{0} closed with error {1}'
                                   .format(self.bind_address_string, error_repr))
-            try:
-                self.notify_connected(False)
-            except Exception:
-                self._logger.exception("Notify connect failed")
+            # The stream may close while _connect() is still setting it up
+            if was_connected:
+                try:
+                    self.notify_connected(False)
+                except Exception:
+                    self._logger.exception("Notify connect failed")
         except Exception:
             self._logger.exception('Unhandled exception closing client '
                                    'stream {0!r} to {1}'
-- 
2.43.0


From f992dbc4c7d86c13cb4b9d7aa4713c078af3c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 33/85] fix: make the fake client assume a server that supports
 message ids

---
 katcp/fake_clients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 172be60..6e59e0a 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -371,7 +371,8 @@ class FakeAsyncClient(client.AsyncClient):
         self._stream = AttrDict(error=None)
         self._connected.set()
         self.notify_connected(True)
-        self.preset_protocol_flags(ProtocolFlags(5, 0, set('IM')))
+        self.preset_protocol_flags(ProtocolFlags(5, 0, set([
+            ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS])))
 
     def _disconnect(self):
         if self._stream:
-- 
2.43.0


From 6095c7acf78aec62638e78c2cbc20fe9b6e004f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 34/85] fix: looking up an unknown request finds nothing if
 timeout hints are supported

---
 katcp/inspecting_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4de6faa..028fa7d 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -668,7 +668,8 @@ class InspectingClientAsync(object):
         # provides them
         timeout_hints_available = (
             self.katcp_client.protocol_flags.request_timeout_hints)
-        if timeout_hints_available:
+        # There are no hints for an unknown request, the device would refuse
+        if timeout_hints_available and reply.reply_ok():
             timeout_hints = yield self._get_request_timeout_hints(
                 name, timeout=maybe_timeout.remaining())
         else:
-- 
2.43.0


From 80c64ec2737bb95ebd2db7c2591e07c7416e284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 35/85] fix: make new objects for sensors and requests that
 changed on the device

---
 katcp/inspecting_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 028fa7d..d60d7bc 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -557,6 +557,8 @@ class InspectingClientAsync(object):
                 if orig_data.get(key) != value:
                     orig_data[key] = value
                     orig_data['_changed'] = True
+                    # An object made from the previous description is outdated
+                    orig_data.pop('obj', None)
 
     def handle_sensor_value(self):
         """Handle #sensor-value informs just like #sensor-status informs"""
@@ -951,7 +953,10 @@ class InspectingClientAsync(object):
             request_info = self._requests_index[name]
             obj = request_info.get('obj')
             if obj is None:
-                obj = self.request_factory(**request_info)
+                obj = self.request_factory(
+                    name=request_info['name'],
+                    description=request_info['description'],
+                    timeout_hint=request_info['timeout_hint'])
                 self._requests_index[name]['obj'] = obj
 
         raise tornado.gen.Return(obj)
-- 
2.43.0


From 377682809f00a5b562835224b9a4f274076c70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 36/85] fix: undo changes of known items too if an inspection
 fails

---
 katcp/inspecting_client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index d60d7bc..17a0bec 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -599,8 +599,11 @@ class InspectingClientAsync(object):
 
         """
         timeout_manager = future_timeout_manager(self.sync_timeout)
-        sensor_index_before = copy.copy(self._sensors_index)
-        request_index_before = copy.copy(self._requests_index)
+        # The items are updated in place, hence copy them too
+        sensor_index_before = dict(
+            (k, copy.copy(v)) for k, v in self._sensors_index.items())
+        request_index_before = dict(
+            (k, copy.copy(v)) for k, v in self._requests_index.items())
         try:
             request_changes = yield self.inspect_requests(
                 timeout=timeout_manager.remaining())
-- 
2.43.0


From 5fa6cdcdb9c7ec8099dd5874ab63941d7f707d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 37/85] fix: reset the resync delay of the inspecting client
 once it has synced

---
 katcp/inspecting_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 17a0bec..8a64808 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -447,6 +447,7 @@ class InspectingClientAsync(object):
                         'Succesfully resynced with {} after failure'
                         .format(self.bind_address_string))
                     last_sync_failed = False
+                self.resync_delay.success()
                 yield until_any(self._interface_changed.until_set(),
                                 self._disconnected.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
@@ -480,8 +481,6 @@ class InspectingClientAsync(object):
                 self.katcp_client.disconnect()
                 yield katcp.core.until_later(retry_wait_time)
                 continue
-            else:
-                self.resync_delay.success()
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From b5a6d6f359a13053106398882840d4470efb7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 38/85] fix: do not end the sync loop if the state callback
 raises on the initial state

---
 katcp/inspecting_client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 8a64808..346ee7a 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -399,11 +399,11 @@ class InspectingClientAsync(object):
         is_connected = self.katcp_client.is_connected
         last_sync_failed = False
         while self._running:
-            self._logger.debug('{}: Sending initial state'
-                               .format(self.bind_address_string))
-            yield self._send_state(connected=is_connected(), synced=False,
-                                   model_changed=False, data_synced=False)
             try:
+                self._logger.debug('{}: Sending initial state'
+                                   .format(self.bind_address_string))
+                yield self._send_state(connected=is_connected(), synced=False,
+                                       model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
-- 
2.43.0


From a46a8020b60746ada13c9e16c074674e85a2ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 39/85] fix: report items that were looked up by name at the
 next synchronisation

---
 katcp/inspecting_client.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 346ee7a..523df66 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -221,6 +221,11 @@ class InspectingClientAsync(object):
         self._requests_index = {}
         self._sensors_index = {}
         self._sensor_object_cache = {}
+        # Items that were found to be added, changed or removed when they were looked up
+        # by name, and hence have yet to be reported by inspect(). Maps their names to
+        # whether they were known at the time of the last synchronisation.
+        self._requests_looked_up = {}
+        self._sensors_looked_up = {}
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
@@ -615,6 +620,10 @@ class InspectingClientAsync(object):
             self._requests_index = request_index_before
             raise
 
+        request_changes = self._merge_looked_up(
+            request_changes, self._requests_looked_up, self._requests_index)
+        sensor_changes = self._merge_looked_up(
+            sensor_changes, self._sensors_looked_up, self._sensors_index)
         model_changes = AttrDict()
         if request_changes:
             model_changes.requests = request_changes
@@ -691,6 +700,8 @@ class InspectingClientAsync(object):
 
         added, removed = self._difference(
             requests_old, requests_updated, name, self._requests_index)
+        if name is not None and (added or removed):
+            self._requests_looked_up.setdefault(name, name in requests_old)
         if added or removed:
             raise Return(AttrDict(added=added, removed=removed))
 
@@ -801,6 +812,8 @@ class InspectingClientAsync(object):
 
         added, removed = self._difference(
             sensors_old, sensors_updated, name, self._sensors_index)
+        if name is not None and (added or removed):
+            self._sensors_looked_up.setdefault(name, name in sensors_old)
 
         for sensor_name in removed:
             if sensor_name in self._sensor_object_cache:
@@ -1057,6 +1070,28 @@ class InspectingClientAsync(object):
         msg = katcp.Message.request(request, *args, mid=mid)
         return self.katcp_client.future_request(msg, timeout, use_mid)
 
+    def _merge_looked_up(self, changes, looked_up, index):
+        """Add what was found by looking up single items to the changes of a sync.
+
+        Returns `changes` (see :meth:`inspect_requests` and :meth:`inspect_sensors`)
+        relative to the previous synchronisation, and forgets the items `looked_up`.
+
+        """
+        if not looked_up:
+            return changes
+        added = set(changes.added) if changes else set()
+        removed = set(changes.removed) if changes else set()
+        for name, was_known in looked_up.items():
+            added.discard(name)
+            removed.discard(name)
+            if was_known:
+                removed.add(name)
+            if name in index:
+                added.add(name)
+        looked_up.clear()
+        if added or removed:
+            return AttrDict(added=added, removed=removed)
+
     def _difference(self, original_keys, updated_keys, name, item_index):
         """Calculate difference between the original and updated sets of keys.
 
-- 
2.43.0


From 65abf9653c2dbf6c9b60bcc3974070031801f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 40/85] fix: resynchronise if the connection was lost and
 re-established during a state callback

---
 katcp/inspecting_client.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 523df66..95988b0 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -228,6 +228,9 @@ class InspectingClientAsync(object):
         self._sensors_looked_up = {}
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
+        # Set on every disconnect, stays set until the state loop has dealt with it even if
+        # the client has reconnected in the meantime.
+        self._connection_lost = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
         # Set the default behaviour for update.
         self._update_on_lookup = True
@@ -410,17 +413,18 @@ class InspectingClientAsync(object):
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
+                self._connection_lost.clear()
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
                 yield until_any(self.katcp_client.until_protocol(),
-                                self._disconnected.until_set())
+                                self._connection_lost.until_set())
                 # TODO NM 2016-10-21 The naming of this attribute is incredibly
                 # confusing, we need to think about what "initial_inspection" is
                 # and how it is supposed to be handled
                 if self.initial_inspection:
-                    if not is_connected():
+                    if self._connection_lost.is_set():
                         continue
                     model_changes = yield self.inspect()
                     model_changed = bool(model_changes)
@@ -432,7 +436,7 @@ class InspectingClientAsync(object):
                         model_changes=model_changes)
                 else:
                     self.initial_inspection = True
-                if not is_connected():
+                if self._connection_lost.is_set():
                     continue
 
                 # TODO NM 2017-07-21 for CB-1466 (async dev handler) we need to
@@ -454,10 +458,10 @@ class InspectingClientAsync(object):
                     last_sync_failed = False
                 self.resync_delay.success()
                 yield until_any(self._interface_changed.until_set(),
-                                self._disconnected.until_set())
+                                self._connection_lost.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
-                        ' is_connected=%s', self._interface_changed.is_set(),
-                        self._disconnected.is_set())
+                        ' connection_lost=%s', self._interface_changed.is_set(),
+                        self._connection_lost.is_set())
                 self._interface_changed.clear()
                 continue
                 # Next loop through should cause re-inspection and handle state updates
@@ -1001,6 +1005,7 @@ class InspectingClientAsync(object):
         else:
             self._connected.clear()
             self._disconnected.set()
+            self._connection_lost.set()
 
     def _cb_inform_sensor_status(self, msg):
         """Update received for an sensor."""
-- 
2.43.0


From 37dfcefd73c12a45eaa1727c9c3edbf535363daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 41/85] fix: do not reorder updates of a sensor whose object is
 still being created

---
 katcp/inspecting_client.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 95988b0..b48bb42 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -221,6 +221,8 @@ class InspectingClientAsync(object):
         self._requests_index = {}
         self._sensors_index = {}
         self._sensor_object_cache = {}
+        # Updates received while their sensor object is being obtained, by name
+        self._pending_updates = {}
         # Items that were found to be added, changed or removed when they were looked up
         # by name, and hence have yet to be reported by inspect(). Maps their names to
         # whether they were known at the time of the last synchronisation.
@@ -982,21 +984,41 @@ class InspectingClientAsync(object):
 
     @tornado.gen.coroutine
     def update_sensor(self, name, timestamp, status, value):
+        pending = self._pending_updates.get(name)
+        if pending is not None:
+            # The sensor object is still being obtained for an earlier update;
+            # updates must not overtake each other.
+            pending.append((timestamp, status, value))
+            return
         sensor = self._sensor_object_cache.get(name)
         # TODO (NM) Performance improvement idea: Make this a normal function
         # that only handles the cached sensor object case (should be the common
         # case). If cached sensor is not found, kick off a coroutine that
         # handles the future_get_sensor case.
-        if not sensor:
-            sensor = yield self.future_get_sensor(name)
         if sensor:
-            # TODO (NM) Performance idea: probably we can cache katcp_major at
-            # sync time?
-            katcp_major = self.katcp_client.protocol_flags.major
-            sensor.set_formatted(timestamp, status, value, katcp_major)
-        else:
+            self._set_sensor(sensor, timestamp, status, value)
+            return
+        pending = self._pending_updates[name] = [(timestamp, status, value)]
+        try:
+            sensor = yield self.future_get_sensor(name)
+        finally:
+            del self._pending_updates[name]
+        if not sensor:
             self._logger.error('Received update for "%s", but could not create'
                                ' sensor object.' % name)
+            return
+        for update in pending:
+            try:
+                self._set_sensor(sensor, *update)
+            except Exception:
+                self._logger.exception(
+                    'Could not apply update %r to sensor "%s"' % (update, name))
+
+    def _set_sensor(self, sensor, timestamp, status, value):
+        # TODO (NM) Performance idea: probably we can cache katcp_major at
+        # sync time?
+        katcp_major = self.katcp_client.protocol_flags.major
+        sensor.set_formatted(timestamp, status, value, katcp_major)
 
     def _cb_connection_state(self, connected):
         if connected:
-- 
2.43.0


From 5edb613b5fbac5524222de56a73069228d2d2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 42/85] fix: register preset sensor listeners before the first
 update can arrive

---
 katcp/resource_client.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7c046ec..5ca4ff6 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -420,7 +420,7 @@ class KATCPClientResource(resource.KATCPResource):
         self._sensor_manager = KATCPClientResourceSensorsManager(
             ic, self.name, logger=self._logger)
         ic.handle_sensor_value()
-        ic.sensor_factory = self._sensor_manager.sensor_factory
+        ic.sensor_factory = self._sensor_factory
 
         # Steal some methods from _sensor_manager
         self.reapply_sampling_strategies = self._sensor_manager.reapply_sampling_strategies
@@ -587,6 +587,18 @@ class KATCPClientResource(resource.KATCPResource):
         return KATCPClientResourceRequest(
             request_description, self._inspecting_client, self.is_active)
 
+    def _sensor_factory(self, **sensor_description):
+        sensor = self._sensor_manager.sensor_factory(**sensor_description)
+        self._register_preset_listeners(sensor)
+        return sensor
+
+    def _register_preset_listeners(self, sensor):
+        # Must be done before any update can reach the sensor object, i.e. when it is
+        # created, or else the listeners miss the updates that arrive while it is added
+        sensor_name = resource.escape_name(sensor.name)
+        for listener in self._sensor_listener_cache.get(sensor_name, ()):
+            sensor.register_listener(listener, reading=True)
+
     @tornado.gen.coroutine
     def _inspecting_client_state_callback(self, state, model_changes):
         self._logger.debug('{}: Received {}, {}'
@@ -702,6 +714,8 @@ class KATCPClientResource(resource.KATCPResource):
         for s_name, s_obj in list(sensor_instances.items()):
             s_name_escaped = resource.escape_name(s_name)
             self._sensor[s_name_escaped] = s_obj
+            # Those that were set since the object was created
+            self._register_preset_listeners(s_obj)
             preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
             if preset_strategy:
                 self._logger.debug('Setting preset strategy for sensor {} to {!r}'
@@ -712,16 +726,6 @@ class KATCPClientResource(resource.KATCPResource):
                     self._logger.exception(
                         'Exception trying to pre-set sensor strategy for sensor {}'
                         .format(s_name))
-            preset_listeners = self._sensor_listener_cache.get(s_name_escaped)
-            if preset_listeners:
-                try:
-                    for listener in preset_listeners:
-                        s_obj.register_listener(listener, reading=True)
-                except Exception:
-                    self._logger.exception(
-                        'Exception trying to pre-set sensor listeners for sensor {}'
-                        .format(s_name))
-
             added_names.append(s_name_escaped)
 
         if self.parent:
-- 
2.43.0


From 608e2e8d254b65058cf851056602074a4a04b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 43/85] fix: report a refused sampling strategy as failed

---
 katcp/resource_client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 5ca4ff6..de8d725 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -479,8 +479,8 @@ class KATCPClientResource(resource.KATCPResource):
             # Set the strategy on each sensor
             try:
                 sensor_name = sens.object.normalised_name
-                yield self.set_sampling_strategy(sensor_name, strategy_and_parms)
-                sensor_dict[sensor_name] = strategy_and_parms
+                result = yield self.set_sampling_strategy(sensor_name, strategy_and_parms)
+                sensor_dict[sensor_name] = result.get(sensor_name, strategy_and_parms)
             except Exception as exc:
                 self._logger.exception(
                     'Unhandled exception trying to set sensor strategies {!r} for {} ({})'
@@ -517,8 +517,8 @@ class KATCPClientResource(resource.KATCPResource):
             # The sensor exists, so set the strategy and continue. Log errors,
             # but don't raise anything
             try:
-                yield sensor_obj.set_sampling_strategy(strategy_and_parms)
-                sensor_dict[sensor_name] = strategy_and_parms
+                success, info = yield sensor_obj.set_sampling_strategy(strategy_and_parms)
+                sensor_dict[sensor_name] = strategy_and_parms if success else info
             except Exception as exc:
                 self._logger.exception(
                     'Unhandled exception trying to set sensor strategy {!r} for sensor {} ({})'
-- 
2.43.0


From e6af56d5d73ec630cd164a9fffff2fba4cbc0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 44/85] fix: do not reapply sampling strategies that were
 changed or dropped meanwhile

---
 katcp/resource_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index de8d725..87e4b20 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -904,7 +904,7 @@ class KATCPClientResourceSensorsManager(object):
     def reapply_sampling_strategies(self):
         """Reapply all sensor strategies using cached values"""
         check_sensor = self._inspecting_client.future_check_sensor
-        for sensor_name, strategy in list(self._strategy_cache.items()):
+        for sensor_name in list(self._strategy_cache):
             try:
                 sensor_exists = yield check_sensor(sensor_name)
                 if not sensor_exists:
@@ -912,6 +912,10 @@ class KATCPClientResourceSensorsManager(object):
                                       .format(sensor_name))
                     continue
 
+                # May have been changed or dropped since we started
+                strategy = self._strategy_cache.get(sensor_name)
+                if not strategy:
+                    continue
                 result = yield self.set_sampling_strategy(sensor_name, strategy)
             except KATCPSensorError as e:
                 self._logger.error('Error reapplying strategy for sensor {0}: {1!s}'
-- 
2.43.0


From 9cf1f3f3086e8edf273e8ec7e095984ae1b99aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 45/85] fix: do not bring back a sampling strategy changed or
 dropped through the sensor object

---
 katcp/resource_client.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 87e4b20..af6028d 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -340,6 +340,7 @@ class KATCPClientResource(resource.KATCPResource):
         self.auto_reconnect_delay = resource_spec.get('auto_reconnect_delay', 0.5)
         self._sensor_strategy_cache = {}
         self._sensor_listener_cache = collections.defaultdict(list)
+        self._sensor_manager = None
         self._logger = logger
         self._parent = parent
         self._ioloop_set_to = None
@@ -418,7 +419,8 @@ class KATCPClientResource(resource.KATCPResource):
         ic.set_state_callback(self._inspecting_client_state_callback)
         ic.request_factory = self._request_factory
         self._sensor_manager = KATCPClientResourceSensorsManager(
-            ic, self.name, logger=self._logger)
+            ic, self.name, logger=self._logger,
+            preset_strategies=self._sensor_strategy_cache)
         ic.handle_sensor_value()
         ic.sensor_factory = self._sensor_factory
 
@@ -508,6 +510,9 @@ class KATCPClientResource(resource.KATCPResource):
         """
         sensor_name = resource.escape_name(sensor_name)
         sensor_obj = dict.get(self._sensor, sensor_name)
+        if not sensor_obj and self._sensor_manager:
+            # Replaces the strategy that was memorised while the sensor existed
+            self._sensor_manager.drop_sampling_strategy(sensor_name)
         self._sensor_strategy_cache[sensor_name] = strategy_and_parms
         sensor_dict = {}
         self._logger.debug(
@@ -545,7 +550,8 @@ class KATCPClientResource(resource.KATCPResource):
         sensor_name = resource.escape_name(sensor_name)
         # drop from both the internal cache, and the sensor manager's cache
         self._sensor_strategy_cache.pop(sensor_name, None)
-        self._sensor_manager.drop_sampling_strategy(sensor_name)
+        if self._sensor_manager:
+            self._sensor_manager.drop_sampling_strategy(sensor_name)
 
     @tornado.gen.coroutine
     def set_sensor_listener(self, sensor_name, listener):
@@ -768,10 +774,14 @@ class KATCPClientResourceSensorsManager(object):
     Assumes that all methods are called from the same ioloop context
     """
 
-    def __init__(self, inspecting_client, resource_name, logger=log):
+    def __init__(self, inspecting_client, resource_name, logger=log,
+                 preset_strategies=None):
         self._inspecting_client = inspecting_client
         self.time = inspecting_client.ioloop.time
         self._strategy_cache = {}
+        # Strategies that the resource sets when a sensor is added, by escaped sensor
+        # name. Must not bring back what was changed or dropped through the sensor.
+        self._preset_strategies = {} if preset_strategies is None else preset_strategies
         self._resource_name = resource_name
         self._logger = logger
 
@@ -869,6 +879,7 @@ class KATCPClientResourceSensorsManager(object):
             strategy_and_params = resource.normalize_strategy_parameters(
                 strategy_and_params)
             self._strategy_cache[sensor_name] = strategy_and_params
+            self._update_preset_strategy(sensor_name, strategy_and_params)
             reply = yield self._inspecting_client.wrapped_request(
                 'sensor-sampling', sensor_name, *strategy_and_params)
             if not reply.succeeded:
@@ -899,6 +910,13 @@ class KATCPClientResourceSensorsManager(object):
         """
         cache_key = self._get_strategy_cache_key(sensor_name)
         self._strategy_cache.pop(cache_key, None)
+        self._preset_strategies.pop(resource.escape_name(sensor_name), None)
+
+    def _update_preset_strategy(self, sensor_name, strategy):
+        escaped_name = resource.escape_name(sensor_name)
+        preset = self._preset_strategies.get(escaped_name)
+        if preset and resource.normalize_strategy_parameters(preset) != strategy:
+            self._preset_strategies[escaped_name] = strategy
 
     @tornado.gen.coroutine
     def reapply_sampling_strategies(self):
-- 
2.43.0


From d762e259946674db0371e893771cb7895858d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 46/85] fix: refresh a container's requests and sensors
 independently

Both views shared one dirty flag, so that reading one of them made the other stale
(or raised AttributeError the first time).
---
 katcp/resource_client.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index af6028d..913e294 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1297,17 +1297,17 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_dirty:
+        if self._children_req_dirty:
             self._req = self._create_attrdict_from_children('req')
-            self._children_dirty = False
+            self._children_req_dirty = False
 
         return self._req
 
     @property
     def sensor(self):
-        if self._children_dirty:
+        if self._children_sensor_dirty:
             self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
+            self._children_sensor_dirty = False
 
         return self._sensor
 
@@ -1366,7 +1366,9 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._logger = logger
         self._name = resources_spec['name']
         self._description = resources_spec.get('description', '')
-        self._children_dirty = True   # Are we out of sync with the children?
+        # Are the req / sensor unions out of sync with the children?
+        self._children_req_dirty = True
+        self._children_sensor_dirty = True
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1545,7 +1547,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         res = self.client_resource_factory(
                 res_spec, parent=self, logger=self._logger)
         self.children[resource.escape_name(res_name)] = res;
-        self._children_dirty = True
+        self._children_req_dirty = True
+        self._children_sensor_dirty = True
         res.set_ioloop(self.ioloop)
         res.start()
         return res
@@ -1591,21 +1594,21 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _child_add_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_req_dirty = True
         self._dirty_groups(child)
 
     def _child_remove_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_req_dirty = True
         self._dirty_groups(child)
 
     def _child_add_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_sensor_dirty = True
 
     def _child_remove_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._children_sensor_dirty = True
 
     def _dirty_groups(self, child):
         groups_spec = self._resources_spec.get('groups', {})
-- 
2.43.0


From 8cf44ec84561c692faf729cda5c5f743279596e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 47/85] fix: update groups whose names are not python
 identifiers

The groups are keyed by escaped name, but were looked up in the specification by that
name, so that any interface change of a child raised KeyError with such a group.
---
 katcp/resource_client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 913e294..76d130c 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1611,9 +1611,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._children_sensor_dirty = True
 
     def _dirty_groups(self, child):
-        groups_spec = self._resources_spec.get('groups', {})
-        for group_name, group in dict.items(self.groups):
-            if child.name in groups_spec[group_name]:
+        for group in dict.values(self.groups):
+            if child in group.clients:
                 group.client_updated(child)
 
     def __repr__(self):
-- 
2.43.0


From f9ed245016bc49dab19f881408688b3920c75207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 48/85] fix: set strategies and listeners through a container
 on children with any name

The children are keyed by escaped name, but were looked up by their real name, so that
nothing was set on children with e.g. a '-' in their names.
---
 katcp/resource_client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 76d130c..23fff95 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1479,7 +1479,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1503,7 +1503,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1527,7 +1527,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sensor_listener(sensor_name, listener)
                 sensor_dict[resource_name][sensor_name] = listener
                 self._logger.debug(
-- 
2.43.0


From 7ec83e1a45e68ed77d5e540485aa359c938d2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 49/85] fix: report strategies that were not set through a
 container as failed

As the resources themselves do, instead of always reporting success.
---
 katcp/resource_client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 23fff95..0ce06a3 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1480,8 +1480,11 @@ class KATCPClientResourceContainer(resource.KATCPResource):
                 sensor_dict[resource_name] = {}
             try:
                 resource_obj = self.children[resource.escape_name(resource_name)]
-                yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
-                sensor_dict[resource_name][sensor_name] = strategy_and_parms
+                set_result = yield resource_obj.set_sampling_strategy(
+                    sensor_name, strategy_and_parms)
+                # The child reports the reason instead of the strategy if it failed
+                sensor_dict[resource_name][sensor_name] = (set_result or {}).get(
+                    sensor_name, strategy_and_parms)
                 self._logger.debug(
                     'Set sampling strategy on resource %s for %s'
                     % (resource_name, sensor_name))
@@ -1504,8 +1507,11 @@ class KATCPClientResourceContainer(resource.KATCPResource):
                 sensor_dict[resource_name] = {}
             try:
                 resource_obj = self.children[resource.escape_name(resource_name)]
-                yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
-                sensor_dict[resource_name][sensor_name] = strategy_and_parms
+                set_result = yield resource_obj.set_sampling_strategy(
+                    sensor_name, strategy_and_parms)
+                # The child reports the reason instead of the strategy if it failed
+                sensor_dict[resource_name][sensor_name] = (set_result or {}).get(
+                    sensor_name, strategy_and_parms)
                 self._logger.debug(
                     'Set sampling strategy on resource %s for %s'
                     % (resource_name, sensor_name))
-- 
2.43.0


From 430be03ee59f1c81118623f2df4511ac790d43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 50/85] fix: do not call dict methods of group members that
 lack the request

A group request named as a method of dict, e.g. 'keys', called that method for the
members without such a request, instead of giving None for them.
---
 katcp/resource_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 0ce06a3..c230088 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1058,7 +1058,12 @@ class GroupRequest(object):
         none_future = Future()
         none_future.set_result(None)
         for client in self.group.clients:
-            request_method = getattr(client.req, self.name, None)
+            # Not by attribute, which finds the methods of dict if the client does not
+            # have a request named e.g. 'keys'.
+            try:
+                request_method = client.req[self.name]
+            except KeyError:
+                request_method = None
             if request_method:
                 result_futures[client.name] = request_method(*args, **kwargs)
             else:
-- 
2.43.0


From 33b5f00adb407ae1ccbbf03fd7b877a14900f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 51/85] fix: tell the container about new sensors before
 setting their strategies

The container's view lacked the child's new sensors while preset strategies were set,
which waits for the device.
---
 katcp/resource_client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index c230088..9fab753 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -722,6 +722,14 @@ class KATCPClientResource(resource.KATCPResource):
             self._sensor[s_name_escaped] = s_obj
             # Those that were set since the object was created
             self._register_preset_listeners(s_obj)
+            added_names.append(s_name_escaped)
+
+        # Before anything that takes time, or else the parent misses sensors meanwhile
+        if self.parent:
+            self.parent._child_add_sensors(self, added_names)
+
+        for s_name, s_obj in list(sensor_instances.items()):
+            s_name_escaped = resource.escape_name(s_name)
             preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
             if preset_strategy:
                 self._logger.debug('Setting preset strategy for sensor {} to {!r}'
@@ -732,10 +740,6 @@ class KATCPClientResource(resource.KATCPResource):
                     self._logger.exception(
                         'Exception trying to pre-set sensor strategy for sensor {}'
                         .format(s_name))
-            added_names.append(s_name_escaped)
-
-        if self.parent:
-            self.parent._child_add_sensors(self, added_names)
 
     @tornado.gen.coroutine
     def _remove_sensors(self, sensor_keys):
-- 
2.43.0


From 823e9c3676c1e761fa7ac6f68297ffa9623d22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 52/85] fix: raise the documented error when waiting on an
 absent sensor

resource and group wait() are documented to raise KATCPSensorError if the named sensor
is not present, but raised KeyError.
---
 katcp/resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 1a2ee2c..8ac1a50 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -220,7 +220,11 @@ class KATCPResource(with_metaclass(abc.ABCMeta, object)):
 
         """
         sensor_name = escape_name(sensor_name)
-        sensor = self.sensor[sensor_name]
+        try:
+            sensor = self.sensor[sensor_name]
+        except KeyError:
+            raise KATCPSensorError(
+                'Cannot wait on sensor %r, since it is not present' % (sensor_name,))
         try:
             yield sensor.wait(condition_or_value, timeout)
         except tornado.gen.TimeoutError:
-- 
2.43.0


From 7ceef3bbac9950042e16c3a2578a4f74f4d42cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 53/85] fix: client stopped while connecting closes the
 connection it gets

---
 katcp/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 1cac695..5ae5038 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -456,8 +456,13 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         stream = None
         try:
             host, port = self._bindaddr
-            stream = self._stream = yield self._tcp_client.connect(
+            stream = yield self._tcp_client.connect(
                 host, port, max_buffer_size=self.MAX_MSG_SIZE)
+            if not self._running.isSet():
+                # Stopped while connecting, nobody would close this connection later.
+                stream.close()
+                return
+            self._stream = stream
             stream.set_close_callback(partial(self._stream_closed_callback,
                                               stream))
             # our message packets are small, don't delay sending them.
@@ -683,7 +688,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             self._tcp_client = tornado.tcpclient.TCPClient()
             self._running.set()
             yield self._connect()
-            if self._stream is None and not self._auto_reconnect:
+            if (self._stream is None and not self._auto_reconnect and
+                    self._running.isSet()):
                 raise KatcpClientError("Failed to connect to {0!r}"
                                        .format(self._bindaddr))
             try:
-- 
2.43.0


From 5e101129f514b3259d1abb06b782ea6e3f441786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 54/85] fix: until_stopped() of a client waits for a run that
 has not begun yet

---
 katcp/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index 5ae5038..762efb1 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -882,6 +882,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         self._ioloop_manager.start(timeout)
         # update state variables before starting `_install()`
         self._init_state_per_run(ioloop=self.ioloop)
+        # until_stopped() must wait for _install(), even if called before it has begun
+        self._stopped.clear()
         self.ioloop.add_callback(self._install)
         if timeout:
             remaining_timeout = timeout - (self.ioloop.time() - t0)
-- 
2.43.0


From e1ac4d537fc216fb0921a6b4a5c3af1d1f929776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 55/85] fix: stopped client has disconnected: wait for its
 close callback

---
 katcp/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index 762efb1..7e801bf 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -705,6 +705,9 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     if str(e) == 'IOLoop is closing':
                         # Seems the ioloop was stopped already, no worries.
                         self._running.clear()
+                if self._stream is not None and self._connected.isSet():
+                    # Being closed, _stream_closed_callback() still has to run
+                    yield self._disconnected.until_set()
                 self._logger.info("Client connect loop for {0!r} finished."
                                   .format(self._bindaddr))
         finally:
-- 
2.43.0


From a93492e05641df097dc163f41b8f230311c7bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 56/85] fix: inspecting client notices stop() while starting,
 connecting or waiting to retry

---
 katcp/inspecting_client.py | 49 +++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index b48bb42..e1869ef 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -238,6 +238,11 @@ class InspectingClientAsync(object):
         self._update_on_lookup = True
         self._cb_register = {}  # Register to hold the possible callbacks.
         self._running = False
+        # Set by stop(), each connect() makes a new one
+        self._stop_requested = katcp.core.AsyncEvent()
+        # Set while there is no state loop
+        self._state_loop_ended = katcp.core.AsyncEvent()
+        self._state_loop_ended.set()
 
         # Setup KATCP device.
         self.katcp_client = self.inform_hook_client_factory(
@@ -379,6 +384,7 @@ class InspectingClientAsync(object):
         """
         # Start KATCP device client.
         assert not self._running
+        stop_requested = self._stop_requested = katcp.core.AsyncEvent()
         maybe_timeout = future_timeout_manager(timeout)
 
         self._logger.debug('Starting katcp client')
@@ -393,6 +399,9 @@ class InspectingClientAsync(object):
 
         if timeout:
             yield maybe_timeout(self.katcp_client.until_connected())
+        if stop_requested.is_set():
+            self._logger.debug('Katcp client stopped before it was started')
+            return
         self._logger.debug('Katcp client connected')
 
         self._running = True
@@ -403,32 +412,52 @@ class InspectingClientAsync(object):
     def _state_loop(self):
         # TODO (NM) Arrange for _running to be set to false and stopping the katcp client
         # if this loop exits
+        stop_requested = self._stop_requested
+        # The loop of a previous run may still have to notice that it was stopped
+        while not self._state_loop_ended.is_set():
+            yield self._state_loop_ended.until_set()
+        if stop_requested.is_set():
+            return
+        self._state_loop_ended.clear()
+        try:
+            yield self._run_state_loop(stop_requested)
+        finally:
+            self._state_loop_ended.set()
+
+    @tornado.gen.coroutine
+    def _run_state_loop(self, stop_requested):
         self.resync_delay = ExponentialRandomBackoff(
             self.initial_resync_timeout, self.max_resync_timeout)
 
         is_connected = self.katcp_client.is_connected
         last_sync_failed = False
-        while self._running:
+        while not stop_requested.is_set():
             try:
                 self._logger.debug('{}: Sending initial state'
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
-                yield self.katcp_client.until_connected()
+                yield until_any(self.katcp_client.until_connected(),
+                                stop_requested.until_set())
+                if stop_requested.is_set():
+                    continue
                 self._connection_lost.clear()
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
                 yield until_any(self.katcp_client.until_protocol(),
-                                self._connection_lost.until_set())
+                                self._connection_lost.until_set(),
+                                stop_requested.until_set())
                 # TODO NM 2016-10-21 The naming of this attribute is incredibly
                 # confusing, we need to think about what "initial_inspection" is
                 # and how it is supposed to be handled
                 if self.initial_inspection:
-                    if self._connection_lost.is_set():
+                    if self._connection_lost.is_set() or stop_requested.is_set():
                         continue
                     model_changes = yield self.inspect()
+                    if stop_requested.is_set():
+                        continue
                     model_changed = bool(model_changes)
                     self._logger.debug('{}: Sending data-synced state'
                                        .format(self.bind_address_string))
@@ -438,7 +467,7 @@ class InspectingClientAsync(object):
                         model_changes=model_changes)
                 else:
                     self.initial_inspection = True
-                if self._connection_lost.is_set():
+                if self._connection_lost.is_set() or stop_requested.is_set():
                     continue
 
                 # TODO NM 2017-07-21 for CB-1466 (async dev handler) we need to
@@ -460,7 +489,8 @@ class InspectingClientAsync(object):
                     last_sync_failed = False
                 self.resync_delay.success()
                 yield until_any(self._interface_changed.until_set(),
-                                self._connection_lost.until_set())
+                                self._connection_lost.until_set(),
+                                stop_requested.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
                         ' connection_lost=%s', self._interface_changed.is_set(),
                         self._connection_lost.is_set())
@@ -476,7 +506,8 @@ class InspectingClientAsync(object):
                     .format(
                         self.bind_address_string,
                         e, retry_wait_time))
-                yield katcp.core.until_later(retry_wait_time)
+                yield until_any(katcp.core.until_later(retry_wait_time),
+                                stop_requested.until_set())
                 # TODO (NM) Perhaps maintain count of unsuccessful attempts, and reconnect
                 # if too many happen. Perhaps also integrate exponential-backoff stuff
                 # here? Or outsource to a user-supplied class or callback?
@@ -490,7 +521,8 @@ class InspectingClientAsync(object):
                     'Retrying in {}s.'
                     .format(retry_wait_time))
                 self.katcp_client.disconnect()
-                yield katcp.core.until_later(retry_wait_time)
+                yield until_any(katcp.core.until_later(retry_wait_time),
+                                stop_requested.until_set())
                 continue
         try:
             self._logger.debug('{}: Sending final state - loop ended'
@@ -545,6 +577,7 @@ class InspectingClientAsync(object):
 
     def stop(self, timeout=None):
         self._running = False
+        self._stop_requested.set()
         self.katcp_client.stop(timeout)
 
     def until_stopped(self, timeout=None):
-- 
2.43.0


From bb02f44d80faf5a78a8c39962461e2de2941a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 57/85] fix: result of IOLoopManager.stop() resolves if the
 ioloop has ended or is ending

---
 katcp/client.py         |  1 +
 katcp/ioloop_manager.py | 35 +++++++++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 7e801bf..1a02c78 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -701,6 +701,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     # Make sure everything is torn down properly
                     if self.running():
                         self.stop()
+                        self._running.clear()
                 except RuntimeError as e:
                     if str(e) == 'IOLoop is closing':
                         # Seems the ioloop was stopped already, no worries.
diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 0b14ed9..056082f 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -46,6 +46,9 @@ class IOLoopManager(object):
         # Event that indicates that the ioloop is running.
         self._running = threading.Event()
         self._start_lock = threading.Lock()
+        # Futures of stop() calls that a managed ioloop still has to act on
+        self._stop_futures = set()
+        self._stop_lock = threading.Lock()
         self._daemonize = False
 
     @property
@@ -81,9 +84,14 @@ class IOLoopManager(object):
                 self._logger.error('Error running tornado IOloop: ',
                                    exc_info=True)
             finally:
-                ioloop = self._ioloop
-                self._ioloop = None
-                self._running.clear()
+                with self._stop_lock:
+                    ioloop = self._ioloop
+                    self._ioloop = None
+                    self._running.clear()
+                    abandoned = list(self._stop_futures)
+                for future in abandoned:
+                    # stop() was called too late for the ioloop to act on it
+                    future.set_result(None)
                 self._logger.info('Managed tornado IOloop {0} stopped'
                                   .format(ioloop))
 
@@ -135,7 +143,8 @@ class IOLoopManager(object):
         Returns
         -------
         stopped : thread-safe Future
-            Resolves when the callback() is done
+            Resolves when the callback() is done, or if the ioloop is stopped
+            already
 
         """
         if timeout:
@@ -158,12 +167,22 @@ class IOLoopManager(object):
                 self._ioloop.stop()
             self._running.clear()
 
+        with self._stop_lock:
+            ioloop = self._ioloop
+            if ioloop is not None:
+                self._stop_futures.add(stopped_future)
+        if ioloop is None:
+            # Probably we have been shut-down already
+            stopped_future.set_result(None)
+            return stopped_future
+        stopped_future.add_done_callback(self._stop_futures.discard)
         try:
-            self._ioloop.add_callback(
+            ioloop.add_callback(
                 lambda: gen.chain_future(_stop(), stopped_future))
-        except AttributeError:
-            # Probably we have been shut-down already
-            pass
+        except RuntimeError:
+            if not self._ioloop_managed:
+                raise
+            # The ioloop is closing, stopped_future resolves once it has
 
         return stopped_future
 
-- 
2.43.0


From 976c0d67d14e6385760a8faec530d9dd46443be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 58/85] fix: server whose port is taken does not start its
 ioloop

---
 katcp/server.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 28f803b..f944e86 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -383,16 +383,22 @@ class KATCPServer(object):
         """
         if self._running.isSet():
             raise RuntimeError('Server already started')
+        # Bind first, so that nothing was started if that is impossible
+        server_sock = self._bind_socket(self._bindaddr)
+        try:
+            # Make sure we have an ioloop
+            self.ioloop = self._ioloop_manager.get_ioloop()
+            self._ioloop_manager.start()
+        except Exception:
+            server_sock.close()
+            raise
         self._stopped.clear()
-        # Make sure we have an ioloop
-        self.ioloop = self._ioloop_manager.get_ioloop()
-        self._ioloop_manager.start()
         # Set max_buffer_size to ensure streams are closed
         # if too-large messages are received
         self._tcp_server = tornado.tcpserver.TCPServer(
             self.ioloop, max_buffer_size=self.MAX_MSG_SIZE)
         self._tcp_server.handle_stream = self._handle_stream
-        self._server_sock = self._bind_socket(self._bindaddr)
+        self._server_sock = server_sock
         self._bindaddr = self._server_sock.getsockname()
 
         self.ioloop.add_callback(self._install)
@@ -453,6 +459,7 @@ class KATCPServer(object):
             sock.bind(bindaddr)
         except Exception:
             self._logger.exception("Unable to bind to %s" % str(bindaddr))
+            sock.close()
             raise
         sock.listen(self.BACKLOG)
         return sock
-- 
2.43.0


From b0e8876f6a719861a62b2785fdbc0c0f078a89ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 59/85] fix: message handler thread stopped before it ran does
 not keep running

---
 katcp/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index f944e86..fcedcc0 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -823,6 +823,8 @@ class MessageHandlerThread(object):
         self._msg_queue = deque()
         self._logger = logger
         self._running = threading.Event()
+        # Tells the current thread to end, even if it did not get around to run() yet
+        self._stop = threading.Event()
         self._thread = None
         self.ioloop = None
         super(MessageHandlerThread, self).__init__()
@@ -864,7 +866,7 @@ class MessageHandlerThread(object):
         # in this thread gets self.ioloop
         self.ioloop.make_current()
         try:
-            while self._running.isSet():
+            while not self._stop.isSet():
                 if not self._msg_queue:
                     self._wake.wait()
                 while self._msg_queue:
@@ -900,6 +902,7 @@ class MessageHandlerThread(object):
         else:
             if self._thread and self._thread.is_alive():
                 raise RuntimeError('Cannot start since thread is already running')
+        self._stop.clear()
         self._thread = threading.Thread(target=self.run, name=self.name)
         self._thread.start()
         if timeout:
@@ -916,6 +919,7 @@ class MessageHandlerThread(object):
         """
         if timeout:
             self._running.wait(timeout)
+        self._stop.set()
         self._running.clear()
         # Make sure to wake the run thread.
         self._wake.set()
-- 
2.43.0


From de360928f3916956becaaadbe04ff7ef3ee5f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 60/85] fix: requests left over when a server stopped are not
 handled by the next run

---
 katcp/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index fcedcc0..23320d1 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -895,6 +895,10 @@ class MessageHandlerThread(object):
             self._running.clear()
             self._logger.info('Message handler thread stopped.')
 
+    def discard_messages(self):
+        """Drop messages that came in after the handler thread was stopped."""
+        self._msg_queue.clear()
+
     def start(self, timeout=None):
         if future.utils.PY2:
             if self._thread and self._thread.isAlive():
@@ -1354,6 +1358,8 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         if self._handler_thread and self._handler_thread.isAlive():
             raise RuntimeError('Message handler thread already started')
+        if self._handler_thread and not self._server.running():
+            self._handler_thread.discard_messages()
         self._server.start(timeout)
         self.ioloop = self._server.ioloop
         if self._handler_thread:
-- 
2.43.0


From f0fdcbdf20f3e276c00b64aebff2c3eac83a86c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 61/85] fix: requests of clients that connect while a server
 starts use its new ioloop

---
 katcp/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index 23320d1..a7a7e1d 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -400,6 +400,8 @@ class KATCPServer(object):
         self._tcp_server.handle_stream = self._handle_stream
         self._server_sock = server_sock
         self._bindaddr = self._server_sock.getsockname()
+        # Clients may connect before this method returns
+        self._device.ioloop = self.ioloop
 
         self.ioloop.add_callback(self._install)
         if timeout:
-- 
2.43.0


From a84bc273b11fce0f93d55f0fb3cf4fecce7559b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 62/85] fix: stopping an asynchronous client that has stopped
 is harmless

---
 katcp/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 1a02c78..3ea8ce3 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1574,8 +1574,14 @@ class AsyncClient(DeviceClient):
                                (msg.name, reason))
 
     def stop(self, *args, **kwargs):
-        self.ioloop.add_callback(self._fail_waiting_requests,
-                                 'Client stopped before reply was received')
+        ioloop = getattr(self, 'ioloop', None)
+        if ioloop:
+            try:
+                ioloop.add_callback(self._fail_waiting_requests,
+                                    'Client stopped before reply was received')
+            except RuntimeError:
+                # The ioloop is closing or closed, hence the client was stopped before
+                self._logger.debug('AsyncClient stopped already')
         super(AsyncClient, self).stop(*args, **kwargs)
 
     def _fail_waiting_requests(self, reason):
-- 
2.43.0


From 369c3c974c05a8c7fdfc919373ce7b1c9ad58e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:17 +0000
Subject: [PATCH 63/85] fix: updating a sensor while a server stops does not
 raise

---
 katcp/sampling.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 6e61e8b..48c079a 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -80,7 +80,12 @@ def update_in_ioloop(update):
         if get_thread_ident() == self._ioloop_thread_id:
             do_update()
         else:
-            self.ioloop.add_callback(do_update)
+            try:
+                self.ioloop.add_callback(do_update)
+            except RuntimeError:
+                # The ioloop was closed, so the server has stopped: not the business of
+                # whoever updates the sensor
+                log.debug('ioloop is closing, not handling sensor update')
 
     return wrapped_update
 
-- 
2.43.0


From ee99f508d727204afe3ea897289446aefc7c90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 64/85] fix: a client flooding malformed lines starved the
 event loop

Buffered malformed lines were read one after the other without ever going
through the ioloop, so that no other client was served until they ended.
---
 katcp/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index a7a7e1d..7e97884 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -563,6 +563,8 @@ class KATCPServer(object):
                                        % (reason, line))
                     self.send_message(
                         stream, self._device.create_log_inform("error", reason, "root"))
+                    # See below, buffered malformed lines may also starve the ioloop
+                    yield gen.moment
                     continue  # Wait for the next message and hope it is better
                 try:
                     if msg:  # Ignore empty messages (i.e empty lines)
-- 
2.43.0


From e18d4de0fe87fcc7652d5dd6ca761f485c01319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:23 +0000
Subject: [PATCH 65/85] fix: a failing hook for an inform that is not UTF-8
 kept its handler from running

---
 katcp/inspecting_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index e1869ef..ef55e86 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -22,6 +22,7 @@ from future.utils import native_str_to_bytes
 
 import katcp.core
 
+from katcp.compat import native_str_lossy
 from katcp.core import (AttrDict, ensure_native_str, future_timeout_manager,
                         steal_docstring_from, until_any)
 
@@ -166,7 +167,8 @@ class _InformHookDeviceClient(katcp.AsyncClient):
                 func(msg)
         except Exception:
             self._logger.warning('Call to function "{0}" with message "{1}".'
-                                 .format(func, msg), exc_info=True)
+                                 .format(func, native_str_lossy(bytes(msg))),
+                                 exc_info=True)
         super(_InformHookDeviceClient, self).handle_inform(msg)
 
 
-- 
2.43.0


From 3379bc1e38f5aa4a15052eff56abaff8dacad4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:23 +0000
Subject: [PATCH 66/85] fix: a contradicting announcement that is not UTF-8 was
 ignored

---
 katcp/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 3ea8ce3..a10d725 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -328,7 +328,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the static configuration. Static configuration: %r.'
                     'Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags),
+                        native_str_lossy(bytes(inform))))
                 return
             else:
                 # Log an error and disconnect if we are in auto-detection mode
@@ -337,7 +338,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the previously detected version. Disconnecting in '
                     'disgust. Previous version: %r. Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags),
+                        native_str_lossy(bytes(inform))))
                 # Prevent an infinite loop
                 self._auto_reconnect = False
                 self._disconnect()
-- 
2.43.0


From 520aa164bc62c7cb626cdaa42732fd805f236695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 67/85] fix: failure texts that are not UTF-8 broke inspection
 and look-ups

---
 katcp/inspecting_client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index ef55e86..a4d5110 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -717,7 +717,8 @@ class InspectingClientAsync(object):
             if name is None or b'Unknown request' not in reply.arguments[1]:
                 raise SyncError(
                     'Error reply during sync process for {}: {}'
-                    .format(self.bind_address_string, reply))
+                    .format(self.bind_address_string,
+                            native_str_lossy(bytes(reply))))
         # Get recommended timeouts hints for slow requests if the server
         # provides them
         timeout_hints_available = (
@@ -785,7 +786,7 @@ class InspectingClientAsync(object):
         if not reply.reply_ok():
             raise SyncError('Error retrieving request timeout hints: "{}"\n'
                             'in reply to request {}, continuing with sync'
-                            .format(reply, req_msg))
+                            .format(native_str_lossy(bytes(reply)), req_msg))
         for inform in informs:
             request_name = ensure_native_str(inform.arguments[0])
             timeout_hint = float(inform.arguments[1])
@@ -831,13 +832,14 @@ class InspectingClientAsync(object):
         reply, informs = yield self.katcp_client.future_request(
             msg, timeout=timeout)
         self._logger.debug('{} received {} sensor-list informs, reply: {}'
-            .format(self.bind_address_string, len(informs), reply))
+            .format(self.bind_address_string, len(informs),
+                    native_str_lossy(bytes(reply))))
         if not reply.reply_ok():
             # If an unknown sensor is specified the desired result is to return
             # an empty list, even though the request will fail
             if name is None or b'Unknown sensor' not in reply.arguments[1]:
                 raise SyncError('Error reply during sync process: {}'
-                                .format(reply))
+                                .format(native_str_lossy(bytes(reply))))
 
 
         sensors_old = set(self._sensors_index.keys())
-- 
2.43.0


From 0310011c6f2824bda11e1064d66baf0d00e1e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 68/85] fix: polls failing with a text that is not UTF-8 raised
 UnicodeDecodeError

---
 katcp/resource_client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 9fab753..0335b04 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -28,6 +28,7 @@ from tornado.concurrent import Future as tornado_Future
 from tornado.gen import Return
 
 from katcp import Message, inspecting_client, resource
+from katcp.compat import native_str_lossy
 from katcp.core import (AsyncCallbackEvent, AsyncEvent, AsyncState, AttrDict,
                         DefaultAttrDict, LatencyTimer, log_future_exceptions,
                         steal_docstring_from, until_any, until_some)
@@ -40,6 +41,11 @@ from katcp.resource import KATCPReply, KATCPSensorError
 log = logging.getLogger(__name__)
 
 
+def _describe_reply(reply):
+    """Text of all messages of a :class:`KATCPReply`, for use in error messages."""
+    return '\n'.join(native_str_lossy(bytes(m)) for m in reply.messages)
+
+
 def _normalise_request_name_set(reqs):
     return set(resource.escape_name(r) for r in reqs)
 
@@ -888,7 +894,7 @@ class KATCPClientResourceSensorsManager(object):
                 'sensor-sampling', sensor_name, *strategy_and_params)
             if not reply.succeeded:
                 raise KATCPSensorError('Error setting strategy for sensor {0}: \n'
-                                       '{1!s}'.format(sensor_name, reply))
+                                       '{1}'.format(sensor_name, _describe_reply(reply)))
             sensor_strategy = (True, strategy_and_params)
         except Exception as e:
             self._logger.exception('Exception found!')
@@ -953,7 +959,7 @@ class KATCPClientResourceSensorsManager(object):
             'sensor-value', sensor_name)
         if not reply.succeeded:
             raise KATCPSensorError('Error polling sensor {0}: \n'
-                                   '{1!s}'.format(sensor_name, reply))
+                                   '{1}'.format(sensor_name, _describe_reply(reply)))
 # Register with the ABC
 resource.KATCPSensorsManager.register(KATCPClientResourceSensorsManager)
 
-- 
2.43.0


From 4317faef7e1e28699a5b5c399f60095c6c321a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 69/85] fix: a version announcement with a text that is not
 UTF-8 was ignored

---
 katcp/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a10d725..9097e5a 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -32,7 +32,7 @@ from .compat import native_str_lossy
 from .core import (FLOAT_TS_KATCP_MAJOR, SEC_TO_MS_FAC, SEC_TS_KATCP_MAJOR,
                    AsyncEvent, DeviceMetaclass, KatcpClientDisconnected,
                    KatcpClientError, KatcpVersionError, LatencyTimer, Message,
-                   MessageParser, ProtocolFlags, ensure_native_str, until_later)
+                   MessageParser, ProtocolFlags, until_later)
 from .ioloop_manager import IOLoopManager
 
 # logging.basicConfig(level=logging.DEBUG)
@@ -292,9 +292,9 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if len(msg.arguments) < 2:
             return
         # Store version information.
-        name = ensure_native_str(msg.arguments[0])
+        name = native_str_lossy(msg.arguments[0])
         self.versions[name] = tuple(
-            ensure_native_str(arg) for arg in msg.arguments[1:])
+            native_str_lossy(arg) for arg in msg.arguments[1:])
         if msg.arguments[0] == b"katcp-protocol":
             protocol_flags = ProtocolFlags.parse_version(msg.arguments[1])
             self._set_protocol_from_inform(protocol_flags, msg)
-- 
2.43.0


From 3ef230f94528be137175670e91f311056d17913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 70/85] fix: until_stopped() of a stopped fake client never
 resolved

---
 katcp/fake_clients.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 6e59e0a..7a90570 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -364,6 +364,8 @@ class FakeAsyncClient(client.AsyncClient):
         self.ioloop_thread_id = get_thread_ident()
         self._running.set()
         yield self._connect()
+        # There is no connection to serve, hence nothing that until_stopped() must wait for
+        self._stopped.set()
 
     @tornado.gen.coroutine
     def _connect(self):
-- 
2.43.0


From 6914a4a236d3ec31fbcf97ab68f545e4264226b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 71/85] fix: sensor-list with a name always failed on fake
 clients

---
 katcp/fake_clients.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 7a90570..619aafd 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -14,7 +14,8 @@ from tornado.concurrent import Future
 from tornado.gen import Return
 
 from katcp import Sensor, client, kattypes, resource, server
-from katcp.core import AttrDict, Message, ProtocolFlags, convert_method_name
+from katcp.core import (AttrDict, Message, ProtocolFlags, convert_method_name,
+                        ensure_native_str)
 
 
 def fake_KATCP_client_resource_factory(
@@ -237,7 +238,7 @@ class FakeInspectingClientManager(object):
     def request_sensor_list(self, req, msg):
         """Sensor list"""
         if msg.arguments:
-            name = (msg.arguments[0],)
+            name = ensure_native_str(msg.arguments[0])
             keys = (name, )
             if name not in self.fake_sensor_infos:
                 return ("fail", "Unknown sensor name.")
-- 
2.43.0


From 4cc8cf2b96069fd528399c3528139c8ca3f51ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 72/85] fix: fake sensors with text parameters or a byte string
 type were refused

---
 katcp/fake_clients.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 619aafd..4ed63f5 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -271,8 +271,10 @@ class FakeInspectingClientManager(object):
         """
         # Check sensor validity. parse_type() and parse_params should raise if not OK
         for s_name, s_info in sensor_infos.items():
-            s_type = Sensor.parse_type(s_info[2])
-            s_params = Sensor.parse_params(s_type, s_info[3:])
+            s_type = Sensor.parse_type(ensure_native_str(s_info[2]))
+            # The parameters as they are on the wire
+            s_params = Sensor.parse_params(
+                s_type, Message.inform('sensor-list', *s_info[3:]).arguments)
         self.fake_sensor_infos.update(sensor_infos)
         self._fic._interface_changed.set()
 
-- 
2.43.0


From 9a8370dd97a3b9c8565a21d37c96045990d7d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 73/85] fix: replies with arguments that are not UTF-8 could
 not be shown

---
 katcp/resource.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 8ac1a50..19d2fc2 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -22,7 +22,7 @@ from tornado.gen import Return, with_timeout
 
 from katcp import Message, Sensor
 from katcp.core import hashable_identity
-from katcp.compat import ensure_native_str
+from katcp.compat import ensure_native_str, native_str_lossy
 
 logger = logging.getLogger(__name__)
 
@@ -1013,7 +1013,7 @@ class KATCPReply(_KATCPReplyTuple):
             % (
                 ensure_native_str(Message.TYPE_SYMBOLS[m.mtype]),
                 m.name,
-                " ".join([ensure_native_str(arg) for arg in m.arguments]),
+                " ".join([native_str_lossy(arg) for arg in m.arguments]),
             )
             for m in self.messages
         )
-- 
2.43.0


From 33e45b9a0cdc1d45e21ad81490b179a8015f5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:07 +0000
Subject: [PATCH 74/85] fix: differential-rate sampling did not report huge
 integers

---
 katcp/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 48c079a..fba2922 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -613,4 +613,4 @@ class SampleDifferentialRate(SampleEventRate):
     def _sensor_changed(self, reading):
         _, status, value = reading
         _, last_s, last_v = self._last_reading_sent
-        return (abs(value - last_v) > self.difference or status != last_s)
+        return (status != last_s or abs(value - last_v) > self.difference)
-- 
2.43.0


From e588ed93c78f2dba6685e629deae1d04817f530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:06 +0000
Subject: [PATCH 75/85] fix: waits that timed out accumulated on events and
 states that are not set

Each until_set(), until_state() or until_any() with a timeout left its callbacks
(and tracebacks) on the awaited futures for as long as these did not resolve.
---
 katcp/core.py | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index a66075d..e313a70 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1659,9 +1659,9 @@ class AsyncEvent(object):
     def until_set(self, timeout=None):
         if not self._flag:
             if timeout:
-                return with_timeout(self._ioloop.time() + timeout,
-                                    self._waiting_future,
-                                    self._ioloop)
+                # Leaves nothing behind on the waiting future if it times out
+                return until_any(self._waiting_future,
+                                 timeout=timeout, ioloop=self._ioloop)
             else:
                 return self._waiting_future
         else:
@@ -1783,9 +1783,9 @@ class AsyncState(object):
                              .format(self._valid_states, state))
         if state != self._state:
             if timeout:
-                return with_timeout(self._ioloop.time() + timeout,
-                                    self._waiting_futures[state],
-                                    self._ioloop)
+                # Leaves nothing behind on the waiting future if it times out
+                return until_any(self._waiting_futures[state],
+                                 timeout=timeout, ioloop=self._ioloop)
             else:
                 return self._waiting_futures[state]
         else:
@@ -1796,8 +1796,8 @@ class AsyncState(object):
     def until_state_in(self, *states, **kwargs):
         """Return a tornado Future, resolves when any of the requested states is set"""
         timeout = kwargs.get('timeout', None)
-        state_futures = (self.until_state(s, timeout=timeout) for s in states)
-        return until_any(*state_futures)
+        state_futures = (self.until_state(s) for s in states)
+        return until_any(*state_futures, timeout=timeout, ioloop=self._ioloop)
 
     # TODO Add until_not_state() ?
 
@@ -1910,18 +1910,21 @@ def until_any(*futures, **kwargs):
                 any_future.set_result(done_future.result())
             except Exception:
                 any_future.set_exc_info(done_future.exc_info())
-            # (NM) Nasty hack to remove handle_done from the callback list to prevent a
-            # memory leak where one of the futures resolves quickly, particularly when
-            # used together with AsyncState.until_state(). Also addresses Jira issue
-            # CM-593
-            # Leave resolved futures alone: their callbacks are being called right now
-            # (so others would be skipped) and will be dropped by themselves
-            for f in futures:
-                if not f.done() and f._callbacks:
-                    try:
-                        f._callbacks.remove(handle_done)
-                    except ValueError:
-                        pass
+            stop_waiting()
+
+    def stop_waiting(_future=None):
+        # (NM) Nasty hack to remove handle_done from the callback list to prevent a
+        # memory leak where one of the futures resolves quickly, particularly when
+        # used together with AsyncState.until_state(). Also addresses Jira issue
+        # CM-593
+        # Leave resolved futures alone: their callbacks are being called right now
+        # (so others would be skipped) and will be dropped by themselves
+        for f in futures:
+            if not f.done() and f._callbacks:
+                try:
+                    f._callbacks.remove(handle_done)
+                except ValueError:
+                    pass
 
     for f in futures:
         f.add_done_callback(handle_done)
@@ -1929,7 +1932,10 @@ def until_any(*futures, **kwargs):
             break
 
     if timeout:
-        return with_timeout(ioloop.time() + timeout, any_future, ioloop)
+        timeout_future = with_timeout(ioloop.time() + timeout, any_future, ioloop)
+        # Also if none of the futures resolves in time
+        timeout_future.add_done_callback(stop_waiting)
+        return timeout_future
     else:
         return any_future
 
-- 
2.43.0


From 4a897eb03c27c99e54ce2f90bff672cd33eb8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:30 +0000
Subject: [PATCH 76/85] fix: waits for clients to be not synced accumulated
 while they stay synced

Each until_not_synced() left a future behind on the states of the client, also each
one that a container made for its other children.
---
 katcp/resource_client.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 0335b04..5782908 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -365,6 +365,7 @@ class KATCPClientResource(resource.KATCPResource):
         # added
         self._preset_protocol_flags = resource_spec.get('preset_protocol_flags')
         self._state = AsyncState(("disconnected", "syncing", "synced"))
+        self._not_synced_future = None
         self._connected = AsyncCallbackEvent(self._update_state)
         self._sensors_synced = AsyncCallbackEvent(self._update_state)
         self._requests_synced = AsyncCallbackEvent(self._update_state)
@@ -453,9 +454,14 @@ class KATCPClientResource(resource.KATCPResource):
         """Convenience method to wait (with Future) until client is not synced"""
         not_synced_states = [state for state in self._state.valid_states
                              if state != 'synced']
-        not_synced_futures = [self._state.until_state(state)
-                              for state in not_synced_states]
-        return until_any(*not_synced_futures, timeout=timeout)
+        # Shared until it resolves, otherwise each call leaves a future behind on the
+        # states for as long as the client stays synced
+        if self._not_synced_future is None or self._not_synced_future.done():
+            self._not_synced_future = until_any(
+                *[self._state.until_state(state) for state in not_synced_states])
+        if timeout:
+            return until_any(self._not_synced_future, timeout=timeout)
+        return self._not_synced_future
 
     @steal_docstring_from(resource.KATCPResource.list_sensors)
     def list_sensors(self, filter="", strategy=False, status="",
-- 
2.43.0


From f6535b7c02dccf7d68ebf3bffad9701e7d2bd957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:46 +0000
Subject: [PATCH 77/85] fix: a client kept a table entry for each request name
 ever used

---
 katcp/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index 9097e5a..89cac5c 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1242,6 +1242,9 @@ class AsyncClient(DeviceClient):
             callback_tuple = self._async_queue[msg_id]
             del self._async_queue[msg_id]
             self._async_id_stack[callback_tuple[0].name].remove(msg_id)
+            if not self._async_id_stack[callback_tuple[0].name]:
+                # Do not keep an entry for each request name ever used
+                del self._async_id_stack[callback_tuple[0].name]
             return callback_tuple
         else:
             return None, None, None, None, None
-- 
2.43.0


From bff18d3f3ab2c8f4c9b91492c2bfdfb6683c22b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 78/85] fix: message recorders honour the blacklist as
 documented

---
 katcp/testutils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 83ed6a6..c49ebee 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -186,15 +186,14 @@ class MessageRecorder(object):
             self.msg_received.clear()
 
     def _record_predicate(self, msg):
-        if self.whitelist and msg.name not in self.whitelist:
-            return False
-        if self.regex_filter:
-            if self.regex_filter.match(str(msg)):
-                return True
-            else:
+        if self.whitelist:
+            # Takes precedence over the blacklist
+            if msg.name not in self.whitelist:
                 return False
-        if msg.name in self.blacklist:
+        elif msg.name in self.blacklist:
             return False
+        if self.regex_filter:
+            return bool(self.regex_filter.match(str(msg)))
         return True
 
 
-- 
2.43.0


From 7b469f6881115f20c22c2ee5bf3716d849e0b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 79/85] fix: message recorders wait without a timeout and
 without missing messages

---
 katcp/testutils.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index c49ebee..5bab938 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -133,7 +133,7 @@ class MessageRecorder(object):
         self.whitelist = whitelist
         self.blacklist = blacklist
         self.regex_filter = re.compile(regex_filter) if regex_filter else None
-        self.msg_received = threading.Event()
+        self.msg_received = threading.Condition()
 
     def get_msgs(self, min_number=0, timeout=1):
         """Return the messages recorded so far and delete them.
@@ -166,24 +166,25 @@ class MessageRecorder(object):
 
         """
         start_time = time.time()
-        while True:
-            if len(self.msgs) >= number:
-                return True
-            elapsed_time = time.time() - start_time
-            if elapsed_time >= timeout:
-                return None
-            self.msg_received.wait(timeout=timeout-elapsed_time)
+        remaining = timeout
+        with self.msg_received:
+            while True:
+                if len(self.msgs) >= number:
+                    return True
+                if timeout is not None:
+                    remaining = timeout - (time.time() - start_time)
+                    if remaining <= 0:
+                        return None
+                self.msg_received.wait(timeout=remaining)
 
     def append_msg(self, msg):
         """Append a message if it matches the criteria."""
         if msg.mtype not in self.msg_types:
             return
-        try:
-            if self._record_predicate(msg):
+        if self._record_predicate(msg):
+            with self.msg_received:
                 self.msgs.append(msg)
-                self.msg_received.set()
-        finally:
-            self.msg_received.clear()
+                self.msg_received.notify_all()
 
     def _record_predicate(self, msg):
         if self.whitelist:
-- 
2.43.0


From 6db9fbb4c3da83ea61f560abbf95726f194c9b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 80/85] fix: sensor assertions accept values that contain
 percent signs

---
 katcp/testutils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 5bab938..52e77ce 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -420,8 +420,7 @@ class BlockingTestClient(client.BlockingClient):
                   (sensorname, expected, places_msg)
 
         got, got_status, _timestamp = self.get_sensor(sensorname, sensortype)
-        if '%r' in msg:
-            msg = msg % got
+        msg = msg.replace('%r', repr(got), 1)
 
         if sensortype == float:
             self.test.assertAlmostEqual(got, expected, places, msg)
@@ -454,8 +453,7 @@ class BlockingTestClient(client.BlockingClient):
 
         got_status = self.get_sensor_status(sensorname)
 
-        if '%r' in msg:
-            msg = msg % got_status
+        msg = msg.replace('%r', repr(got_status), 1)
 
         self.test.assertEqual(got_status, expected_status, msg)
 
@@ -487,8 +485,7 @@ class BlockingTestClient(client.BlockingClient):
                   " value%s." % (sensorname, places_msg)
 
         got = self.get_sensor_value(sensorname, sensortype)
-        if '%r' in msg:
-            msg = msg % got
+        msg = msg.replace('%r', repr(got), 1)
 
         if sensortype == float:
             self.test.assertNotAlmostEqual(got, expected, places, msg)
-- 
2.43.0


From 10c1ce01936d8d7e075a25a8fd1c3d862e8614a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 81/85] fix: wait_until_sensor_equals considers the last value
 it read

---
 katcp/testutils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 52e77ce..7a2e901 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -602,7 +602,6 @@ class BlockingTestClient(client.BlockingClient):
         # TODO Should be changed to use some variant of SensorTransitionWaiter
 
         stoptime = time.time() + timeout
-        success = False
 
         if sensortype == float:
             cmpfun = lambda got, exp: abs(got - exp) < 10 ** -places
@@ -610,12 +609,11 @@ class BlockingTestClient(client.BlockingClient):
             cmpfun = lambda got, exp: got == exp
 
         lastval = self.get_sensor_value(sensorname, sensortype)
-        while time.time() < stoptime:
-            if cmpfun(lastval, value):
-                success = True
-                break
+        success = cmpfun(lastval, value)
+        while not success and time.time() < stoptime:
             time.sleep(pollperiod)
             lastval = self.get_sensor_value(sensorname, sensortype)
+            success = cmpfun(lastval, value)
 
         if not success:
             self.test.fail("Timed out while waiting %ss for %s sensor to"
-- 
2.43.0


From 87816056ce7b1eb5527f296abe267ed9c5453592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 82/85] fix: test_help compares full descriptions as bytes

---
 katcp/testutils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 7a2e901..dcc3596 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -711,14 +711,13 @@ class BlockingTestClient(client.BlockingClient):
         got_requests = [tuple(m.arguments) for m in informs]
 
         if descriptions:
+            expected_requests = [(native_str_to_bytes(name), native_str_to_bytes(desc))
+                                 for (name, desc) in expected_requests]
             if not full_descriptions:
                 got_requests = [(name, desc.split(b'\n')[0])
                                 for (name, desc) in got_requests]
-                expected_requests = [
-                    (native_str_to_bytes(name),
-                     native_str_to_bytes(desc).split(b"\n")[0])
-                    for (name, desc) in expected_requests
-                ]
+                expected_requests = [(name, desc.split(b'\n')[0])
+                                     for (name, desc) in expected_requests]
         else:
             got_requests = [name for (name, desc) in got_requests]
             expected_requests = [native_str_to_bytes(name) for name in expected_requests]
-- 
2.43.0


From fa2e1cf6bcb2c9ccae575d5803331f5b7f547ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 83/85] fix: sensor transition waiters do not miss updates
 while they attach

---
 katcp/testutils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index dcc3596..a26f4c8 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -1580,12 +1580,17 @@ class SensorTransitionWaiter(object):
         self._done = False
         self._value_queue = queue.Queue()
         self.timed_out = False
-        current_value = self._get_current_sensor_value()
+        # Updates by other threads are kept back until the current value has been read, so
+        # that those between reading it and attaching to the sensor are not missed.
+        self._configuring = threading.RLock()
+        with self._configuring:
+            self._configure_sensor()
+            current_value = self._get_current_sensor_value()
         if value_sequence:
             if not self._test_value(current_value, value_sequence[0]):
+                self.teardown()
                 raise ValueError('Sensor value does not satisfy initial condition')
         self.received_values = [current_value]
-        self._configure_sensor()
 
     def _get_current_sensor_value(self):
         return self.sensor.value()
@@ -1606,7 +1611,8 @@ class SensorTransitionWaiter(object):
 
     def _sensor_callback(self, sensor, reading):
         assert(sensor is self.sensor)
-        self._value_queue.put(reading[2])
+        with self._configuring:
+            self._value_queue.put(reading[2])
 
     def _test_value(self, value, value_test):
         """Test value against value_test.
@@ -1722,7 +1728,8 @@ class SensorTransitionStatusWaiter(SensorTransitionWaiter):
 
     def _sensor_callback(self, sensor, reading):
         assert(sensor is self.sensor)
-        self._value_queue.put(reading[1:])
+        with self._configuring:
+            self._value_queue.put(reading[1:])
 
 
 def wait_sensor(sensor, value, status=None, timeout=5):
-- 
2.43.0


From 06e1eec938d841b6a116ad02be9046f3594267dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 84/85] fix: wait_sensor_async resolves once if several
 readings match

---
 katcp/testutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index a26f4c8..96041c7 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -1763,7 +1763,12 @@ def wait_sensor_async(sensor, value, status=None, ioloop=None):
             status_matched = reading.status == status or status is None
             if val_matched and status_matched:
                 sensor.detach(self)
-                ioloop.add_callback(f.set_result, True)
+                ioloop.add_callback(resolve)
+
+    def resolve():
+        # Several readings can match before the first is handled
+        if not f.done():
+            f.set_result(True)
 
     observer = Observer()
     sensor.attach(observer)
-- 
2.43.0


From eca8ac0ddbebaed2bdf642438abfe1e4b52042cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 85/85] fix: mock requests record replies sent with
 reply_with_message

---
 katcp/testutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/testutils.py b/katcp/testutils.py
index 96041c7..5d98258 100644
--- a/katcp/testutils.py
+++ b/katcp/testutils.py
@@ -1976,6 +1976,8 @@ def mock_req(req_name, *args, **kwargs):
         req.reply_msg = Message.reply_to_request(req.msg, *args)
         req.reply_and_inform_msgs_future.set_result((req.reply_msg, req.inform_msgs))
     req.reply.side_effect = reply_side_effect
+    req.reply_with_message.side_effect = lambda rep_msg: reply_side_effect(
+        *rep_msg.arguments)
     req.inform.side_effect = lambda *args : req.inform_msgs.append(
         Message.reply_inform(req.msg, *args))
     return req
-- 
2.43.0

