From 6769833daebd95acae8a46b9b27897fc40a3a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 01/63] fix: keep the message id when copying a Message

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index c34423c..de98408 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -330,7 +330,7 @@ class Message(object):
             A copy of the message object.
 
         """
-        return Message(self.mtype, self.name, self.arguments)
+        return Message(self.mtype, self.name, self.arguments, self.mid)
 
     def __bytes__(self):
         """Return Message serialized for transmission.
-- 
2.43.0


From ad8a77d8e8a7d0b7fcbdaf9726f1cb528cf45f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 02/63] fix: raise KatcpSyntaxError for malformed lines that
 are not valid UTF-8

---
 katcp/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index de98408..515af34 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -590,7 +590,7 @@ class MessageParser(object):
         type_char = line[:1]
         if type_char not in self.TYPE_SYMBOL_LOOKUP:
             raise KatcpSyntaxError(
-                "Bad type character %r." % (ensure_native_str(type_char),))
+                "Bad type character %s." % (repr(type_char).lstrip('b'),))
 
         mtype = self.TYPE_SYMBOL_LOOKUP[type_char]
 
@@ -610,8 +610,8 @@ class MessageParser(object):
             name = match.group('name')
             mid = match.group('id')
         else:
-            raise KatcpSyntaxError("Bad message name (and possibly id) %r." %
-                                   (ensure_native_str(name),))
+            raise KatcpSyntaxError("Bad message name (and possibly id) %s." %
+                                   (repr(name).lstrip('b'),))
 
         name = ensure_native_str(name)
 
-- 
2.43.0


From c7432fcacd5ccb387fa0e4f131b76eff93dfe09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 03/63] fix: don't handle the previous request again after a
 failed read

---
 katcp/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index f9190e2..12fe63f 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -534,6 +534,8 @@ class KATCPServer(object):
                     # Assume that _stream_closed_callback() will handle this
                     break
                 except Exception:
+                        # Don't handle the previous message again
+                        line = b''
                         self._logger.warn('Unhandled Exception '
                                           'while reading from client {0}:'
                                           .format(client_address), exc_info=True)
-- 
2.43.0


From 02ee2f0084d3319937fc50c7754900a9a8258ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 04/63] fix: don't fail on messages with arguments that are not
 valid UTF-8

---
 katcp/client.py            | 10 +++++-----
 katcp/inspecting_client.py | 12 ++++++------
 katcp/server.py            |  8 ++++----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a34191e..9a4457b 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -327,7 +327,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the static configuration. Static configuration: %r.'
                     'Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags), inform))
                 return
             else:
                 # Log an error and disconnect if we are in auto-detection mode
@@ -336,7 +336,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the previously detected version. Disconnecting in '
                     'disgust. Previous version: %r. Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags), inform))
                 # Prevent an infinite loop
                 self._auto_reconnect = False
                 self._disconnect()
@@ -438,7 +438,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self._stream.write(data)
         except Exception:
             self._logger.warn('Could not send message {0!r} to {1!r}'
-                              .format(str(msg), self._bindaddr), exc_info=True)
+                              .format(msg, self._bindaddr), exc_info=True)
             self._disconnect(exc_info=True)
 
     @gen.coroutine
@@ -545,7 +545,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(
                 "received from {}: {}"
-                .format(self.bind_address_string, repr(str(msg))))
+                .format(self.bind_address_string, repr(msg)))
 
         if msg.mtype == Message.INFORM:
             return self.handle_inform(msg)
@@ -760,7 +760,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 except Exception:
                     self._logger.exception(
                         'Unhandled exception in handle_message() from {0} for '
-                        'message {1!r}'.format(self.bind_address_string, str(msg)))
+                        'message {1!r}'.format(self.bind_address_string, msg))
 
         self._disconnect()
 
diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4de6faa..6d93bda 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -165,7 +165,7 @@ class _InformHookDeviceClient(katcp.AsyncClient):
             for func in self._inform_hooks.get(msg.name, []):
                 func(msg)
         except Exception:
-            self._logger.warning('Call to function "{0}" with message "{1}".'
+            self._logger.warning('Call to function "{0}" with message "{1!r}".'
                                  .format(func, msg), exc_info=True)
         super(_InformHookDeviceClient, self).handle_inform(msg)
 
@@ -662,7 +662,7 @@ class InspectingClientAsync(object):
             # an empty list even though the request will fail
             if name is None or b'Unknown request' not in reply.arguments[1]:
                 raise SyncError(
-                    'Error reply during sync process for {}: {}'
+                    'Error reply during sync process for {}: {!r}'
                     .format(self.bind_address_string, reply))
         # Get recommended timeouts hints for slow requests if the server
         # provides them
@@ -726,8 +726,8 @@ class InspectingClientAsync(object):
         reply, informs = yield self.katcp_client.future_request(
             req_msg, timeout=timeout)
         if not reply.reply_ok():
-            raise SyncError('Error retrieving request timeout hints: "{}"\n'
-                            'in reply to request {}, continuing with sync'
+            raise SyncError('Error retrieving request timeout hints: "{!r}"\n'
+                            'in reply to request {!r}, continuing with sync'
                             .format(reply, req_msg))
         for inform in informs:
             request_name = ensure_native_str(inform.arguments[0])
@@ -773,13 +773,13 @@ class InspectingClientAsync(object):
 
         reply, informs = yield self.katcp_client.future_request(
             msg, timeout=timeout)
-        self._logger.debug('{} received {} sensor-list informs, reply: {}'
+        self._logger.debug('{} received {} sensor-list informs, reply: {!r}'
             .format(self.bind_address_string, len(informs), reply))
         if not reply.reply_ok():
             # If an unknown sensor is specified the desired result is to return
             # an empty list, even though the request will fail
             if name is None or b'Unknown sensor' not in reply.arguments[1]:
-                raise SyncError('Error reply during sync process: {}'
+                raise SyncError('Error reply during sync process: {!r}'
                                 .format(reply))
 
 
diff --git a/katcp/server.py b/katcp/server.py
index 12fe63f..66cc22c 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -556,7 +556,7 @@ class KATCPServer(object):
                     if msg:  # Ignore empty messages (i.e empty lines)
                         yield self._device.on_message(client_conn, msg)
                 except Exception:
-                    self._logger.error('Error handling message {0!s}'
+                    self._logger.error('Error handling message {0!r}'
                                        .format(msg), exc_info=True)
                 # Allow the ioloop to run since we may be starving it if
                 # there is buffered data in the stream, resulting in yield
@@ -650,7 +650,7 @@ class KATCPServer(object):
         except Exception:
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
-                              .format(str(msg), addr), exc_info=True)
+                              .format(msg, addr), exc_info=True)
             stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
@@ -860,7 +860,7 @@ class MessageHandlerThread(object):
                             ready_future.set_result(res)
                     except Exception as e:
                         err_msg = ('Error calling message '
-                                   'handler for msg:\n {0!s}'.format(msg))
+                                   'handler for msg:\n {0!r}'.format(msg))
                         self._logger.error(err_msg, exc_info=True)
                         client_conn.inform(self.log_inform_formatter(
                             'error', 'See device logs:\n' + err_msg, 'root'))
@@ -1026,7 +1026,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         # log messages received so that no one else has to
-        self._logger.debug('received: {0!s}'.format(msg))
+        self._logger.debug('received: {0!r}'.format(msg))
 
         if msg.mtype == msg.REQUEST:
             return self.handle_request(client_conn, msg)
-- 
2.43.0


From 8ff16ed7456c634f67ff5d211f52d70c9011e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 05/63] fix: send informs from other threads before the reply
 they belong to

---
 katcp/server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 66cc22c..8aef0af 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -1094,13 +1094,20 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
                         finally:
                             done_future.set_result(None)
 
+                    def queue_async_reply(f):
+                        # Informs sent from another thread before it resolved
+                        # the future may still be queued on the ioloop, they
+                        # must go out before the reply
+                        self.ioloop.add_callback(async_reply, f)
+
                     # TODO When using the return_reply() decorator the future
                     # returned is not currently thread-safe, must either deal
                     # with it here, or in kattypes.py. Would be nice if we don't
                     # have to always fall back to adding a callback, or wrapping
                     # a thread-safe future. Supporting sync-with-thread and
                     # async futures is turning out to be a pain in the ass ;)
-                    self.ioloop.add_callback(reply.add_done_callback, async_reply)
+                    self.ioloop.add_callback(reply.add_done_callback,
+                                             queue_async_reply)
                     # reply.add_done_callback(async_reply)
 
                     if concurrent:
-- 
2.43.0


From 7be155faaa492e524688b2440e039830123fa10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 06/63] fix: complete requests that could not be sent with a
 reply message

---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 9a4457b..fd4eefe 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1285,7 +1285,7 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.request(msg.name, "fail", str(e))
+            error_reply = Message.reply(msg.name, "fail", str(e))
             error_reply.mid = mid
             self.handle_reply(error_reply)
 
-- 
2.43.0


From 40a52088082391837a4f4252189270e4dc35d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 07/63] fix: match messages without id only to requests sent
 without id

---
 katcp/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index fd4eefe..085f8da 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1234,13 +1234,15 @@ class AsyncClient(DeviceClient):
             return None, None, None, None, None
 
     def _msg_id_for_name(self, msg_name):
-        """Find the msg_id for a given request name.
+        """Find the msg_id for a given request name sent without an id.
 
         Return None if no message id exists.
 
         """
-        if msg_name in self._async_id_stack and self._async_id_stack[msg_name]:
-            return self._async_id_stack[msg_name][0]
+        for msg_id in self._async_id_stack.get(msg_name, []):
+            # Messages without an id cannot belong to a request sent with one
+            if self._async_queue[msg_id][0].mid is None:
+                return msg_id
 
     @make_threadsafe
     def callback_request(self, msg, reply_cb=None, inform_cb=None,
-- 
2.43.0


From 013a281b34c353b0b47e234122268ce31c03b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 08/63] fix: tell AsyncCallbackEvent callbacks when the event
 is cleared

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 515af34..a3b4ccc 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1718,7 +1718,7 @@ class AsyncCallbackEvent(AsyncEvent):
     def clear(self):
         super(AsyncCallbackEvent, self).clear()
         try:
-            self._callback(True)
+            self._callback(False)
         except Exception:
             logger.exception('Unhandled exception calling event change callback')
 
-- 
2.43.0


From bff12aada2b345c82c28e4e6f3d403ee68e54251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 09/63] fix: until_any no longer drops callbacks of other
 waiters on the same future

---
 katcp/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index a3b4ccc..4258bea 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1908,8 +1908,10 @@ def until_any(*futures, **kwargs):
             # memory leak where one of the futures resolves quickly, particularly when
             # used together with AsyncState.until_state(). Also addresses Jira issue
             # CM-593
+            # Leave futures that are resolving right now alone, since tornado is
+            # iterating over their callbacks and would skip somebody else's
             for f in futures:
-                if f._callbacks:
+                if not f.done() and f._callbacks:
                     try:
                         f._callbacks.remove(handle_done)
                     except ValueError:
-- 
2.43.0


From e5651658c19a74513b4d5082f52c5620efda0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 10/63] fix: don't miss sensor updates from other threads while
 a strategy starts

---
 katcp/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 14fed93..8b3a41a 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -230,8 +230,10 @@ class SampleStrategy(object):
     def attach(self):
         """Attach strategy to its sensor and send initial update."""
         s = self._sensor
+        # Attach before reading so that a value set by another thread in
+        # between is not missed
+        s.attach(self)
         self.update(s, s.read())
-        self._sensor.attach(self)
 
     def detach(self):
         """Detach strategy from its sensor."""
-- 
2.43.0


From 7edf39c504a8069252a1da2a217252e54ed569dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 11/63] fix: don't lose an event-rate update behind a short
 timeout that is overdue

---
 katcp/sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 8b3a41a..3fa2675 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -435,6 +435,11 @@ class SampleEventRate(SampleStrategy):
 
     def inform(self, reading):
         SampleStrategy.inform(self, reading)
+        # A pending short timeout is too early now; update() must be able to
+        # schedule a new one even if the old one has not had a chance to run
+        if self._short_timeout_handle:
+            self.ioloop.remove_timeout(self._short_timeout_handle)
+            self._short_timeout_handle = None
         now = self.ioloop.time()
         self._not_before = now + self._shortest_period
         self._not_after = now + self._longest_period
-- 
2.43.0


From 2bd8eec026b76d9b120c6ca9ea34b63eda1dee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 12/63] fix: no sensor updates or attached observers after a
 strategy was cancelled

---
 katcp/sampling.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 3fa2675..102772d 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -104,6 +104,9 @@ class SampleStrategy(object):
     OBSERVE_UPDATES = False
     "True if a strategy must be attached to its sensor as an observer"
 
+    _cancelled = False
+    # True between cancel() and the next start()
+
     def __init__(self, inform_callback, sensor, *params, **kwargs):
         self.ioloop = kwargs.get('ioloop') or tornado.ioloop.IOLoop.current()
         self._inform_callback = inform_callback
@@ -241,6 +244,7 @@ class SampleStrategy(object):
 
     def cancel(self):
         """Detach strategy from its sensor and cancel ioloop callbacks."""
+        self._cancelled = True
         if self.OBSERVE_UPDATES:
             self.detach()
         self.ioloop.add_callback(self.cancel_timeouts)
@@ -254,14 +258,19 @@ class SampleStrategy(object):
         :attr:`_ioloop_thread_id` using `thread.get_ident()`.
 
         """
+        self._cancelled = False
+
         def first_run():
             self._ioloop_thread_id = get_thread_ident()
-            if self.OBSERVE_UPDATES:
+            if self.OBSERVE_UPDATES and not self._cancelled:
                 self.attach()
         self.ioloop.add_callback(first_run)
 
     def inform(self, reading):
         """Inform strategy creator of the sensor status."""
+        if self._cancelled:
+            # An update was still on its way here when we were cancelled
+            return
         try:
             self._inform_callback(self._sensor, reading)
         except Exception:
@@ -376,10 +385,13 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         self._period = period
+        self.next_timeout_handle = None
 
     def start(self):
         super(SamplePeriod, self).start()
         def start_periodic_sampling():
+            if self._cancelled:
+                return
             self.next_time = self.ioloop.time()
             self._run_once()
         self.ioloop.add_callback(start_periodic_sampling)
@@ -399,7 +411,8 @@ class SamplePeriod(SampleStrategy):
         return SampleStrategy.PERIOD
 
     def cancel_timeouts(self):
-        self.ioloop.remove_timeout(self.next_timeout_handle)
+        if self.next_timeout_handle:
+            self.ioloop.remove_timeout(self.next_timeout_handle)
 
 
 class SampleEventRate(SampleStrategy):
@@ -428,6 +441,7 @@ class SampleEventRate(SampleStrategy):
                              "satisfy 0 <= shortest_period <= longest_period")
         self._shortest_period = shortest_period
         self._short_timeout_handle = None
+        self._periodic_timeout_handle = None
         self._longest_period = longest_period
         # don't send updates until timestamp _not_before
         self._not_before = 0
@@ -450,6 +464,8 @@ class SampleEventRate(SampleStrategy):
         self.ioloop.add_callback(self._periodic_sampling)
 
     def _periodic_sampling(self):
+        if self._cancelled:
+            return
         if self._not_after >= AGE_OF_UNIVERSE:
             # Ignore stupidly long periods
             self._periodic_timeout_handle = None
-- 
2.43.0


From d5e4dbfe9b8b44544baa7676262802f50d8e715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 13/63] fix: start strategies only once when a bulk sampling
 request repeats a sensor name

---
 katcp/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 8aef0af..ad07e01 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2435,7 +2435,8 @@ class DeviceServer(DeviceServerBase):
                 )
             )
 
-        for name in names:
+        # Names may be repeated; each sensor's strategy must only be set up once
+        for name, new_strategy in requested_strategies.items():
             sensor = self._sensors[name]
 
             # Remove and cancel old strategy
@@ -2444,7 +2445,6 @@ class DeviceServer(DeviceServerBase):
                 old_strategy.cancel()
 
             # Replace with new strategy
-            new_strategy = requested_strategies[name]
             if not isinstance(new_strategy, SampleNone):
                 self._strategies[client][sensor] = new_strategy
                 new_strategy.start()
-- 
2.43.0


From 93407a3d249e60ec10c56fab42eb9a3d64b05fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 14/63] fix: report katcp v4 sampling periods without
 truncation errors

---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index ad07e01..74eb920 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2378,7 +2378,7 @@ class DeviceServer(DeviceServerBase):
         if katcp_version < SEC_TS_KATCP_MAJOR and strategy == b'period':
             # Another slightly nasty hack, but since period is the only
             # v4 strategy involving timestamps it's not _too_ nasty :)
-            params = [int(float(params[0]) * SEC_TO_MS_FAC)] + params[1:]
+            params = [int(round(float(params[0]) * SEC_TO_MS_FAC))] + params[1:]
 
         # Let the ioloop run so that the #sensor-status inform is sent before
         # the reply. Not strictly necessary, but a number of tests depend on
-- 
2.43.0


From 62826858b30c6cd6e1db6dbfe2d9cecd8701a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 15/63] fix: close a connection that is established after the
 client was stopped

---
 katcp/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 085f8da..9e76e46 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -454,8 +454,13 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         stream = None
         try:
             host, port = self._bindaddr
-            stream = self._stream = yield self._tcp_client.connect(
+            stream = yield self._tcp_client.connect(
                 host, port, max_buffer_size=self.MAX_MSG_SIZE)
+            if not self._running.isSet():
+                # We were stopped while the connection was being established
+                stream.close()
+                return
+            self._stream = stream
             stream.set_close_callback(partial(self._stream_closed_callback,
                                               stream))
             # our message packets are small, don't delay sending them.
-- 
2.43.0


From 6d84a3b1e0ab6f61c1f2c5273a56f33f09ff95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 16/63] fix: no notify_connected(False) for a connection that
 was never announced

---
 katcp/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index 9e76e46..4e17523 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -521,6 +521,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         try:
             assert stream is self._stream
             self._stream = None
+            was_connected = self._connected.isSet()
             self._connected.clear()
             self._disconnected.set()
             error_repr = '{0!r}'.format(stream.error) if stream.error else ''
@@ -528,6 +529,9 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 self._logger.warn('Client stream for server '
                                   '{0} closed with error {1}'
                                   .format(self.bind_address_string, error_repr))
+            if not was_connected:
+                # Closed before _connect() was done, nobody knows about it
+                return
             try:
                 self.notify_connected(False)
             except Exception:
-- 
2.43.0


From 926635a1bbaad16e83419068b85e0f83adf0a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 17/63] fix: a failed send does not cut short the flushing of a
 closing connection

---
 katcp/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 74eb920..b1bb9f8 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -651,7 +651,9 @@ class KATCPServer(object):
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
                               .format(msg, addr), exc_info=True)
-            stream.close(exc_info=True)
+            # A stream that is being flushed is closed once that is done
+            if not getattr(stream, 'KATCPServer_closing', False):
+                stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
         """Flush tornado iostream write buffer and prevent further writes.
-- 
2.43.0


From e8e90ac339c6f0b8591fec1c604073e019ca9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 18/63] fix: links removed by an observer during an update of a
 sensor tree raised KeyError

---
 katcp/sensortree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index aa08f4f..21ceed7 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -56,9 +56,11 @@ class GenericSensorTree(object):
             Sensor reading as would be returned by sensor.read()
 
         """
-        parents = list(self._child_to_parents[sensor])
+        parents = list(self._child_to_parents.get(sensor, ()))
         for parent in parents:
-            self.recalculate(parent, (sensor,))
+            # An observer may have removed links since the update started
+            if parent in self._child_to_parents.get(sensor, ()):
+                self.recalculate(parent, (sensor,))
 
     def recalculate(self, parent, updates):
         """Re-calculate the value of parent sensor.
-- 
2.43.0


From f45c6f2385116dbc34d2fdb3a743c4b6e4a183a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 19/63] fix: deregistering a sensor reaches all rules that
 depend on it

Rules already waiting for another sensor kept the deregistered one and became
active without it; rules added with a tuple or list of children, or that cannot
be calculated from the remaining sensors, were left half removed.
---
 katcp/sensortree.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index 21ceed7..f6a9b63 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -452,24 +452,27 @@ class AggregateSensorTree(GenericSensorTree):
                              " tree" % child_name)
         child = self._registered_sensors[child_name]
         del self._registered_sensors[child_name]
+        for _rule, names, sensors in self._incomplete_aggregates.values():
+            if child in sensors:
+                sensors.discard(child)
+                names.add(child_name)
         try:
             parents = self.parents(child)
-            for parent in parents:
-                if parent in self._incomplete_aggregates:
-                    (rule, names, sensors) = self._incomplete_aggregates[parent]
-                    names.add(child_name)
-                else:
-                    (rule, sensors) = self._aggregates[parent]
-                    names = set()
-                    names.add(child_name)
-                sensors.discard(child)
-                self._incomplete_aggregates[parent] = (rule, names, sensors)
-                self.remove_links(parent, [child])
-                self.remove(parent)
-                if parent.stype == 'bool':
-                    parent.set_value(False)
         except ValueError:
-            pass
+            return
+        for parent in parents:
+            if parent not in self._aggregates:
+                continue
+            rule, sensors = self._aggregates[parent]
+            sensors = set(sensors)
+            sensors.discard(child)
+            # Removing the rule recalculates the parent from the other sensors
+            self._aggregates[parent] = (rule, sensors)
+            self.remove(parent)
+            self._incomplete_aggregates[parent] = (rule, set([child_name]),
+                                                   sensors)
+            if parent.stype == 'bool':
+                parent.set_value(False)
 
     def _child_from_reference(self, reference):
         """Returns the child sensor from its reference.
-- 
2.43.0


From deb7c1bac9324b66d5f211c3b17cb4a1226be07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 20/63] fix: ?client-list fails if clients come or go while it
 is answered in another thread

---
 katcp/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index b1bb9f8..3755033 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2013,7 +2013,9 @@ class DeviceServer(DeviceServerBase):
         """
         # TODO Get list of ClientConnection* instances and implement a standard
         # 'address-print' method in the ClientConnection class
-        clients = self._client_conns
+        # Clients may come and go while the informs are sent if the handler does
+        # not run in the ioloop thread
+        clients = list(self._client_conns)
         num_clients = len(clients)
         for conn in clients:
             addr = conn.address
-- 
2.43.0


From e333655f57bddd0d9d9cf349c8dd285b573f00de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 21/63] fix: log level 'all' could not be set or logged at

---
 katcp/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/server.py b/katcp/server.py
index 3755033..912e4f9 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2549,6 +2549,7 @@ class DeviceLogger(object):
 
     ## @brief Map of Python logging level to corresponding to KATCP levels
     PYTHON_LEVEL = {
+        ALL: 0,
         TRACE: 0,
         DEBUG: logging.DEBUG,
         INFO: logging.INFO,
-- 
2.43.0


From 848054c26fc22979e8951a4d4c18a4aae2448c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 22/63] fix: log a message with an invalid format (e.g. '100%')
 instead of raising ValueError

---
 katcp/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 912e4f9..ef4ce6a 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2669,8 +2669,9 @@ class DeviceLogger(object):
                 name = self._root_logger_name
             try:
                 inform_msg = msg % args
-            except TypeError:
-                # Catch the "not enough arguments for format string" exception.
+            except (TypeError, ValueError):
+                # Catch the "not enough arguments for format string" and
+                # "incomplete format" exceptions.
                 inform_msg = "{} {}".format(
                     msg,
                     args if args else '').strip()
-- 
2.43.0


From 401143da810a45f701782c342eb7fbaab8a8d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 23/63] fix: encode real numbers that are not plain floats as
 KATCP floats

---
 katcp/kattypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index b05e82f..bf131fc 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -199,12 +199,14 @@ class Float(KatcpType):
 
     def encode(self, value, major):
         # Note:  order chosen for performance - Integral and Real checks are slower
+        # The value is converted to a plain float since the repr() of other
+        # real types (e.g. fractions, numpy floats) is not a KATCP float.
         if isinstance(value, float):
-            return b"%r" % (value,)
+            return b"%r" % (float(value),)
         elif isinstance(value, int) or isinstance(value, numbers.Integral):
             return b"%r" % (float(value),)
         elif isinstance(value, numbers.Real):
-            return b"%r" % (value,)
+            return b"%r" % (float(value),)
         else:
             raise ValueError("Could not encode value '%r' as float." % value)
 
-- 
2.43.0


From cff137fc10926db809db602a93d0148d047d7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 24/63] fix: round katcp v4 timestamps to the nearest
 millisecond instead of truncating

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index bf131fc..0e94cc2 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -420,7 +420,7 @@ class Timestamp(KatcpType):
             return b"%.6f" % float(value)
         else:
             # In milliseconds please!
-            return b"%i" % int(float(value) * SEC_TO_MS_FAC)
+            return b"%i" % int(round(float(value) * SEC_TO_MS_FAC))
 
     def decode(self, value, major):
         try:
-- 
2.43.0


From a47e3adea25d2ba5d67286feecffa15d913704f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 25/63] fix: Parameter.pack passed the katcp version as the
 nocheck argument

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 0e94cc2..b38c1db 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -629,7 +629,7 @@ class Parameter(object):
             The unescaped KATCP string representing the value.
 
         """
-        return self._kattype.pack(value, self.major)
+        return self._kattype.pack(value, major=self.major)
 
     def unpack(self, value):
         """Unpack the parameter using its kattype.
-- 
2.43.0


From 04a6e60c1bb29f69596948a18255565289535faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 26/63] fix: never encode strict timestamps in exponential
 notation

---
 katcp/kattypes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index b38c1db..8f26419 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -10,6 +10,7 @@ from __future__ import absolute_import, division, print_function
 from future import standard_library
 standard_library.install_aliases()  # noqa: E402
 
+import decimal
 import inspect
 import itertools
 import logging
@@ -464,11 +465,15 @@ class StrictTimestamp(KatcpType):
     name = "strict_timestamp"
 
     def encode(self, value, major):
-        if isinstance(value, numbers.Real):
-            return b"%r" % value
-        else:
-            raise ValueError("Could not encode value '%r' as strict timestamp." %
-                             value)
+        if isinstance(value, numbers.Integral):
+            return b"%d" % (value,)
+        elif isinstance(value, numbers.Real):
+            value = decimal.Decimal(repr(float(value)))
+            if value.is_finite():
+                # Never in exponential notation
+                return format(value, "f").encode("ascii")
+        raise ValueError("Could not encode value '%r' as strict timestamp." %
+                         (value,))
 
     def decode(self, value, major):
         try:
-- 
2.43.0


From 9f68de841fb74afb97462a6f073304cc87f0921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 27/63] fix: looking up an unknown request on a server with
 timeout hints

future_get_request() raised SyncError instead of resolving with None, because
the timeout hint of the unknown request was asked for as well.
---
 katcp/inspecting_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 6d93bda..a548fc4 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -668,7 +668,7 @@ class InspectingClientAsync(object):
         # provides them
         timeout_hints_available = (
             self.katcp_client.protocol_flags.request_timeout_hints)
-        if timeout_hints_available:
+        if timeout_hints_available and reply.reply_ok():
             timeout_hints = yield self._get_request_timeout_hints(
                 name, timeout=maybe_timeout.remaining())
         else:
-- 
2.43.0


From 0396d145b864ce8006b4bbf9f64e7b14f69591dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 28/63] fix: changed sensors and requests in the inspecting
 client

Items of the index were changed in place. If the other half of the inspection
failed the change was not rolled back, and so never reported; and the object
made from the old description remained in use. The bookkeeping of changes also
ended up as an argument of request_factory().
---
 katcp/inspecting_client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index a548fc4..1930590 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -555,8 +555,11 @@ class InspectingClientAsync(object):
             orig_data = index[name]
             for key, value in data.items():
                 if orig_data.get(key) != value:
-                    orig_data[key] = value
-                    orig_data['_changed'] = True
+                    # Start over with a new item: an object made from the old
+                    # item is out of date, and inspect() may have to go back to
+                    # the old item.
+                    index[name] = dict(data, _changed=True)
+                    break
 
     def handle_sensor_value(self):
         """Handle #sensor-value informs just like #sensor-status informs"""
@@ -1083,8 +1086,7 @@ class InspectingClientAsync(object):
         # Check the keys that was not added now or not lined up for removal,
         # and see if they changed.
         for key in updated_keys.difference(added_keys.union(removed_keys)):
-            if item_index[key].get('_changed'):
-                item_index[key]['_changed'] = False
+            if item_index[key].pop('_changed', False):
                 removed_keys.add(key)
                 added_keys.add(key)
 
-- 
2.43.0


From 5d84c853dc3e52efafaaec888aba31e0cb3a2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 29/63] fix: inspect again after a reconnection during a state
 callback

If the connection was lost and re-established while a state callback was busy
the state loop did not notice, and declared the old model to be in sync.
---
 katcp/inspecting_client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 1930590..e533d30 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -417,6 +417,7 @@ class InspectingClientAsync(object):
                 if self.initial_inspection:
                     if not is_connected():
                         continue
+                    self._interface_changed.clear()
                     model_changes = yield self.inspect()
                     model_changed = bool(model_changes)
                     self._logger.debug('{}: Sending data-synced state'
@@ -452,7 +453,6 @@ class InspectingClientAsync(object):
                 self._logger.debug('in _state_loop: interface_changed=%s,'
                         ' is_connected=%s', self._interface_changed.is_set(),
                         self._disconnected.is_set())
-                self._interface_changed.clear()
                 continue
                 # Next loop through should cause re-inspection and handle state updates
             except SyncError as e:
@@ -983,6 +983,9 @@ class InspectingClientAsync(object):
         else:
             self._connected.clear()
             self._disconnected.set()
+            # Whatever is there after reconnecting needs to be inspected, also if
+            # the connection is back before _state_loop() looks.
+            self._interface_changed.set()
 
     def _cb_inform_sensor_status(self, msg):
         """Update received for an sensor."""
-- 
2.43.0


From 8e8c33e692936411b966e741eead307e3965f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 30/63] fix: a failing state callback does not end the state
 loop

An exception raised by the callback for the first state of a cycle ended the
state loop for good.
---
 katcp/inspecting_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index e533d30..1258efa 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -401,9 +401,9 @@ class InspectingClientAsync(object):
         while self._running:
             self._logger.debug('{}: Sending initial state'
                                .format(self.bind_address_string))
-            yield self._send_state(connected=is_connected(), synced=False,
-                                   model_changed=False, data_synced=False)
             try:
+                yield self._send_state(connected=is_connected(), synced=False,
+                                       model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
-- 
2.43.0


From 03bebfaea3c0001378666e13b8b4adfb1823ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 31/63] fix: start over with the resync delay after a
 successful sync

The else branch was never reached, so that the delay only ever grew.
---
 katcp/inspecting_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 1258efa..b3bf9c9 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -448,6 +448,7 @@ class InspectingClientAsync(object):
                         'Succesfully resynced with {} after failure'
                         .format(self.bind_address_string))
                     last_sync_failed = False
+                self.resync_delay.success()
                 yield until_any(self._interface_changed.until_set(),
                                 self._disconnected.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
@@ -480,8 +481,6 @@ class InspectingClientAsync(object):
                 self.katcp_client.disconnect()
                 yield katcp.core.until_later(retry_wait_time)
                 continue
-            else:
-                self.resync_delay.success()
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From 7400ebde568a68d8f7ad14e52c5e6cae8b076bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 32/63] fix: only one state loop after restarting the
 inspecting client

A state loop that was still waiting for a connection or for a retry when the
client was stopped carried on if the client was started again.
---
 katcp/inspecting_client.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index b3bf9c9..7df6264 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -228,6 +228,9 @@ class InspectingClientAsync(object):
         self._update_on_lookup = True
         self._cb_register = {}  # Register to hold the possible callbacks.
         self._running = False
+        # Incremented with every start, such that a _state_loop() that is still busy
+        # winding down can see that it has been succeeded
+        self._run_count = 0
 
         # Setup KATCP device.
         self.katcp_client = self.inform_hook_client_factory(
@@ -386,6 +389,7 @@ class InspectingClientAsync(object):
         self._logger.debug('Katcp client connected')
 
         self._running = True
+        self._run_count += 1
         self._state_loop()
 
     @katcp.core.log_coroutine_exceptions
@@ -398,13 +402,20 @@ class InspectingClientAsync(object):
 
         is_connected = self.katcp_client.is_connected
         last_sync_failed = False
-        while self._running:
+        run_count = self._run_count
+
+        def succeeded():
+            return self._run_count != run_count
+
+        while self._running and not succeeded():
             self._logger.debug('{}: Sending initial state'
                                .format(self.bind_address_string))
             try:
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
+                if succeeded():
+                    return
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=is_connected(), synced=False,
@@ -481,6 +492,8 @@ class InspectingClientAsync(object):
                 self.katcp_client.disconnect()
                 yield katcp.core.until_later(retry_wait_time)
                 continue
+        if succeeded():
+            return
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From 6a05655b9f06336e1df68a7ae13554257291d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 33/63] fix: refuse to start a managed ioloop twice

Thread.isAlive() is gone since Python 3.9, and the AttributeError was ignored, so
that a second thread was started for the same ioloop, after which it could not be
stopped any more.
---
 katcp/ioloop_manager.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 8f87cdc..78e87c2 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -90,12 +90,9 @@ class IOLoopManager(object):
         with self._start_lock:
             t = threading.Thread(target=run_ioloop)
             t.setDaemon(self._daemonize)
-            try:
-                if self._ioloop_thread.isAlive():
-                    raise RuntimeError('Seems that managed ioloop has already been '
-                                       'started, can only restart after stop()')
-            except AttributeError:
-                pass
+            if self._ioloop_thread and self._ioloop_thread.is_alive():
+                raise RuntimeError('Seems that managed ioloop has already been '
+                                   'started, can only restart after stop()')
             self._ioloop_thread = t
             self._ioloop_thread.start()
 
-- 
2.43.0


From 04ef70047d335b04a57e622dcd399f45ba0f8d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 34/63] fix: the future of stop() is always resolved

It never was if the ioloop had been stopped already, or was stopped by somebody
else before it got around to the callback; and stop() raised RuntimeError if the
ioloop was just being closed.
---
 katcp/ioloop_manager.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 78e87c2..026d8e3 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -46,6 +46,10 @@ class IOLoopManager(object):
         # Event that indicates that the ioloop is running.
         self._running = threading.Event()
         self._start_lock = threading.Lock()
+        # Futures of stop() that have not been resolved yet, to be resolved when the
+        # managed ioloop ends before it gets around to running their callbacks.
+        self._stop_lock = threading.Lock()
+        self._stopped_futures = []
         self._daemonize = False
 
     @property
@@ -81,9 +85,15 @@ class IOLoopManager(object):
                 self._logger.error('Error running tornado IOloop: ',
                                    exc_info=True)
             finally:
-                ioloop = self._ioloop
-                self._ioloop = None
+                with self._stop_lock:
+                    ioloop = self._ioloop
+                    self._ioloop = None
+                    stopped_futures = self._stopped_futures
+                    self._stopped_futures = []
                 self._running.clear()
+                for f in stopped_futures:
+                    if not f.done():
+                        f.set_result(None)
                 self._logger.info('Managed tornado IOloop {0} stopped'
                                   .format(ioloop))
 
@@ -135,7 +145,8 @@ class IOLoopManager(object):
         Returns
         -------
         stopped : thread-safe Future
-            Resolves when the callback() is done
+            Resolves when the callback() is done, or when there is no ioloop (any
+            more) to call it in.
 
         """
         if timeout:
@@ -158,12 +169,20 @@ class IOLoopManager(object):
                 self._ioloop.stop()
             self._running.clear()
 
-        try:
-            self._ioloop.add_callback(
-                lambda: gen.chain_future(_stop(), stopped_future))
-        except AttributeError:
-            # Probably we have been shut-down already
-            pass
+        with self._stop_lock:
+            ioloop = self._ioloop
+            if ioloop and self._ioloop_managed:
+                self._stopped_futures.append(stopped_future)
+        if ioloop:
+            try:
+                ioloop.add_callback(
+                    lambda: gen.chain_future(_stop(), stopped_future))
+            except RuntimeError:
+                # The ioloop is closing, run_ioloop() will resolve the future
+                pass
+        else:
+            # We have been shut-down already
+            stopped_future.set_result(None)
 
         return stopped_future
 
-- 
2.43.0


From cd9ee5c81b7e37f87f9bc9758af99f5d89e56c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 35/63] fix: leave nothing behind if the port of a server is in
 use

start() left the thread of the ioloop running, so that the server could not be
started again when the port was free.
---
 katcp/server.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index ef4ce6a..3982d06 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -382,16 +382,22 @@ class KATCPServer(object):
         """
         if self._running.isSet():
             raise RuntimeError('Server already started')
+        # Make sure that we have the port before anything else is started
+        server_sock = self._bind_socket(self._bindaddr)
+        try:
+            # Make sure we have an ioloop
+            self.ioloop = self._ioloop_manager.get_ioloop()
+            self._ioloop_manager.start()
+        except Exception:
+            server_sock.close()
+            raise
         self._stopped.clear()
-        # Make sure we have an ioloop
-        self.ioloop = self._ioloop_manager.get_ioloop()
-        self._ioloop_manager.start()
         # Set max_buffer_size to ensure streams are closed
         # if too-large messages are received
         self._tcp_server = tornado.tcpserver.TCPServer(
             self.ioloop, max_buffer_size=self.MAX_MSG_SIZE)
         self._tcp_server.handle_stream = self._handle_stream
-        self._server_sock = self._bind_socket(self._bindaddr)
+        self._server_sock = server_sock
         self._bindaddr = self._server_sock.getsockname()
 
         self.ioloop.add_callback(self._install)
@@ -452,6 +458,7 @@ class KATCPServer(object):
             sock.bind(bindaddr)
         except Exception:
             self._logger.exception("Unable to bind to %s" % str(bindaddr))
+            sock.close()
             raise
         sock.listen(self.BACKLOG)
         return sock
-- 
2.43.0


From bed23ef3a44f5c10916349c11368e8f6ea22813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 36/63] fix: a client that is disconnected twice still gets its
 #disconnect

The second disconnection (e.g. by stop()) closed the connection before what the
first one had sent was flushed.
---
 katcp/server.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 3982d06..65f2044 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -500,6 +500,8 @@ class KATCPServer(object):
             # Flag to indicate that no more write should be accepted so that
             # we can flush the write buffer when closing a connection
             stream.KATCPServer_closing = False
+            # Future of _disconnect_client(), once that has been called
+            stream.KATCPServer_disconnected = None
 
             client_conn = self.client_connection_factory(self, stream)
             self._connections[stream] = client_conn
@@ -590,9 +592,16 @@ class KATCPServer(object):
             # Return the future from _disconnect_client()
             return self._disconnect_client(stream, conn, reason)
 
-    @gen.coroutine
     def _disconnect_client(self, stream, conn, reason):
         assert get_thread_ident() == self.ioloop_thread_id
+        # If the client is being disconnected already, leave that the time it needs
+        if stream.KATCPServer_disconnected is None:
+            stream.KATCPServer_disconnected = self._do_disconnect_client(
+                stream, conn, reason)
+        return stream.KATCPServer_disconnected
+
+    @gen.coroutine
+    def _do_disconnect_client(self, stream, conn, reason):
         stream_open = not stream.closed()
         address = self.get_address(stream)
         try:
-- 
2.43.0


From 36134d47c145053e0eadcefbae20e8295ba93a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 37/63] fix: do not handle requests of the previous run after a
 restart

Requests that came in after the message handler thread had stopped stayed in its
queue, e.g. a ?halt stopped the server when it was started again.
---
 katcp/server.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 65f2044..431f977 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -858,6 +858,15 @@ class MessageHandlerThread(object):
         self._wake.set()
         return ready_future
 
+    def discard_messages(self):
+        """Forget messages that came after the thread was stopped.
+
+        Must be called before the server is started again, lest requests of the
+        previous run are handled.
+
+        """
+        self._msg_queue.clear()
+
     def run(self):
         self._running.set()
         # Set the default ioloop for anything using IOLoop.current()
@@ -1353,8 +1362,10 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
 
-        if self._handler_thread and self._handler_thread.isAlive():
-            raise RuntimeError('Message handler thread already started')
+        if self._handler_thread:
+            if self._handler_thread.isAlive():
+                raise RuntimeError('Message handler thread already started')
+            self._handler_thread.discard_messages()
         self._server.start(timeout)
         self.ioloop = self._server.ioloop
         if self._handler_thread:
-- 
2.43.0


From faa56bde23bb1dcb794a76c7fcace032b68d38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:31 +0000
Subject: [PATCH 38/63] fix: stopping a client that was never started raises
 RuntimeError

as documented, rather than AttributeError.
---
 katcp/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 4e17523..3c4aa9a 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1541,8 +1541,10 @@ class AsyncClient(DeviceClient):
                                (msg.name, reason))
 
     def stop(self, *args, **kwargs):
-        self.ioloop.add_callback(self._fail_waiting_requests,
-                                 'Client stopped before reply was received')
+        # If there is no ioloop DeviceClient.stop() complains
+        if self.ioloop:
+            self.ioloop.add_callback(self._fail_waiting_requests,
+                                     'Client stopped before reply was received')
         super(AsyncClient, self).stop(*args, **kwargs)
 
     def _fail_waiting_requests(self, reason):
-- 
2.43.0


From 0292322c8b01e1ff48b1b183651571ad00933217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:08 +0000
Subject: [PATCH 39/63] fix: a sensor wait is not resolved again by the check
 of the initial reading

If an update satisfied the condition (or made it raise) before the queued check of
the initial reading ran, the future was resolved twice, which raised in the event
loop.
---
 katcp/resource.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/katcp/resource.py b/katcp/resource.py
index 1a2ee2c..a4a35f7 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -943,6 +943,10 @@ class KATCPSensor(with_metaclass(abc.ABCMeta, object)):
             # This handler is called whenever a sensor update is received
             try:
                 assert sensor is self
+                if not self.is_listener(handle_update):
+                    # The wait is over, e.g. an update satisfied the condition before
+                    # the callback that checks the initial reading could run
+                    return
                 if condition_test(reading):
                     self.unregister_listener(handle_update)
                     # Try and be idempotent if called multiple times after the
-- 
2.43.0


From 28571401159e03482f74f8ef60078d51e10a16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:08 +0000
Subject: [PATCH 40/63] fix: waiting for a sensor with a timeout of 0 does not
 wait forever

---
 katcp/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index a4a35f7..a093df2 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -963,7 +963,7 @@ class KATCPSensor(with_metaclass(abc.ABCMeta, object)):
         # Handle case where sensor is already at the desired value
         ioloop.add_callback(handle_update, self, self._reading)
 
-        if timeout:
+        if timeout is not None:
             to = ioloop.time() + timeout
             timeout_f = with_timeout(to, f)
             # Make sure we stop listening if the wait times out to prevent a
-- 
2.43.0


From 39096eda9677a3aa03af4dde9436d69d6b378550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 41/63] fix: sensors and requests found by looking them up are
 reported as added

A name that was looked up when the server already had it, but before the
next inspection, was in the index by the time of that inspection and hence
was never reported through the state callback. A KATCPClientResource then
never got that sensor, e.g. one it had checked for in order to reapply a
sampling strategy.
---
 katcp/inspecting_client.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 7df6264..0eb201d 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -224,6 +224,10 @@ class InspectingClientAsync(object):
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
+        # Names in the indexes that were found by looking them up, and that have not
+        # been reported as model changes yet.
+        self._looked_up_sensors = set()
+        self._looked_up_requests = set()
         # Set the default behaviour for update.
         self._update_on_lookup = True
         self._cb_register = {}  # Register to hold the possible callbacks.
@@ -614,6 +618,8 @@ class InspectingClientAsync(object):
         timeout_manager = future_timeout_manager(self.sync_timeout)
         sensor_index_before = copy.copy(self._sensors_index)
         request_index_before = copy.copy(self._requests_index)
+        looked_up_sensors_before = set(self._looked_up_sensors)
+        looked_up_requests_before = set(self._looked_up_requests)
         try:
             request_changes = yield self.inspect_requests(
                 timeout=timeout_manager.remaining())
@@ -624,6 +630,8 @@ class InspectingClientAsync(object):
             # fails, the other should act as if it has failed too.
             self._sensors_index = sensor_index_before
             self._requests_index = request_index_before
+            self._looked_up_sensors = looked_up_sensors_before
+            self._looked_up_requests = looked_up_requests_before
             raise
 
         model_changes = AttrDict()
@@ -701,6 +709,8 @@ class InspectingClientAsync(object):
 
         added, removed = self._difference(
             requests_old, requests_updated, name, self._requests_index)
+        self._report_looked_up(
+            added, removed, name, requests_updated, self._looked_up_requests)
         if added or removed:
             raise Return(AttrDict(added=added, removed=removed))
 
@@ -816,6 +826,9 @@ class InspectingClientAsync(object):
             if sensor_name in self._sensor_object_cache:
                 del self._sensor_object_cache[sensor_name]
 
+        self._report_looked_up(
+            added, removed, name, sensors_updated, self._looked_up_sensors)
+
         if added or removed:
             raise Return(AttrDict(added=added, removed=removed))
 
@@ -1067,6 +1080,24 @@ class InspectingClientAsync(object):
         msg = katcp.Message.request(request, *args, mid=mid)
         return self.katcp_client.future_request(msg, timeout, use_mid)
 
+    def _report_looked_up(self, added, removed, name, updated_keys, looked_up):
+        """Arrange that the next full inspection reports items found by name.
+
+        Looking up a single item adds it to the index, but nobody is told about
+        that through the state callback. Modifies `added`, `removed` and
+        `looked_up`.
+
+        This method is for use in inspect_requests and inspect_sensors only.
+
+        """
+        if name is not None:
+            looked_up.update(added.difference(removed))
+            looked_up.difference_update(removed.difference(added))
+        else:
+            added.update(looked_up.intersection(updated_keys))
+            removed.difference_update(looked_up)
+            looked_up.clear()
+
     def _difference(self, original_keys, updated_keys, name, item_index):
         """Calculate difference between the original and updated sets of keys.
 
-- 
2.43.0


From 72a284aa727e2cb14c05902575f8213b6a2552cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 42/63] fix: do not reapply a sampling strategy that was
 replaced or dropped meanwhile

---
 katcp/resource_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7c046ec..624442b 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -900,7 +900,7 @@ class KATCPClientResourceSensorsManager(object):
     def reapply_sampling_strategies(self):
         """Reapply all sensor strategies using cached values"""
         check_sensor = self._inspecting_client.future_check_sensor
-        for sensor_name, strategy in list(self._strategy_cache.items()):
+        for sensor_name in list(self._strategy_cache):
             try:
                 sensor_exists = yield check_sensor(sensor_name)
                 if not sensor_exists:
@@ -908,6 +908,11 @@ class KATCPClientResourceSensorsManager(object):
                                       .format(sensor_name))
                     continue
 
+                # The strategy may have been changed or dropped while we waited
+                strategy = self._strategy_cache.get(sensor_name)
+                if not strategy:
+                    continue
+
                 result = yield self.set_sampling_strategy(sensor_name, strategy)
             except KATCPSensorError as e:
                 self._logger.error('Error reapplying strategy for sensor {0}: {1!s}'
-- 
2.43.0


From 55604c07e21cb6cf0b9a634e729b9836bd3f8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 43/63] fix: a reappearing sensor keeps the strategy that was
 set last

A strategy set with KATCPClientResource.set_sampling_strategy() was applied again
whenever the sensor was added anew, even if it had been changed or dropped using
the sensor object since.
---
 katcp/resource_client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 624442b..2e2dfff 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -339,6 +339,10 @@ class KATCPClientResource(resource.KATCPResource):
         self.auto_reconnect = resource_spec.get('auto_reconnect', True)
         self.auto_reconnect_delay = resource_spec.get('auto_reconnect_delay', 0.5)
         self._sensor_strategy_cache = {}
+        # Sensors whose strategy was set while they were not available. Once a sensor
+        # is available its strategy is remembered by the sensor manager, since it may
+        # also be changed or dropped using the sensor object.
+        self._sensor_strategy_pending = set()
         self._sensor_listener_cache = collections.defaultdict(list)
         self._logger = logger
         self._parent = parent
@@ -513,7 +517,10 @@ class KATCPClientResource(resource.KATCPResource):
         self._logger.debug(
                 'Cached strategy {} for sensor {}'
                 .format(strategy_and_parms, sensor_name))
-        if sensor_obj:
+        if not sensor_obj:
+            self._sensor_strategy_pending.add(sensor_name)
+        else:
+            self._sensor_strategy_pending.discard(sensor_name)
             # The sensor exists, so set the strategy and continue. Log errors,
             # but don't raise anything
             try:
@@ -545,6 +552,7 @@ class KATCPClientResource(resource.KATCPResource):
         sensor_name = resource.escape_name(sensor_name)
         # drop from both the internal cache, and the sensor manager's cache
         self._sensor_strategy_cache.pop(sensor_name, None)
+        self._sensor_strategy_pending.discard(sensor_name)
         self._sensor_manager.drop_sampling_strategy(sensor_name)
 
     @tornado.gen.coroutine
@@ -703,7 +711,8 @@ class KATCPClientResource(resource.KATCPResource):
             s_name_escaped = resource.escape_name(s_name)
             self._sensor[s_name_escaped] = s_obj
             preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
-            if preset_strategy:
+            if preset_strategy and s_name_escaped in self._sensor_strategy_pending:
+                self._sensor_strategy_pending.discard(s_name_escaped)
                 self._logger.debug('Setting preset strategy for sensor {} to {!r}'
                                    .format(s_name, preset_strategy))
                 try:
-- 
2.43.0


From bb8c0d747fcc92c1b5cf60be9896deaaa2fe64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 44/63] fix: a preset sampling strategy can be dropped before
 the client is started

---
 katcp/resource_client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 2e2dfff..f276b4d 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -343,6 +343,8 @@ class KATCPClientResource(resource.KATCPResource):
         # is available its strategy is remembered by the sensor manager, since it may
         # also be changed or dropped using the sensor object.
         self._sensor_strategy_pending = set()
+        # Made by start()
+        self._sensor_manager = None
         self._sensor_listener_cache = collections.defaultdict(list)
         self._logger = logger
         self._parent = parent
@@ -553,7 +555,8 @@ class KATCPClientResource(resource.KATCPResource):
         # drop from both the internal cache, and the sensor manager's cache
         self._sensor_strategy_cache.pop(sensor_name, None)
         self._sensor_strategy_pending.discard(sensor_name)
-        self._sensor_manager.drop_sampling_strategy(sensor_name)
+        if self._sensor_manager is not None:
+            self._sensor_manager.drop_sampling_strategy(sensor_name)
 
     @tornado.gen.coroutine
     def set_sensor_listener(self, sensor_name, listener):
-- 
2.43.0


From f488a1b1f2a22eb4d00755674c936b3fe2129578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 45/63] fix: container requests and sensors are refreshed
 independently

---
 katcp/resource_client.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index f276b4d..c296e22 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1288,17 +1288,17 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_dirty:
+        if self._requests_dirty:
             self._req = self._create_attrdict_from_children('req')
-            self._children_dirty = False
+            self._requests_dirty = False
 
         return self._req
 
     @property
     def sensor(self):
-        if self._children_dirty:
+        if self._sensors_dirty:
             self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
+            self._sensors_dirty = False
 
         return self._sensor
 
@@ -1357,7 +1357,9 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._logger = logger
         self._name = resources_spec['name']
         self._description = resources_spec.get('description', '')
-        self._children_dirty = True   # Are we out of sync with the children?
+        # Are we out of sync with the children?
+        self._requests_dirty = True
+        self._sensors_dirty = True
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1536,7 +1538,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         res = self.client_resource_factory(
                 res_spec, parent=self, logger=self._logger)
         self.children[resource.escape_name(res_name)] = res;
-        self._children_dirty = True
+        self._requests_dirty = True
+        self._sensors_dirty = True
         res.set_ioloop(self.ioloop)
         res.start()
         return res
@@ -1582,21 +1585,21 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _child_add_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._requests_dirty = True
         self._dirty_groups(child)
 
     def _child_remove_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._requests_dirty = True
         self._dirty_groups(child)
 
     def _child_add_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._sensors_dirty = True
 
     def _child_remove_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._sensors_dirty = True
 
     def _dirty_groups(self, child):
         groups_spec = self._resources_spec.get('groups', {})
-- 
2.43.0


From 17591ffb4c4e28afdecb0714ae3bf5f8797559a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 46/63] fix: groups whose name or members need escaping are
 updated

---
 katcp/resource_client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index c296e22..d82e2f8 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1602,9 +1602,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._sensors_dirty = True
 
     def _dirty_groups(self, child):
-        groups_spec = self._resources_spec.get('groups', {})
-        for group_name, group in dict.items(self.groups):
-            if child.name in groups_spec[group_name]:
+        for group in dict.values(self.groups):
+            if child in group.clients:
                 group.client_updated(child)
 
     def __repr__(self):
-- 
2.43.0


From 6684ccf334393a696705cd20a759c5440b960947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 47/63] fix: container finds clients whose name needs escaping
 when setting strategies and listeners

---
 katcp/resource_client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index d82e2f8..c1a6e04 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1470,7 +1470,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1494,7 +1494,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1518,7 +1518,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sensor_listener(sensor_name, listener)
                 sensor_dict[resource_name][sensor_name] = listener
                 self._logger.debug(
-- 
2.43.0


From 642213a058eb4acb25e0dd8bb295b3fed90c9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 48/63] fix: a group request does not call dict methods of
 clients without the request

---
 katcp/resource_client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index c1a6e04..7072ff6 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1049,11 +1049,12 @@ class GroupRequest(object):
         none_future = Future()
         none_future.set_result(None)
         for client in self.group.clients:
-            request_method = getattr(client.req, self.name, None)
-            if request_method:
-                result_futures[client.name] = request_method(*args, **kwargs)
-            else:
+            try:
+                request_method = client.req[self.name]
+            except KeyError:
                 result_futures[client.name] = none_future
+            else:
+                result_futures[client.name] = request_method(*args, **kwargs)
 
         results = yield result_futures
         raise Return(GroupResults(results))
-- 
2.43.0


From 6e7444a3a0557cc2e94785976202f411a577d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 49/63] fix: adding a group leaves the existing groups alone

---
 katcp/resource_client.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7072ff6..a7ca05e 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1388,14 +1388,15 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _init_groups(self):
         group_configs = self._resources_spec.get('groups', {})
-        groups = AttrDict()
+        self._groups = AttrDict()
         for group_name, group_client_names in list(group_configs.items()):
-            group_clients = tuple(self.children[resource.escape_name(cn)]
-                                  for cn in group_client_names)
-            group = ClientGroup(group_name, group_clients)
-            groups[resource.escape_name(group_name)] = group
+            self._init_group(group_name, group_client_names)
 
-        self._groups = groups
+    def _init_group(self, group_name, group_client_names):
+        group_clients = tuple(self.children[resource.escape_name(cn)]
+                              for cn in group_client_names)
+        group = ClientGroup(group_name, group_clients)
+        self._groups[resource.escape_name(group_name)] = group
 
     def add_group(self, group_name, group_client_names):
         """Add a new :class:`ClientGroup` to container groups member.
@@ -1407,7 +1408,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         group_configs = self._resources_spec.get('groups', {})
         group_configs[group_name] = group_client_names
         self._resources_spec['groups'] = group_configs
-        self._init_groups()
+        self._init_group(group_name, group_client_names)
 
     def set_ioloop(self, ioloop=None):
         """Set the tornado ioloop to use
-- 
2.43.0


From 5ed111c5481cf0a343a3183479ebed186e785455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 50/63] fix: waiting for a missing sensor raises
 KATCPSensorError

---
 katcp/resource.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index a093df2..c0e2774 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -220,7 +220,12 @@ class KATCPResource(with_metaclass(abc.ABCMeta, object)):
 
         """
         sensor_name = escape_name(sensor_name)
-        sensor = self.sensor[sensor_name]
+        try:
+            sensor = self.sensor[sensor_name]
+        except KeyError:
+            raise KATCPSensorError(
+                'Cannot wait on sensor {0!r} that is not present in resource '
+                '{1!r}'.format(sensor_name, self.name))
         try:
             yield sensor.wait(condition_or_value, timeout)
         except tornado.gen.TimeoutError:
-- 
2.43.0


From 22b4923d0265ea0d27ea935e4e3b633274801d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 51/63] fix: enable_thread_safety skips attributes that cannot
 be read yet

---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 3c4aa9a..f3baff1 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -812,7 +812,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             except AttributeError:
                 # Subclasses may have computed attributes that don't work
                 # before they are started, so let's ignore those
-                pass
+                continue
             if not callable(meth):
                 continue
             make_threadsafe = _getattr(meth, 'make_threadsafe')
-- 
2.43.0


From 0b6cd73b961deedfdadf416ca3498460d8690b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 52/63] fix: request_check forwards the message id

---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index f3baff1..dfdf199 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1601,7 +1601,7 @@ def request_check(client, exception, *msg_parms, **kwargs):
 
     """
     timeout = kwargs.get('timeout', None)
-    req_msg = Message.request(*msg_parms)
+    req_msg = Message.request(*msg_parms, mid=kwargs.get('mid'))
     if timeout is not None:
         reply, informs = client.blocking_request(req_msg, timeout=timeout)
     else:
-- 
2.43.0


From f626de833ece2121a8be782b840cee5eeeadb9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 53/63] fix: refuse sampling periods that are not finite
 numbers

---
 katcp/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 102772d..15f577e 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -380,7 +380,7 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         period = float(params[0])
-        if period <= 0:
+        if not 0 < period < float('inf'):
             raise ValueError("The period must be a positive float in seconds. "
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
-- 
2.43.0


From 486f420a5d87f28b4df4ba0b714a0fe9f5d4feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 54/63] fix: refuse sampling thresholds that are not numbers

---
 katcp/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 15f577e..c57878a 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -342,7 +342,7 @@ class SampleDifferential(SampleStrategy):
                 raise ValueError("The diff amount must be a positive integer.")
         elif sensor._sensor_type == Sensor.FLOAT:
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive float.")
         else:
             # _sensor_type must be Sensor.TIMESTAMP
@@ -351,7 +351,7 @@ class SampleDifferential(SampleStrategy):
             # the timestamp sensor type should be in milliseconds. For now, just
             # ignore this eventuality, and fix if anyone actually needs this
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive number "
                                  "of seconds.")
         self._lastStatus = None
-- 
2.43.0


From 2ccbdac9e52284fbd7d5942eaf24651f9eca13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 55/63] fix: refuse differential-rate differences that are
 negative or not numbers

---
 katcp/sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index c57878a..319da7c 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -565,6 +565,8 @@ class SampleDifferentialRate(SampleEventRate):
         else:
             raise ValueError('The differential-rate strategy can only be '
                              'defined for integer or float sensors')
+        if not difference >= 0:
+            raise ValueError('The difference may not be negative.')
         self.difference = difference
         # Initial value that should not cause errors in _sensor_changed(),
         # but should let it return True
-- 
2.43.0


From f76b0117a3ac63e25a78fd61b815eb5c3e37baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 56/63] fix: fake clients support message ids by default

---
 katcp/fake_clients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 172be60..fe7389a 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -371,7 +371,8 @@ class FakeAsyncClient(client.AsyncClient):
         self._stream = AttrDict(error=None)
         self._connected.set()
         self.notify_connected(True)
-        self.preset_protocol_flags(ProtocolFlags(5, 0, set('IM')))
+        self.preset_protocol_flags(ProtocolFlags(
+            5, 0, [ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS]))
 
     def _disconnect(self):
         if self._stream:
-- 
2.43.0


From 4616e15055f6b141518f42d6fa164239435eb6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 57/63] fix: fake clients answer sensor-list for a single
 sensor

---
 katcp/fake_clients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index fe7389a..406d99e 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -14,6 +14,7 @@ from tornado.concurrent import Future
 from tornado.gen import Return
 
 from katcp import Sensor, client, kattypes, resource, server
+from katcp.compat import ensure_native_str
 from katcp.core import AttrDict, Message, ProtocolFlags, convert_method_name
 
 
@@ -237,7 +238,7 @@ class FakeInspectingClientManager(object):
     def request_sensor_list(self, req, msg):
         """Sensor list"""
         if msg.arguments:
-            name = (msg.arguments[0],)
+            name = ensure_native_str(msg.arguments[0])
             keys = (name, )
             if name not in self.fake_sensor_infos:
                 return ("fail", "Unknown sensor name.")
-- 
2.43.0


From b30de634f1e20bed369f5eb394443afe60048d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 58/63] fix: fake sensors accept text parameters

---
 katcp/fake_clients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 406d99e..24dffa6 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -272,7 +272,9 @@ class FakeInspectingClientManager(object):
         # Check sensor validity. parse_type() and parse_params should raise if not OK
         for s_name, s_info in sensor_infos.items():
             s_type = Sensor.parse_type(s_info[2])
-            s_params = Sensor.parse_params(s_type, s_info[3:])
+            # Parameters as they would be on the wire
+            s_params = Sensor.parse_params(
+                s_type, Message.inform('sensor-list', *s_info[3:]).arguments)
         self.fake_sensor_infos.update(sensor_infos)
         self._fic._interface_changed.set()
 
-- 
2.43.0


From 01b392cd90bd2ce864bfc1abfa4856d89192a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 59/63] fix: errors of fake request handlers give a fail reply

---
 katcp/fake_clients.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index 24dffa6..cb182a7 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -5,6 +5,8 @@ from __future__ import absolute_import, division, print_function
 from future import standard_library
 standard_library.install_aliases()  # noqa: E402
 
+import traceback
+
 from builtins import object
 
 import tornado.concurrent
@@ -15,7 +17,8 @@ from tornado.gen import Return
 
 from katcp import Sensor, client, kattypes, resource, server
 from katcp.compat import ensure_native_str
-from katcp.core import AttrDict, Message, ProtocolFlags, convert_method_name
+from katcp.core import (AttrDict, FailReply, Message, ProtocolFlags,
+                        convert_method_name)
 
 
 def fake_KATCP_client_resource_factory(
@@ -410,8 +413,14 @@ class FakeAsyncClient(client.AsyncClient):
 
         if msg.name in self.request_handlers:
             req = FakeClientRequestConnection(self.client_connection, msg)
-            reply_msg = yield tornado.gen.maybe_future(
-                self.request_handlers[msg.name](req, msg))
+            try:
+                reply_msg = yield tornado.gen.maybe_future(
+                    self.request_handlers[msg.name](req, msg))
+            except FailReply as e:
+                reply_msg = Message.reply(msg.name, 'fail', str(e))
+            except Exception:
+                reply_msg = Message.reply(
+                    msg.name, 'fail', traceback.format_exc())
             reply_informs = req.informs_sent
         else:
             reply_msg = Message.reply(msg.name, 'ok')
-- 
2.43.0


From 28fa77018ffa54985eb9e1c59a8f6ac6dca69ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 60/63] fix: fake replies have the message id of the request

---
 katcp/fake_clients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/fake_clients.py b/katcp/fake_clients.py
index cb182a7..a2c17c9 100644
--- a/katcp/fake_clients.py
+++ b/katcp/fake_clients.py
@@ -409,7 +409,7 @@ class FakeAsyncClient(client.AsyncClient):
             A list of the inform messages received.
 
         """
-        mid = self._get_mid_and_update_msg(msg, use_mid)
+        self._get_mid_and_update_msg(msg, use_mid)
 
         if msg.name in self.request_handlers:
             req = FakeClientRequestConnection(self.client_connection, msg)
@@ -426,5 +426,5 @@ class FakeAsyncClient(client.AsyncClient):
             reply_msg = Message.reply(msg.name, 'ok')
             reply_informs = []
 
-        reply_msg.mid = mid
+        reply_msg.mid = msg.mid
         raise Return((reply_msg, reply_informs))
-- 
2.43.0


From cc24484c5f691b67e32c0212d30ceeb393779b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 61/63] fix: a message name followed by a newline is a syntax
 error like any other bad name

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 4258bea..054cb3e 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -546,7 +546,7 @@ class MessageParser(object):
 
     ## @brief Regular expression matching name and ID
     NAME_RE = re.compile(
-        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?$")
+        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?\Z")
 
     def _unescape_match(self, match):
         """Given an re.Match, unescape the escape code it represents."""
-- 
2.43.0


From 814be3d57204a62338dca58f0396f82604dd1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 62/63] fix: differential strategies report a change to or from
 NaN

---
 katcp/sampling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 319da7c..17ea534 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -360,8 +360,10 @@ class SampleDifferential(SampleStrategy):
     @update_in_ioloop
     def update(self, sensor, reading):
         _timestamp, status, value = reading
+        # Formulated such that a change to or from NaN counts as a difference
         if (status != self._lastStatus or
-                abs(value - self._lastValue) > self._threshold):
+                (value != self._lastValue and
+                 not abs(value - self._lastValue) <= self._threshold)):
             self._lastStatus = status
             self._lastValue = value
             self.inform(reading)
@@ -578,4 +580,6 @@ class SampleDifferentialRate(SampleEventRate):
     def _sensor_changed(self, reading):
         _, status, value = reading
         _, last_s, last_v = self._last_reading_sent
-        return (abs(value - last_v) > self.difference or status != last_s)
+        # Formulated such that a change to or from NaN counts as a difference
+        return ((value != last_v and not abs(value - last_v) <= self.difference)
+                or status != last_s)
-- 
2.43.0


From fad25def0b5789908bdfee5e8d9afd67479b395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:20 +0000
Subject: [PATCH 63/63] fix: requests refused because the message queue is full
 are answered

---
 katcp/server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 431f977..04a8150 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -851,8 +851,13 @@ class MessageHandlerThread(object):
             # This should never happen if callers to handle_message wait
             # for its futures to resolve before sending another message.
             # NM 2014-10-06: Except when there are multiple clients. Oops.
-            raise RuntimeError('MessageHandlerThread unhandled '
-                               'message queue full, not handling message')
+            err_msg = ('MessageHandlerThread unhandled '
+                       'message queue full, not handling message')
+            if msg.mtype == Message.REQUEST:
+                # The client is still owed a reply
+                client_conn.reply(
+                    Message.reply_to_request(msg, 'fail', err_msg), msg)
+            raise RuntimeError(err_msg)
         ready_future = Future()
         self._msg_queue.append((ready_future, client_conn, msg))
         self._wake.set()
-- 
2.43.0

