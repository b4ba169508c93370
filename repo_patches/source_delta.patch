From 32e64978b704377b66984df0d879ea43f4a2556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 01/27] fix: treat '!' as a special character in filters, as
 the grammar does

An escaped '!' was rejected, and a key starting with '!' could not be
expressed: escape() left it alone, and the parser took it for the
not operator.
---
 paf/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/filter.py b/paf/filter.py
index 22ae626..1e89f3f 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -16,7 +16,8 @@ GREATER_THAN = '>'
 LESS_THAN = '<'
 
 SPECIALS = {
-    BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
+    BEGIN_EXPR, END_EXPR, ANY, ESCAPE, NOT, AND, OR, EQUAL, GREATER_THAN,
+    LESS_THAN
 }
 
 
-- 
2.43.0


From 236f8c53be55b9a96c7a2a6014b87ca455789b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 02/27] fix: make substring filters match any property value

An integer value raised a TypeError (terminating the server), a value
with a newline never matched a wildcard, and a final string matched
even with a newline after it.
---
 paf/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 1e89f3f..eaee3ca 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -326,13 +326,13 @@ class Substring(Filter):
 
         pattern += "$"
 
-        self.substring_re = re.compile(pattern)
+        self.substring_re = re.compile(pattern, re.DOTALL)
 
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.search(value) is not None:
+                if self.substring_re.fullmatch(str(value)) is not None:
                     return True
         return False
 
-- 
2.43.0


From a3e1bd831f88648238caa86c06b4279a8a1a45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 03/27] fix: reject a too deeply nested filter as a syntax
 error

The RecursionError was not handled by any caller, and terminated the
server.
---
 paf/filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/filter.py b/paf/filter.py
index eaee3ca..0573351 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -219,7 +219,10 @@ def parse(filter_s):
 
     state.expect(BEGIN_EXPR)
 
-    filter = _parse(state)
+    try:
+        filter = _parse(state)
+    except RecursionError:
+        raise ParseError(state, "Expression too deeply nested")
 
     state.expect(END_EXPR)
 
-- 
2.43.0


From ac3e338983e26eed9bffbe9b36fab94d4ac3acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 04/27] fix: make equal composite filters compare equal

Unlike the other filter classes, 'and' and 'or' filters were compared by
identity.
---
 paf/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/filter.py b/paf/filter.py
index 0573351..62bd7a7 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -364,7 +364,7 @@ class Not(Filter):
         return "%s%s%s%s" % (BEGIN_EXPR, NOT, str(self.operand), END_EXPR)
 
 
-class CompositeFilter:
+class CompositeFilter(Filter):
     def __init__(self, *operands):
         self.operands = operands
         assert len(operands) >= 2
-- 
2.43.0


From 756a4e45936a7bb7d8b6698b9f0be0a57ce211b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 05/27] fix: reject wire messages with a non-string value in a
 string field

A non-string filter, track type, command or message type caused
TypeErrors, which terminated the server.
---
 paf/proto.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index eca5883..a71e58a 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -56,7 +56,14 @@ class Field:
 
 
 class StringField(Field):
-    pass
+    def pull(self, value, opt=False):
+        value = Field.pull(self, value, opt=opt)
+        if value is None:
+            return None
+        if not isinstance(value, str):
+            raise ProtocolError("Message field %s is not a string" %
+                                self.name)
+        return value
 
 
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
-- 
2.43.0


From 096c93a23d47f8b2606b98a6f74f0c56e4799fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 06/27] fix: reject wire messages that are not JSON objects, or
 too deeply nested

Such messages caused an AttributeError or a RecursionError, which
terminated the server.
---
 paf/proto.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index a71e58a..d4b465f 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -374,6 +374,9 @@ class Message:
         try:
             in_msg = json.loads(in_wire_msg.decode('utf-8'))
 
+            if not isinstance(in_msg, dict):
+                raise ProtocolError("Incoming message is not a JSON object")
+
             cmd = FIELD_TA_CMD.pull(in_msg)
             ta_id = FIELD_TA_ID.pull(in_msg)
             msg_type = FIELD_MSG_TYPE.pull(in_msg)
@@ -403,7 +406,7 @@ class Message:
 
             return Message(ta_type, ta_id, msg_type, args, optargs)
 
-        except ValueError:
+        except (ValueError, RecursionError):
             raise ProtocolError("Error JSON decoding incoming message")
 
     def __init__(self, ta_type, ta_id, msg_type, args, optargs):
-- 
2.43.0


From d51f4a2edd3765b46c3bef0de68bd65cd2bde27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 07/27] fix: don't take JSON booleans in wire messages for
 integers

---
 paf/proto.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index d4b465f..ec11745 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -74,7 +74,7 @@ class NonNegativeIntField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, int):
+        if not isinstance(value, int) or isinstance(value, bool):
             raise ProtocolError("Message field %s is not an integer" %
                                 self.name)
         if value < 0:
@@ -92,7 +92,7 @@ class NonNegativeNumberField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, (int, float)):
+        if not isinstance(value, (int, float)) or isinstance(value, bool):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
         if value < 0:
@@ -119,7 +119,8 @@ class PropsField(Field):
             if not isinstance(values, list):
                 raise ProtocolError("Service property value is not a list")
             for value in values:
-                if not isinstance(value, (str, int)):
+                if not isinstance(value, (str, int)) or \
+                   isinstance(value, bool):
                     raise ProtocolError("Service property value is neither "
                                         "string nor integer")
                 props[key].add(value)
-- 
2.43.0


From 5909bacd8ec8947531bea6542d090338c52e3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 08/27] fix: reject a negative infinity in a wire message
 number field

Formatting the error message caused an OverflowError, which terminated
the server.
---
 paf/proto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index ec11745..50e3d45 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -97,7 +97,7 @@ class NonNegativeNumberField(Field):
                                 self.name)
         if value < 0:
             raise ProtocolError("Message field %s has a negative "
-                                "value %d" % (self.name, value))
+                                "value %s" % (self.name, value))
         return value
 
 
-- 
2.43.0


From 72e33d9f87aea3de9fda7f35bccea7ed9d7aec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 09/27] fix: answer an attempt to change client id instead of
 crashing

A misspelled fail reason caused an AttributeError, which terminated the
server.
---
 paf/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index 0f85993..95b4d55 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -320,7 +320,7 @@ class Connection:
         elif self.client_id != client_id:
             self.warning("Attempt to change client id denied.",
                          LogCategory.SECURITY)
-            yield ta.fail(fail_reason=proto.FAIL_PERMISSION_DENIED)
+            yield ta.fail(fail_reason=proto.FAIL_REASON_PERMISSION_DENIED)
             return
         elif self.handshaked:
             self.debug("Received hello from client with handshake "
-- 
2.43.0


From 053497dffc4c206e4ed5fcfb81c74000d7de3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 10/27] fix: drop clients sending bad track informs instead of
 crashing

The ProtocolError was constructed with the wrong number of arguments,
and the TypeError terminated the server.
---
 paf/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 95b4d55..d2d2609 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -421,16 +421,15 @@ class Connection:
         elif track_type == proto.TRACK_TYPE_REPLY:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
-                                    "track transaction %d", track_type,
-                                    ta.ta_id)
+                                    "track transaction %d" % ta.ta_id)
             self.track_latency = time.time() - self.track_query_ts
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
         else:
             raise ProtocolError("Received unknown track type \"%s\" in "
-                                "track transaction %d", track_type,
-                                ta.ta_id)
+                                "track transaction %d" % (track_type,
+                                                          ta.ta_id))
 
     def subscribe_request(self, ta, sub_id, filter=None):
         try:
-- 
2.43.0


From 4b900c2876a8f9ec21ec411ab2f0bbc3ad259ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 11/27] fix: drop clients sending messages foreign to a
 transaction

An inform in anything but a track transaction, or a message with the id
of an ongoing transaction but another command, caused an AttributeError
or AssertionError, which terminated the server.
---
 paf/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paf/server.py b/paf/server.py
index d2d2609..a679353 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -46,6 +46,11 @@ class Transaction:
             raise ProtocolError("Message received in transaction %d is not "
                                 "of a client-generated type" % self.ta_id)
 
+        if in_msg.cmd() != self.ta_type.cmd:
+            raise ProtocolError("Received \"%s\" message in \"%s\" "
+                                "transaction %d" %
+                                (in_msg.cmd(), self.ta_type.cmd, self.ta_id))
+
         if in_msg.is_request():
             self.request(in_msg)
         else:
@@ -62,6 +67,10 @@ class Transaction:
         self.state = TransactionState.REQUESTED
 
     def inform(self, in_msg):
+        if not self.is_two_way():
+            raise ProtocolError("Inform message received in transaction %d, "
+                                "which is not two-way" % self.ta_id)
+
         if self.state == TransactionState.IDLE:
             raise ProtocolError("Inform message precedes request in "
                                 "transaction %d" % self.ta_id)
-- 
2.43.0


From ef9c1687b35df9869241e4448946b1d753a233c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 12/27] fix: move a republished orphan to the owner's new
 connection

The service stayed with the owner's old, dead connection, and was thus
not orphaned (and never removed) when the owner disconnected again.
---
 paf/sd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/sd.py b/paf/sd.py
index 160b393..7d0bf23 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -595,11 +595,13 @@ class Client:
                         change.client_id = self.client_id
                 elif service.is_orphan():
                     # previous owner is back
+                    self.capture_service(service)
+
                     with service.modify() as change:
                         change.orphan_since = None
 
             elif generation > service.generation():
-                if self.client_id != service.client_id():
+                if not self.active_connection.has_service(service_id):
                     self.capture_service(service)
 
                 with service.modify() as change:
-- 
2.43.0


From bfad984b048a22db3d6665807f3bcaf42fa275ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 13/27] fix: don't leak client when its last orphan is captured

The disconnected client and its connection were kept forever, and the
client id remained bound to the user.
---
 paf/sd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/paf/sd.py b/paf/sd.py
index 7d0bf23..42465e4 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -688,6 +688,13 @@ class Client:
         victim_connection = \
             victim_client.get_service_connection(service)
         victim_connection.remove_service(service)
+
+        if victim_connection.is_stale():
+            victim_client.remove_connection(victim_connection)
+
+        if victim_client.is_stale():
+            self.db.remove_client(victim_client)
+
         self.active_connection.add_service(service)
 
     def remove_service(self, service):
-- 
2.43.0


From 1672e67ec527bb09e2a893d5fa5980d9bb368f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 14/27] fix: don't leave an empty resource consumer behind on
 failure

---
 paf/sd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paf/sd.py b/paf/sd.py
index 42465e4..e39f459 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -117,10 +117,11 @@ class ResourceManager:
 
     def allocate(self, user_id, resource_type):
         self.check_total(resource_type)
-        if user_id not in self.consumers:
-            self.consumers[user_id] = \
-                Consumer(user_id, self.max_user_resources)
-        self.consumers[user_id].allocate(resource_type)
+        consumer = self.consumers.get(user_id)
+        if consumer is None:
+            consumer = Consumer(user_id, self.max_user_resources)
+        consumer.allocate(resource_type)
+        self.consumers[user_id] = consumer
 
     def deallocate(self, user_id, resource_type):
         consumer = self.consumers[user_id]
-- 
2.43.0


From 5ad1d8de9a3bdf8b20cf423116e3c0e7d4ad5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 15/27] fix: make it possible to clear a resource limit

clear_limit() always failed with a TypeError, so 'pafd -c 0' did not
start.
---
 paf/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index dcbc308..21f4151 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -136,6 +136,9 @@ class ResourcesClassConf:
     def set_limit(self, name, value):
         if not isinstance(value, int) or value < 0:
             raise FormatError("resource limit", value)
+        self._set(name, value)
+
+    def _set(self, name, value):
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
         elif name == "services":
@@ -146,7 +149,7 @@ class ResourcesClassConf:
             raise FormatError("resource type", name)
 
     def clear_limit(self, name):
-        self.set_limit(self, name, None)
+        self._set(name, None)
 
     def get_client_limit(self):
         return self.resources[sd.ResourceType.CLIENT]
-- 
2.43.0


From 744e5a0cee92268273d6ed494d6e996e0b614aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 16/27] fix: report ill-typed and out-of-range configuration as
 such

Non-dictionary 'protocol_version', 'idle' and 'tls', a non-string socket
address and an invalid idle range made the server exit with a traceback
(or start, and fail later), instead of a configuration error.
---
 paf/conf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 21f4151..235fbdc 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -369,6 +369,7 @@ def domains_populate(conf, domains, path):
         version = domain.get("protocol_version")
         if version is not None:
             version_path = "%s.protocol_version" % domain_path
+            assure_type(version, dict, version_path)
 
             version_min = dict_lookup(version, "min", int, version_path,
                                       default=version_min, required=False)
@@ -388,6 +389,7 @@ def domains_populate(conf, domains, path):
         idle = domain.get("idle")
         if idle is not None:
             idle_path = "%s.idle" % domain_path
+            assure_type(idle, dict, idle_path)
 
             idle_min = dict_lookup(idle, "min", int, idle_path,
                                    default=DEFAULT_IDLE_MIN, required=False)
@@ -398,7 +400,10 @@ def domains_populate(conf, domains, path):
             idle_max = dict_lookup(idle, "max", int, idle_path,
                                    default=DEFAULT_IDLE_MAX, required=False)
 
-        idle_limit = sd.IdleLimit(idle_min, idle_max)
+        try:
+            idle_limit = sd.IdleLimit(idle_min, idle_max)
+        except ValueError as e:
+            raise Error("%s: %s" % (domain_path, e))
 
         # 'addrs' is a legacy name for 'sockets'
         sockets = dict_lookup(domain, ["sockets", "addrs"], list, domain_path,
@@ -415,10 +420,12 @@ def domains_populate(conf, domains, path):
                     raise MissingFieldError(socket_path, "addr")
 
                 addr = socket["addr"]
+                assure_type(addr, str, "%s.addr" % socket_path)
 
                 if "tls" in socket:
                     assure_tls_addr("%s.addr" % socket_path, addr)
                     tls_attrs = socket["tls"]
+                    assure_type(tls_attrs, dict, "%s.tls" % socket_path)
                 else:
                     tls_attrs = {}
 
-- 
2.43.0


From d67fbcfe76789312e700495c57876eac3f0f5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 17/27] fix: don't ignore 'max_idle_time' when 'idle' has no
 'max'

---
 paf/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 235fbdc..332cb41 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -398,7 +398,7 @@ def domains_populate(conf, domains, path):
                 raise DuplicateFieldError(domain_path, "max_idle_time")
 
             idle_max = dict_lookup(idle, "max", int, idle_path,
-                                   default=DEFAULT_IDLE_MAX, required=False)
+                                   default=idle_max, required=False)
 
         try:
             idle_limit = sd.IdleLimit(idle_min, idle_max)
-- 
2.43.0


From f560d2d867f671fb65b1f0806c24ff5b860aef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 18/27] fix: don't take booleans for integers in the
 configuration

---
 paf/conf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index 332cb41..23786bb 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -134,7 +134,8 @@ class ResourcesClassConf:
         self.resources = sd.resources(clients=max_clients)
 
     def set_limit(self, name, value):
-        if not isinstance(value, int) or value < 0:
+        if not isinstance(value, int) or isinstance(value, bool) or \
+           value < 0:
             raise FormatError("resource limit", value)
         self._set(name, value)
 
@@ -297,7 +298,8 @@ class Conf:
 
 
 def assure_type(value, value_type, path):
-    if not isinstance(value, value_type):
+    if not isinstance(value, value_type) or \
+       (value_type is int and isinstance(value, bool)):
         raise Error("parameter '%s' has invalid value type: '%s' (expected "
                     "'%s')" % (path, type(value), value_type))
 
-- 
2.43.0


From 975f217ab662d88850b892832d85bed79b3f827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 19/27] fix: raise a TransactionError for a failed client
 transaction

A failed synchronous hello or ping with a fail reason, and any failed
transaction without one, caused a TypeError.
---
 paf/client.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 5948011..09a4557 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -35,8 +35,7 @@ class TransactionError(Error):
         if reason is not None:
             message = "Protocol transaction failed: '%s'." % reason
         else:
-            message = "Protocol transaction failed for unknown reason." % \
-                reason
+            message = "Protocol transaction failed for unknown reason."
         Error.__init__(self, message)
 
 
@@ -155,10 +154,10 @@ class LatencyCall(Call):
         self.start = time.time()
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.latency = time.time() - self.start
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
@@ -187,10 +186,10 @@ class CompleteCall(Call):
     def __init__(self, conn):
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.complete = args
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
-- 
2.43.0


From 38a3440c23fdedc281cfb01296f1f8923cf2a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 20/27] fix: reject unknown and ill-typed TLS parameters in the
 configuration

---
 paf/conf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paf/conf.py b/paf/conf.py
index 23786bb..88a0873 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -350,6 +350,16 @@ def log_populate(conf, log, path):
     dict_copy(log, "filter", str, path, conf.log.set_filter)
 
 
+TLS_ATTRS = ("cert", "key", "tc", "crl")
+
+
+def assure_tls_attrs(field_name, tls_attrs):
+    for name, value in tls_attrs.items():
+        if name not in TLS_ATTRS:
+            raise FormatError("TLS parameter", name, TLS_ATTRS)
+        assure_type(value, str, path(field_name, name))
+
+
 def assure_tls_addr(field_name, addr):
     proto = addr.split(":")[0]
     if proto != "tls" and proto != "utls":
@@ -428,6 +438,7 @@ def domains_populate(conf, domains, path):
                     assure_tls_addr("%s.addr" % socket_path, addr)
                     tls_attrs = socket["tls"]
                     assure_type(tls_attrs, dict, "%s.tls" % socket_path)
+                    assure_tls_attrs("%s.tls" % socket_path, tls_attrs)
                 else:
                     tls_attrs = {}
 
-- 
2.43.0


From d3410ec54a737f3330cc107ea525f339ecc7b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 21/27] fix: match substring filters without exponential
 backtracking

---
 paf/filter.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 62bd7a7..cb0495c 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,8 +1,6 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
-import re
-
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -315,30 +313,36 @@ class Substring(Filter):
         self.intermediate = intermediate
         self.final = final
 
-        pattern = "^"
-        if initial is not None:
-            pattern += "%s.*" % re.escape(initial)
-        else:
-            pattern += ".*"
-
-        for im in intermediate:
-            pattern += "%s.*" % re.escape(im)
-
-        if final is not None:
-            pattern += re.escape(self.final)
-
-        pattern += "$"
-
-        self.substring_re = re.compile(pattern, re.DOTALL)
-
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.fullmatch(str(value)) is not None:
+                if self.compare(str(value)):
                     return True
         return False
 
+    def compare(self, value):
+        offset = 0
+
+        if self.initial is not None:
+            if not value.startswith(self.initial):
+                return False
+            offset = len(self.initial)
+
+        # Taking the first occurrence leaves as much as possible of the
+        # value to what follows, so there is never a reason to go back.
+        for im in self.intermediate:
+            offset = value.find(im, offset)
+            if offset < 0:
+                return False
+            offset += len(im)
+
+        if self.final is not None:
+            return value.endswith(self.final) and \
+                len(value) - len(self.final) >= offset
+
+        return True
+
     def __str__(self):
         s = "%s%s%s" % (BEGIN_EXPR, escape(self.key), EQUAL)
         if self.initial is not None:
-- 
2.43.0


From ad41d71307c1b585ca659efc5a6741830ae58b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 22/27] fix: don't crash on a transaction ending in a nested
 client call

A callback may make a synchronous call, during which the transaction it
was called for may be completed and removed.
---
 paf/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 09a4557..7bc38ef 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -472,7 +472,7 @@ class Client:
                                     "transaction %d" % in_msg.ta_id)
             transaction.consume_message(in_msg)
             if transaction.state == TransactionState.TERMINATED:
-                del self.transactions[in_msg.ta_id]
+                self.transactions.pop(in_msg.ta_id, None)
             return True
         except xcm.error as e:
             if e.errno == errno.EAGAIN:
-- 
2.43.0


From 07de80bab51ad07c1fea7dc99c91c69f25820125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 23/27] fix: don't deliver a failure after a transaction has
 ended

A terminated transaction remains known while the callback of its last
message runs.
---
 paf/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 7bc38ef..2780fd6 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -109,7 +109,8 @@ class Transaction:
                 proto.InteractionType.MULTI_RESPONSE))):
             event = EventType.COMPLETE
             self.state = TransactionState.TERMINATED
-        elif msg_type == proto.MSG_TYPE_FAIL:
+        elif (msg_type == proto.MSG_TYPE_FAIL and
+              self.state != TransactionState.TERMINATED):
             event = EventType.FAIL
             self.state = TransactionState.TERMINATED
         else:
-- 
2.43.0


From 3f014e8f643031f071b60a6e335a1a6c9dbd3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 24/27] fix: no send, receive or accept on a closed socket

The other operations fail an assertion if the socket has been closed. These
three passed a NULL pointer to libxcm, which ends the process.
---
 paf/xcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paf/xcm.py b/paf/xcm.py
index 258fc3d..74bf2e1 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -237,12 +237,14 @@ class ConnectionSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def send(self, msg):
         rc = xcm_send_c(self.xcm_socket, msg, len(msg))
         if rc < 0:
             _raise_io_err()
         return rc
 
+    @_assure_open
     def receive(self):
         buf = create_string_buffer(MAX_MSG)
         rc = xcm_receive_c(self.xcm_socket, byref(buf), MAX_MSG)
@@ -255,6 +257,7 @@ class ServerSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def accept(self, attrs={}):
         try:
             attr_map = _attr_map_create(attrs)
-- 
2.43.0


From 7c35536071de08c41d01739f2878b2c6a681f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 25/27] fix: accept with an attribute of an unsupported type
 raises TypeError

It raised UnboundLocalError instead, since the attribute map is freed in the
finally clause whether it was created or not.
---
 paf/xcm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 74bf2e1..7da7f93 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -259,6 +259,7 @@ class ServerSocket(Socket):
 
     @_assure_open
     def accept(self, attrs={}):
+        attr_map = None
         try:
             attr_map = _attr_map_create(attrs)
             xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
@@ -267,7 +268,8 @@ class ServerSocket(Socket):
             else:
                 _raise_io_err()
         finally:
-            xcm_attr_map_destroy_c(attr_map)
+            if attr_map is not None:
+                xcm_attr_map_destroy_c(attr_map)
 
 
 def connect(addr, flags=0, attrs={}):
-- 
2.43.0


From 3061d33937f304e2e529b37f1c130dcf0d2453a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 26/27] fix: a failure to change the blocking mode is reported

xcm_set_blocking() may fail (EAGAIN while there is unfinished work, say). The
caller was left to believe that the mode had changed.
---
 paf/xcm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 7da7f93..a13d22b 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -173,7 +173,9 @@ class Socket:
 
     @_assure_open
     def set_blocking(self, val):
-        xcm_set_blocking_c(self.xcm_socket, val)
+        rc = xcm_set_blocking_c(self.xcm_socket, val)
+        if rc < 0:
+            _raise_io_err()
 
     @_assure_open
     def is_blocking(self):
-- 
2.43.0


From cf923bddccd53f4de00018859414d021d585aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 27/27] fix: free the attribute map when an attribute is
 refused

---
 paf/xcm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index a13d22b..80971f0 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -143,8 +143,12 @@ def _attr_map_add(attr_map, attr_name, attr_value):
 
 def _attr_map_create(attrs):
     attr_map = xcm_attr_map_create_c()
-    for attr_name, attr_value in attrs.items():
-        _attr_map_add(attr_map, attr_name, attr_value)
+    try:
+        for attr_name, attr_value in attrs.items():
+            _attr_map_add(attr_map, attr_name, attr_value)
+    except Exception:
+        xcm_attr_map_destroy_c(attr_map)
+        raise
     return attr_map
 
 
-- 
2.43.0

