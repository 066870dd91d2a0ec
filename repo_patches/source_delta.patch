From 04bf7b349ebeb7ce9984bb9556c58cd70d8f8c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 01/42] fix: declare the heartbeat parts as (name, type) pairs

---
 kiel/protocol/heartbeat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kiel/protocol/heartbeat.py b/kiel/protocol/heartbeat.py
index aa8d518..edfc193 100644
--- a/kiel/protocol/heartbeat.py
+++ b/kiel/protocol/heartbeat.py
@@ -24,9 +24,9 @@ class HeartbeatRequest(Request):
     api = "heartbeat"
 
     parts = (
-        "group_id", String,
-        "generation_id", Int32,
-        "member_id", String,
+        ("group_id", String),
+        ("generation_id", Int32),
+        ("member_id", String),
     )
 
 
@@ -40,5 +40,5 @@ class HeartbeatResponse(Response):
     api = "heartbeat"
 
     parts = (
-        "error_code", Int16
+        ("error_code", Int16),
     )
-- 
2.43.0


From 7b635cf25e54e3d8811ee14e5389e2a9e30ad384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 02/42] fix: partitions of a v1 offset commit are an array

---
 kiel/protocol/offset_commit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/offset_commit.py b/kiel/protocol/offset_commit.py
index e611f15..5f7ff8a 100644
--- a/kiel/protocol/offset_commit.py
+++ b/kiel/protocol/offset_commit.py
@@ -78,7 +78,7 @@ class TopicV1Request(Part):
     """
     parts = (
         ("name", String),
-        ("partitions", PartitionV1Request),
+        ("partitions", Array.of(PartitionV1Request)),
     )
 
 
-- 
2.43.0


From a049a2d2c5c11e6bf4729aa78ce2fb59b2313e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 03/42] fix: keep correlation ids within an Int32

---
 kiel/protocol/request.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/protocol/request.py b/kiel/protocol/request.py
index 7980488..4e3de92 100644
--- a/kiel/protocol/request.py
+++ b/kiel/protocol/request.py
@@ -29,7 +29,8 @@ def generate_correlation_id():
     """
     global last_id
 
-    last_id += 1
+    # correlation IDs are sent as an Int32
+    last_id = (last_id + 1) & 0x7fffffff
 
     return last_id
 
-- 
2.43.0


From 507506d5e6156bfdced4b60061fa65da098122c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 04/42] fix: a message whose CRC is exactly 2**31 is negative
 as an Int32

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..f13162b 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -174,7 +174,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From 11cf25f2ecb3e50c0a5bb9df84a5b19738a53c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 05/42] fix: decompress the last snappy blocks however short
 they are

---
 kiel/compression/snappy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..0021426 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,10 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < len(data):
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From e73312b4720a673e22f87ce1d259764b1f690eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 06/42] fix: only the lowest attribute bits denote compression

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index f13162b..2004d07 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -135,7 +135,7 @@ class MessageSet(object):
                 # ending messages can sometimes be cut off
                 break
 
-            if message.attributes:  # compression involved, set is nested
+            if message.attributes & 0b00000011:  # compressed, set is nested
                 set_size = len(message.value)
                 nested_set, _ = cls.parse(message.value, 0, size=set_size)
                 messages.extend(nested_set.messages)
-- 
2.43.0


From 1da846497eb149a7354858e039ac9aeb3662e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 07/42] fix: a cut off message set ends where its size says

---
 kiel/protocol/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 2004d07..2984322 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -124,9 +124,10 @@ class MessageSet(object):
             size, offset = Int32.parse(buff, offset)
 
         end = offset + size
+        buff = buff[:end]  # whatever follows is not part of the set
 
         messages = []
-        while not offset == end:
+        while offset < end:
             try:
                 message_offset, offset = Int64.parse(buff, offset)
                 _, offset = Int32.parse(buff, offset)  # message size
@@ -142,7 +143,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From 6b410364d56cf41020e102148da1282f45301d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:37 +0000
Subject: [PATCH 08/42] fix: reject arrays with a negative element count

---
 kiel/protocol/primitives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kiel/protocol/primitives.py b/kiel/protocol/primitives.py
index 8fc9855..43491f5 100644
--- a/kiel/protocol/primitives.py
+++ b/kiel/protocol/primitives.py
@@ -217,6 +217,8 @@ class Array(Primitive):
         parsing items out of the buffer "count" times.
         """
         count, offset = Int32.parse(buff, offset)
+        if count < -1:
+            raise struct.error("invalid array element count: %d" % count)
 
         values = []
         for _ in range(count):
-- 
2.43.0


From 653cf3f6849b5d182bd615640935fb81dcdccfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:37 +0000
Subject: [PATCH 09/42] fix: end every pending request when a connection dies

---
 kiel/connection.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..d07b881 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -77,22 +77,26 @@ class Connection(object):
         """
         Sets the ``closing`` attribute to ``True`` and calls ``close()`` on the
         underlying stream.
+
+        Requests that are still pending will never be answered, so they end
+        with a ``BrokerConnectionError``.
         """
         self.closing = True
         self.stream.close()
+        self.fail_pending(BrokerConnectionError(self.host, self.port))
 
     @contextlib.contextmanager
     def socket_error_handling(self, failure_message):
         """
         helper contextmanager for handling errors during IOStream operations.
 
-        Handles the StreamClosedError case by setting the ``closing`` flag,
-        logs any unexpected exceptions with a failure message.
+        Aborts the connection on any error, logs the unexpected ones (i.e.
+        anything but a StreamClosedError) with a failure message.
         """
         try:
             yield
         except iostream.StreamClosedError:
-            self.closing = True
+            self.abort()
         except Exception:
             if not self.closing:
                 log.exception(failure_message)
@@ -155,25 +159,29 @@ class Connection(object):
         Aborts a connection and puts all pending futures into an error state.
 
         If ``sys.exc_info()`` is set (i.e. this is being called in an exception
-        handler) then pending futures will have that exc info set.  Otherwise
-        a ``BrokerConnectionError`` is used.
+        handler) then pending futures will have that exception set.  Otherwise,
+        or if the stream was merely closed, a ``BrokerConnectionError`` is used.
         """
         if self.closing:
             return
 
         log.warn("Aborting connection to %s:%s", self.host, self.port)
 
+        error = sys.exc_info()[1]
+        if error is None or isinstance(error, iostream.StreamClosedError):
+            error = BrokerConnectionError(self.host, self.port)
+
+        self.fail_pending(error)
         self.close()
+
+    def fail_pending(self, error):
+        """
+        Puts all pending futures into an error state with the given exception.
+        """
         self.api_correlation.clear()
         while self.pending:
             _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
+            pending.set_exception(error)
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From 751059613b80b0edbe6a624611b7169e783f3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 10/42] fix: try the next bootstrap host when one fails to
 answer

---
 kiel/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..89e2e5a 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -92,6 +92,7 @@ class Cluster(object):
 
             try:
                 yield conn.connect()
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
@@ -99,8 +100,6 @@ class Cluster(object):
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
             conn.close()
             break
 
-- 
2.43.0


From 42648630088deee15bb96793e060e2f97e92d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 11/42] fix: ask the next broker for metadata after any failure

---
 kiel/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 89e2e5a..9ccb5b9 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -156,7 +156,7 @@ class Cluster(object):
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
@@ -164,6 +164,11 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception(
+                    "Error gathering metadata from %s:%s", conn.host, conn.port
+                )
+                continue
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From c34155e3461137a96bd6db007ae771730117785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 12/42] fix: healing keeps topics that were not missing

---
 kiel/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 9ccb5b9..c26395e 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -120,7 +120,8 @@ class Cluster(object):
         As a first step this will cull any closing/aborted connections from the
         cluster.  This is followed by repeated calls to `process_brokers()` and
         `process_topics()` until both signal that there are no missing brokers
-        or topics.
+        or topics.  Follow-up metadata is for all topics, as each round replaces
+        what is known about them.
         """
         if not response:
             response = yield self.get_metadata()
@@ -138,7 +139,7 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
-- 
2.43.0


From 5d91b1b1897743df0cec9952019e7938478d00dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 13/42] fix: drop dead and unreported brokers from the cluster

---
 kiel/cluster.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index c26395e..7d61424 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -117,24 +117,13 @@ class Cluster(object):
         If not response argument is given, a call to `get_metatadata()` fetches
         fresh information.
 
-        As a first step this will cull any closing/aborted connections from the
-        cluster.  This is followed by repeated calls to `process_brokers()` and
-        `process_topics()` until both signal that there are no missing brokers
-        or topics.  Follow-up metadata is for all topics, as each round replaces
-        what is known about them.
+        Repeatedly calls `process_brokers()` and `process_topics()` until both
+        signal that there are no missing brokers or topics.  Follow-up metadata
+        is for all topics, as each round replaces what is known about them.
         """
         if not response:
             response = yield self.get_metadata()
 
-        broker_ids = list(self.conns.keys())
-        for broker_id in broker_ids:
-            if self.conns[broker_id].closing:
-                log.debug(
-                    "Removing %s:%s from cluster",
-                    self.conns[broker_id].host, self.conns[broker_id].port
-                )
-                self.conns.pop(broker_id)
-
         missing_conns = yield self.process_brokers(response.brokers)
         missing_topics = self.process_topics(response.topics)
 
@@ -183,9 +172,21 @@ class Cluster(object):
         metadata, returning a set of broker IDs that were in the metadata but
         had failing connections.
 
+        As a first step this will cull any closing/aborted connections from the
+        cluster.
+
         Known connections that are not present in the given metadata will have
-        ``abort()`` called on them.
+        ``abort()`` called on them and are dropped from the cluster.
         """
+        broker_ids = list(self.conns.keys())
+        for broker_id in broker_ids:
+            if self.conns[broker_id].closing:
+                log.debug(
+                    "Removing %s:%s from cluster",
+                    self.conns[broker_id].host, self.conns[broker_id].port
+                )
+                self.conns.pop(broker_id)
+
         to_drop = set(self.conns.keys()) - set([b.broker_id for b in brokers])
 
         missing = set()
@@ -215,6 +216,7 @@ class Cluster(object):
 
         for broker_id in to_drop:
             self.conns[broker_id].abort()
+            self.conns.pop(broker_id, None)
 
         raise gen.Return(missing)
 
-- 
2.43.0


From 3f9a6a2d7bbe190456e65ed5dbbe87d6cfd99601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 14/42] fix: ask again for topics whose leaders are being
 elected

---
 kiel/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 7d61424..8d64858 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -241,7 +241,9 @@ class Cluster(object):
             if topic.error_code == errors.unknown_topic_or_partition:
                 log.error("Unknown topic %s", topic.name)
                 continue
-            if topic.error_code == errors.replica_not_available:
+            if topic.error_code in (
+                    errors.leader_not_available, errors.replica_not_available
+            ):
                 missing.add(topic.name)
                 continue
 
-- 
2.43.0


From 6f3b9d97b789e587214613ba9d3ced837a4f6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 15/42] fix: keep produced messages whose request was not
 answered

---
 kiel/clients/producer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..440c824 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -135,7 +135,8 @@ class Producer(Client):
         flag denoting that a cluster ``heal()`` call is needed is set.
 
         Once the legitimate messages are ordered, instances of ProduceRequest
-        are created for each broker and sent.
+        are created for each broker and sent.  Messages of requests that fail
+        without being answered go back to ``unsent``.
         """
         if not self.unsent:
             return
@@ -187,7 +188,15 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-        yield self.send(requests)
+        try:
+            yield self.send(requests)
+        finally:
+            # whatever is left in "sent" was never answered
+            for request in requests.values():
+                unanswered = self.sent.pop(request.correlation_id, {})
+                for topic, partitions in six.iteritems(unanswered):
+                    for msgs in partitions.values():
+                        self.unsent[topic].extend(msgs)
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From f2871a8622360d13aec55d53e2595a65f7d20b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 16/42] fix: keep produced messages whose topic lost its
 partitions

---
 kiel/clients/producer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 440c824..d29f260 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -130,8 +130,9 @@ class Producer(Client):
         Transforms the ``unsent`` structure to produce requests and sends them.
 
         The first order of business is to order the pending messages in
-        ``unsent`` based on partition leader.  If a message's partition leader
-        is not a know broker, the message is queued up to be retried and the
+        ``unsent`` based on partition leader.  If a message's topic currently
+        has no partitions or the partition leader is not a known broker, the
+        message is queued up to be retried and the
         flag denoting that a cluster ``heal()`` call is needed is set.
 
         Once the legitimate messages are ordered, instances of ProduceRequest
@@ -151,6 +152,10 @@ class Producer(Client):
         to_retry = collections.defaultdict(list)
 
         for topic, msgs in drain(self.unsent):
+            if not self.cluster.topics.get(topic):
+                to_retry[topic].extend(msgs)
+                continue
+
             for msg in msgs:
                 partition = self.partitioner(
                     msg.key, self.cluster.topics[topic]
-- 
2.43.0


From a1d32645eec576653ef5a39569d8caed144ac37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 17/42] fix: handle error codes that are not in the list of
 known ones

---
 kiel/clients/consumer.py | 3 ++-
 kiel/clients/grouped.py  | 5 +++--
 kiel/clients/producer.py | 3 ++-
 kiel/clients/single.py   | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..aaf8273 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,8 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..1dca76a 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -203,7 +203,8 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,7 +277,7 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
+                        constants.ERROR_CODES.get(code, code),
                         topic, partition.partition_id
                     )
 
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index d29f260..5020271 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -231,7 +231,8 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code),
+                        topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..d73db78 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,8 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From 3ea227baa235cc91b8f64e772d4aa74c835c6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 18/42] fix: retried messages go ahead of newer ones

---
 kiel/clients/producer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 5020271..a5269c6 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -116,12 +116,13 @@ class Producer(Client):
 
     def queue_retries(self, topic, msgs):
         """
-        Re-inserts the given messages into the ``unsent`` structure.
+        Re-inserts the given messages into the ``unsent`` structure, ahead of
+        any that were produced in the meantime.
 
         This also sets the flag to denote that a cluster "heal" is necessary.
         """
         log.debug("Queueing %d messages for retry", len(msgs))
-        self.unsent[topic].extend(msgs)
+        self.unsent[topic] = msgs + self.unsent[topic]
         self.heal_cluster = True
 
     @gen.coroutine
@@ -201,7 +202,7 @@ class Producer(Client):
                 unanswered = self.sent.pop(request.correlation_id, {})
                 for topic, partitions in six.iteritems(unanswered):
                     for msgs in partitions.values():
-                        self.unsent[topic].extend(msgs)
+                        self.unsent[topic] = msgs + self.unsent[topic]
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From a1a4f7d9ee65c2ffb9f37fac50213a30e128b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 19/42] fix: a failed refresh does not lose answers already
 handled

---
 kiel/clients/client.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..552af80 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -3,7 +3,9 @@ import logging
 import six
 from tornado import gen, iostream
 
-from kiel.exc import BrokerConnectionError, UnhandledResponseError
+from kiel.exc import (
+    BrokerConnectionError, NoBrokersError, UnhandledResponseError
+)
 from kiel.cluster import Cluster
 
 
@@ -68,7 +70,8 @@ class Client(object):
 
         If an error occurs in a response, the ``heal_cluster`` flag is set
         and the ``heal()`` method on the cluster is called after processing
-        each response.
+        each response.  Should healing find no brokers at all, results are
+        still returned if there are any and healing is tried again next time.
 
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
@@ -102,7 +105,13 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
-            self.heal_cluster = False
+            try:
+                yield self.cluster.heal()
+                self.heal_cluster = False
+            except NoBrokersError:
+                # results we already have must not be lost
+                if not results:
+                    raise
+                log.warn("No brokers left, healing is put off.")
 
         raise gen.Return(results)
-- 
2.43.0


From 22c25910389846238c97a3324192db28ee3108d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 20/42] fix: never fetch partitions whose offset is not
 determined

---
 kiel/clients/consumer.py | 17 +++++-----
 kiel/clients/single.py   | 67 ++++++++++++++++++++++++++++++----------
 2 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index aaf8273..3466697 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -87,14 +87,6 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.synced_offsets:
-            try:
-                yield self.determine_offsets(topic, start)
-            except NoOffsetsError:
-                log.error("Unable to determine offsets for topic %s", topic)
-                raise gen.Return([])
-            self.synced_offsets.add(topic)
-
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
@@ -103,6 +95,14 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
+        if topic not in self.synced_offsets:
+            try:
+                yield self.determine_offsets(topic, start)
+            except NoOffsetsError:
+                log.error("Unable to determine offsets for topic %s", topic)
+                raise gen.Return([])
+            self.synced_offsets.add(topic)
+
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
             leader = self.cluster.get_leader(topic, partition_id)
@@ -165,6 +165,7 @@ class BaseConsumer(Client):
                 self.heal_cluster = True
             elif code == errors.offset_out_of_range:
                 log.warn("Offset out of range for topic %s", topic)
+                self.offsets[topic].pop(partition.partition_id, None)
                 self.synced_offsets.discard(topic)
             else:
                 log.error(
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index d73db78..60dd3da 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -41,6 +41,29 @@ class SingleConsumer(BaseConsumer):
         """
         return self.cluster.topics
 
+    def undetermined(self, topic):
+        """
+        Gives the IDs of known partitions that don't have an offset yet.
+        """
+        return [
+            partition_id for partition_id in self.allocation[topic]
+            if partition_id not in self.offsets[topic]
+        ]
+
+    @gen.coroutine
+    def consume(self, topic, start=None):
+        """
+        Overriding ``consume()`` that handles newly found partitions.
+
+        Offsets are determined for those as well before they are fetched.
+        """
+        if topic in self.allocation and self.undetermined(topic):
+            self.synced_offsets.discard(topic)
+
+        result = yield super(SingleConsumer, self).consume(topic, start)
+
+        raise gen.Return(result)
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
@@ -52,7 +75,9 @@ class SingleConsumer(BaseConsumer):
         if need be and used for the "time" parameter for the offset requests.
 
         An offset request is sent to each of the leader brokers for the given
-        topic.
+        topic's partitions that don't have an offset yet.  If that leaves any
+        without one they are asked again, in case the error was a retriable
+        one and healed, before raising ``NoOffsetsError``.
         """
         log.info("Getting offsets for topic %s with start %s", topic, start)
 
@@ -69,24 +94,28 @@ class SingleConsumer(BaseConsumer):
                 ]
             )
 
-        requests = collections.defaultdict(request_factory)
-
-        for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
-            requests[leader].topics[0].partitions.append(
-                offset.PartitionRequest(
-                    partition_id=partition_id,
-                    time=offset_time,
-                    max_offsets=1
+        for _ in range(2):
+            requests = collections.defaultdict(request_factory)
+
+            for partition_id in self.undetermined(topic):
+                leader = self.cluster.get_leader(topic, partition_id)
+                requests[leader].topics[0].partitions.append(
+                    offset.PartitionRequest(
+                        partition_id=partition_id,
+                        time=offset_time,
+                        max_offsets=1
+                    )
                 )
+
+            log.debug(
+                "Sending offset request to %d leaders.", len(requests.keys())
             )
+            yield self.send(requests)
 
-        log.debug(
-            "Sending offset request to %d leaders.", len(requests.keys())
-        )
-        yield self.send(requests)
+            if not self.undetermined(topic):
+                raise gen.Return(True)
 
-        raise gen.Return(True)
+        raise NoOffsetsError
 
     def handle_offset_response(self, response):
         """
@@ -103,7 +132,13 @@ class SingleConsumer(BaseConsumer):
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
             code = partition.error_code
-            if code == errors.no_error:
+            if code == errors.no_error and not partition.offsets:
+                log.error(
+                    "No such offset for topic %s partition %s",
+                    topic, partition.partition_id
+                )
+                raise NoOffsetsError
+            elif code == errors.no_error:
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
-- 
2.43.0


From 818c392563010c57022a533ecb3509a3504b9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 21/42] fix: offset requests take whole seconds

---
 kiel/clients/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 60dd3da..b766fbf 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -178,4 +178,4 @@ def start_to_timestamp(start):
     else:
         offset_time = start
 
-    return offset_time
+    return int(offset_time)
-- 
2.43.0


From 3dc66ec02823b574be71f7290a5c6e1dbd081efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:57 +0000
Subject: [PATCH 22/42] fix: skip compressed messages before the offset asked
 for

---
 kiel/clients/consumer.py  |  4 ++++
 kiel/protocol/messages.py | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 3466697..d373416 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -188,7 +188,11 @@ class BaseConsumer(Client):
         the particular topic/partition pair is incremented.
         """
         messages = []
+        position = self.offsets[topic_name].get(partition.partition_id, 0)
         for offset, msg in partition.message_set.messages:
+            if partition.message_set.unpacked and offset < position:
+                continue  # handed out before
+
             try:
                 value = self.deserializer(msg.value)
             except Exception:
diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 2984322..82ea6d4 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -19,9 +19,13 @@ class MessageSet(object):
     Kafka's compression scheme works by taking a set of messages, compressing
     them with the chosen compression scheme, and then wrapping the result as
     the value of an envelope message, called the "message set".
+
+    The ``unpacked`` flag denotes that some of the messages came out of a
+    compressed one.  Such messages can precede the offset that was asked for.
     """
-    def __init__(self, messages):
+    def __init__(self, messages, unpacked=False):
         self.messages = messages
+        self.unpacked = unpacked
 
     @classmethod
     def compressed(cls, compression, msgs):
@@ -127,6 +131,7 @@ class MessageSet(object):
         buff = buff[:end]  # whatever follows is not part of the set
 
         messages = []
+        unpacked = False
         while offset < end:
             try:
                 message_offset, offset = Int64.parse(buff, offset)
@@ -140,10 +145,11 @@ class MessageSet(object):
                 set_size = len(message.value)
                 nested_set, _ = cls.parse(message.value, 0, size=set_size)
                 messages.extend(nested_set.messages)
+                unpacked = True
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), end
+        return cls(messages, unpacked), end
 
 
 class Message(Part):
-- 
2.43.0


From e91c78ccb431b0e5e9ee446a5eff522119e9289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:12 +0000
Subject: [PATCH 23/42] fix: an allocated partition without a known leader
 refreshes the metadata

---
 kiel/clients/consumer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index d373416..1ca71b7 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -105,7 +105,12 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+            try:
+                leader = self.cluster.get_leader(topic, partition_id)
+            except KeyError:
+                log.warn("No known leader for %s|%s", topic, partition_id)
+                self.heal_cluster = True
+                continue
             ordered[leader].append(partition_id)
 
         requests = {}
-- 
2.43.0


From 8b8833b9ca36d6da1b73efece5a274f7e8699734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 24/42] fix: a partition's failed position does not discard
 those of the others

---
 kiel/clients/single.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index b766fbf..20ddb2d 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -124,9 +124,10 @@ class SingleConsumer(BaseConsumer):
         A succesful response will update the topic/partition pair entry in
         the ``self.offsets`` structure.
 
-        A retriable error code response will cause the cluster's ``heal()``
-        method to be called at the end of processing and the offending topic's
-        offsets to be re-evaluated on the next `consume()` call.
+        Partitions with an error are left without an offset.  A retriable
+        error code response will cause the cluster's ``heal()`` method to be
+        called at the end of processing and the offending topic's offsets to
+        be re-evaluated on the next `consume()` call.
         """
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
@@ -137,7 +138,6 @@ class SingleConsumer(BaseConsumer):
                     "No such offset for topic %s partition %s",
                     topic, partition.partition_id
                 )
-                raise NoOffsetsError
             elif code == errors.no_error:
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
@@ -153,7 +153,6 @@ class SingleConsumer(BaseConsumer):
                     ERROR_CODES.get(code, code),
                     topic, partition.partition_id
                 )
-                raise NoOffsetsError
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From 28398ffc53036d6e299acc285f42bab2c61c5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 25/42] fix: look for the group coordinator past brokers that
 fail

---
 kiel/clients/grouped.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 1dca76a..f4dcdcb 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -111,8 +111,10 @@ class GroupedConsumer(BaseConsumer):
             if not broker_ids:
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
+                if broker_id not in self.cluster:
+                    continue
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
+                determined = results.get(broker_id, False)
                 if determined:
                     break
 
-- 
2.43.0


From cde8e7731c5bdb1b037762929f8074cccbd7e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 26/42] fix: find the new coordinator when the known one is
 lost

---
 kiel/clients/grouped.py | 44 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index f4dcdcb..590eee6 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -132,15 +132,42 @@ class GroupedConsumer(BaseConsumer):
             log.info("Found coordinator: broker %s", response.coordinator_id)
             self.coordinator_id = response.coordinator_id
             determined = True
+            if self.coordinator_id not in self.cluster:
+                self.heal_cluster = True
         elif response.error_code in errors.retriable:
             self.heal_cluster = True
             determined = False
         else:
             log.error("Got error %s when determining coordinator")
+            self.coordinator_id = None
             determined = True
 
         return determined
 
+    @gen.coroutine
+    def ask_coordinator(self, request):
+        """
+        Sends a request to the group's coordinator and returns its result.
+
+        The coordinator is determined anew if it isn't known or is no longer
+        part of the cluster.  Returns ``None`` if the request wasn't answered,
+        in which case another broker may be the coordinator by now.
+
+        Raises a ``NoOffsetsError`` if the coordinator can't be determined.
+        """
+        while self.coordinator_id not in self.cluster:
+            yield self.determine_coordinator()
+            if self.coordinator_id is None:
+                raise exc.NoOffsetsError
+
+        coordinator_id = self.coordinator_id
+        results = yield self.send({coordinator_id: request})
+
+        if coordinator_id not in results:
+            self.coordinator_id = None
+
+        raise gen.Return(results.get(coordinator_id))
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
@@ -166,8 +193,8 @@ class GroupedConsumer(BaseConsumer):
 
         retry = True
         while retry:
-            result = yield self.send({self.coordinator_id: request})
-            retry = result[self.coordinator_id]
+            result = yield self.ask_coordinator(request)
+            retry = result is None or result
 
     def handle_offset_fetch_response(self, response):
         """
@@ -202,6 +229,8 @@ class GroupedConsumer(BaseConsumer):
             elif code in errors.retriable:
                 self.heal_cluster = True
                 retry = True
+                if code == errors.not_coordinator:
+                    self.coordinator_id = None
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
@@ -243,8 +272,13 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        results = yield self.send({self.coordinator_id: request})
-        retry, adjust_metadata = results[self.coordinator_id]
+        try:
+            result = yield self.ask_coordinator(request)
+        except exc.NoOffsetsError:
+            log.error("Unable to commit offsets, no coordinator")
+            return
+
+        retry, adjust_metadata = result or (True, False)
 
         if adjust_metadata:
             log.warn("Offset commit metadata '%s' was too long.", metadata)
@@ -273,6 +307,8 @@ class GroupedConsumer(BaseConsumer):
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
+                    if code == errors.not_coordinator:
+                        self.coordinator_id = None
                 elif code == errors.offset_metadata_too_large:
                     retry = True
                     adjust_metadata = True
-- 
2.43.0


From a39795e00c8c12c74b3b4829cb4c900d2e7a4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 27/42] fix: commit topics again until all of their partitions
 are

---
 kiel/clients/grouped.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 590eee6..8b29bc9 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -290,8 +290,8 @@ class GroupedConsumer(BaseConsumer):
         """
         Handles responses from the "offset commit" api.
 
-        For successful responses the affected topics are dropped from the set
-        of topics that need commits.
+        Topics that were successful for all of their partitions are dropped
+        from the set of topics that need commits.
 
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
@@ -300,10 +300,16 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
+            if all(
+                partition.error_code == errors.no_error
+                for partition in topic.partitions
+            ):
+                self.topics_to_commit.discard(topic.name)
+
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
+                    continue
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
-- 
2.43.0


From 7ada005cd00b7627cbe81e32569d7b474e773e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 28/42] fix: a failed commit does not lose the messages
 consumed

---
 kiel/clients/grouped.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 8b29bc9..e8c232f 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -91,7 +91,11 @@ class GroupedConsumer(BaseConsumer):
         self.topics_to_commit.add(topic)
 
         if self.autocommit:
-            yield self.commit_offsets()
+            try:
+                yield self.commit_offsets()
+            except exc.NoBrokersError:
+                # messages we already have must not be lost
+                log.warn("No brokers left, committing offsets is put off.")
 
         raise gen.Return(result)
 
-- 
2.43.0


From 44529ada81c280e459e619c08ade33f4adedd886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 29/42] fix: positions of an old allocation are neither used
 nor committed

---
 kiel/clients/consumer.py |  2 +-
 kiel/clients/grouped.py  | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 1ca71b7..d392832 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -104,7 +104,7 @@ class BaseConsumer(Client):
             self.synced_offsets.add(topic)
 
         ordered = collections.defaultdict(list)
-        for partition_id in self.allocation[topic]:
+        for partition_id in self.allocation.get(topic, []):
             try:
                 leader = self.cluster.get_leader(topic, partition_id)
             except KeyError:
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index e8c232f..f14f435 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -50,9 +50,11 @@ class GroupedConsumer(BaseConsumer):
         self.allocator = PartitionAllocator(
             zk_hosts, self.group_name, self.name,
             allocator_fn=partition_allocator or naive_allocator,
-            on_rebalance=self.synced_offsets.clear
+            on_rebalance=self.on_rebalance
         )
 
+        self.rebalances = 0
+
         self.topics_to_commit = set()
         self.autocommit = autocommit
 
@@ -63,6 +65,13 @@ class GroupedConsumer(BaseConsumer):
         """
         return self.allocator.allocation
 
+    def on_rebalance(self):
+        """
+        Callback for when the allocation changes, all positions are off then.
+        """
+        self.rebalances += 1
+        self.synced_offsets.clear()
+
     @gen.coroutine
     def connect(self):
         """
@@ -82,9 +91,17 @@ class GroupedConsumer(BaseConsumer):
 
         This is where the ``autocommit`` flag comes into play.  If the flag
         is set we call `commit_offsets()` here right off the bat.
+
+        If the allocation changed in the meantime nothing is returned, as the
+        positions used may not have been determined for the new one.
         """
+        rebalances = self.rebalances
+
         result = yield super(GroupedConsumer, self).consume(topic)
 
+        if rebalances != self.rebalances:
+            self.synced_offsets.discard(topic)
+
         if topic not in self.synced_offsets:
             raise gen.Return([])
 
@@ -252,6 +269,8 @@ class GroupedConsumer(BaseConsumer):
 
         Uses the "v0" version of the offset commit request to maintain
         compatability with clusters running 0.8.1.
+
+        Topics whose offsets have to be determined (again) are left out.
         """
         if metadata is None:
             metadata = "committed by %s" % self.name
@@ -273,9 +292,13 @@ class GroupedConsumer(BaseConsumer):
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
                 if topic in self.topics_to_commit
+                and topic in self.synced_offsets
             ]
         )
 
+        if not request.topics:
+            return
+
         try:
             result = yield self.ask_coordinator(request)
         except exc.NoOffsetsError:
-- 
2.43.0


From 3d14f82bba8ca0f0703783dd98b64f5df37a1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 30/42] fix: a closed grouped consumer does not commit offsets

---
 kiel/clients/grouped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index f14f435..9c3701d 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -95,6 +95,9 @@ class GroupedConsumer(BaseConsumer):
         If the allocation changed in the meantime nothing is returned, as the
         positions used may not have been determined for the new one.
         """
+        if self.closing:
+            return
+
         rebalances = self.rebalances
 
         result = yield super(GroupedConsumer, self).consume(topic)
-- 
2.43.0


From 621f6cca7949e731184d7ee512e2dcfc9e172b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 31/42] fix: store the shared set as bytes, as kazoo needs them

---
 kiel/zookeeper/shared_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..64cf740 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -83,9 +83,9 @@ class SharedSet(object):
 
     def serialize(self, data):
         """
-        Serializes the set data as a list in a JSON string.
+        Serializes the set data as a list in a JSON string, as bytes.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
-- 
2.43.0


From 1f26a29790a69bedfa62e88e10c484f8e2033388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 32/42] fix: remove each of a topic's partitions from the
 shared set

---
 kiel/zookeeper/allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..44fe116 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -239,8 +239,9 @@ class PartitionAllocator(object):
         wait_on_event(self.connected)
 
         self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
         ]))
 
     def rebalance(self):
-- 
2.43.0


From 62480468592d4e29928f86b2f6e60894de2baea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 33/42] fix: nothing is allocated to a consumer not yet seen as
 a member

---
 kiel/zookeeper/allocator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 44fe116..d61d7c0 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -66,8 +66,10 @@ class PartitionAllocator(object):
     def allocation(self):
         """
         Property representing the topics allocated for a specific consumer.
+
+        Nothing is as long as the consumer is not known to be a member.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From 2751a2ad6e82882d373d1d655d4857c43ee2948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 34/42] fix: populate a missing shared set with its serialized
 form

---
 kiel/zookeeper/allocator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index d61d7c0..9291e1a 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -3,7 +3,7 @@ import threading
 
 import six
 from tornado import concurrent
-from kazoo import client
+from kazoo import client, exceptions
 
 from kiel.zookeeper import Party, SharedSet
 from kiel.events import wait_on_event
@@ -195,7 +195,13 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            try:
+                self.conn.create(
+                    self.partition_path,
+                    value=self.shared_set.serialize(self.partitions)
+                )
+            except exceptions.NodeExistsError:
+                log.debug("Another member populated the set first.")
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From 4ce46e5513cb5eea8fc905aec123cbc92a59158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 35/42] fix: join the party even if the old node vanishes
 meanwhile

---
 kiel/zookeeper/party.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/zookeeper/party.py b/kiel/zookeeper/party.py
index f92cf6b..dc132f2 100644
--- a/kiel/zookeeper/party.py
+++ b/kiel/zookeeper/party.py
@@ -66,6 +66,10 @@ class Party(object):
             txn.create(path, ephemeral=True)
             txn.commit()
 
+            if not self.client.exists(path):
+                log.debug("ZNode at %s was gone already, creating it.", path)
+                self.client.create(path, ephemeral=True, makepath=True)
+
     def leave(self):
         """
         Simple method that marks the client as having left the party.
-- 
2.43.0


From 0f2891fe94317253e7aae3d48e95a5b5e7a1cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 36/42] fix: connections made while closing do not stay open

---
 kiel/cluster.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 8d64858..6bf77db 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -26,6 +26,8 @@ class Cluster(object):
     def __init__(self, bootstrap_hosts):
         self.bootstrap_hosts = bootstrap_hosts
 
+        self.stopped = False
+
         self.conns = {}
         self.topics = collections.defaultdict(list)
         self.leaders = collections.defaultdict(dict)
@@ -80,6 +82,8 @@ class Cluster(object):
         """
         response = None
 
+        self.stopped = False
+
         for host in self.bootstrap_hosts:
             if ":" in host:
                 host, port = host.split(":")
@@ -177,6 +181,9 @@ class Cluster(object):
 
         Known connections that are not present in the given metadata will have
         ``abort()`` called on them and are dropped from the cluster.
+
+        If the cluster was stopped in the meantime the new connections are
+        closed as well and a ``NoBrokersError`` is raised.
         """
         broker_ids = list(self.conns.keys())
         for broker_id in broker_ids:
@@ -218,6 +225,10 @@ class Cluster(object):
             self.conns[broker_id].abort()
             self.conns.pop(broker_id, None)
 
+        if self.stopped:
+            self.stop()
+            raise NoBrokersError
+
         raise gen.Return(missing)
 
     def process_topics(self, response_topics):
@@ -274,6 +285,10 @@ class Cluster(object):
     def stop(self):
         """
         Simple method that calls ``close()`` on each connection.
+
+        Connections that are still being established are closed once they are.
         """
+        self.stopped = True
+
         for conn in self.conns.values():
             conn.close()
-- 
2.43.0


From bbf650a17419ce2c090fbc3236c7bd4a93090f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 37/42] fix: close connections even if winding down fails

---
 kiel/clients/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 552af80..b681413 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -39,12 +39,14 @@ class Client(object):
         Marks a client as closing and winds down connections.
 
         Calls the ``wind_down()`` coroutine that subclasses must implement.
+        Connections are closed even if that fails.
         """
         self.closing = True
 
-        yield self.wind_down()
-
-        self.cluster.stop()
+        try:
+            yield self.wind_down()
+        finally:
+            self.cluster.stop()
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From 94ec92dfbc7235280dd1c0cd0b3afd8e21f3d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 38/42] fix: stopping the allocator ends the ZooKeeper
 connection if leaving fails

---
 kiel/zookeeper/allocator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 9291e1a..6d7a1f3 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -123,6 +123,9 @@ class PartitionAllocator(object):
         """
         Signals the ``Party`` that this member has left and closes connections.
 
+        The connection goes down even if leaving fails, as that ends the
+        membership as well.
+
         This method returns a ``Future`` so that it can be yielded to in
         coroutines.
         """
@@ -132,8 +135,13 @@ class PartitionAllocator(object):
         attempt = create_attempter(f)
 
         attempt(self.party.leave)
-        attempt(self.conn.stop)
-        attempt(self.conn.close)
+
+        try:
+            self.conn.stop()
+            self.conn.close()
+        except Exception as e:
+            if not f.done():
+                f.set_exception(e)
 
         if not f.done():
             f.set_result(None)
-- 
2.43.0


From d15670006e8b4e3cc6e5dbe52f331735b0b57c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 39/42] fix: overlapping heals do not replace each other's
 connections

---
 kiel/cluster.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 6bf77db..a913b1f 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -1,7 +1,7 @@
 import collections
 import logging
 
-from tornado import gen, iostream
+from tornado import concurrent, gen, iostream
 
 from kiel.protocol import metadata, errors
 from kiel.constants import DEFAULT_KAFKA_PORT
@@ -27,6 +27,8 @@ class Cluster(object):
         self.bootstrap_hosts = bootstrap_hosts
 
         self.stopped = False
+        # pending as long as a heal is under way
+        self.healing = None
 
         self.conns = {}
         self.topics = collections.defaultdict(list)
@@ -124,18 +126,30 @@ class Cluster(object):
         Repeatedly calls `process_brokers()` and `process_topics()` until both
         signal that there are no missing brokers or topics.  Follow-up metadata
         is for all topics, as each round replaces what is known about them.
+
+        Overlapping calls take turns, as they'd replace each other's
+        connections.
         """
-        if not response:
-            response = yield self.get_metadata()
+        while self.healing:
+            yield self.healing
 
-        missing_conns = yield self.process_brokers(response.brokers)
-        missing_topics = self.process_topics(response.topics)
+        self.healing = concurrent.Future()
+
+        try:
+            if not response:
+                response = yield self.get_metadata()
 
-        while missing_conns or missing_topics:
-            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
+            while missing_conns or missing_topics:
+                response = yield self.get_metadata()
+                missing_conns = yield self.process_brokers(response.brokers)
+                missing_topics = self.process_topics(response.topics)
+        finally:
+            healing, self.healing = self.healing, None
+            healing.set_result(None)
+
     @gen.coroutine
     def get_metadata(self, topics=None):
         """
-- 
2.43.0


From a94ae394ca5145a05a7933d88f64ec95d4b479f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 40/42] fix: requests for a broker that is gone do not raise a
 KeyError

---
 kiel/clients/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index b681413..1331f24 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -77,11 +77,18 @@ class Client(object):
 
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
+
+        Brokers that are no longer part of the cluster count as failed.
         """
-        iterator = gen.WaitIterator(**{
-            str(broker_id): self.cluster[broker_id].send(request)
-            for broker_id, request in six.iteritems(request_by_broker)
-        })
+        pending = {}
+        for broker_id, request in six.iteritems(request_by_broker):
+            if broker_id not in self.cluster:
+                log.info("Broker %s is gone", broker_id)
+                self.heal_cluster = True
+                continue
+            pending[str(broker_id)] = self.cluster[broker_id].send(request)
+
+        iterator = gen.WaitIterator(**pending)
 
         results = {}
         while not iterator.done():
-- 
2.43.0


From b03f9848b8a040e78fba6739348f688158a8ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:09 +0000
Subject: [PATCH 41/42] fix: a commit's answer dropped topics consumed in the
 meantime

Messages consumed while a commit was under way, or a later commit of the
same topic that was rejected, were not committed: the earlier answer took
the topic off the set of topics that need commits.
---
 kiel/clients/grouped.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 9c3701d..73f0201 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -274,6 +274,9 @@ class GroupedConsumer(BaseConsumer):
         compatability with clusters running 0.8.1.
 
         Topics whose offsets have to be determined (again) are left out.
+
+        The topics are dropped from the set of topics that need commits, unless
+        the request is not answered.
         """
         if metadata is None:
             metadata = "committed by %s" % self.name
@@ -302,11 +305,18 @@ class GroupedConsumer(BaseConsumer):
         if not request.topics:
             return
 
+        committing = [topic.name for topic in request.topics]
+        self.topics_to_commit.difference_update(committing)
+
+        result = None
         try:
             result = yield self.ask_coordinator(request)
         except exc.NoOffsetsError:
             log.error("Unable to commit offsets, no coordinator")
             return
+        finally:
+            if result is None:
+                self.topics_to_commit.update(committing)
 
         retry, adjust_metadata = result or (True, False)
 
@@ -320,8 +330,8 @@ class GroupedConsumer(BaseConsumer):
         """
         Handles responses from the "offset commit" api.
 
-        Topics that were successful for all of their partitions are dropped
-        from the set of topics that need commits.
+        Topics that were not successful for all of their partitions go back to
+        the set of topics that need commits.
 
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
@@ -330,11 +340,11 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
-            if all(
+            if not all(
                 partition.error_code == errors.no_error
                 for partition in topic.partitions
             ):
-                self.topics_to_commit.discard(topic.name)
+                self.topics_to_commit.add(topic.name)
 
             for partition in topic.partitions:
                 code = partition.error_code
-- 
2.43.0


From 803fb5676415f23ab0dba7644478c1fd6920700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 42/42] fix: a message was accepted, and lost, by a producer
 closed meanwhile

produce() checks whether the producer is closing only before it looks for a
topic it does not know yet.
---
 kiel/clients/producer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a5269c6..3a990af 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -102,6 +102,10 @@ class Producer(Client):
             log.error("Unknown topic %s and not auto-created", topic)
             return
 
+        if self.closing:
+            log.warn("Producing to %s topic while closing.", topic)
+            return
+
         self.unsent[topic].append(
             messages.Message(
                 magic=0,
-- 
2.43.0

