"""Writes properties.jsonl (kept as code so that entries stay uniform)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s))
                      for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Primitive values have exactly Kafka's binary form, both ways",
     "Encoding any integer, string, byte string or array yields exactly the "
     "protocol's big-endian, length-prefixed bytes, and decoding those bytes "
     "inside any larger buffer gives the value back and stops exactly at its "
     "end. Integers that do not fit their type and buffers that are cut short "
     "or carry a malformed length are rejected, never silently wrapped, "
     "truncated or read past the end.",
     ["inputs"],
     "every integer, every text or byte string (null included), every array "
     "and every buffer, at every offset",
     "The tests encode a handful of fixed values and never vary offsets, "
     "boundary integers, cut points or malformed lengths.",
     ["kiel/protocol/primitives.py"],
     [("per-type render and parse", "kiel/protocol/primitives.py")])

prop("C02", "Every request is serialized exactly in its documented layout",
     "For every request type and every field value, the serialized bytes are "
     "the header (API key of that request, version 0, correlation id, client "
     "name) followed by the body fields in the documented order and types, so "
     "a broker that follows that layout reads back exactly the values given.",
     ["inputs"],
     "every request type, every value of every field, every number of nested "
     "topics, partitions, groups, members and assignments",
     "No test compares a serialized request with the protocol; the client "
     "tests compare request objects before they are serialized.",
     ["kiel/protocol/request.py", "kiel/protocol/part.py",
      "kiel/constants.py", "kiel/protocol/metadata.py",
      "kiel/protocol/offset_commit.py", "kiel/protocol/heartbeat.py"],
     [("ordered sub-part lists", "kiel/protocol/*.py"),
      ("preamble", "kiel/protocol/request.py"),
      ("API key table", "kiel/constants.py")])

prop("C03", "Every conforming response is decoded to the values it carries",
     "For every response type, decoding bytes laid out as the protocol "
     "prescribes yields exactly the field values the broker wrote, for any "
     "number of nested items and any field values, including error codes "
     "that are not known to the library.",
     ["inputs"],
     "every response type, every value of every field, every number of "
     "nested items",
     "The tests hand ready-made response objects to the handlers; no test "
     "decodes a response from bytes.",
     ["kiel/protocol/response.py", "kiel/protocol/part.py",
      "kiel/protocol/metadata.py", "kiel/protocol/fetch.py",
      "kiel/protocol/heartbeat.py"],
     [("ordered sub-part lists", "kiel/protocol/*.py"),
      ("recursive parse", "kiel/protocol/part.py")])

prop("C04", "Produced message sets carry exact sizes and valid checksums",
     "Any list of messages is written as a message set in which every size "
     "field is the exact byte count it describes and every checksum is the "
     "CRC-32 of the bytes after it, for every key and value including null, "
     "empty and every checksum value. Reading the set back yields the same "
     "messages in the same order.",
     ["inputs"],
     "every sequence of messages with every key and value",
     "The tests render one or two fixed messages; a wrong sign or size for "
     "particular contents (one checksum value in 2^32) is invisible to them.",
     ["kiel/protocol/messages.py"],
     [("message rendering with CRC", "kiel/protocol/messages.py"),
      ("message set sizes", "kiel/protocol/messages.py")])

prop("C05", "Compressed message sets hold exactly the messages put in",
     "With gzip or snappy, the bytes produced decompress (by any conforming "
     "implementation) to exactly the uncompressed message set, the envelope "
     "names the codec used, and reading a compressed set back yields the "
     "same messages in order. Decompression loses nothing for any block "
     "structure a conforming peer may write.",
     ["inputs"],
     "every list of messages, every payload, both codecs, every division "
     "into snappy blocks",
     "The tests round-trip one long text per codec; short payloads, short "
     "last blocks and foreign block sizes are never tried.",
     ["kiel/compression/gzip.py", "kiel/compression/snappy.py",
      "kiel/protocol/messages.py"],
     [("snappy block framing", "kiel/compression/snappy.py"),
      ("gzip file wrapper", "kiel/compression/gzip.py"),
      ("envelope message", "kiel/protocol/messages.py")])

prop("C06", "A truncated message set yields its complete messages, no more",
     "When a broker cuts a message set off at any byte, decoding gives "
     "exactly the messages that are complete before the cut, with their "
     "offsets, and everything that follows the set in the response "
     "(other partitions and topics) is decoded unaffected.",
     ["inputs"],
     "every message set, every cut position, whatever follows it",
     "One test cuts one set at one place with nothing after it.",
     ["kiel/protocol/messages.py", "kiel/protocol/fetch.py"],
     [("size-bounded parse with cut-off handling",
       "kiel/protocol/messages.py")])

prop("C07", "A response resolves exactly the request it answers",
     "On one connection, whatever the order in which the broker answers and "
     "however its bytes are split, each pending request is resolved with the "
     "response carrying its own correlation id and with nothing else. "
     "Correlation ids of distinct requests never collide while in flight and "
     "always fit the wire format.",
     ["schedules", "histories", "inputs"],
     "every interleaving of sends and answers, every correlation id seed, "
     "every response content",
     "Tests mock the message reader or send one request at a time with "
     "fixed ids.",
     ["kiel/connection.py", "kiel/protocol/request.py"],
     [("pending futures keyed by correlation id", "kiel/connection.py"),
      ("correlation id generator", "kiel/protocol/request.py")],
     [("pending", "requests awaiting an answer", "kiel/connection.py")])

prop("C08", "No caller is left waiting when a broker connection dies",
     "If a connection fails or is closed at any point - while writing, while "
     "reading any part of an answer, on undecodable bytes, or by request - "
     "every request still waiting on it ends with an error, and later "
     "requests on it fail at once. No request waits forever and none is "
     "reported as answered.",
     ["fault_sequences", "crash_points", "schedules"],
     "every failure point, every number of requests in flight",
     "Tests raise one mocked error with one pending request, and the tests "
     "of the abort path do not pass here.",
     ["kiel/connection.py"],
     [("abort", "kiel/connection.py"),
      ("socket error handling", "kiel/connection.py")],
     [("closing", "the connection is unusable", "kiel/connection.py")])

prop("C09", "A produced message is delivered or kept for retry, never lost",
     "After any sequence of produce, flush and broker answers with success "
     "or retriable codes, dropped connections and leader changes, every "
     "accepted message has either been acknowledged by a broker or is still "
     "queued to be sent again. A message that was acknowledged is not sent "
     "again, and none is queued twice.",
     ["histories", "fault_sequences"],
     "every mix of topics, partitions and answers, every error code, a "
     "connection failing at every point",
     "Tests feed one fixed error code to one message; connection failures, "
     "mixed per-partition outcomes and failing partitioners are not tried.",
     ["kiel/clients/producer.py", "kiel/clients/client.py"],
     [("unsent queue and in-flight record", "kiel/clients/producer.py"),
      ("retry queueing", "kiel/clients/producer.py")],
     [("unsent", "messages not yet sent", "kiel/clients/producer.py"),
      ("sent", "messages in flight", "kiel/clients/producer.py")])

prop("C10", "Messages go to their partition's leader, intact and in order",
     "Each message is sent to the broker leading the partition the "
     "partitioner picked among the topic's known partitions, with the key "
     "and value given by the key maker and serializer. Messages for one "
     "partition are sent in the order they were produced, and each request "
     "carries the configured acknowledgement level and timeout.",
     ["inputs", "histories", "configurations"],
     "every cluster layout, partitioner choice, key, value and batch",
     "Tests use one layout and compare a single request object.",
     ["kiel/clients/producer.py", "kiel/cluster.py"],
     [("grouping by leader, topic and partition",
       "kiel/clients/producer.py")])

prop("C11", "Batches flush exactly when full, and closing flushes the rest",
     "Messages are held until the configured batch size is reached over all "
     "topics and are then sent at once; with a batch size of zero or one "
     "every message is sent immediately. Closing sends everything still "
     "queued before connections go down, and nothing is accepted afterwards.",
     ["histories", "configurations"],
     "every batch size, every sequence of produce calls over several topics, "
     "close at every point",
     "Tests use one batch size and one sequence.",
     ["kiel/clients/producer.py", "kiel/clients/client.py"],
     [("batch threshold", "kiel/clients/producer.py"),
      ("wind-down flush", "kiel/clients/producer.py")])

prop("C12", "Consuming advances exactly past the messages handed out",
     "Each call returns the deserialized messages of every fetched partition "
     "in offset order, and the next fetch of a partition asks for the offset "
     "right after the last message handed out. A message is neither skipped "
     "nor returned twice; one that cannot be deserialized is skipped without "
     "disturbing the others.",
     ["inputs", "histories"],
     "every message content and offset, every number of partitions and "
     "brokers, every subset of undeserializable messages",
     "Tests deliver one fixed pair of messages.",
     ["kiel/clients/consumer.py"],
     [("offset bookkeeping", "kiel/clients/consumer.py")],
     [("offsets", "next offset per partition", "kiel/clients/consumer.py")])

prop("C13", "Each allocated partition is fetched once, at its own position",
     "Every consume call asks the leader of each allocated partition of the "
     "topic for that partition exactly once, at its current position, and "
     "asks nobody for anything else. The byte budget is split evenly per "
     "broker and never exceeded, and wait time and minimum bytes are passed "
     "on unchanged.",
     ["inputs", "configurations"],
     "every layout of partitions over brokers, every position, every limit",
     "Tests fix one layout and two brokers.",
     ["kiel/clients/consumer.py", "kiel/cluster.py"],
     [("grouping by leader", "kiel/clients/consumer.py")])

prop("C14", "Every broker error code triggers its documented reaction only",
     "For any error code in any answer a consumer receives: retriable codes "
     "refresh the cluster metadata, an out-of-range position is determined "
     "anew before its topic is fetched again, and any other code, known or "
     "not, is logged and affects only its own partition. Messages and positions of the other "
     "partitions are handled as if the error had not occurred.",
     ["inputs", "histories"],
     "every 16-bit error code in every partition of an answer",
     "Tests try one code per category.",
     ["kiel/clients/consumer.py", "kiel/clients/single.py",
      "kiel/constants.py", "kiel/protocol/errors.py"],
     [("error code classification", "kiel/constants.py"),
      ("response handlers", "kiel/clients/*.py")])

prop("C15", "A standalone consumer starts exactly where it was told to",
     "The position of every partition of a topic is asked from its leader "
     "exactly once before the first fetch, for the beginning, the end, an "
     "absolute time or a time ago as requested, and fetching starts at the "
     "offset answered. If it cannot be determined the consumer returns "
     "nothing and asks again on the next call rather than reading from a "
     "wrong place.",
     ["inputs", "histories"],
     "every start value, every offset answered, every error code, every "
     "cluster layout",
     "Tests use one time, one offset and mocked requests that are never "
     "serialized.",
     ["kiel/clients/single.py", "kiel/clients/consumer.py"],
     [("start translation", "kiel/clients/single.py"),
      ("offset response handler", "kiel/clients/single.py")],
     [("synced_offsets", "topics whose position is known",
       "kiel/clients/consumer.py")])

prop("C16", "A grouped consumer resumes from and commits the right offsets",
     "A grouped consumer begins each allocated partition at the offset the "
     "group's coordinator reports, retrying until every one is known, and "
     "after each consume call commits, for exactly its allocated partitions "
     "of consumed topics, the position just after the last message handed "
     "out. With automatic commits off nothing is committed until asked.",
     ["inputs", "histories"],
     "every committed offset, every message content, every allocation, every "
     "retriable answer sequence",
     "Tests mock the sending layer and check one call at a time.",
     ["kiel/clients/grouped.py", "kiel/clients/consumer.py"],
     [("offset fetch and commit", "kiel/clients/grouped.py")],
     [("topics_to_commit", "topics with uncommitted positions",
       "kiel/clients/grouped.py")])

prop("C17", "Offset commits are retried until each partition is settled",
     "When a commit is answered with retriable codes, it is sent again until "
     "every affected partition is accepted; when the metadata is too large "
     "it is retried without metadata. A partition that failed in one answer "
     "is committed again even if others succeeded, and other codes end the "
     "attempt without error.",
     ["histories", "fault_sequences"],
     "every combination of codes per partition over successive answers, and "
     "connections lost in between",
     "Tests return a single code for a single partition.",
     ["kiel/clients/grouped.py"],
     [("commit response handler", "kiel/clients/grouped.py")])

prop("C18", "The group coordinator is found as long as some broker knows it",
     "Connecting a grouped consumer asks brokers until one names the group's "
     "coordinator, whatever the number of brokers that fail, disconnect or "
     "answer with retriable codes first. The consumer then talks to exactly "
     "that broker for offsets, and if it stops being the coordinator the "
     "consumer finds the new one instead of failing or waiting forever.",
     ["fault_sequences", "histories"],
     "every pattern of failing and retriable brokers, every coordinator",
     "Tests use mocked results that always contain an answer.",
     ["kiel/clients/grouped.py", "kiel/clients/client.py"],
     [("coordinator search loop", "kiel/clients/grouped.py")],
     [("coordinator_id", "broker used for group offsets",
       "kiel/clients/grouped.py")])

prop("C19", "Default allocation gives each partition to one member, evenly",
     "For any members and partitions, the default allocation assigns every "
     "partition to exactly one member and no member gets more than one more "
     "than another. It depends only on its arguments, so all members compute "
     "the same result.",
     ["inputs"],
     "every list of members and partitions",
     "One test with one fixed list.",
     ["kiel/clients/grouped.py"],
     [("round robin", "kiel/clients/grouped.py")])

prop("C20", "Allocation follows membership and partition changes",
     "After any sequence of membership and partition-set notifications the "
     "allocation equals the allocator function applied to the latest sorted "
     "members and partitions; after every change the consumer determines "
     "its positions again before it hands out a message or commits. "
     "Notifications that change nothing "
     "do not disturb it, and starting up returns only once ZooKeeper has "
     "reported both, and fails if the group could not be joined.",
     ["histories", "schedules"],
     "every sequence and order of notifications, at every point of a consume "
     "call",
     "Tests call single handlers with fixed sets.",
     ["kiel/zookeeper/allocator.py", "kiel/clients/grouped.py"],
     [("change handlers and rebalance", "kiel/zookeeper/allocator.py"),
      ("rebalance callback", "kiel/clients/grouped.py")],
     [("members", "current members", "kiel/zookeeper/allocator.py"),
      ("partitions", "current partitions", "kiel/zookeeper/allocator.py")])

prop("C21", "The shared partition set is updated as an exact set, under lock",
     "Adding or removing items leaves the stored set equal to the union or "
     "difference with what was stored, whatever other members store in "
     "between; the read and the write happen inside one lock. An update that "
     "changes nothing writes nothing, and what is written is read back as "
     "the same set by every member.",
     ["inputs", "schedules"],
     "every prior content including none, every set of items, concurrent "
     "updates at every unlocked point",
     "Tests use mocks with one fixed content and never write real bytes.",
     ["kiel/zookeeper/shared_set.py", "kiel/zookeeper/allocator.py"],
     [("lock around read-modify-write", "kiel/zookeeper/shared_set.py")])

prop("C22", "Group membership is an ephemeral node owned by the live session",
     "After joining, the member's node exists, is ephemeral and belongs to "
     "the member's own session, whatever node was there before; leaving "
     "removes it and is harmless if it is gone. Every change of membership "
     "is reported with the complete member list.",
     ["histories", "configurations"],
     "every prior state of the node (absent, own, another session's), every "
     "sequence of joins and leaves",
     "Tests check mock calls, not the resulting nodes.",
     ["kiel/zookeeper/party.py"],
     [("join transaction", "kiel/zookeeper/party.py")])

prop("C23", "Refreshed metadata mirrors what the brokers reported",
     "After a refresh, connections exist exactly for the reachable brokers "
     "last reported, and the known topics, partitions and leaders are "
     "exactly those reported without error whose leader is connected, for "
     "every topic of the cluster. Topics still electing leaders are asked "
     "for again until they settle without losing the others.",
     ["inputs", "histories", "fault_sequences"],
     "every metadata content including every error code, every set of "
     "unreachable brokers, every sequence of answers",
     "Tests use one or two hand-made answers.",
     ["kiel/cluster.py"],
     [("heal loop", "kiel/cluster.py"),
      ("broker and topic processing", "kiel/cluster.py")],
     [("conns", "live connections", "kiel/cluster.py"),
      ("topics", "known partitions", "kiel/cluster.py"),
      ("leaders", "leader per partition", "kiel/cluster.py")])

prop("C24", "Start-up succeeds if any bootstrap host works, tried in order",
     "Starting tries the bootstrap hosts in the order given, with the default "
     "port when none is given, and succeeds with the first one that answers, "
     "however the earlier ones fail: refusing the connection, dropping it "
     "before answering or answering garbage. Only if none works does it "
     "raise the no-brokers error.",
     ["fault_sequences", "configurations"],
     "every number of hosts, every way each may fail",
     "Tests fail connections only at connect time.",
     ["kiel/cluster.py"],
     [("bootstrap loop", "kiel/cluster.py")])

prop("C25", "One broker's failure does not affect answers from the others",
     "When requests are sent to several brokers at once, every answer that "
     "arrives is handled exactly once and its result is returned under that "
     "broker, whatever the order of arrival and however many of the others "
     "fail. If any failed, metadata is refreshed exactly once, after all "
     "have been dealt with.",
     ["schedules", "fault_sequences"],
     "every subset of failing brokers, every way of failing, every order of "
     "completion",
     "Tests fail one broker in one way with fixed order.",
     ["kiel/clients/client.py"],
     [("wait iterator loop", "kiel/clients/client.py"),
      ("heal flag", "kiel/clients/client.py")])

prop("C26", "A closed client leaves nothing open and sends nothing more",
     "Once a client is closed - idle or at any moment of a call, a refresh of "
     "the metadata or the start-up - all of its broker connections end up "
     "closed, even those still being established and even if winding down "
     "fails; calls in progress end. Later calls send nothing and connect to "
     "nobody, and a grouped consumer has left its group and ZooKeeper.",
     ["schedules", "fault_sequences"],
     "every step of every kind of call at which closing may begin, with "
     "healthy, dead, slow and new brokers",
     "Tests close idle clients with mocked connections.",
     ["kiel/cluster.py", "kiel/clients/client.py",
      "kiel/zookeeper/allocator.py"],
     [("stop", "kiel/cluster.py"), ("close", "kiel/clients/client.py"),
      ("allocator stop", "kiel/zookeeper/allocator.py")],
     [("conns", "live connections", "kiel/cluster.py")])

prop("C27", "Overlapping calls on one client do not disturb each other",
     "Calls that overlap on one client - consuming different topics, "
     "committing, producing, refreshing metadata - each end with their own "
     "result, "
     "whatever the order of events, and none fails because another one is "
     "refreshing the metadata. Afterwards there is one connection per "
     "reported broker, no position is off, committed ones included, and no "
     "message is lost or sent again.",
     ["schedules", "fault_sequences"],
     "every step of one call at which another may begin, with brokers that "
     "die, are slow to come back, join or leave",
     "Tests never overlap calls.",
     ["kiel/cluster.py", "kiel/clients/client.py"],
     [("heal", "kiel/cluster.py"), ("send", "kiel/clients/client.py")],
     [("conns", "live connections", "kiel/cluster.py")])

prop("C28", "Topics and partitions that appear or vanish are noticed",
     "A call for an unknown topic refreshes the metadata and goes on as usual "
     "if the topic is there by then; otherwise it asks nobody for anything, "
     "queues nothing and is harmless. After a refresh exactly the topic's "
     "current partitions are fetched from, new ones from the position asked "
     "for first, and offered to the partitioner.",
     ["histories", "inputs"],
     "every sequence of topics and partitions appearing and vanishing",
     "Tests look up one missing topic in fixed metadata.",
     ["kiel/clients/consumer.py", "kiel/clients/producer.py",
      "kiel/clients/single.py", "kiel/cluster.py"],
     [("consume", "kiel/clients/consumer.py"),
      ("produce", "kiel/clients/producer.py"),
      ("undetermined", "kiel/clients/single.py")],
     [("topics", "known partitions", "kiel/cluster.py"),
      ("offsets", "position per partition", "kiel/clients/consumer.py")])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
        assert len(p["title"]) <= 80
        assert p["statement"].count(". ") <= 2, p["id"]
