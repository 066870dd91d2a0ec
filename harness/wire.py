"""The documented layout of every request and response type, as data.

Field types: i8 i16 i32 i64 str bytes, [T] arrays, ("Class", fields) for
nested structures built from the class of that name."""

def S(cls, *fields):
    return (cls, list(fields))


REQUESTS = [
    # module, class, api key, fields
    ("metadata", "MetadataRequest", 3, [("topics", ["str"])]),
    ("produce", "ProduceRequest", 0, [
        ("required_acks", "i16"), ("timeout", "i32"),
        ("topics", [S("TopicRequest", ("name", "str"), ("partitions", [
            S("PartitionRequest", ("partition_id", "i32"),
              ("message_set", "mset"))]))])]),
    ("fetch", "FetchRequest", 1, [
        ("replica_id", "i32"), ("max_wait_time", "i32"),
        ("min_bytes", "i32"),
        ("topics", [S("TopicRequest", ("name", "str"), ("partitions", [
            S("PartitionRequest", ("partition_id", "i32"),
              ("offset", "i64"), ("max_bytes", "i32"))]))])]),
    ("offset", "OffsetRequest", 2, [
        ("replica_id", "i32"),
        ("topics", [S("TopicRequest", ("name", "str"), ("partitions", [
            S("PartitionRequest", ("partition_id", "i32"),
              ("time", "i64"), ("max_offsets", "i32"))]))])]),
    ("offset_commit", "OffsetCommitV0Request", 8, [
        ("group", "str"),
        ("topics", [S("TopicRequest", ("name", "str"), ("partitions", [
            S("PartitionRequest", ("partition_id", "i32"),
              ("offset", "i64"), ("metadata", "str"))]))])]),
    ("offset_commit", "OffsetCommitV1Request", 8, [
        ("group", "str"), ("generation", "i32"), ("consumer_id", "i32"),
        ("topics", [S("TopicV1Request", ("name", "str"), ("partitions", [
            S("PartitionV1Request", ("partition_id", "i32"),
              ("offset", "i64"), ("timestamp", "i64"),
              ("metadata", "str"))]))])]),
    ("offset_commit", "OffsetCommitV2Request", 8, [
        ("group", "str"), ("generation", "i32"), ("consumer_id", "i32"),
        ("retention_time", "i64"),
        ("topics", [S("TopicRequest", ("name", "str"), ("partitions", [
            S("PartitionRequest", ("partition_id", "i32"),
              ("offset", "i64"), ("metadata", "str"))]))])]),
    ("offset_fetch", "OffsetFetchRequest", 9, [
        ("group_name", "str"),
        ("topics", [S("TopicRequest", ("name", "str"),
                      ("partitions", ["i32"]))])]),
    ("coordinator", "GroupCoordinatorRequest", 10, [("group", "str")]),
    ("join_group", "JoinGroupRequest", 11, [
        ("group_id", "str"), ("session_timeout", "i32"),
        ("member_id", "str"), ("protocol_type", "str"),
        ("group_protocols", [S(
            "GroupProtocol", ("name", "str"), ("version", "i16"),
            ("subscription", ["str"]), ("user_data", "bytes"))])]),
    ("heartbeat", "HeartbeatRequest", 12, [
        ("group_id", "str"), ("generation_id", "i32"),
        ("member_id", "str")]),
    ("leave_group", "LeaveGroupRequest", 13, [
        ("group_id", "str"), ("member_id", "str")]),
    ("sync_group", "SyncGroupRequest", 14, [
        ("group_id", "str"), ("generation_id", "i32"),
        ("member_id", "str"),
        ("assignments", [S(
            "MemberAssignment", ("member_id", "str"),
            ("assignment", S(
                "Assignment", ("version", "i16"),
                ("topics", [S("TopicAssignment", ("name", "str"),
                              ("partitions", ["i32"]))]),
                ("user_data", "bytes"))))])]),
    ("describe_groups", "DescribeGroupsRequest", 15, [("groups", ["str"])]),
    ("list_groups", "ListGroupsRequest", 16, []),
]

RESPONSES = [
    ("metadata", "MetadataResponse", [
        ("brokers", [S("Broker", ("broker_id", "i32"), ("host", "str"),
                       ("port", "i32"))]),
        ("topics", [S("TopicMetadata", ("error_code", "i16"),
                      ("name", "str"), ("partitions", [
                          S("PartitionMetadata", ("error_code", "i16"),
                            ("partition_id", "i32"), ("leader", "i32"),
                            ("replicas", ["i32"]), ("isrs", ["i32"]))]))])]),
    ("produce", "ProduceResponse", [
        ("topics", [S("TopicResponse", ("name", "str"), ("partitions", [
            S("PartitionResponse", ("partition_id", "i32"),
              ("error_code", "i16"), ("offset", "i64"))]))])]),
    ("fetch", "FetchResponse", [
        ("topics", [S("TopicResponse", ("name", "str"), ("partitions", [
            S("PartitionResponse", ("partition_id", "i32"),
              ("error_code", "i16"), ("highwater_mark_offset", "i64"),
              ("message_set", "mset"))]))])]),
    ("offset", "OffsetResponse", [
        ("topics", [S("TopicResponse", ("name", "str"), ("partitions", [
            S("PartitionResponse", ("partition_id", "i32"),
              ("error_code", "i16"), ("offsets", ["i64"]))]))])]),
    ("offset_commit", "OffsetCommitResponse", [
        ("topics", [S("TopicResponse", ("name", "str"), ("partitions", [
            S("PartitionResponse", ("partition_id", "i32"),
              ("error_code", "i16"))]))])]),
    ("offset_fetch", "OffsetFetchResponse", [
        ("topics", [S("TopicResponse", ("name", "str"), ("partitions", [
            S("PartitionResponse", ("partition_id", "i32"),
              ("offset", "i64"), ("metadata", "str"),
              ("error_code", "i16"))]))])]),
    ("coordinator", "GroupCoordinatorResponse", [
        ("error_code", "i16"), ("coordinator_id", "i32"),
        ("coordinator_host", "str"), ("coordinator_port", "i32")]),
    ("join_group", "JoinGroupResponse", [
        ("error_code", "i16"), ("generation_id", "i32"),
        ("protocol", "str"), ("leader_id", "str"), ("member_id", "str"),
        ("members", [S("Member", ("member_id", "str"),
                       ("metadata", "bytes"))])]),
    ("heartbeat", "HeartbeatResponse", [("error_code", "i16")]),
    ("leave_group", "LeaveGroupResponse", [("error_code", "i16")]),
    ("sync_group", "SyncGroupResponse", [
        ("error_code", "i16"),
        ("assignments", [S(
            "MemberAssignment", ("member_id", "str"),
            ("assignment", S(
                "Assignment", ("version", "i16"),
                ("topics", [S("TopicAssignment", ("name", "str"),
                              ("partitions", ["i32"]))]),
                ("user_data", "bytes"))))])]),
    ("describe_groups", "DescribeGroupsResponse", [
        ("groups", [S(
            "GroupDescription", ("error_code", "i16"), ("group_id", "str"),
            ("state", "str"), ("protocol_type", "str"), ("protocol", "str"),
            ("members", [S(
                "MemberDescription", ("member_id", "str"),
                ("client_id", "str"), ("client_host", "str"),
                ("metadata", "bytes"), ("assignment", S(
                    "Assignment", ("version", "i16"),
                    ("topics", [S("TopicAssignment", ("name", "str"),
                                  ("partitions", ["i32"]))]),
                    ("user_data", "bytes"))))]))])]),
    ("list_groups", "ListGroupsResponse", [
        ("error_code", "i16"),
        ("groups", [S("Group", ("group_id", "str"),
                      ("protocol_type", "str"))])]),
]
