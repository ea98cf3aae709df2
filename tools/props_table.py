HOOKS = {"guard": "--cfg vaux_verif", "enable": "RUSTFLAGS='--cfg vaux_verif' (set by check.py for the harness builds)", "source_commits": []}
CODEC = "vaux-mqtt/src/codec/mod.rs"
UNIT = "The unit tests decode and encode a few dozen hand-written packets"

prop("C01", "Decoding any bytes terminates normally",
     "Decoding an arbitrary byte sequence as an MQTT packet always returns: a packet, a request for more data, or an error. It never panics, aborts, overflows, reads out of bounds or loops forever, whatever a peer sends.",
     ["inputs"], "every byte sequence (checked: every one up to the stated length, all 16 packet types)", UNIT + "; hostile input is unbounded.",
     [CODEC, "vaux-mqtt/src/codec/fixed.rs", "vaux-macro/src/decode.rs"], [("checked reads of every field", "vaux-mqtt codec decode, vaux-macro generated decode")],
     observe=["return value of the packet decoder"])
prop("C02", "Framing: one packet per frame, incomplete and malformed told apart",
     "If a packet is returned, the reported length is exactly the length of the first frame in the buffer, the packet's kind is the frame's type, its header flags are legal and bytes after the frame have no influence. A buffer that holds only part of a well-headed frame asks for more data and never yields a packet; a complete frame never asks for more data; a remaining length longer than four bytes, or longer than its value needs, is malformed.",
     ["inputs"], "every byte sequence, including every prefix of every packet followed by anything", UNIT + ", always as whole frames.",
     [CODEC, "vaux-mqtt/src/codec/fixed.rs", "vaux-macro/src/decode.rs"], [("frame splitting in the packet decoder", CODEC), ("fixed header validation", "vaux-mqtt/src/codec/fixed.rs")],
     observe=["decoder result", "reported length", "error kind"])
prop("C03", "A decoded packet can be encoded again without changing its meaning",
     "Every packet obtained by decoding can be encoded; the encoding is a complete, self-consistent frame of the same kind, and decoding it yields an equal packet (an acknowledgement without a reason code equals one with reason Success).",
     ["inputs"], "every frame that decodes", UNIT + "; forwarding needs it for every accepted packet.",
     [CODEC, "vaux-macro/src/encode.rs", "vaux-macro/src/decode.rs", "vaux-macro/src/size.rs"], [("generated Encode/Decode/CodecSize implementations", "vaux-macro")],
     observe=["encoded bytes", "decoded packet"])
for pid, name, files, extra in [
    ("C04", "CONNECT", ["vaux-mqtt/src/connect.rs", "vaux-mqtt/src/will.rs"], "client id, will (properties, topic, payload, QoS, retain), user name, password, keep-alive, clean start and all properties"),
    ("C05", "CONNACK", ["vaux-mqtt/src/connack.rs"], "session present, reason and all properties"),
    ("C06", "PUBLISH", ["vaux-mqtt/src/publish.rs"], "topic, QoS, DUP, RETAIN, packet identifier, payload and all properties"),
    ("C07", "PUBACK, PUBREC, PUBREL and PUBCOMP", ["vaux-mqtt/src/pubresp.rs"], "packet identifier, reason and properties, in the full form and in the forms that omit the properties or the reason"),
    ("C08", "SUBSCRIBE, SUBACK, UNSUBSCRIBE and UNSUBACK", ["vaux-mqtt/src/subscribe.rs", "vaux-mqtt/src/unsubscribe.rs"], "packet identifier, filters with their options, reason codes and properties, in order"),
    ("C09", "DISCONNECT, PINGREQ and PINGRESP", ["vaux-mqtt/src/disconnect.rs", "vaux-mqtt/src/lib.rs"], "reason and properties, in the full and the abbreviated forms"),
]:
    prop(pid, name.replace("PUBACK, PUBREC, PUBREL and PUBCOMP", "Acknowledgement packets").replace("SUBSCRIBE, SUBACK, UNSUBSCRIBE and UNSUBACK", "Subscription packets") + " round trip in the MQTT 5 wire layout",
         "Every %s with contents MQTT 5 allows that can be built through the API encodes to exactly the bytes MQTT 5 prescribes (properties in any order), and both that encoding and the MQTT 5 encoding of the same content with its properties in another order decode to an equal packet. This covers %s." % (name, extra),
         ["inputs", "configurations"], "every combination of field values and every selection of optional fields", UNIT + " with fixed values and mostly one optional field.",
         files + [CODEC, "vaux-macro/src/encode.rs", "vaux-macro/src/decode.rs", "vaux-macro/src/size.rs"], [("field order and attributes of the packet struct", files[0]), ("derive macros", "vaux-macro")], observe=["encoded bytes", "decoded packet"])
prop("C10", "Declared lengths always equal the bytes that follow",
     "For every packet and every size of its variable-length fields, the remaining length in the encoding equals the number of bytes that follow it and is encoded in the minimal number of bytes, the property length equals the size of the properties, and the size the packet reports equals the encoded body.",
     ["inputs"], "every field length, in particular across the 127/128, 255/256, 16 383/16 384 and 65 535 boundaries", "Tests use short fields: none crosses a length boundary.",
     [CODEC, "vaux-macro/src/size.rs", "vaux-macro/src/encode.rs"], [("generated size computation", "vaux-macro/src/size.rs")], observe=["encoded bytes", "reported codec size"])
prop("C11", "Variable byte integers are a bijection on 0..268,435,455",
     "Encoding a value up to 268,435,455 produces the minimal MQTT encoding, its announced size is the number of bytes produced, and decoding yields the value and that number of bytes; larger values are refused. Decoding accepts exactly the sequences of one to four bytes MQTT allows: the shortest one for each value.",
     ["inputs"], "all 2^32 values and all byte sequences", "Tests try single values per length.", [CODEC], [("variable byte integer functions", CODEC)], observe=["encoded bytes", "decoded value"])
prop("C12", "Code tables map each byte to the value MQTT assigns to it",
     "Reason codes, QoS levels, property identifiers, payload formats, retain handling values and packet types convert from a byte exactly when MQTT 5 defines that byte, to the constant of that name, and converting back yields the same byte.",
     ["inputs"], "all 256 byte values of every table", "Tests touch a few entries.", [CODEC, "vaux-mqtt/src/property.rs", "vaux-mqtt/src/publish.rs", "vaux-mqtt/src/subscribe.rs"], [("TryFrom<u8> tables", CODEC)], observe=["conversion result"])
prop("C13", "Flag setters change only their own field",
     "Whatever sequence of setters is applied to a packet header, CONNECT, CONNACK or subscription options, every getter returns the value last set for its field and all other fields keep theirs.",
     ["histories"], "every sequence of setter calls with every argument", "Tests set each flag once, on a fresh value.", ["vaux-mqtt/src/codec/fixed.rs", "vaux-mqtt/src/connect.rs", "vaux-mqtt/src/connack.rs", "vaux-mqtt/src/subscribe.rs"],
     [("bit masks", "vaux-mqtt/src/connect.rs, vaux-mqtt/src/codec/fixed.rs, vaux-mqtt/src/subscribe.rs")], observe=["getters"])
prop("C14", "A PUBLISH keeps QoS, packet identifier and DUP consistent",
     "A PUBLISH can only be constructed with a packet identifier exactly when its QoS is above 0. After any sequence of setter calls its encoding either is refused because QoS 1 or 2 lacks a packet identifier, or decodes to the same QoS, retain flag, packet identifier and payload, with no packet identifier and no DUP at QoS 0.",
     ["histories", "inputs"], "every sequence of setter calls", "Tests construct each QoS once and do not change it afterwards.", ["vaux-mqtt/src/publish.rs", CODEC], [("setters of the PUBLISH packet", "vaux-mqtt/src/publish.rs")], observe=["encoded bytes", "decoded packet"])
prop("C15", "Over-long strings and binary fields are refused, never truncated",
     "A string or binary field of up to 65,535 bytes is encoded and decoded unchanged; a longer one makes the encoding of its packet fail instead of producing a truncated or mis-framed packet.",
     ["inputs"], "every field and length", "Tests try single lengths of the helper functions.", [CODEC], [("length checks", CODEC)], observe=["encode result"])
prop("C16", "Each packet type accepts exactly the properties MQTT allows it",
     "A packet that carries a single, well-formed property with a value MQTT allows is accepted exactly when MQTT 5 allows that property in that packet type (or in the will), and a packet whose declared property length disagrees with its properties is rejected.",
     ["inputs"], "every property identifier in every packet type", "Tests decode a handful of properties in CONNECT, CONNACK and PUBLISH.", [CODEC, "vaux-mqtt/src/property.rs", "vaux-macro/src/decode.rs"], [("property dispatch", "vaux-macro/src/decode.rs, vaux-mqtt/src/connect.rs, vaux-mqtt/src/publish.rs")], observe=["decoder result"])
prop("C17", "User properties keep every pair, and the order of equal keys",
     "All user properties added to a packet, including repeated keys and repeated pairs, are on the wire exactly once each, and values of the same key keep their order through encoding and decoding.",
     ["inputs"], "every list of key/value pairs", "Tests use one or two distinct keys.", ["vaux-mqtt/src/property.rs"], [("user property multimap", "vaux-mqtt/src/property.rs")], observe=["encoded bytes", "decoded packet"])
prop("C18", "Only what MQTT 5 allows is accepted",
     "A frame is decoded to a packet only if its content is well formed by the rules of MQTT 5 that concern a single packet: protocol name and version, reserved bits, flags that fit each other, UTF-8 without null characters, shortest variable byte integers, non-zero packet identifiers, reason codes of the packet type (in UNSUBACK any defined reason code), subscription options in range, at least one topic filter or reason code in the packets that list them, a PUBLISH with a topic name or a topic alias, and properties that belong to the packet type, occur once (except user properties, and subscription identifiers in PUBLISH) and have allowed values. Everything else is an error.",
     ["inputs"], "every body of every packet type", UNIT + ", nearly all of them well formed; there are endlessly many ways to be malformed.",
     [CODEC, "vaux-macro/src/decode.rs", "vaux-mqtt/src/property.rs"], [("generated Decode implementations", "vaux-macro/src/decode.rs")], observe=["decoder result"])
STREAM = "vaux-async/src/stream/packet.rs"
NETWHY = "Unit tests feed whole packets through a real socket, where the kernel decides how the bytes are cut and no read is ever cancelled or fails at a chosen byte"
prop("S01", "Packets are reassembled exactly under any chunking and cancellation",
     "Reading from a packet stream yields exactly the packets the peer sent, in order, each as soon as its last byte has arrived and never before, however the bytes are cut into pieces, however many packets share a piece, and whether a pending read is kept or dropped and started again (reads are cancel safe). While the connection is open the end of the stream is never reported.",
     ["inputs", "schedules"], "every cutting of every packet sequence into pieces, every cancellation point, every buffer size", NETWHY + ".",
     [STREAM, CODEC], [("PacketStream::read", STREAM)], state=[("read buffer and read offset", "bytes received but not yet delivered", STREAM)], observe=["packets returned by read"])
prop("S02", "The end of a stream, I/O errors and malformed data are told apart",
     "Reading terminates and classifies correctly: a connection closed between packets is a clean end of stream (no packet), one closed inside a packet is an I/O error; a failed read is reported as an I/O error, a timed-out one as a time-out after which nothing is lost; malformed bytes are a codec error; incomplete data waits for more. All packets that had arrived before are delivered first. Reading never spins.",
     ["inputs", "fault_sequences"], "every fault at every byte of every packet sequence; every byte sequence", NETWHY + ".",
     [STREAM, CODEC], [("PacketStream::read", STREAM)], state=[("read buffer and read offset", "bytes received but not yet delivered", STREAM)], observe=["result of read"])
prop("S03", "Writing hands over exactly the encodings, in order, or reports an error",
     "When write returns successfully the connection has been given exactly the MQTT encoding of the packet, after those of all earlier packets and complete, however few bytes the connection accepts at a time and however often it stalls. A connection failing at any byte makes the write fail. A packet that cannot be encoded is refused and nothing of it is written. Shutdown closes the connection.",
     ["inputs", "schedules", "fault_sequences"], "every packet sequence, every pattern of partial writes, every point of failure", NETWHY + ".",
     [STREAM], [("PacketStream::write and shutdown", STREAM)], observe=["bytes given to the connection", "result of write"])
prop("S04", "The read buffer grows to its limit and no further; raw bytes are exact",
     "A packet of any size up to the configured maximum is read whatever the initial buffer size; a larger one is refused with a buffer error instead of waiting forever; the buffer never exceeds its limit and growing loses no byte, including those of the packets that follow. read_raw returns exactly the wire bytes of the packet it returns.",
     ["inputs", "configurations"], "every packet size, initial size, maximum and chunk size", NETWHY + ".",
     [STREAM], [("buffer growth in PacketStream::read", STREAM), ("PacketStream::read_raw", STREAM)], state=[("read buffer and its maximum size", "bytes received but not yet delivered", STREAM)], observe=["result of read", "buffer_size()"])
BRK = "vaux-broker/src/lib.rs"
SESS = "vaux-broker/src/session.rs"
TREE = "vaux-broker/src/topic.rs"
BWHY = "Tests run a few fixed conversations over real sockets in real time; which task runs when, how connections end and how long things take is left to chance"
TREEST = [("topic tree", "which session subscribes to which filter with which options", TREE)]
POOL = [("session pool", "active and inactive sessions by client identifier", SESS)]
prop("T01", "A message reaches a subscription exactly when its filter matches",
     "A subscription is granted exactly when its topic filter is well formed (otherwise refused with Topic Filter invalid), and a published message is delivered for a subscription, once, exactly when the filter matches the topic name by MQTT's rules: + matches one level, # any number of levels including the parent, levels may be empty, topics starting with $ are not matched by a leading wildcard. Unsubscribing ends exactly the subscription with that filter. A PUBLISH whose topic name is empty or has a wildcard reaches nobody and ends its connection.",
     ["inputs"], "every filter and every topic name, every combination of subscriptions in the tree", "Tests try about twenty filter and topic pairs.",
     [TREE, BRK], [("TopicTree::add_subscriber, unsubscribe, matching_subscribers", TREE), ("valid_filter", TREE)], state=TREEST, observe=["SUBACK and UNSUBACK codes", "PUBLISH packets received by subscribers"])
prop("T02", "Any history of SUBSCRIBE and UNSUBSCRIBE leaves the right subscriptions",
     "After any sequence of SUBSCRIBE and UNSUBSCRIBE packets of any clients, a published message is delivered to each client once per matching subscription in force, at the smaller of the message's and the subscription's QoS, not to the publisher itself where No Local is set. A second subscription with the same filter replaces the first. Acknowledgements carry the packet identifier and one reason code per filter in order: the granted QoS, and for UNSUBSCRIBE whether the subscription existed.",
     ["histories", "inputs"], "every sequence of subscribe and unsubscribe operations", "Tests subscribe once and publish.",
     [TREE, BRK], [("TopicTree", TREE), ("handle_subscribe, handle_unsubscribe, route_publish", BRK)], state=TREEST, observe=["SUBACK and UNSUBACK packets", "PUBLISH packets received by subscribers"])
prop("B01", "A delivered message is the published one, with the right flags",
     "A message delivered to a subscriber has the topic, payload and message properties it was published with (values of one user property in order), the smaller of the two QoS levels, DUP clear, RETAIN clear unless the subscription asks for Retain As Published, the subscription identifier of the subscription if it has one, and no topic alias of the publisher's connection.",
     ["inputs", "configurations"], "every content of a PUBLISH, every subscription option", "Tests publish one short message without properties.",
     [BRK, "vaux-mqtt/src/publish.rs"], [("route_publish", BRK)], observe=["PUBLISH packets received by subscribers"])
prop("B02", "Every QoS 1 PUBLISH and PINGREQ is answered once, order is kept",
     "However requests are pipelined and tasks are scheduled, each QoS 1 PUBLISH is acknowledged with exactly one PUBACK carrying its packet identifier and each PINGREQ with one PINGRESP, in the order of the requests; QoS 0 messages are not answered; and every subscriber gets all messages once, in the order one client published them in, none lost.",
     ["inputs", "schedules"], "every sequence of requests, every division into pieces, every schedule", BWHY + ".",
     [BRK, STREAM], [("handle_packet, route_publish", BRK), ("handle_control", BRK)], state=[("session control channel", "messages on their way to a connection", SESS)], observe=["packets received by publisher and subscribers"])
prop("B03", "Outgoing packet identifiers are never zero and never in use",
     "Every QoS 1 message the broker sends has a non-zero packet identifier that differs from those of all messages sent to that session and not yet acknowledged, also after more than 65,535 messages and across reconnections.",
     ["histories"], "every history of deliveries, acknowledgements and reconnections", "No test delivers more than a handful of messages.",
     [SESS, BRK], [("Session::next_packet_id, track_qos_publish, acknowledge", SESS)], state=[("next_packet_id, pending_ack", "identifiers in use", SESS)], observe=["PUBLISH packets received by subscribers"])
prop("B04", "Sessions survive exactly as long as agreed, with everything in them",
     "A session is resumed, and CONNACK says so, exactly when the client asks for it, a session exists and its expiry interval has not passed since its connection ended, in whatever way it ended. The interval is the one agreed on connecting, or given in DISCONNECT. A resumed session has its subscriptions, and exactly its unacknowledged QoS 1 messages, including those published while the client was away, are delivered once per connection: in order, unchanged, under their packet identifiers, with DUP if they were sent before, until they are acknowledged. Otherwise the client starts afresh: no subscription and no message of the earlier session has any effect. Nothing is sent on a connection that has ended.",
     ["histories", "fault_sequences"], "every way a connection ends, every time the client stays away, every choice of clean start and expiry", BWHY + ".",
     [BRK, SESS, TREE], [("handle_connect, connection_closed", BRK), ("Session::pending, expired", SESS)], state=POOL + [("pending_ack", "unacknowledged messages", SESS)], observe=["CONNACK", "packets received after reconnecting"])
prop("B05", "Nothing takes effect before CONNECT is accepted",
     "Until its CONNECT has been accepted, nothing a connection sends subscribes, publishes or disturbs a session: a first packet other than CONNECT closes the connection (a PINGREQ may be answered), and so does a refused CONNECT, whatever follows it. A CONNECT for another protocol, malformed, with an authentication method (none is supported), or with a will topic that is empty or has a wildcard, is not accepted.",
     ["inputs", "histories"], "every byte sequence a connection may start with", "Tests send one wrong first packet.",
     [BRK, "vaux-mqtt/src/connect.rs"], [("handle_pre_connect", BRK), ("Connect::decode", "vaux-mqtt/src/connect.rs")], observe=["packets received by others", "end of the connection"])
prop("B06", "CONNACK tells the client the values the broker applies",
     "The keep alive a client is to use according to CONNACK is its own when within the configured bounds and the nearer bound otherwise; its session expiry is the requested one limited by the configured maximum, and it is told whenever that is less than requested; a client without identifier is assigned one of its own, and no other client is. Shared subscriptions and retained messages either work or are announced to be unavailable, and then refused.",
     ["inputs", "configurations"], "every requested keep alive and expiry, every configuration", "Tests try one value in each range.",
     [BRK, "vaux-mqtt/src/connack.rs"], [("handle_connect", BRK)], observe=["CONNACK"])
prop("B07", "The session limit counts exactly the connected sessions",
     "With a limit on active sessions, a CONNECT is accepted exactly when fewer sessions are connected, or when it takes over a connected one; otherwise it is refused with Quota exceeded. The count stays right through every history of connects, takeovers, disconnects and failures, and connected clients stay served.",
     ["histories", "configurations"], "every history of connects and ends of connections, every limit", "Tests reach the limit once.",
     [BRK, SESS], [("SessionPool counters", SESS), ("handle_connect, connection_closed", BRK)], state=POOL, observe=["CONNACK", "PINGRESP on live connections"])
prop("B08", "A takeover moves the session to the new connection, whatever the old does",
     "When a client identifier connects again, the previous connection is told Session taken over (if it still can be) and closed, the new one is accepted and owns the session (or a fresh one with clean start): messages are delivered to it only, once, and neither the end of the previous connection nor anything it still sends has an effect, under every schedule.",
     ["schedules", "fault_sequences"], "every state of the previous connection, every interleaving of the two", BWHY + ".",
     [BRK, SESS], [("handle_takeover, connection_closed", BRK), ("Session::reset_control", SESS)], state=POOL, observe=["packets on both connections", "packets received by others"])
prop("B09", "A will message is published exactly when and as MQTT says",
     "When a connection ends in any way other than a normal DISCONNECT, its will message is published exactly once: immediately, or after the will delay but not after the session has ended, unless the client has resumed its session by then; after a normal DISCONNECT it is not, and never while the client is connected. It is published with the topic, payload, QoS and properties given in CONNECT and, for subscriptions that ask for it, its retain flag.",
     ["inputs", "fault_sequences", "histories"], "every way a connection ends, every delay and return, every will message", BWHY + ".",
     [BRK, SESS, "vaux-mqtt/src/will.rs"], [("connection_closed, publish_will", BRK)], state=[("will_message, pending_will", "will of a session and its delay", SESS)], observe=["PUBLISH packets received by subscribers"])
prop("B10", "Silent clients are disconnected in time, and only those",
     "A client that sends some packet within every keep-alive interval is never disconnected; one that stays silent is disconnected after the interval and at the latest after one and a half times it, with reason Keep Alive timeout, its session ends and its will is published - whatever is sent to it meanwhile.",
     ["schedules", "configurations", "histories"], "every keep alive, every pattern of packets in both directions", BWHY + ".",
     [BRK], [("keep_alive_timer in handle_control", BRK)], observe=["DISCONNECT", "end of the connection"])
prop("B11", "No bytes from one client harm the others or the broker",
     "Whatever bytes a client sends, before or after connecting, and although connections fail before they are accepted, the other clients keep getting exactly their messages and answers, new clients can connect, and the broker neither stops nor spins.",
     ["inputs"], "every byte sequence", "Tests send well-formed packets.",
     [BRK, STREAM, CODEC], [("handle_client", BRK)], observe=["packets received by the other clients"])
prop("B12", "A subscriber that does not read holds up nobody and loses nothing",
     "A subscriber that stops reading delays neither the publisher nor any other subscriber. What it gets is a prefix of what was published, in order; if its queue overflows it is disconnected with Quota exceeded, and its unacknowledged messages are delivered when it resumes its session.",
     ["schedules", "fault_sequences"], "every number of messages and queue size", BWHY + ".",
     [BRK, SESS], [("route_publish", BRK), ("Session::try_send_control, disconnect", SESS)], state=[("session control channel", "messages on their way to a connection", SESS)], observe=["packets received by all clients"])
prop("B13", "A client that breaks the protocol is disconnected, without effect",
     "After CONNECT, a second CONNECT, a packet that only servers send, AUTH (no authentication method is supported), a packet of a reserved type, a PUBLISH with a wildcard in its topic name or with a topic alias (none is allowed), or a DISCONNECT that sets a session expiry when CONNECT had none, closes the connection; at most a DISCONNECT with an error reason is sent, and nothing that follows has an effect.",
     ["inputs", "histories"], "every content of the offending packet", "Tests send packets a client may send.",
     [BRK, CODEC], [("handle_packet", BRK)], observe=["end of the connection", "DISCONNECT", "packets received by others"])
prop("B14", "Waiting messages respect their message expiry interval",
     "A message with a message expiry interval that waits in the broker, because its subscriber is away or does not read, is delivered only before the interval has passed, with the interval reduced by the time it waited (in whole seconds, an interval of zero counting as less than one); messages without interval do not expire, and expired ones do not come back.",
     ["inputs", "histories"], "every interval and waiting time", "No test sets a message expiry interval.",
     [BRK, SESS], [("Session::pending, message_expired", SESS), ("handle_connection", BRK)], state=[("pending_ack", "messages to be acknowledged, and when they came", SESS)], observe=["PUBLISH packets received by subscribers"])
CLI = "vaux-client/src/client.rs"
CSESS = "vaux-client/src/session.rs"
CWHY = "The client's tests need a real server and real time, try one configuration, and leave scheduling and failures to chance"
CST = [("SessionState", "flows that are not complete, quotas, identifiers", CSESS)]
prop("K01", "CONNECT says what was configured; CONNACK decides what happens",
     "A client that starts sends exactly one CONNECT with the client identifier, keep alive, session expiry, clean start, credentials, will, receive maximum and maximum packet size that were configured (a keep alive below 30 s is refused when the client is built), and nothing else before CONNACK; a CONNECT that cannot be encoded is an error; it never waits for its connection longer than it was told to, and try_start succeeds exactly if the client is connected within the time given; after it has failed it does not connect. It is connected exactly from a successful CONNACK on, with the keep alive and session expiry of the server where given, and, if it has no identifier, the one assigned to it, which it keeps in its session. A refusal, DISCONNECT, other packet, malformed bytes, the end of the connection or no CONNACK within the maximum wait end the client with an error that tells the server's reason, a time-out, or a protocol error.",
     ["configurations", "inputs", "fault_sequences"], "every configuration and every answer of the server", CWHY + ".",
     [CLI, CSESS, "vaux-client/src/builder.rs", "vaux-mqtt/src/connect.rs"], [("ClientSession::connect, handle_connack", CSESS), ("ClientBuilder::build", "vaux-client/src/builder.rs")], state=CST, observe=["CONNECT", "connected(), keep_alive(), session_expiry()", "result of the client task"])
prop("K02", "Each message is sent once, unchanged, and its QoS flow is completed",
     "Every message the application hands over is sent exactly once per connection, in order, with its topic, payload, QoS and retain flag and with DUP clear; a QoS 1 or 2 message has the packet identifier the application gave it, or else one that is not zero and not used by another message whose flow is not complete. A message that cannot be encoded, or to which the application gave identifier zero or one that is in use, is refused, and the open flows are not disturbed. Every PUBREC that reports no error is answered by one PUBREL with its identifier; every acknowledgement is passed on to the application exactly once; one that reports an error ends the flow. Whatever the order of the acknowledgements, the client goes on, also after more than 65,535 messages.",
     ["histories", "inputs"], "every sequence of messages and acknowledgements", CWHY + ".",
     [CLI, CSESS], [("ClientSession::write_next, handle_packet", CSESS)], state=CST, observe=["packets sent", "packets passed on"])
prop("K03", "The receive maximum of the server is never exceeded, and fully used",
     "The number of QoS 1 and 2 messages on their way never exceeds the Receive Maximum of the server's CONNACK on that connection; messages beyond it wait and are sent, in order, as soon as flows end (PUBACK, PUBCOMP, or PUBREC with an error); QoS 0 messages and other packets do not wait.",
     ["histories", "configurations"], "every sequence of messages and acknowledgements, every receive maximum", CWHY + ".",
     [CSESS], [("send_unsent, sent_qos", CSESS)], state=CST + [("qos_send_remaining, unsent_qos", "send quota and waiting messages", CSESS)], observe=["packets sent"])
prop("K04", "Received messages are acknowledged and passed on exactly once, in order",
     "Every QoS 1 PUBLISH is answered by PUBACK, every QoS 2 PUBLISH, also a repeated one, by PUBREC and every PUBREL by PUBCOMP (which says so if the identifier is unknown), in order; every message is passed on unchanged, in order, to the channel for its packet type or else the default one, and exactly once: a QoS 2 message repeated before its PUBREL is not passed on again. Acknowledgements handed over by the application are not sent in addition. If the application does not take packets the client stops reading after one more packet than the channel holds, loses nothing, and still sends. A server that exceeds the receive maximum the client announced ends the connection with a protocol error.",
     ["histories", "schedules", "inputs"], "every sequence of packets, every time the application takes them", CWHY + ".",
     [CLI, CSESS], [("handle_recv_publish, handle_packet", CSESS), ("forward_pending", CLI)], state=CST + [("undelivered", "packet received that the consumer has no room for", CSESS)], observe=["packets sent", "packets passed on"])
prop("K05", "The client is never silent for longer than the keep alive",
     "A connected client sends some packet within every keep-alive interval, whatever it receives and whether or not the application takes its packets: a PINGREQ when nothing else was sent for the interval, not before, and one at a time. The interval is the server's, if CONNACK gives one, else the configured one; zero, or switching it off, means no PINGREQ at all. A PINGRESP is not passed on unless asked for.",
     ["schedules", "configurations"], "every keep alive, every moment at which packets are sent and received", CWHY + ".",
     [CLI, CSESS], [("keep_alive_timer, idle", CLI)], state=[("last_active", "when a packet was last sent", CSESS)], observe=["packets sent and when"])
prop("K06", "No bytes of the server crash the client or complete another flow",
     "Whatever bytes the server sends, before or in the middle of QoS flows, the client neither panics nor spins, sends only acknowledgements, ends with an error and its session state when the connection ends, and the flow of a message ends only by an acknowledgement of the right kind with its packet identifier.",
     ["inputs"], "every packet of every type", CWHY + "; they send well-formed packets.",
     [CSESS, STREAM, CODEC], [("handle_packet", CSESS)], state=CST, observe=["packets sent after resuming the session", "result of the client task"])
prop("K07", "A resumed session continues every flow, and only those",
     "When a session is resumed with the state of a client whose connection ended at any point, and the server still has it, exactly the QoS 1 and 2 messages that were not acknowledged are sent again, in order, unchanged, with DUP and their packet identifiers; PUBREL where PUBREC had been received; waiting messages follow as the receive maximum allows. If the server has no session, only messages that were never sent are sent. A QoS 2 message received before is not passed on again when the server repeats it, a packet that the application had not taken is passed on, and packet identifiers freed by the server may be used for new messages.",
     ["histories", "fault_sequences"], "every history, every point at which it is cut off", CWHY + ".",
     [CSESS, CLI], [("resume, handle_connack", CSESS)], state=CST, observe=["packets sent and passed on after reconnecting"])
prop("K08", "Every end of a connection is reported, and stopping is orderly",
     "However the connection ends - closed, failing, DISCONNECT with a reason, or the application drops its consumer - the client ends, closes the connection, is no longer connected, and reports an error (with the reason of a DISCONNECT) and its session state; the error handler, if there is one, is given that error, once. Stopped by the application, it first sends everything handed over before, then DISCONNECT, and reports success.",
     ["fault_sequences"], "every way a connection ends, with any messages on their way", CWHY + ".",
     [CLI], [("MqttClient::start", CLI)], state=CST, observe=["result of the client task", "connected()", "packets sent", "error handler channel"])
prop("K09", "With manual acknowledgement the application alone acknowledges",
     "With automatic acknowledgement off, the client sends no PUBACK, PUBREC, PUBREL or PUBCOMP of its own, sends those of the application unchanged, passes on everything it receives, keeps both receive maximums as the application's acknowledgements complete the flows, and refuses messages beyond its own. With it on, acknowledgements from the application are not sent.",
     ["histories"], "every order of messages and acknowledgements", "No test turns automatic acknowledgement off.",
     [CLI, CSESS], [("track_response", CSESS)], state=CST, observe=["packets sent and passed on"])
prop("K10", "A start that fails for want of a connection can be repeated",
     "Starting a client whose connection is refused, or takes longer than the client or the application waits, fails with an error in time, and the client is not connected and uses no connection. It can be started again: then it connects with its client identifier and session, sends what the application handed over in the meantime exactly once, in order, and works as if nothing had happened.",
     ["fault_sequences"], "every number of failures of every kind, and any waiting time", "Tests start clients once, against servers that answer.",
     [CLI, "vaux-client/src/connection.rs"], [("MqttClient::start, try_start", CLI), ("connect_with_timeout", "vaux-client/src/connection.rs")], observe=["result of start and try_start", "packets sent after the start that succeeds"])
prop("K11", "Requests are sent as asked and their answers passed on as they came",
     "Every SUBSCRIBE, UNSUBSCRIBE and PINGREQ of the application, handed over as a packet or by a helper function of the client, is sent exactly once, exactly as asked, whatever QoS 1 and 2 messages the server can receive; every SUBACK and UNSUBACK is passed on exactly once with its packet identifier and reason codes, and a PINGRESP exactly if the client was configured to.",
     ["inputs", "histories"], "every content of the requests and answers, every order", CWHY + ".",
     [CLI, CSESS], [("MqttClient::subscribe, ping", CLI), ("write_next, handle_packet", CSESS)], observe=["packets sent and passed on"])
prop("E01", "Messages between vaux clients through the vaux broker arrive exactly once",
     "With the client and the broker of this repository connected to each other, every QoS 0 or 1 message an application publishes arrives exactly once, in order and unchanged, at the applications whose subscription matches (at the smaller QoS, without retain and duplicate flag) and nowhere else; subscriptions and messages are acknowledged to the application. A will message arrives exactly if the connection breaks; a client whose session is taken over is told so, and the other goes on.",
     ["inputs", "histories"], "every content, every topic and filter, every order", "Tests of the client run against no broker, those of the broker against no client.",
     [CLI, BRK], [("client task", CLI), ("broker tasks", BRK)], observe=["packets each application gets"])
prop("E02", "No QoS 1 message is lost when a connection breaks anywhere",
     "If the connection of the sending or the receiving client breaks after any number of bytes in either direction and the client resumes its session, every QoS 1 message handed over arrives at least once, first arrivals in order, repetitions (by the broker) marked as duplicates, and everything goes on.",
     ["fault_sequences"], "every point at which a connection breaks", "No test breaks a connection.",
     [CLI, CSESS, BRK, SESS], [("resume", CSESS), ("Session::pending", SESS)], state=CST + POOL, observe=["packets each application gets"])
prop("E03", "An idle client stays connected, whatever keep alive is agreed",
     "A vaux client that sends nothing but its PINGREQs stays connected to a vaux broker, whatever keep alive the client asks for and whatever default and maximum the broker is configured with.",
     ["configurations", "schedules"], "every keep alive of the client, every configuration of the broker", "Tests take at most seconds.",
     [CLI, BRK], [("keep_alive_timer", CLI), ("keep_alive_timer, handle_connect", BRK)], observe=["connected()"])
