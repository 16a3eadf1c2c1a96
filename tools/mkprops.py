#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Every accepted call becomes exactly the MQTT v5 packet it asked for",
  "Each accepted publish, subscribe, unsubscribe or disconnect call puts exactly one well-formed MQTT v5 packet on the wire, carrying precisely the call's topic, payload bytes, QoS, user-supplied properties (kind, value and order, after the payload-format indicator the builder sets) and clear DUP/RETAIN flags. This holds for any Unicode text and any size, from empty up to the protocol limits of 65,535 bytes per string or binary value and 268,435,455 bytes of remaining length.",
  ["inputs", "histories"], "all sequences of API calls with arbitrary contents and sizes",
  "Tests parse three tiny PUBLISH packets and never look at a byte the client sends; no encoder is tested.",
  ["src/client.rs", "src/lib.rs", "src/protocol/mod.rs", "src/protocol/publish.rs", "src/protocol/properties.rs", "src/protocol/subscribe.rs", "src/protocol/unsubscribe.rs", "src/protocol/disconnect.rs", "src/mqtt_codec.rs"],
  [("ToMqttBytes impls", "src/protocol/*.rs"), ("variable byte integer encoding", "src/protocol/mod.rs: VBI"), ("PublishBuilder::build", "src/client.rs"), ("MqttCodec encoder", "src/mqtt_codec.rs")],
  observe=["bytes received by the server end of the TCP connection", "Result of each API call"])

p("C02", "Input that MQTT cannot represent is refused at the call and never sent",
  "A publish, subscribe or unsubscribe call containing a topic, property string or binary value longer than 65,535 bytes, or a publish whose remaining length would exceed 268,435,455 bytes, returns an error. Such a call puts nothing on the wire and does not disturb the connection or any other call.",
  ["inputs"], "all oversized inputs, in every field that has a two-byte length, alone and mixed with valid calls",
  "No test sends anything; a silent 16-bit length truncation corrupts the packet framing and looks fine to every existing test.",
  ["src/client.rs", "src/protocol/mod.rs", "src/protocol/properties.rs"],
  [("length validation before the command is queued", "src/client.rs: Client::{publish,subscribe,unsubscribe}")],
  observe=["Result of the call", "bytes received by the server"])

p("C03", "Every well-formed server packet is surfaced exactly, or handled, exactly once",
  "Every well-formed CONNACK, PUBLISH (QoS 0 or 1), SUBACK or UNSUBACK of the supported property kinds yields exactly one notification, of its own kind, that carries the packet's content unchanged: session-present flag, reason, topic, payload (text when the payload-format indicator says UTF-8, otherwise bytes), DUP, QoS, RETAIN, packet identifier and all properties with kind, value and order. A well-formed PUBACK or PINGRESP, with or without optional reason and properties, yields no notification, and none of these packets, except a CONNACK that refuses the connection, ends it.",
  ["inputs"], "all well-formed server packets: every reason code, property list, flag combination, Unicode content and size",
  "Tests decode three hand-written PUBLISH packets and four PUBACK property lists; SUBACK, UNSUBACK, CONNACK, DISCONNECT and four of the five PUBLISH property kinds are never decoded.",
  ["src/protocol/mod.rs", "src/protocol/publish.rs", "src/protocol/properties.rs", "src/protocol/connack.rs", "src/protocol/suback.rs", "src/protocol/unsuback.rs", "src/protocol/puback.rs", "src/protocol/pingresp.rs", "src/lib.rs"],
  [("FromMqttBytes impls", "src/protocol/*.rs"), ("dispatch to notifications", "src/lib.rs: poll")],
  observe=["Notification stream", "outcome of the event loop"])

p("C04", "How the byte stream is cut into TCP segments never matters",
  "For any sequence of server packets the notifications delivered, the packets sent in reply and the final outcome are the same however the bytes are split or coalesced: byte by byte, several packets in one segment, cuts inside the length field or inside a character, packets larger than any internal buffer, or CONNACK glued to what follows. A packet is acted on once all its bytes have arrived, without waiting for later bytes.",
  ["inputs", "schedules"], "all packet sequences and all ways to cut their concatenation",
  "Tests hand complete packets to the parser; the streaming decoder is not tested at all.",
  ["src/mqtt_codec.rs", "src/protocol/mod.rs", "src/lib.rs"],
  [("MqttCodec::decode: incomplete packets are left in the buffer", "src/mqtt_codec.rs"), ("VBI NotEnoughBytes", "src/protocol/mod.rs")],
  observe=["Notification stream", "bytes received by the server", "outcome"])

p("C05", "No byte stream from the server can panic, wedge or outlive the event loop",
  "Whatever bytes the server sends, before or after CONNACK, cut at any point by a close or a reset, the event loop never panics and never gets stuck: it keeps serving or finishes with a result, and it always finishes once the connection is closed, and, on an established session, once the server has fallen silent for good. Well-formed packets in front of the damage are handled as usual.",
  ["inputs", "fault_sequences"], "all byte streams, truncations and connection cuts",
  "Tests feed two malformed strings; robustness against arbitrary input is a statement about every byte string.",
  ["src/protocol/mod.rs", "src/protocol/publish.rs", "src/protocol/properties.rs", "src/protocol/connack.rs", "src/protocol/suback.rs", "src/protocol/unsuback.rs", "src/protocol/puback.rs", "src/protocol/disconnect.rs", "src/mqtt_codec.rs", "src/lib.rs"],
  [("length checks returning NotEnoughBytes / InvalidData", "src/protocol/*.rs"), ("error branch of the read arm", "src/lib.rs: poll")],
  observe=["panics out of the event-loop future", "outcome of the event loop after the stream ends", "Notification stream"])

p("C06", "Malformed or unsupported packets end the connection with an error, unseen",
  "A packet that breaks the protocol (reserved packet type, length field over four bytes, a field, string or property list overrunning its packet, invalid UTF-8, QoS 3, zero packet identifier, unknown reason code or property, text payload that is not UTF-8) or that the client does not support (QoS 2 PUBLISH, PUBREC, PUBREL, PUBCOMP, AUTH, client-only packets) makes the event loop finish with an error. That packet and everything after it is neither notified nor acknowledged, and everything before it is handled as usual.",
  ["inputs"], "all positions and kinds of damage in otherwise valid streams",
  "Tests contain one malformed string and one malformed reason string; nothing checks that a bad packet is not delivered.",
  ["src/protocol/mod.rs", "src/protocol/qos.rs", "src/protocol/publish.rs", "src/protocol/properties.rs", "src/protocol/connack.rs", "src/protocol/suback.rs", "src/protocol/unsuback.rs", "src/protocol/puback.rs", "src/protocol/disconnect.rs", "src/mqtt_codec.rs", "src/lib.rs"],
  [("ConvertError to io::Error", "src/protocol/mod.rs"), ("TryFrom<u8> for reason codes and QoS", "src/protocol/*.rs"), ("QoS 2 branch", "src/lib.rs: poll")],
  observe=["outcome of the event loop", "Notification stream", "bytes received by the server"])

p("C07", "A packet identifier is never zero and never in use twice",
  "Every QoS 1/2 PUBLISH, SUBSCRIBE and UNSUBSCRIBE carries a non-zero packet identifier that differs from those of all such packets not yet answered, whatever the order of acknowledgements. A stray acknowledgement (duplicate, for an identifier not in use, or of the wrong kind for the request that holds it) releases nothing and does not end the connection.",
  ["histories", "inputs"], "all interleavings of requests and acknowledgements, including stray acknowledgements",
  "Four unit tests replay at most twenty allocator steps each with correct returns; no test drives acknowledgements through the event loop.",
  ["src/pktids.rs", "src/lib.rs"],
  [("free-range list", "src/pktids.rs: PktIds"), ("release on SUBACK/UNSUBACK/PUBACK only if that request is pending", "src/lib.rs: poll")],
  state=[("free ranges", "identifiers not in use", "src/pktids.rs: PktIds.ranges"), ("pending requests", "identifiers in use and by what", "src/lib.rs: poll")],
  observe=["identifiers in packets received by the server against acknowledgements it sent"])

p("C08", "Answered identifiers are reusable for ever; all 65,535 can be outstanding",
  "Every identifier whose request has been answered becomes available again, so any number of requests can be made over one connection and, after any history, exactly the identifiers 1..=65535 not outstanding can still be handed out. When all 65,535 are outstanding a further request that needs one is not lost and breaks nothing: it goes out once an acknowledgement has released an identifier.",
  ["histories"], "all histories of requests and acknowledgements of any length, including exhaustion",
  "The exhaustion test uses an allocator of five identifiers; leaks and the 16-bit edge only show after tens of thousands of operations.",
  ["src/pktids.rs", "src/lib.rs"],
  [("next_id / return_id", "src/pktids.rs"), ("commands are taken only while an identifier is free", "src/lib.rs: poll")],
  state=[("free ranges", "identifiers not in use", "src/pktids.rs: PktIds.ranges")],
  observe=["identifiers in packets received by the server", "number of requests that reach the wire"])

p("C09", "Each QoS 1 message received is acknowledged exactly once, with its identifier",
  "For every QoS 1 PUBLISH received the client sends exactly one success PUBACK with the same packet identifier, in the order the messages arrived, including redeliveries and reused identifiers, and even if the application has dropped its notification receiver. Nothing else makes it send a PUBACK.",
  ["inputs", "histories"], "all sequences of server packets and identifiers 1..=65535, mixed with client traffic",
  "No test sends a QoS 1 message to the event loop; the acknowledgement path is not executed by any test.",
  ["src/lib.rs", "src/protocol/puback.rs", "src/protocol/mod.rs"],
  [("PUBACK on QoS 1 PUBLISH", "src/lib.rs: poll"), ("PUBACK encoder", "src/protocol/puback.rs, src/protocol/mod.rs: Packet::convert_to_mqtt")],
  observe=["PUBACK packets received by the server against PUBLISH packets it sent"])

p("C10", "Accepted calls are sent exactly once, in order, from any number of threads",
  "Calls return without waiting for the network; a call that returned Ok (before any disconnect) is sent exactly once, a call that returned an error is never sent, and if one accepted call returned before another began (on the same or different clones of the handle) they are sent in that order. This holds for any number of threads and handles, any speed of the server (including one that stops reading for less than a keep-alive interval), and all calls accepted before disconnect are sent before the DISCONNECT packet and reach the server even if it lags behind; what is called after a disconnect call that returned Ok is never sent.",
  ["schedules", "histories"], "all interleavings of calls on clones of the handle in any number of threads with event loop, server reads and server traffic",
  "No test runs the event loop, let alone from several threads.",
  ["src/client.rs", "src/lib.rs"],
  [("bounded command channel, try_send", "src/client.rs"), ("command arm of select", "src/lib.rs: poll"), ("FramedWrite back-pressure", "src/lib.rs: poll")],
  observe=["call/return times and results at the API", "order of packets received by the server"])

p("C11", "Notifications arrive exactly once and in order, however slow the consumer",
  "The application receives the notifications of one connection exactly once and in the order the server sent the packets, however slowly or irregularly it reads them, including when far more are pending than the notification queue holds. Notifications already produced stay readable after the event loop has finished, and an application that drops the receiver loses only notifications: the connection, its replies and its calls keep working.",
  ["schedules", "histories"], "all consumer speeds and stall patterns, receiver drops and queue-full points",
  "No test consumes a notification.",
  ["src/lib.rs", "src/client.rs"],
  [("bounded notification channel, awaited send", "src/lib.rs: poll")],
  observe=["Notification stream against the packets the server sent"])

p("C12", "Nothing but CONNECT is sent before a successful CONNACK, and then everything",
  "On every connection the first and only packet sent before CONNACK is one well-formed MQTT v5 CONNECT that asks for a clean start; calls accepted earlier wait and are sent in order after a successful CONNACK, which is notified once. If the server refuses (any failure reason), answers with another packet, with malformed bytes, or closes first, the event loop finishes with an error, no accepted call is sent, and only a CONNACK is notified.",
  ["inputs", "schedules", "fault_sequences"], "all first answers, their timing and segmentation, and all calls made before it",
  "No test establishes a connection.",
  ["src/lib.rs", "src/protocol/connect.rs", "src/protocol/connack.rs", "src/client.rs"],
  [("handshake at the head of the connection future", "src/lib.rs: poll"), ("CONNECT encoder", "src/protocol/connect.rs")],
  observe=["bytes received by the server before and after CONNACK", "Notification stream", "outcome"])

p("C13", "Keep-alive: the client is never silent too long and detects a dead server",
  "While connected the client never lets more than the keep-alive interval it announced in CONNECT pass between two packets, sending PINGREQ as needed, unless it is held up (by a full notification queue, a server that has stopped reading, or not being polled) or still has to read what may contain an overdue PINGRESP. A PINGREQ that has gone unanswered for a whole keep-alive interval in which nothing held up the client makes the event loop finish with a timeout error, whatever other traffic flows, and so does a server that has accepted nothing for that long while there is something to send. As long as the server reads and answers every PINGREQ sooner, no such error ever occurs, however slowly the application reads its notifications, however much else the server sends and even if the event loop is polled late.",
  ["schedules", "histories", "fault_sequences"], "all timings of traffic, of polls, of the application and of PINGRESP (prompt, late, missing, duplicated), in virtual time over any number of intervals",
  "No test runs a timer; the property is about unbounded time and every arrival time.",
  ["src/lib.rs", "src/protocol/connect.rs", "src/protocol/pingreq.rs", "src/protocol/pingresp.rs"],
  [("keep-alive timer and bookkeeping of PINGRESP", "src/lib.rs: poll")],
  state=[("unanswered, overdue, held_up", "whether a PINGREQ awaits its answer and what kept the loop from reading it", "src/lib.rs: poll")],
  observe=["virtual times of packets received by the server", "time and kind of the outcome"])

p("C14", "The event loop ends exactly when it should, with the right result, and cleanly",
  "The event loop finishes Ok after the client's own disconnect (whose DISCONNECT is the last packet sent; at the latest some seconds later if the server does not close), after a server DISCONNECT with the normal reason, or after a close between packets; it finishes with an error after a failed connect, a server DISCONNECT with any other reason, a close inside a packet or a reset; short of such an event, a protocol violation by the server or a keep-alive timeout it keeps running. When it has finished (even if the finished future is kept around) or has been dropped at any point, the TCP connection is closed, the notification stream ends after the notifications already produced, and every later call returns an error.",
  ["crash_points", "fault_sequences", "histories"], "all ending events at all points of a session, including dropping the event loop between any two polls",
  "No test runs the event loop to an end.",
  ["src/lib.rs", "src/client.rs", "src/protocol/disconnect.rs"],
  [("return points of the connection future", "src/lib.rs: poll"), ("DisconnectReason", "src/protocol/disconnect.rs")],
  observe=["outcome", "end of stream at the server", "end of the notification stream", "Result of later calls"])

p("C15", "An idle event loop sleeps: no busy waiting, also after all handles are dropped",
  "Without incoming bytes, calls or elapsed keep-alive time the event loop does nothing: it is not woken. Each poll returns after bounded work and never puts its thread to sleep, and each external event costs a bounded number of polls. This holds while connecting, while waiting for CONNACK, while connected, while blocked on a full notification queue, while all identifiers are outstanding, after the receiver has been dropped, and after all client handles have been dropped, in which case it still serves incoming packets and keep-alive.",
  ["schedules", "histories"], "all idle states reachable by dropping handles, stalling the server or the application",
  "No test polls the event loop; busy waiting is invisible to tests of results.",
  ["src/lib.rs", "src/client.rs"],
  [("select over timer, socket and command channel", "src/lib.rs: poll")],
  observe=["wake-ups and polls of the event-loop future per external event", "CPU time per poll"])

p("C16", "Memory follows what is outstanding, not how long the session has run",
  "The heap memory a session holds when nothing is outstanding or undelivered does not grow with the number of packets sent, received and acknowledged so far. After every kind of request has been answered and every notification consumed, it returns to the level of a fresh session up to a bounded amount of buffer capacity.",
  ["histories"], "all histories of answered requests and consumed notifications",
  "Tests are too short to see a leak and do not measure memory.",
  ["src/lib.rs", "src/pktids.rs", "src/mqtt_codec.rs"],
  [("in-flight queue entries removed on PUBACK", "src/lib.rs: poll"), ("vacant nodes reused", "src/pktids.rs"), ("decoded bytes dropped from the read buffer", "src/mqtt_codec.rs")],
  state=[("in-flight queue", "unacknowledged QoS 1 messages", "src/lib.rs: queue")],
  observe=["live heap bytes at quiescent points, from a counting allocator"])

p("C17", "The event loop is a correct future under any executor",
  "All the guarantees above hold whoever polls the event loop, and when: with a new waker at every poll (only the most recent one is ever woken usefully), when it is polled although nothing has asked for it, and when it moves between threads from one poll to the next.",
  ["schedules"], "all executors that keep the Future contract: every sequence of wakers, additional polls and threads",
  "No test polls the event loop at all; a lost registration shows only under an executor that changes wakers, as select!, join! and work-stealing runtimes do.",
  ["src/lib.rs"],
  [("EventLoop::poll, MQTTFuture::poll", "src/lib.rs"), ("select over timer, socket and command channel", "src/lib.rs: poll"), ("next_packet, send", "src/lib.rs")],
  observe=["everything the other properties observe, under an executor of the monitor's own"])

p("C18", "Sessions in one process, thread or task do not affect each other",
  "Any number of clients can live in one process, one thread and one task. What one session sends, notifies and acknowledges, its packet identifiers and its end depend on its own calls, server and application only: not on a neighbour that is in the middle of a packet, stalled, blocked, exhausted, receiving malformed packets, closed, refused or dropped.",
  ["schedules", "histories"], "all interleavings of several sessions in all states",
  "Tests never create a client; state shared between sessions by accident (a static or thread-local buffer, counter or pool) is invisible with one.",
  ["src/lib.rs", "src/client.rs", "src/mqtt_codec.rs", "src/pktids.rs"],
  [("per-connection state", "src/lib.rs: poll"), ("MqttCodec", "src/mqtt_codec.rs"), ("PktIds", "src/pktids.rs")],
  observe=["packets, notifications, acknowledgements and outcome of every session, each against its own model"])

p("C19", "One event loop makes one TCP connection, to the address it was given",
  "Creating a client connects to nothing; the event loop connects from its first poll on. It makes exactly one connection, to the first of the addresses given that accepts, in whatever form of address the runtime understands, and never another one: not when handles are cloned or calls made, not after the session has ended in whatever way, not after the event loop was dropped. If no address accepts, or there is none, it ends with an error, the notification stream ends and later calls are refused.",
  ["inputs", "histories", "fault_sequences"], "all forms and lists of addresses, refused ones at every position, every way a session can end",
  "No test makes a connection.",
  ["src/client.rs", "src/lib.rs"],
  [("Client::new", "src/client.rs"), ("EventLoop::poll: NotConnected", "src/lib.rs")],
  observe=["connections at every listener involved", "outcome", "end of the notification stream", "Result of later calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
