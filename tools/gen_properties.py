#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The texts live here so that they stay readable and diffable."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

EV = "src/events/event.rs"
PL = "src/events/payload.rs"
PS = "src/events/payload_serializer/mod.rs"
MOD = "src/ipc/mod.rs"
CTX = "src/ipc/context.rs"
EM = "src/ipc/stream_emitter/emit_metadata.rs"
EMR = "src/ipc/stream_emitter/emit_metadata_with_response.rs"
EMS = "src/ipc/stream_emitter/emit_metadata_with_response_stream.rs"
EMM = "src/ipc/stream_emitter/event_metadata.rs"
SRV = "src/ipc/server.rs"
CLI = "src/ipc/client.rs"
BLD = "src/ipc/builder.rs"
EH = "src/events/event_handler.rs"
ENC = "src/protocol/encrypted/mod.rs"
ENCIO = "src/protocol/encrypted/io_impl.rs"
ENCC = "src/protocol/encrypted/crypt_handling.rs"
ENCP = "src/protocol/encrypted/protocol_impl.rs"

prop("C01", "Events survive the wire unchanged, in the documented binary layout",
     "Encoding an event and decoding the bytes yields an event with the same id, type, reference id, namespace, name and payload, whatever their contents (an empty namespace counts as no namespace). The bytes are exactly the documented layout: 8-byte total length, 2-byte header length, header (version, id, type, optional reference id, length-prefixed namespace and name), payload. Decoding consumes exactly one event's bytes, so concatenated events decode one after the other however the bytes are split into reads.",
     ["inputs"], "every event whose header fits the 16-bit header length; every sequence of events; every split of the byte stream into reads",
     "The tests never look at the encoding; they send a dozen fixed, short ASCII events through an in-memory channel.",
     [EV], [("Event::into_bytes / Event::from_async_read", EV), ("EventHeader::into_bytes / from_read", EV)],
     [("FORMAT_VERSION", "version written in front of each header", EV)],
     ["Event::into_bytes", "Event::from_async_read", "bytes an endpoint writes to its transport"])

prop("C02", "An event that the format cannot represent is refused, never mis-framed",
     "Encoding or emitting an event whose namespace and name do not fit the length fields of the format fails with an error and puts nothing on the connection. The connection stays usable: events emitted before and after are delivered intact. No emitted event is ever truncated or renamed.",
     ["inputs", "histories"], "every namespace/name length around and above the 16-bit limits, mixed with ordinary events on one connection",
     "All names in the tests are under 20 bytes; the limits are at 64 KiB.",
     [EV, EM], [("header length check in Event::into_bytes", EV), ("EmitMetadata::poll encodes before writing", EM)],
     observe=["Result of emit / into_bytes", "frames received by a raw peer"])

prop("C03", "Arbitrary bytes are decoded as the format says or rejected with an error",
     "For any byte sequence from a peer, decoding an event either yields exactly the event the format defines for these bytes or fails with an error; it never panics or aborts, and never reserves memory out of proportion to the bytes received. Header bytes after the known fields are ignored, a different minor or patch version is accepted, and a different major version is rejected as unsupported. A frame cut off anywhere is an error, never a shorter event.",
     ["inputs"], "every byte sequence: valid frames, valid frames with extended headers or other versions, mutated, truncated and random ones, in every chunking",
     "No test feeds bytes that the library itself did not produce.",
     [EV], [("length arithmetic and bounded reads in Event::from_async_read", EV), ("EventHeader::from_read, read_version, read_ref_id, read_string", EV)],
     observe=["Event::from_async_read", "panic hook and allocator of the harness"])

prop("C04", "Payloads of every kind round-trip and describe their own format",
     "Raw, tandem (also nested), error and serialised payloads decode to the value that was encoded, in the documented layout; raw payloads are byte-identical. A serialised payload starts with the id of its format (0 messagepack, 1 bincode, 2 postcard, 3 json) and decodes by that id, whatever default serializer the receiver uses. A context serialises values with the default serializer its builder was given, or the first available one of that order.",
     ["inputs", "configurations"], "every payload value, every nesting, every serializer and pair of default serializers, every set of compiled formats",
     "The tests use three fixed values per serializer, never tandem payloads, never two peers with different serializers.",
     [PL, PS, "src/events/error_event.rs", "src/events/payload_serializer/serialize_bincode.rs"],
     [("IntoPayload/FromPayload impls", PL), ("DynamicSerializer::from_primitive, serialize, deserialize, first_available", PS), ("ErrorEventData codec", "src/events/error_event.rs")],
     [("default_serializer", "serializer of a context", CTX)],
     ["into_payload/from_payload", "Event::payload", "data_raw of received events"])

prop("C05", "Malformed payloads are rejected with an error",
     "Decoding any bytes as any kind of payload gives either a value or an error: no panic, no abort, no memory reserved out of proportion to the payload's size. A payload shorter than its length fields claim, an unknown format id, and invalid text in an error payload are errors, never partial values. A handler that fails to decode a payload makes the sender receive an error event and leaves the connection working.",
     ["inputs"], "every byte sequence decoded as raw, tandem, error and serialised payloads of several shapes and all formats",
     "No test decodes a payload that was not encoded by the same type.",
     [PL, PS, "src/events/error_event.rs", "src/events/payload_serializer/serialize_bincode.rs"],
     [("FromPayload impls", PL), ("DynamicSerializer::from_primitive / deserialize", PS)],
     observe=["FromPayload::from_payload", "Event::payload", "reply of a handler that propagates the decoding error"])

prop("C06", "Every received event reaches exactly the handler registered for it, once",
     "An event without a namespace invokes the global handler registered for its name, an event with a namespace the handler registered for that name in that namespace, exactly once and with the sender's payload and metadata; the last registration of a name wins. An event whose namespace or name is not registered is ignored: no handler runs, not even a global handler of the same name. This holds for clients and servers, for all connections, for namespaces from builders and from providers, and for replies nobody waits for.",
     ["inputs", "histories", "configurations"], "every set of registrations and every sequence of received events, initiators and unawaited replies, on both sides",
     "Two events into one registered namespace are all the tests cover; unregistered namespaces, colliding names, re-registration and handlers of replies are not exercised.",
     [MOD, EH, BLD, "src/namespaces/builder.rs", "src/namespaces/namespace.rs", "src/namespaces/provider_trait.rs"],
     [("handle_connection picks the handler", MOD), ("EventHandler::on / handle_event", EH), ("IPCBuilder::add_namespace, NamespaceBuilder::build", BLD)],
     [("callbacks", "name to callback", EH), ("namespaces", "name to namespace", SRV)],
     ["calls recorded by generated handlers", "frames seen by a raw peer"])

prop("C07", "Every handled event is answered: its replies in order, then one end or error",
     "For each event whose handler returns, an endpoint sends back every event the handler emitted, as a reply that references the handled event and in the order of emission, followed by exactly one terminating event with the same reference. If the handler succeeded (or there was none) that is an end event with exactly the returned payload; if it failed, it is an error event with code 500 and a message that shows the handler's error. Nothing else is sent: end events, also dangling ones, and replies passed to a waiter cause no answer.",
     ["inputs", "histories", "schedules"], "every mix of concurrently handled events, handlers with any number of emissions (plain, to namespaces, awaited) and any outcome",
     "The tests count replies for one handler with 100 emissions and do not look at reference ids, order across concurrent handlers, or terminators.",
     [MOD, CTX, EH, "src/events/error_event.rs"],
     [("handle_event sends the end or error event", MOD), ("Context::emit/emit_to with a reference id", CTX), ("Response", EH)],
     [("ref_id", "event that the context answers", CTX)],
     ["frames seen by a raw peer"])

prop("C08", "A reply goes to the waiter of the event that it references, and only there",
     "A reply that references an event someone awaits is delivered to that waiter and invokes no handler; the waiter gets the first such reply, or, if it is an error event, an error with the remote code and message. A reply never reaches the waiter of another event, whatever the order of the replies, the number of outstanding requests, contexts and pooled connections, and whatever event ids the peer uses for its own events. Both peers can make requests on one connection at once, also from within handlers, and a reply that arrives before the emit call has returned is not lost.",
     ["inputs", "histories", "schedules"], "every set of concurrent requests over one or several contexts, every order of replies, every choice of peer event ids, requests from within handlers",
     "The tests have one outstanding request at a time and never a peer with colliding ids.",
     [MOD, CTX, EMR, EMM, "src/events/mod.rs"],
     [("reply listeners registered before emitting", EMR), ("reply routing in handle_connection", MOD)],
     [("reply_listeners", "event id to channel of the waiter", CTX)],
     ["results of await_reply", "handler calls", "frames seen by a raw peer"])

prop("C09", "A reply stream yields all replies in order and then ends",
     "A reply stream yields every reply to its event, in the order in which the peer sent them, without loss or duplication, up to and including the first end or error event, and is exhausted afterwards. When no reply arrives within the timeout the stream yields a timeout error and is exhausted; polling an exhausted stream keeps returning the end and never panics. Several streams and requests can be consumed side by side, and dropping a stream early does not disturb other traffic.",
     ["inputs", "histories", "schedules"], "every number of replies, interleaving of several streams' replies, consumption order, gap between replies and point of abandoning a stream",
     "Two streams with the same 101 replies, consumed in lockstep to the end, are all that is tested.",
     [EMS, MOD, CTX], [("ResponseStream::poll_next", EMS), ("bounded channel per listener", CTX)],
     [("receiver", "channel of a stream", EMS)],
     ["items of the stream"])

prop("C10", "Waiting for a reply ends at the configured timeout, not earlier or later",
     "A request for which no reply arrives fails with a timeout error exactly when the timeout has elapsed since the event was sent; any reply that arrives earlier is returned. For a reply stream the timeout applies to each item anew. The timeout is the one given for the call, otherwise the one configured in the builder (60 seconds by default), for clients, pooled clients and handlers on the server alike, and other traffic does not change it.",
     ["inputs", "schedules", "configurations"], "every timeout setting, reply delay and kind of waiter, with and without other traffic; time is virtual",
     "The tests set timeouts only so that they do not fire.",
     [EMR, EMS, BLD, CLI, SRV], [("select between reply and sleep", EMR), ("with_timeout / default_reply_timeout", CTX), ("IPCBuilder::timeout", BLD)],
     observe=["result and virtual time of await_reply and stream items"])

prop("C11", "Finished or abandoned waits leave nothing behind",
     "Whatever way waiting for a reply ends - reply, error, timeout, failed emit, dropped request future, dropped or exhausted stream - the endpoint retains no memory for it. Replies that arrive afterwards are processed as regular events, in their namespace, as if nobody had ever waited; late end events are ignored. An endless sequence of such requests runs in bounded memory on the client and on the server.",
     ["histories", "inputs"], "every sequence of requests with every way of ending, over long histories",
     "The tests make a handful of successful requests; no test looks at retained state.",
     [CTX, EMR, EMS, MOD], [("removal of the reply listener", EMR), ("fallback of undeliverable replies", MOD)],
     [("reply_listeners", "event id to channel of the waiter", CTX)],
     ["live bytes counted by the harness's allocator", "handler calls for late replies"])

prop("C12", "Concurrent emits are never torn, mixed, lost, duplicated or reordered",
     "However many tasks emit on one connection at once, and however the transport splits, delays or back-pressures writes, the peer receives every event whose emit succeeded exactly once and intact, and the events of each task in the order in which the task emitted them. An emit that succeeded has been flushed and returns the id that the event carries on the wire; an emit that failed before writing (for example because its payload cannot be encoded) leaves no trace on the connection.",
     ["schedules", "inputs", "histories"], "every number of emitting tasks, contexts and events, payload size, write split and schedule of the transport",
     "The tests emit from one task per side over a transport that takes whole writes.",
     [EM, "src/ipc/stream_emitter/mod.rs", EMM], [("lock held across write and flush", EM)],
     [("stream", "shared write half", "src/ipc/stream_emitter/mod.rs")],
     ["frames received by a raw peer"])

prop("C13", "Abandoning an emit never corrupts the connection",
     "An emit, request or stream that is dropped at any point while it is being sent (by a timeout, select or aborted task) is received by the peer completely or not at all. All events emitted afterwards on the connection are delivered intact, in order and without needing further traffic to push them out. This holds on plain and on encrypted connections.",
     ["schedules", "crash_points", "inputs"], "every point of suspension of every emit under every write schedule and amount of back-pressure",
     "No test drops an unfinished emit.",
     [EM, "src/ipc/stream_emitter/mod.rs", ENCIO], [("unsent rest of a frame kept with the stream", EM), ("poll_write/poll_flush finish the package in flight", ENCIO)],
     observe=["frames received by a raw peer"])

prop("C14", "One bad peer or handler does not harm the rest",
     "A connection that sends garbage, closes or breaks at any point, or whose handler panics or never finishes, affects nothing else: the server keeps accepting, other connections and other events of the same connection keep being served, and their replies go to the connection that asked. The process neither panics outside the failing handler nor stops. A connection whose input cannot be decoded gets no further events handled.",
     ["fault_sequences", "histories", "inputs"], "every mix of healthy connections with connections that send malformed bytes, disconnect at any byte, panic or stall",
     "The tests use one well-behaved connection per server.",
     [SRV, MOD], [("task per connection and per event", SRV), ("handle_connection stops at the first undecodable event", MOD)],
     observe=["replies on the healthy connections", "panic hook", "handler calls"])

prop("C15", "Data inserted in the builder is shared by all handlers and contexts",
     "Every value inserted in a builder is visible in the context of every handler - global, namespaced, on every connection of a server, and on every connection of a pooled client - and in the context the builder returned, with the value inserted last for its key. A change made by one of them is seen by all later readers, updates under the write lock are never lost, and endpoints built separately share nothing.",
     ["histories", "schedules", "inputs"], "every sequence of inserts, reads and updates from any handler, connection and context, concurrently",
     "The tests share one counter handle that is itself reference counted, so that copying the map would go unnoticed.",
     [BLD, SRV, CLI, CTX], [("one data map per server or client", SRV), ("IPCBuilder::insert / insert_all", BLD)],
     [("data", "shared type map", CTX)],
     ["values read in handlers"])

prop("C16", "A pool hands out a least-used connection and counts its users exactly",
     "A pooled client opens exactly as many connections as asked for, and acquiring always yields a context of a connection with the fewest guards alive at that moment, whatever guards and pools were cloned, dropped, moved between tasks or threads before. Every acquired context works, replies reach the context that asked, and all use the same data, handlers, timeout and serializer. A pool size of zero is refused with an error.",
     ["histories", "schedules", "configurations"], "every sequence of acquire, clone and drop of guards and pools, from several threads, for every pool size",
     "Pooled clients are not tested at all.",
     [CTX, BLD], [("PoolGuard acquire/release counts", CTX), ("PooledContext::acquire", CTX), ("IPCBuilder::build_pooled_client", BLD)],
     [("count", "guards alive per connection", CTX)],
     ["connection on which an acquired context emits"])

prop("C17", "Stopping a client stops it and nothing else",
     "Once stopping a client context (through any of its clones) has taken effect, no event received later on its connection invokes a handler or reaches a waiter, and stopping again is harmless. When its contexts are dropped as well, the peer sees the connection closed after everything that was successfully emitted. Other clients, other connections of a pool, and the server are unaffected; a client that is not stopped keeps handling events even when its contexts have been dropped.",
     ["histories", "schedules"], "every order of stop, drop, emit and incoming events, for one or several clients and pools",
     "No test stops a client.",
     [CTX, CLI], [("stop channel aborts the listening task", CLI)],
     [("stop_sender", "one-shot channel of a client", CTX)],
     ["handler calls after stop", "end of stream seen by a raw peer"])

prop("C18", "Event ids are unique within a process",
     "No two events created or emitted by one process have the same id, however many threads, connections, contexts and event kinds create them and however fast. The id of an event never changes: the value reported to the emitter, the id on the wire and the id the receiver sees are equal.",
     ["schedules", "histories"], "every number of threads and every interleaving of event creation within the life of a process (up to 2^32 events)",
     "The tests never compare ids; a collision needs concurrent creation within a millisecond.",
     ["src/events/mod.rs", EV, EMM], [("generate_event_id: time and an atomic counter", "src/events/mod.rs")],
     [("COUNTER", "process-wide counter", "src/events/mod.rs")],
     ["Event::id", "ids on the wire"])

prop("C19", "The encrypted stream delivers exactly the bytes written",
     "Whatever is written to one end of an encrypted connection and flushed is read at the other end, byte for byte and in order, in both directions at once, for every way of splitting writes, flushes and reads and every split and delay of the transport below. A reader gets what has arrived as soon as a package is complete, however large its buffer; flush and shutdown complete, and shutdown delivers all data and closes the transport. No operation panics or waits forever while data or progress is available.",
     ["inputs", "schedules", "histories"], "every sequence of writes, flushes, reads and shutdowns of any size on both ends; every chunking and Pending pattern of the transport",
     "The tests only send whole events, whose packages happen to line up with the reads.",
     [ENCIO, ENC, ENCC], [("EncryptedReadStream::poll_read", ENCIO), ("EncryptedWriteStream::poll_write/poll_flush/poll_shutdown", ENCIO), ("EncryptedPackage framing", ENC), ("nonce counters", ENCC)],
     [("remaining", "decrypted bytes not yet read", ENC), ("buffer", "plaintext not yet sent", ENC)],
     ["bytes read through AsyncRead"])

prop("C20", "Encrypted connections exist only between peers that accept each other's key",
     "A connection is established if and only if each side allows unknown peers or lists the other's public key; otherwise connecting fails - on the side that refuses with an error that names the refused key - and no application data crosses. A peer that presents a known public key without owning its secret cannot make its data be accepted. Refused, broken, slow or silent peers do not keep a server from accepting others.",
     ["configurations", "fault_sequences", "inputs"], "every combination of keys, known-peer lists and allow-unknown flags, with honest, impersonating, aborting and stalling peers in any order",
     "The tests only use one pair of peers that know each other.",
     [ENCC, ENCP], [("key check in the key exchanges", ENCC), ("EncryptedListener::protocol_accept", ENCP)],
     [("known_peers, allow_unknown", "who may connect", ENC)],
     ["results of connecting", "handler calls on the server"])

prop("C21", "Tampering with encrypted traffic is detected",
     "If packages of an encrypted connection are modified, truncated, dropped, duplicated, reordered, injected or replaced with packages of the other direction or of another connection, the receiver gets only an unaltered prefix of the bytes that the other end wrote, followed by an error. It never receives altered, repeated or foreign data, and never continues behind a gap. The receiving process does not panic.",
     ["inputs", "fault_sequences"], "every manipulation of the package sequence at every position and bit, after the key exchange",
     "No test alters traffic.",
     [ENCC, ENCIO, ENC], [("authenticated encryption with counting nonces", ENCC), ("read_bytes", ENCIO)],
     [("de_count", "number of the next package", ENCC)],
     ["bytes read by the receiver"])

prop("C22", "Encrypted traffic reveals neither contents nor reused key stream",
     "On an encrypted connection no part of the data written appears on the transport in the clear, and writing the same data again gives unrelated bytes. No two packages that the endpoints send, in the same or in opposite directions, on one connection or on different connections between the same peers, are encrypted with the same key stream. Each connection uses a fresh session key.",
     ["inputs", "histories"], "every pair of packages of all connections in a generated history with known plaintexts",
     "No test looks at the bytes below the encryption.",
     [ENCC, ENCIO], [("nonce_from_number and the counters", ENCC), ("session key chosen by the server", ENCC)],
     [("en_count", "nonce counter", ENCC)],
     ["bytes on the transport, combined with the known plaintexts"])

prop("C23", "All transports carry the same traffic the same way, with the options given",
     "A sequence of events, requests, streams and failures has the same observable outcome over TCP, unix sockets and an in-memory transport, with and without the encryption layer. Options given for a listener or stream are applied to exactly that socket, and none is changed when no option is given. Connecting to an address nobody listens on, or binding one in use, is reported as an error.",
     ["configurations", "inputs", "histories"], "every transport and option setting; generated workloads",
     "The tests never use a socket; TCP and unix sockets have no test at all.",
     ["src/protocol/tcp.rs", "src/protocol/unix_socket.rs", ENCP, "src/protocol/mod.rs"],
     [("protocol_bind / protocol_accept / protocol_connect", "src/protocol/tcp.rs"), ("options passed through the encryption layer", ENCP)],
     observe=["outcome of a workload", "options of the sockets"])

prop("C24", "Builders use exactly what they were given, or report an error",
     "Building a server, client or pooled client without an address fails with a build error and contacts nothing; the order of builder calls does not matter except that the last value set wins. The endpoint uses the address, options, timeout, handlers and serializer of its builder, and a failure of the transport to bind or connect is returned to the caller. A new builder already handles error events, and a handler registered for them replaces that default.",
     ["configurations", "inputs"], "every sequence of builder calls, with and without overwritten settings, and every failure of the transport",
     "The tests use three fixed builder chains that set everything once.",
     [BLD, CLI, SRV, "src/namespaces/builder.rs"], [("IPCBuilder::validate and the build functions", BLD)],
     observe=["address and options the transport was given", "results of the build functions"])

prop("C25", "Connections that are over leave nothing behind",
     "Once a connection is over - its peer closed or broke it at any point, also within an event or a handshake, or sent something invalid, or the client was stopped, and the contexts of a client are dropped - and the handlers and requests that ran for it have ended, the endpoint has released both halves of its stream and keeps no memory for it. A server can go through an endless sequence of such connections, and a process through endless clients and pools, in bounded memory and with all of them closed.",
     ["histories", "faults"], "every sequence of connections with generated traffic, requests and failing handlers, ended in every way",
     "The tests end the process instead of their connections; nothing looks at what is left.",
     [SRV, CLI, MOD, CTX, ENCP], [("handle_connection owns the last context", MOD), ("pending handshakes", ENCP), ("reply listeners of a context", CTX)],
     [("handshakes", "connections that are not accepted yet", ENCP)],
     ["halves of the stream of each connection", "live memory after n rounds"])

prop("C26", "Both ends of a connection can talk at once without blocking each other",
     "However many tasks and handlers on both ends of a connection emit events, make requests and read streams at the same time, and however little the transport takes at once, everything comes to its end: every request gets its own answer, every stream all its items, every event its handler, as long as streams are read. No end ever stops reading because it cannot write, on plain and on encrypted connections, for clients and pools.",
     ["inputs", "schedules"], "every mix of operations that clients and handlers of the server carry out at once; every capacity, split and delay of the transport",
     "Mutual back-pressure needs both directions to be full at once, which fixed tests over large socket buffers never reach.",
     [MOD, "src/ipc/stream_emitter/mod.rs", EM, ENCIO], [("reading and writing are independent of each other", MOD), ("every event is handled in a task of its own", MOD)],
     observe=["results of all operations on both ends"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
