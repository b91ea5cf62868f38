#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, statements, anchors)."""
import json, os
R = "source/postcard-rpc/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [R + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": R + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

HC, HU = "host_client/mod.rs", "host_client/util.rs"
NU, SE, AC = "host_client/raw_nusb.rs", "host_client/serial.rs", "accumulator.rs"
SM, DM = "server/mod.rs", "server/dispatch_macro.rs"
E3, E4 = "server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"
TC, TS = "host_client/test_channels.rs", "server/impls/test_channels.rs"
HD, LB, SI = "header.rs", "lib.rs", "standard_icd.rs"

prop("C01", "Answers reach exactly the call that caused them",
 "Whenever a call made through a host client returns a value or a wire error, that answer is the one the server sent for exactly that call: same endpoint, same sequence number, unchanged content. This holds for any number of concurrent calls from any number of clones of the client, for any order in which answers arrive, and whatever late, duplicated or unrelated frames arrive in between (as long as sequence numbers of the configured width have not wrapped onto a call that is still outstanding or whose answer is still under way). An answer that no outstanding call is waiting for is discarded without any effect. A call whose sequence number is still in use by an outstanding call to the same endpoint is refused without sending anything and without disturbing that call.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "All interleavings of concurrent callers, workers and answer orders, with answers delayed, reordered, duplicated, dropped or preceded by unrelated frames.",
 "The tests make one call at a time over a lossless channel whose answers come in order; nothing samples concurrent calls with reordered, duplicated or stale answers.",
 [HC, HU], [("per-call wait entries keyed by sequence number and response/error key, registered before sending", HC), ("incoming worker wakes the matching entry", HU)],
 [("wait map", "outstanding calls by (key, seq)", "HostContext.map"), ("sequence counter", "shared by all clones", "HostContext.seq")],
 ["result of send_resp / send_resp_raw", "frames on the simulated wire"])

prop("C02", "Each request is executed once, answered once, and every call finishes",
 "On a connection that delivers frames, each request sent by a client runs its handler exactly once with exactly the request's value, and exactly one frame (the handler's reply or one error) goes back under the request's sequence number. Handlers that are not spawned run one at a time in arrival order; spawned handlers run concurrently and never hold up later requests. As long as both sides keep running, every call completes with its own handler's result within bounded time.",
 ["schedules", "inputs", "configurations"],
 "All interleavings of callers, workers, server loop and spawned handlers, all handler kinds, payload sizes and key widths, with slow and back-pressured links.",
 "The tests run a handful of sequential requests on one schedule; they cannot show absence of duplicate or missing executions under concurrency and back-pressure.",
 [SM, DM, HC, HU], [("receive/dispatch loop", SM), ("handler arms blocking/async/spawn", DM), ("out/in workers", HU)],
 [], ["handler invocations", "frames from the server", "call results"])

prop("C03", "Requests that cannot be served get the right error and nothing else",
 "A request with an unknown key is answered with exactly one unknown-key error, one whose payload does not decode with a deserialization error, one whose key is shorter than the server needs with key-too-small, one whose handler task cannot be started with failed-to-spawn, and one whose reply does not fit the transmit buffer with a serialization error, each under the request's own sequence number; only in the last case does the handler run. Topic messages that do not decode or whose handler cannot be started, and frames without a valid header, are dropped without any answer. None of these affects any other request.",
 ["inputs", "schedules", "fault_sequences"],
 "All mixes of valid and invalid frames at every key and sequence width, with spawn failures and reply overflow at arbitrary points.",
 "The tests check one unknown key and one bad payload on one key width; spawn failure, reply overflow and mixtures with valid concurrent traffic are never exercised.",
 [DM, SM, SI], [("error replies in the dispatch arms", DM), ("error frames keyed by the standard error key", SM)],
 [], ["frames from the server", "handler invocations"])

prop("C04", "Closing or losing the connection ends everything promptly on every clone",
 "After any clone closes the client, or the transport fails in either direction, every outstanding and every later call, publish, subscription attempt and subscription of every clone finishes in bounded time with its closed indication, the client reports being closed, those waiting for closure are released, and nothing hangs. (An operation begun before the client's workers have noticed the end may still be accepted; a subscription accepted that way reports its end like the others.) Messages that an exclusive subscription had already queued can still be received before it reports its end. A client whose connection was neither closed nor lost never reports closed and never ends an operation because of closure.",
 ["crash_points", "schedules", "fault_sequences"],
 "Close, transmit failure, receive failure or peer disappearance at every point of every operation, under all schedules.",
 "Tests close at one quiescent point; a crash between any two steps of a call, a publish blocked on a full queue or a subscription being set up is not sampled.",
 [HC, HU], [("shared stop signal raced against every operation", HC), ("workers signal the stop when either ends; subscription lists purged", HU)],
 [("stopper", "permanent closed flag + wait queue", "HostClient.stopper"), ("subscriptions.stopped", "no later additions", "host_client::util")],
 ["results of all client operations", "is_closed / wait_closed", "liveness of worker tasks"])

prop("C05", "Exclusive subscriptions: in order, exactly once, loss only on overflow",
 "While an exclusive subscription is alive it yields every message of its topic that arrives, exactly once, unchanged and in arrival order; a message may be missing only if the subscription already held as many unread messages as its depth when that message arrived (and, when a full-queue timeout is configured, no slot became free for that long). A further exclusive subscription to the same topic is refused while the first is alive and accepted after it was dropped; the older replacing form of subscribing ends the previous subscription and takes over. A full or dropped subscription never closes the client nor disturbs other topics or calls beyond the configured timeout.",
 ["schedules", "histories", "configurations"],
 "All interleavings of arrivals, reads, pauses, drops and re-subscriptions, all depths and timeouts, typed and raw.",
 "Existing tests read promptly with ample depth; overflow timing, the timeout path and re-subscription races are not covered.",
 [HC, HU], [("bounded queue per topic, try then optionally wait", HU), ("exclusivity check under the subscription lock", HC)],
 [("exclusive_list", "topic key -> queue", "Subscriptions")], ["items received", "subscribe results"])

prop("C06", "Broadcast subscriptions: ordered, independent, exact loss accounting",
 "Every broadcast subscriber of a topic independently receives the messages that arrived after it subscribed, unchanged, in arrival order and without duplicates. Messages are skipped for a subscriber only when it has fallen behind by at least the depth that the first subscriber of the topic asked for, and then the subscriber is told exactly how many it missed before it continues with the next retained one. A slow or dropped subscriber neither delays nor affects any other subscriber, topic or call.",
 ["schedules", "histories", "configurations"],
 "All interleavings of arrivals and of several subscribers joining, lagging, pausing and leaving, all depths, typed and raw.",
 "Tests use one or two prompt subscribers; lag accounting and independence over schedules are not sampled.",
 [HC, HU], [("one broadcast channel per topic", HC), ("send to broadcast list before the exclusive list", HU)],
 [("broadcast_list", "topic key -> broadcast channel", "Subscriptions")], ["items and lag reports received"])

prop("C07", "Every incoming frame reaches all of its takers and nobody else",
 "An incoming topic message reaches every live subscription (broadcast and exclusive, typed and raw) of exactly that topic, and no subscription of any other topic and no call; answers to calls reach their callers also while subscriptions exist, are full, are being created or were dropped. This holds at every key width the server uses. Frames nobody wants are discarded without effect on anything else.",
 ["schedules", "inputs", "configurations"],
 "All mixes of topics, calls and subscription lifetimes, with server keys of 1, 2, 4 and 8 bytes, under all schedules.",
 "Tests subscribe to one topic at a time on one key width.",
 [HU, HC, HD], [("routing by key equivalence: broadcast, exclusive, then waiting calls", HU), ("keys of different widths compare by folding the longer", HD)],
 [], ["items received per subscription", "call results"])

prop("C08", "Client publishes arrive exactly once, in order, under back-pressure",
 "Messages whose publish reported success are handed to the transport exactly once, unchanged (topic, sequence number, payload) and in the order in which they were published by any one task, even when the outgoing queue is full or the transport is slow, unless the connection ends first. A full outgoing queue delays publishers and callers instead of losing or reordering anything, and a publish that reported failure or was abandoned is sent at most once. The server invokes the topic's handler once per delivered message, in that order for handlers that are not spawned.",
 ["schedules", "configurations", "fault_sequences"],
 "All interleavings of publishers, callers and the transmit worker for all queue depths and transport speeds.",
 "Tests publish a few messages into an empty queue.",
 [HC, HU, DM], [("bounded outgoing queue drained by one worker", HU), ("publish waits for a queue slot or the stop signal", HC)],
 [], ["frames on the wire", "topic handler invocations"])

prop("C09", "Garbage from the device never harms the host client",
 "Whatever bytes arrive as frames (truncated, corrupted, random, unknown keys, undecodable payloads), the client neither panics nor closes nor hangs, and valid traffic before and after is processed normally. A frame that is not a well-formed message produces no result for any call and no item on any typed subscription. An answer whose payload does not decode ends exactly that call with a decoding error.",
 ["inputs", "fault_sequences", "schedules"],
 "All byte strings as frames at any point of any traffic.",
 "Unit tests feed well-formed frames only.",
 [HU, HC, HD], [("header decode failures skipped", HU), ("typed subscriptions skip undecodable items", HC)],
 [], ["call results", "subscription items", "closed state"])

prop("C10", "The server survives bad input and stops only for fatal transport errors",
 "The server's run loop ignores malformed, unknown and oversized frames and non-fatal transport errors and keeps serving; it never panics on any input. It returns exactly when the transport reports the connection closed on receiving, or when the last thing it tried to send for a request (the reply, or the error sent in its place) failed because the connection closed or timed out, and reports that error. It can then be run again and serves normally.",
 ["inputs", "fault_sequences", "crash_points"],
 "All sequences of good frames, bad frames, receive errors and transmit errors at arbitrary points, with repeated restarts of the loop.",
 "Tests never inject receive or transmit errors nor restart a server.",
 [SM, DM], [("error classification in the run loop", SM)],
 [], ["return value of run", "frames from the server after re-running"])

prop("C11", "Key and sequence widths adapt without ever misrouting a call",
 "A new client uses full-size keys and adopts the key width it sees in answers; calls succeed whatever width the server uses, including calls outstanding while the width is being adopted. Requests carry sequence numbers of the configured width. If the server starts to need longer keys than the client uses, the call is refused with an error instead of reaching any other endpoint, and after at most one such refusal calls succeed again.",
 ["histories", "configurations", "schedules"],
 "All key-width pairs and sequences of server replacements, all sequence widths, concurrent calls across the change.",
 "Tests use one fixed server width and only Seq widths with few calls.",
 [HC, HD, DM, SM], [("key width learned from answers", HC), ("minimum key length check", DM), ("smallest collision-free key length", SM)],
 [("kkind", "current key width of the connection", "HostContext")], ["request headers on the wire", "call results", "handler invocations"])

prop("C12", "Schema discovery is complete or reports an error",
 "Asking a device for its schema returns, in bounded time once the device's final answer to the request has arrived, either a report listing exactly the device's endpoints, topics in both directions and message types with their correct paths, keys and types, or an error. If any schema message was lost, could not be sent or arrived incomplete, the result is an error and never a report with something missing; the device's final answer says how many schema messages it could not send. Other traffic, other clones and other subscribers do not disturb it, and it does not disturb them.",
 ["fault_sequences", "schedules"],
 "Loss or send failure of any subset of the schema messages, the closing of the connection at any point, and concurrent calls and topics.",
 "The one test fetches a schema over a lossless channel.",
 [HC, SM, SI], [("collector subscribed before the request, idle timeout, totals comparison", HC), ("schema streaming with totals and error count", SM)],
 [], ["result of get_schema_report"])

prop("C13", "Device USB transmit: whole frames, never interleaved, resynchronised",
 "Frames sent by a USB device server, from any number of tasks, appear on the wire whole, byte-identical, never interleaved, each ended by a short or zero-length packet. If a send is cut short by a timeout, a cancellation or a disconnect, at most that frame appears incomplete, it is terminated before the next frame starts, and all other frames are intact. A send that reports success put its frame on the wire completely; a send that failed before starting put nothing.",
 ["schedules", "crash_points", "fault_sequences", "inputs"],
 "All interleavings of senders, all frame lengths (especially multiples of the packet size), and a stall, cancellation or disconnect before each packet.",
 "The embassy-usb servers have no tests at all; they are only compiled.",
 [E3, E4], [("one mutex around endpoint and buffer", E4), ("zero-length packet after multiples of the packet size", E4), ("pending-frame marker", E4)],
 [("pending_frame", "an unterminated frame is on the wire", "EUsbWireTxInner")], ["packets on the simulated bulk IN endpoint"])

prop("C14", "Device USB receive: frames delivered exactly, oversize discarded whole",
 "Frames sent by a host as packets, with any timing, are delivered to the server byte-identical and in order. A frame larger than the receive buffer is reported as too large and discarded as a whole: no part of it is ever delivered as a frame and no neighbouring frame is damaged. (A frame exactly as large as the buffer is either delivered whole or treated as too large.) A disabled endpoint is reported as a closed connection.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "All frame lengths around packet and buffer boundaries, all buffer sizes, disconnects at any packet.",
 "The embassy-usb servers have no tests at all.",
 [E3, E4], [("accumulate until a short packet, drain on overflow", E4)],
 [], ["frames returned by receive", "error kinds"])

prop("C15", "Host USB transport: exact framing and bounded stall recovery",
 "Over the raw USB host transport every outgoing frame is sent whole, in order, and ended by a zero-length packet exactly when its length is a multiple of the maximum packet size; every incoming transfer that completes is delivered unchanged, in order, exactly once. A stalled IN endpoint is recovered by cancelling what is in flight and clearing the halt, without delivering damaged or repeated frames (only what completes while the recovery is under way may be lost), and traffic continues afterwards; unrecoverable errors, a failing halt clear, or too many consecutive errors close the client. The transport keeps enough reads in flight and never reads from an idle endpoint queue.",
 ["fault_sequences", "schedules", "inputs"],
 "All transfer timings, stalls, faults, cancel races and disconnects, all frame lengths and packet sizes.",
 "No test drives this transport; it needs a USB device.",
 [NU, HU], [("submit data plus zero-length transfer", NU), ("rehydrated IN queue, stall recovery with retry limit", NU)],
 [("consecutive_errs", "errors since the last good transfer", "NusbWireRx")], ["bulk transfers seen by the simulated host controller", "frames delivered"])

prop("C16", "Serial transport: frames survive chunking and resynchronise after noise",
 "Over the COBS serial transport every outgoing frame appears on the line as exactly one encoded, zero-terminated packet even under short writes, and every well-formed incoming packet is delivered exactly once and unchanged, whatever chunks the line delivers and however many packets share a read. Noise, broken packets and over-long packets are dropped without producing frames, and the next well-formed packet after a delimiter is delivered. End of file or an I/O error on the line closes the client.",
 ["inputs", "schedules", "fault_sequences"],
 "All chunkings of all byte streams, noise at any point, short and stalled writes, EOF and errors at any point.",
 "No test drives this transport; it needs a serial port.",
 [SE, AC], [("COBS encode + delimiter", SE), ("accumulator with pending queue", SE)],
 [("pending", "frames decoded but not yet taken", "SerialWireRx"), ("acc", "partial packet", "SerialWireRx")], ["bytes on the simulated line", "frames delivered", "closed state"])

prop("C17", "Device log messages arrive intact or visibly truncated",
 "Every log message that a device reports as sent arrives at subscribers of the logging topic as one readable text message: identical to what was logged if it fits the device's buffer; for formatted logging that does not fit, a prefix of it as long as fits, ending in three dots. Logging never panics, whatever the text, its length or the buffer size, and never disturbs replies and topics sent at the same time. Sequence numbers of log messages count up by one, also around the end of their range.",
 ["inputs", "configurations", "schedules"],
 "All texts (including multi-byte characters), lengths around length-encoding and buffer boundaries, buffer sizes, key widths, concurrent senders.",
 "No test logs through an embassy-usb server; the channel implementation is used with short strings.",
 [E3, E4, TS, SM], [("formatting into the transmit buffer with a reserved length field", E4)],
 [("log_seq", "log sequence counter", "EUsbWireTxInner")], ["frames on the wire", "items of a logging subscription"])

prop("C18", "Abandoning an operation at any point leaves the client fully usable",
 "Dropping the future of a call, publish, subscribe or receive at any await point never disturbs any other operation, never loses or duplicates a message for a subscription that is read again later, and leaves the client usable for any number of further operations. A late answer to an abandoned call is given to nobody. Abandoned calls leave nothing behind that makes later calls fail.",
 ["crash_points", "schedules", "histories"],
 "Cancellation at every await point of every client operation, in all interleavings, repeated many times.",
 "Tests do not cancel operations.",
 [HC, HU], [("wait entries removed on drop", HC)], [], ["results of other and later operations"])

prop("C19", "Dropping the last client ends the workers, releases the transport, flushes",
 "When the last clone of a client is dropped, everything it had accepted for sending is still transmitted, then its I/O workers end and the transport is released in bounded time, and remaining subscriptions report their end. As long as any clone exists the connection stays up.",
 ["schedules", "crash_points"],
 "Dropping clones in any order at any point of traffic.",
 "Tests never observe the workers after the client is gone.",
 [HU, HC], [("outgoing channel closes when all senders are gone; workers stop each other", HU)], [], ["lifetime of the transport halves", "frames on the wire", "subscription ends"])

prop("C20", "Both sides put exactly the documented wire format on the wire",
 "Every frame sent by a client or a server starts with the documented header (width bits and version in the first byte, folded key, little-endian sequence number) followed by the encoded message, and can be read by an independent implementation of that format; answers repeat the request's sequence number with its width, topics carry their own. Conversely every well-formed frame from an independent implementation is understood at all key and sequence widths the receiver accepts.",
 ["inputs", "configurations", "histories"],
 "All keys, key widths, sequence widths and values, payloads, in both directions, in whole conversations.",
 "Unit tests compare four hand-written headers.",
 [HD, LB, SM, HC], [("header encode to vec / to slice / decode", HD), ("key folding", LB)], [], ["every frame on the wire"])

prop("C21", "Device USB sends are bounded in time, and never time out early",
 "Once it has exclusive use of the endpoint, a send on a USB device completes, fails or reports a timeout within the configured milliseconds per packet times the number of packets of its frame, and it does not report a timeout before that time has passed. Waiting for another sender does not count against a send. A timeout of the last thing sent for a request ends the server's run loop with that error, after which the server can be run again.",
 ["schedules", "fault_sequences", "configurations"],
 "All host read delays and stalls, competing senders, frame lengths and timeout settings.",
 "Nothing in the tests runs the embassy-usb servers or their clock.",
 [E3, E4, SM], [("timer raced with the send", E4), ("timeout classified as fatal", SM)],
 [("timeout_ms_per_frame", "configured time per packet", "EUsbWireTxInner")], ["virtual time between call and result"])

prop("C22", "The whole USB stack serves correctly through faults and reconnects",
 "With a real client over the USB host transport and a real USB device server on the other end of one bus, all calls, publishes, topics and logs behave as specified end to end under delays, stalled endpoints, host and device slowness. After an unplug both sides notice in bounded time: the client closes and the server loop returns; after re-plugging, the same server run again and a new client work normally and no frame from before the unplug is mistaken for a new one.",
 ["fault_sequences", "schedules", "histories", "crash_points"],
 "All mixes of traffic, bus timing, stalls, unplug and replug points.",
 "Needs hardware; no test connects the two USB implementations.",
 [NU, E3, E4, SM, HU, HC], [("both USB transports", NU), ("server loop", SM)], [], ["call results", "handler invocations", "subscription items"])

prop("C23", "The COBS accumulator yields exactly the well-formed packets of a stream",
 "Feeding any byte stream in any chunks to the accumulator of any capacity yields, in order, exactly the decoded content of those delimited packets that are valid and fit the capacity; invalid and over-long packets are reported and produce no data. Nothing of a broken or over-long packet leaks into a later one, and no input makes it panic or lose its place for longer than up to the next delimiter.",
 ["inputs", "configurations", "fault_sequences"],
 "All byte streams, chunkings and capacities.",
 "The accumulator has no tests.",
 [AC], [("delimiter search, capacity check, in-place decode", AC)],
 [("idx", "bytes of the current packet", "CobsAccumulator")], ["results of feed"])

prop("C24", "The in-process channel transport is faithful and stoppable",
 "Over the channel transport frames arrive complete, in order and exactly once in both directions, with back-pressure when a channel is full; a frame larger than the server's buffer is dropped and the server goes on. Stopping a stoppable server at any time, full channels included, makes its run loop return as closed and every pending or later send on it end, in bounded time (an operation racing with or following the stop is either carried out completely or fails as closed; none hangs); when either side goes away the other reports a closed connection.",
 ["schedules", "crash_points", "configurations"],
 "All interleavings of traffic, stop and drop, all channel depths and buffer sizes.",
 "Tests stop servers at quiescent points only.",
 [TS, TC, "test_utils.rs", SM], [("stop signal raced with channel operations", TS)], [], ["run result", "send results", "frames"])

prop("C40", "The WebUSB transport carries frames like the other host transports",
 "Over the browser transport every outgoing frame is sent whole and in order and every incoming transfer is delivered unchanged; errors close the client.",
 ["schedules", "fault_sequences"], "All transfer timings and failures in a browser.",
 "It only exists in a browser.", ["host_client/webusb.rs"], [("web-sys transfers", "host_client/webusb.rs")])

prop("C41", "The computed minimum key length separates all keys of a device",
 "For every set of endpoints and topics, the key length computed at compile time is the smallest of 1, 2, 4 and 8 bytes at which no two keys of one direction collide, and compilation fails when there is none.",
 ["inputs", "programs"], "All key sets.", "Eight hand-written key sets are tested.",
 [SM, DM], [("compile-time pairwise comparison", SM)])

prop("C42", "Compile-time type lists are complete and free of duplicates",
 "For every set of message types the list of types computed at compile time contains every type reachable from them exactly once.",
 ["programs"], "All type definitions.", "A few hand-written types are tested.",
 ["uniques.rs", "macros.rs"], [("const merging and counting", "uniques.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
