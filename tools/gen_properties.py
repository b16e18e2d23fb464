#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "AMQP values survive encoding and decoding",
  "For every AMQP value the library can represent (all primitives, strings, symbols, binaries, uuids, timestamps before and after the epoch, decimals, lists, maps, arrays and described values, nested to any moderate depth), encoding produces exactly as many bytes as the reported encoded size and those bytes are a valid AMQP 1.0 encoding of that value. Decoding the bytes returns an equal value and consumes exactly those bytes, whatever follows them.",
  ["inputs"], "every value of the Variant type and of the typed primitives/collections, every width boundary, every trailing context",
  "The unit tests encode about forty hand-picked literals; width boundaries (255/256 bytes or elements), negative timestamps, nesting and described values inside collections are not sampled.",
  ["codec/src/codec/encode.rs", "codec/src/codec/decode.rs", "codec/src/types/variant.rs", "codec/src/types/array.rs", "codec/src/types/symbol.rs"],
  [("Encode/encoded_size per type", "codec/src/codec/encode.rs"), ("Decode/DecodeFormatted per type", "codec/src/codec/decode.rs")])

p("C02", "Every valid alternative encoding decodes to the value it denotes",
  "Whenever the AMQP 1.0 specification allows several encodings of a value (zero, one, four or eight byte integers, one byte or zero byte booleans, 8 or 32 bit strings, symbols, binaries, lists, maps and arrays, descriptors in symbolic or numeric form), the decoder accepts each one, at any nesting, and returns the value the specification assigns to it. It consumes exactly the encoded bytes.",
  ["inputs"], "every value tree crossed with every per-node choice of legal constructor",
  "The tests decode mostly what the encoder writes plus a few literals; a peer may legally pick any constructor at each node, which is a product space.",
  ["codec/src/codec/decode.rs", "codec/src/types/variant.rs", "codec/src/types/array.rs"],
  [("format-code dispatch", "codec/src/codec/decode.rs"), ("array element constructor handling", "codec/src/types/array.rs")])

p("C03", "Performatives and frames conform to the specification in both directions",
  "Every connection, session, link, transfer-state and SASL performative, with any combination of fields and on any channel, is written as a well-formed AMQP 1.0 frame that an independent decoder reads as the same field values, with an encoded size equal to the bytes written. Every specification-conforming frame (any legal widths, null or omitted trailing fields, symbolic or numeric descriptors, extended headers excepted) decodes to those field values with the specification's defaults filled in, and re-encoding a decoded frame and decoding it again changes nothing.",
  ["inputs"], "all performatives x all field subsets x all legal encodings x channels",
  "Four performatives are decoded from literal bytes in the tests; defaults, omitted trailing fields and most field positions in the schema are never exercised.",
  ["codec/src/protocol/definitions.rs", "codec/src/protocol/mod.rs", "codec/src/codec/encode.rs", "codec/src/codec/decode.rs", "codec/src/io.rs", "codec/codegen/definitions.rs"],
  [("generated performative codecs", "codec/src/protocol/definitions.rs"), ("frame header", "codec/src/codec/encode.rs"), ("transfer body", "codec/src/protocol/mod.rs")])

p("C04", "Messages round-trip and report their exact size after any sequence of edits",
  "After any sequence of builder calls and in-place edits, a message reports exactly the number of bytes it encodes to, encodes its sections in the order the specification prescribes, and decodes back to an equal message with the same header, annotations, properties, application properties, body and footer. The same bytes parsed from a delivery's payload yield that message.",
  ["inputs", "histories"], "all histories of message construction and mutation over all section values, encoded at any point of the history",
  "Tests build four messages once and encode them once; the size cache makes the result depend on the order of edits and encodes.",
  ["codec/src/message/message.rs", "codec/src/message/body.rs", "codec/src/protocol/mod.rs"],
  [("section encoding and cached size", "codec/src/message/message.rs"), ("body kinds", "codec/src/message/body.rs")])

p("C05", "Decoding arbitrary bytes is total, bounded and confined to the frame",
  "Whatever bytes a peer sends, the frame, value, message and protocol-header decoders return a value, a request for more input or an error: they never panic, abort, overflow the stack or loop, and the memory they take is proportional to the input actually received rather than to sizes or counts claimed inside it. A value never extends outside the extent its enclosing compound or frame declares: content that disagrees with a declared size is an error, never silently misread as something else.",
  ["inputs"], "all byte strings, with emphasis on near-valid frames (corrupted sizes, counts, constructors, truncations, deep nesting)",
  "The tests try one malformed frame header; malformed input is an unbounded space and the failures are at arithmetic and allocation boundaries.",
  ["codec/src/codec/decode.rs", "codec/src/codec/mod.rs", "codec/src/types/variant.rs", "codec/src/types/array.rs", "codec/src/io.rs", "codec/src/protocol/definitions.rs", "codec/src/message/message.rs"],
  [("size checks before reads", "codec/src/codec/decode.rs (decode_check_len, decode_compound*)"), ("compound headers", "codec/src/codec/decode.rs")])

p("C06", "Frame decoding does not depend on how the byte stream is cut",
  "A byte stream made of frames decodes to the same sequence of frames (and the same final error, if any) however it is split into reads, and no byte of a later frame is consumed by an earlier one. With a configured maximum inbound frame size, a frame larger than it is rejected as soon as its header is available and a frame of exactly that size is accepted; frames smaller than a header are rejected.",
  ["inputs", "schedules"], "all frame sequences x all cut points x all size limits",
  "No test feeds a frame in more than one piece or sets a size limit.",
  ["codec/src/io.rs", "codec/src/codec/decode.rs"],
  [("two-state frame decoder", "codec/src/io.rs (AmqpCodec::decode)"), ("frame header/doff handling", "codec/src/codec/decode.rs (decode_frame_header)")])

p("C07", "Protocol headers are negotiated exactly",
  "An eight byte protocol header is accepted only if it is exactly AMQP, a known protocol id and version 1.0.0, and is classified correctly; headers written are those bytes. The server answers a supported header by repeating it and never proceeds on an unsupported or malformed one; the client proceeds only if the peer repeats the header the client sent.",
  ["inputs", "schedules"], "all 8 byte headers near the valid ones, all splits, both roles, plain and SASL",
  "The tests only use matching headers delivered in one piece.",
  ["codec/src/io.rs", "src/server/service.rs", "src/server/sasl.rs", "src/client/connector.rs"],
  [("ProtocolIdCodec", "codec/src/io.rs"), ("server handshake", "src/server/service.rs (handshake)"), ("client negotiation", "src/client/connector.rs")])

p("E01", "A sender never exceeds link credit and never idles while it has credit",
  "On every sending link the number of deliveries started never exceeds what the receiver's flow state allows (its reported delivery-count plus its credit, with serial-number arithmetic, including when credit is reduced or withdrawn). When credit is available and the session window is open, every send already requested on an open link proceeds without further input, and the credit and readiness reported to the application agree with that state.",
  ["histories", "schedules"], "all interleavings of sends, flow frames (grants, reductions, zero, stale, echo), cancelled sends and settlements on several links",
  "The server test grants fixed credit once; reductions with deliveries in flight, cancellation and several queued senders are never tried.",
  ["src/sndlink.rs", "src/session.rs", "src/dispatcher.rs"],
  [("apply_flow / pending_transfers", "src/sndlink.rs"), ("send credit accounting", "src/sndlink.rs (SenderLinkInner::send)")],
  ["transfer and flow frames on the wire", "SenderLink::credit/ready", "TransferBuilder::send completion"])

p("E02", "Each accepted send appears on the wire exactly once, whole and in order",
  "For every send the library accepts, the peer receives exactly one delivery on that link whose payload is byte-identical to what was passed in, with the requested tag, format and settled flag, whether it fits in one frame or is split over many. Deliveries of a link appear in the order they were sent, the frames of one delivery are contiguous on their link and all but the last say more follows, and a send that reports an error leaves no complete delivery behind.",
  ["inputs", "histories"], "payload sizes around every frame-size boundary, raw and structured messages, many links and sessions, all credit/window histories",
  "One test sends one large payload over the default frame size; boundary sizes, small peer frame sizes, tags, structured messages and interleaving links are not sampled.",
  ["src/session.rs", "src/sndlink.rs", "src/delivery.rs", "codec/src/protocol/mod.rs"],
  [("send_transfer chunking", "src/session.rs"), ("TransferBuilder", "src/delivery.rs")],
  ["transfer frames on the wire"])

p("E03", "The peer's session window is respected and no send is lost waiting for it",
  "A session begins a delivery only while the peer's incoming window, as established by its begin and flow frames and reduced by every transfer frame sent since, is not used up. Sends blocked on a closed window proceed in order once the peer's flow reopens it, including flows that omit next-incoming-id.",
  ["histories"], "all window sizes, multi-frame deliveries, flow updates with and without next-incoming-id, several links sharing one session",
  "The tests run with an effectively unlimited window.",
  ["src/session.rs"], [("remote_incoming_window / pending_transfers", "src/session.rs (send_transfer, handle_flow)")],
  ["transfer and flow frames on the wire"])

p("E04", "No frame sent exceeds the peer's maximum frame size",
  "Every transfer frame the library writes after the open exchange is at most as long as the max-frame-size the peer announced, for every announced size of 512 bytes or more, every payload size and every delivery tag the specification allows (up to 32 octets). Sends of any size remain possible under every such limit.",
  ["inputs", "configurations"], "all peer max-frame-size values from 512 up, all payload sizes and tags",
  "Tests only use the default 64 KiB limit.",
  ["src/session.rs", "src/connection.rs"], [("chunk size computation", "src/session.rs (send_transfer)")],
  ["frame sizes on the wire"])

p("E05", "Every delivery gets its own outcome, exactly once",
  "Deliveries sent on a session carry distinct, sequential delivery ids; waiting on a delivery returns the state from a disposition of the peer that covers its id (first, range, or wrapping range), never one meant for another delivery, whether the disposition arrives before or after the wait. Pre-settled deliveries complete at once; a disposition for unknown ids changes nothing, and once the peer has settled a delivery no disposition for it is sent.",
  ["histories", "schedules"], "all orders of sends, waits, drops and dispositions (single, ranges, unsettled updates, settled with or without state, repeated, unknown ids)",
  "Tests wait for one disposition per delivery, in order.",
  ["src/delivery.rs", "src/session.rs"],
  [("settle_deliveries", "src/session.rs"), ("Delivery::wait/handle_disposition/drop", "src/delivery.rs")],
  ["Delivery::wait/remote_state/is_remote_settled", "disposition frames on the wire"])

p("E06", "No operation is left pending when its link, session or connection goes away",
  "When a link is detached, a session ended or the connection closed or lost, by either side and at any moment, every operation that depends on it (sends waiting for credit or window, waits for outcomes or readiness, receives, opens, attaches, detaches, ends) completes, with an error where its result was not achieved, and later operations on it fail promptly instead of hanging. None of these operations panics.",
  ["histories", "crash_points", "fault_sequences"], "all points in all histories at which a detach, end, close or transport loss may fall, with any set of operations outstanding",
  "Tests cover a detach with one waiting delivery and a disconnect with idle links; the product of outstanding operations and failure points is not sampled.",
  ["src/session.rs", "src/connection.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/delivery.rs", "src/dispatcher.rs"],
  [("SessionInner::set_error", "src/session.rs"), ("ConnectionInner::set_error", "src/connection.rs"), ("handle_detach", "src/session.rs"), ("remote_detached", "src/sndlink.rs, src/rcvlink.rs")],
  ["completion of API futures"])

p("E07", "Received deliveries reach the application whole, in order, exactly once",
  "For every sequence of transfer frames a conforming peer sends within credit on any number of links, interleaved and split into frames in any way, the application obtains on each link exactly those deliveries, in order, each once, with byte-identical payload and the sender's tag, id, format and settled flag. A delivery is visible only when its last frame has arrived and an aborted delivery is never handed over.",
  ["inputs", "histories", "schedules"], "all splits of payloads into transfer frames, interleavings across links and sessions, and paces of consumption",
  "Tests receive single-frame transfers and one large one on a single link.",
  ["src/rcvlink.rs", "src/session.rs", "src/dispatcher.rs"],
  [("handle_transfer / partial_body", "src/rcvlink.rs"), ("transfer routing by handle", "src/session.rs (handle_frame)")],
  ["ReceiverLink::recv/get_delivery", "publish service calls"])

p("E08", "A receiver grants and enforces exactly the credit it was given",
  "Each credit call on a receiving link puts a flow frame on the wire granting it, with the link's handle and a delivery-count equal to the deliveries received so far (credit granted before the attach of the peer is answered is announced right after the answer; the library grants 50 only where the application granted nothing). A peer that stays within the total credit granted is never refused, and the first delivery beyond it causes the link to be detached with transfer-limit-exceeded and is not handed to the application.",
  ["histories"], "all sequences of credit grants and transfers, single and multi-frame, on links opened by either side",
  "Tests never exhaust credit.",
  ["src/rcvlink.rs", "src/session.rs", "src/router.rs"],
  [("set_link_credit / credit check", "src/rcvlink.rs"), ("rcv_link_flow", "src/session.rs")],
  ["flow and detach frames on the wire", "deliveries handed over"])

p("E09", "Message size limits are enforced in both directions",
  "A receiving link hands over every delivery whose payload is at most its maximum message size and detaches with message-size-exceeded on any larger one, however it is split into frames, with zero meaning no limit. A sending link refuses, without putting anything on the wire, a message larger than the limit in force for the link and accepts any up to it.",
  ["inputs", "configurations"], "all limits x payload sizes around the limit x frame splits, links opened by either side",
  "No test sets or reaches a message size limit.",
  ["src/rcvlink.rs", "src/delivery.rs", "src/sndlink.rs"],
  [("max_message_size check on merge", "src/rcvlink.rs"), ("BodyTooLarge check", "src/delivery.rs")],
  ["deliveries handed over", "detach frames", "send results"])

p("E10", "A received delivery is settled at most once, with the application's outcome",
  "For each unsettled delivery received, settling it puts exactly one settled disposition on the wire, for that delivery's id, with the receiver role and the given state; further settles send nothing, and dropping it unsettled rejects it exactly once. Nothing is sent for deliveries the peer sent settled or has settled meanwhile, and each non-final update sends one unsettled disposition with the given state.",
  ["histories"], "all orders of settle, update, drop and peer dispositions over many deliveries",
  "Tests settle each delivery once through the router.",
  ["src/delivery.rs"], [("Delivery::settle/update_state/drop", "src/delivery.rs")],
  ["disposition frames on the wire"])

p("E11", "Link lifecycle: attach, detach and handle routing never mix links up",
  "Whatever the order in which links are attached, refused, detached and re-attached by either side, with any handles and with names reused after detach, every frame the peer sends on a handle affects only the link attached there, and every frame the library sends carries the handle it announced for that link. Each attach by the peer is answered by exactly one attach with the complementary role and the same name (followed by a detach if refused), each detach by the peer is answered by exactly one detach, and no frame is sent on a link after its detach.",
  ["histories"], "all histories of attach/detach by both sides over a few names and arbitrary handles, with refusals and traffic in between",
  "Tests attach one or two links and detach them once; name and handle reuse and refusals are not covered.",
  ["src/session.rs", "src/connection.rs", "src/dispatcher.rs"],
  [("links / links_by_name / remote_handles", "src/session.rs"), ("handle_attach / handle_detach", "src/session.rs"), ("unconfirmed link rejection", "src/session.rs (detach_unconfirmed_sender_link, detach_receiver_link)")],
  ["attach/detach frames on the wire", "state of link objects"])

p("E12", "Session lifecycle: channels are mapped one to one and ended once",
  "Whatever the order in which sessions are begun and ended by either side on any channels, frames the peer sends on a channel affect only the session begun there and every frame of a session is sent on the channel the library announced for it. Each begin by the peer is answered by one begin naming its channel, each end by exactly one end, an end initiated locally is sent exactly once and completes when the peer confirms, no frame is sent on a channel after its end until it is begun anew, and ending one session leaves the others working.",
  ["histories"], "all histories of begin/end by both sides over arbitrary remote channels with channel reuse and traffic",
  "Tests use one session, or end one session, with equal local and remote channel numbers.",
  ["src/connection.rs", "src/session.rs"],
  [("sessions slab / sessions_map", "src/connection.rs"), ("Session::end", "src/session.rs")],
  ["begin/end frames on the wire", "sessions still usable"])

p("E13", "Connection open and close follow the configured parameters and complete",
  "The first frame in each direction is an open on channel 0 that announces exactly the configured frame size, channel limit, idle timeout, hostname and capabilities, and the peer's announced values are the ones the application sees and that are obeyed. A close by the peer is answered by one close, after which nothing more is sent and all sessions fail with the peer's error; a local close sends one close carrying the given error; and anything but an open as first frame is refused.",
  ["configurations", "histories", "inputs"], "all configurations and peer opens, close from either side at any moment with any error",
  "Tests use default configurations and end by dropping the connection.",
  ["src/lib.rs", "src/connection.rs", "src/server/handshake.rs", "src/server/service.rs", "src/client/connector.rs", "src/dispatcher.rs"],
  [("AmqpServiceConfig::to_open / RemoteServiceConfig", "src/lib.rs"), ("Frame::Close handling", "src/connection.rs"), ("handshake", "src/server/handshake.rs")],
  ["open/close frames on the wire"])

p("E14", "The router serves each delivery by its address and reports the outcome",
  "With any set of routes (static and parameterised) a link attached to a matching address is served by that route's handler with the matched parameters, each of its deliveries is handed to it exactly once and in order, and the disposition sent for it is the handler's outcome: accepted, rejected, or rejected with the handler's error. Attaching to an unmatched or missing address, or to one whose handler cannot be created, is refused with an error and disturbs no other link, and when a link or session ends its handler is shut down once.",
  ["inputs", "histories"], "all route tables, addresses, handler results (immediate, delayed, failing) and link histories",
  "Tests use one or two static routes whose handlers always accept.",
  ["src/router.rs", "src/dispatcher.rs", "src/types.rs"],
  [("RouterService", "src/router.rs"), ("Outcome::into_delivery_state", "src/types.rs")],
  ["handler calls", "disposition/detach frames on the wire"])

p("E15", "No peer behaviour panics or wedges the endpoint or harms other connections",
  "For every history of well-formed frames a peer can send, including ones that violate the protocol (unknown channels and handles, duplicate or misplaced performatives, wrong roles, extreme ids, ranges, credits and sizes), and every interruption of the byte stream, the endpoint never panics, spins or exhausts memory. It either keeps serving the connection correctly or ends it with the connection task completing, and other connections of the same server keep working.",
  ["histories", "inputs", "fault_sequences"], "all sequences of frames from all performatives with boundary field values, at any stage, cut at any byte",
  "The tests only speak the protocol correctly.",
  ["src/connection.rs", "src/session.rs", "src/rcvlink.rs", "src/dispatcher.rs", "src/delivery.rs"],
  [("handle_frame", "src/connection.rs, src/session.rs"), ("Dispatcher", "src/dispatcher.rs")],
  ["panics, task completion, liveness of a second connection"])

p("E16", "SASL runs before anything else with exact credentials and outcome",
  "A SASL server offers exactly the configured mechanisms, shows the application the mechanism, hostname and response bytes the client sent, supports zero or one challenge round, sends exactly one outcome, and lets the connection proceed to open only when the application continues it. A client with credentials sends PLAIN with exactly those credentials, proceeds only on an ok outcome, reports any other code as that code, and neither side proceeds on an unexpected or truncated exchange.",
  ["inputs", "histories"], "all mechanism lists, credentials, challenges, outcome codes, and deviations at each step",
  "One test runs PLAIN with fixed credentials and success; challenges, failures and deviations are not covered.",
  ["src/server/sasl.rs", "src/client/connector.rs", "codec/src/protocol/mod.rs"],
  [("Sasl/SaslInit/SaslResponse/SaslSuccess", "src/server/sasl.rs"), ("connect_sasl_inner", "src/client/connector.rs"), ("prepare_response", "codec/src/protocol/mod.rs")],
  ["SASL frames on the wire", "handshake results"])

p("E17", "The peer's idle timeout is honoured",
  "While a connection is otherwise silent, the endpoint sends frames often enough that the gap never reaches the idle timeout the peer announced in its open, for every announced value of at least a few hundred milliseconds; if none was announced it sends nothing of its own. Empty frames received are accepted at any time and change nothing.",
  ["configurations", "schedules"], "all announced idle timeouts including sub-second and odd values, both roles",
  "No test announces an idle timeout or waits for a keep-alive.",
  ["src/lib.rs", "src/dispatcher.rs", "src/server/handshake.rs", "src/client/connection.rs"],
  [("timeout_remote_secs", "src/lib.rs"), ("idle_sleep", "src/dispatcher.rs")],
  ["empty frames on the wire"])

p("E18", "Channel limits of both sides are respected",
  "The number of sessions the endpoint opens never makes it use a channel number above the smaller of its own and the peer's channel limit; opening a further session fails at once without a frame, and once a session has ended its channel can be used again. Every channel number up to and including the limit is usable. A begin of the peer is answered on such a channel too, and ends the connection when none is left or when the peer uses a channel for a second session. A session whose opening the application gave up on is ended, so its channel is not lost.",
  ["configurations", "histories"], "all pairs of limits, all open/end histories",
  "No test sets a channel limit.",
  ["src/connection.rs", "src/lib.rs"], [("channel_max check", "src/connection.rs (open_session)")],
  ["begin frames on the wire", "open_session results"])

p("E19", "Two endpoints of this library move messages intact in both directions",
  "With a client and a server of this library connected by any byte stream that preserves order, however it delays and fragments the bytes and whatever frame sizes and credits are configured, every message sent is handed to the other side's application exactly once, in order per link and unchanged, and the sender learns exactly the outcome the other application gave. When either side closes or the stream is cut, both sides' connection tasks and operations complete.",
  ["schedules", "configurations", "fault_sequences"], "all fragmentations, delays, cut points, payloads and configurations",
  "The integration tests use a loopback TCP socket with default settings and a handful of messages.",
  ["src/client/connection.rs", "src/server/service.rs", "src/session.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/router.rs"],
  [("whole stack", "src/")], ["handler calls, delivery outcomes, task completion"])

p("E20", "Flow frames report the endpoint's true session and link state",
  "Every flow frame the endpoint sends reports as next-incoming-id the id following the last transfer frame received on the session, as next-outgoing-id the id of the next transfer frame it will send, and, when for a link, that link's handle and delivery-count. A flow from the peer that asks for an echo is answered by exactly one flow, and flows that do not ask are not answered.",
  ["histories"], "all interleavings of transfers in both directions (single and multi-frame), credit calls and flows with and without echo or handle",
  "No test inspects flow frames or requests an echo.",
  ["src/session.rs", "src/rcvlink.rs"],
  [("handle_flow / rcv_link_flow", "src/session.rs")], ["flow frames on the wire"])

p("E21", "The application is told of each event of its links and sessions, once",
  "Over any history of attaches, flows, transfers, detaches and ends by either side, and however the connection ends (closed by either side or cut), the control service is told of every attach, flow, detach, session end, close error, disconnect and the final close exactly once and with the error the other side gave, and the server's publish service of every attached receiver, every delivery, every detached receiver and every ended session exactly once. Pending and later sends, waits for outcomes, receives, attaches, closes and ends fail with that same error, complete, and agree with what the link objects report (closed or not, and their error). A slow or busy service delays but loses none of this.",
  ["histories", "inputs", "schedules"], "all histories of link and session lifecycles over several sessions, all error values, slow and busy application services, both roles",
  "The tests detach without errors and check only that something arrives.",
  ["src/session.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/connection.rs", "src/dispatcher.rs", "src/control.rs"],
  [("ControlFrameKind", "src/control.rs"), ("handle_detach / handle_end / set_error", "src/session.rs"), ("remote_detached", "src/sndlink.rs, src/rcvlink.rs")],
  ["control and publish service calls", "results of application calls", "link state accessors"])

p("E22", "A failure of an application service ends only what it concerns",
  "When the application's control or publish service returns an error for an attach, that link is refused with exactly that error; for a flow or a delivery, that link alone is closed with that error; for the end of a link or session, nothing further happens. When the publish service reports that it is not ready, with an error, the connection is closed with that error. Every other link, session and pending operation keeps working as if nothing had failed, and each event is still reported once.",
  ["histories", "fault_sequences"], "all histories of link and session lifecycles with service failures injected at any subset of the events, all error values, both roles",
  "Tests have handlers that succeed; none returns an error at a chosen event.",
  ["src/dispatcher.rs", "src/session.rs", "src/control.rs"],
  [("handle_control_frame / call_control_service", "src/dispatcher.rs")],
  ["frames on the wire", "control and publish service calls", "results of application calls"])

p("E23", "Link handles stay within the peer's limit and find exactly the open links",
  "On every session, the handles of the endpoint's links are unique among its open links and never above the handle-max the peer gave in its begin; every handle up to that limit is usable and a handle is free again once its link is detached. An attach beyond the limit fails at once without a frame, and a link of the peer that can get no handle ends the connection. Looking up links by name, by the endpoint's handle or by the peer's handle finds exactly the open links, at any point of the history.",
  ["histories", "configurations"], "all attach/answer/refuse/detach histories by both sides over several sessions, all handle limits, repeated names and arbitrary peer handles",
  "No test limits handles or opens more than a few links.",
  ["src/session.rs", "src/connection.rs"],
  [("link slab and remote handle maps", "src/session.rs"), ("get_sender_link / get_sender_link_by_*_handle / get_receiver_link_by_*", "src/session.rs")],
  ["attach and detach frames on the wire", "attach results", "link lookups"])

p("E24", "What is configured is announced, and what is announced is shown",
  "Every setting the application makes is what the peer is told: the open frame carries the configured frame size, channel limit, idle timeout, host name and capabilities (and the documented defaults otherwise), begin the session capabilities and properties, attach everything set on the link builders, and the answer to an attach of the peer what the control service changed in it, including the message size limit. And everything the peer announces or sends is shown to the application unchanged: its open and the remote configuration, the attach frames in control and publish service, flows, transfers, link names, handles, message size limits and whether a delivery was sent settled. Errors built by the application carry exactly the condition, description and info given.",
  ["inputs", "configurations"], "all field values of configuration, open, begin, attach, flow, transfer and error, both roles",
  "The tests set one or two options and look at none of the frames.",
  ["src/lib.rs", "src/connection.rs", "src/session.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/error.rs", "src/control.rs", "src/types.rs", "src/server/handshake.rs"],
  [("to_open / RemoteServiceConfig", "src/lib.rs"), ("SessionBuilder", "src/connection.rs, src/session.rs"), ("SenderLinkBuilder / ReceiverLinkBuilder", "src/sndlink.rs, src/rcvlink.rs"), ("LinkError / AmqpError", "src/error.rs")],
  ["frames on the wire", "control and publish service calls", "accessors"])

p("E25", "The handshake is bounded in time, and only the handshake",
  "A client connect or an accepted server connection whose handshake (protocol headers, SASL exchange, open, and the time the application or the transport connector takes) is not complete within the configured handshake timeout fails with a timeout error at that time, not earlier, however the peer paces its bytes; the stream is closed and the application's handshake future is dropped. A handshake that completes in time leaves a connection the timer never touches again. A timeout of zero means no limit; the default is five seconds.",
  ["schedules", "configurations"], "all pacings of the peer's bytes, application delays, timeouts, with and without SASL, both roles",
  "No test stalls during the handshake or sets the timeout.",
  ["src/server/service.rs", "src/client/connector.rs", "src/lib.rs"],
  [("timeout_checked", "src/server/service.rs, src/client/connector.rs"), ("set_handshake_timeout", "src/lib.rs")],
  ["result of connect / serve, and when", "bytes on the wire", "stream closed"])

p("E26", "What links, deliveries, sessions and connections report is true",
  "A wait for credit on a sender link completes at the next flow that gives credit, or when the link is gone, and at no other time; a wait for the end of a link or of the connection completes exactly when it ends. A delivery reports the state the peer told last and whether the peer settled it, for as long as the link is open. A session reports the window the peer gave minus what was sent into it. A receiver link reads the same deliveries, in the same order and with the same end or error, as a stream and by recv. Links report open until they are gone, afterwards closed with the reason.",
  ["histories"], "all histories of flows, deliveries, dispositions, detaches, ends and closes by both sides, with waits begun and dropped anywhere",
  "No test waits for credit or the end of a link, keeps a delivery or reads a receiver as a stream.",
  ["src/sndlink.rs", "src/rcvlink.rs", "src/delivery.rs", "src/session.rs", "src/connection.rs"],
  [("on_credit_update / on_close", "src/sndlink.rs"), ("Stream for ReceiverLink", "src/rcvlink.rs"), ("remote_state / is_remote_settled", "src/delivery.rs"), ("remote_window_size", "src/session.rs"), ("on_close / is_opened", "src/connection.rs")],
  ["notifications", "accessors of links, deliveries, sessions and connections"])

p("E27", "The services of a connection live exactly as long as it does",
  "For each connection the server makes one publish and one control service, with the state its handshake gave; a connection that the handshake refuses, or whose services cannot be made, ends with the error that names the cause, and no service is called. A service that is not ready is not called, and everything that came meanwhile is told once it is. A service whose readiness fails ends the connection, and the peer is told why. However a connection ends, the control service is told of the end exactly once and of nothing after it, each service is then shut down exactly once, and services, state and stream are gone afterwards. Connections do not affect each other; the handshake service is shut down with its server and not before.",
  ["histories", "schedules", "faults"], "all histories of several connections of one server or client, with services made late, not made, not ready, failing, slow to call or shut down, and ends by peer, application, cut, garbage or drop",
  "No test observes readiness, shutdown or drop of a service, a factory that fails, or a second connection of one server.",
  ["src/server/service.rs", "src/dispatcher.rs", "src/client/connection.rs"],
  [("ServerHandler / handshake", "src/server/service.rs"), ("Dispatcher::ready / shutdown", "src/dispatcher.rs"), ("Client::start", "src/client/connection.rs")],
  ["server", "client", "service lifecycle"])
p("E28", "Memory does not grow with the history of a connection",
  "Deliveries, links, sessions and connections that are done with leave nothing behind: a round of work that ends where it began can be repeated any number of times without the live memory growing with the number of rounds - whether what it began was settled, refused, cancelled, abandoned, detached, ended or cut, by either side, and whether waits were completed or dropped.",
  ["histories"], "all rounds of connections, sessions, links or deliveries in both directions, repeated",
  "Tests run each exchange once and never look at memory.",
  ["src/session.rs", "src/connection.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/delivery.rs", "src/dispatcher.rs"],
  [("SessionInner", "src/session.rs"), ("ConnectionInner", "src/connection.rs"), ("Delivery", "src/delivery.rs")],
  ["memory", "sessions", "links", "deliveries"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: 
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
