"""How each property is decided: (what is generated, the oracle, bounds and limits)."""
M = {
"C01": ("value trees over every AMQP type with boundary scalars, strings and binaries around 255/256, maps, lists, arrays and described values nested to depth 6 (sub deep: to 128; sub big: tens of kilobytes)",
        "reported size = bytes written; the independent reference decoder reads the same value; decode(encode(v)) = v; bytes that follow are untouched; round trip of the specialised codecs (Vec, Multiple, HashMap, VecMap, Array)",
        "generated trees only; nesting above the decoder's limit is C05"),
"C02": ("value trees with a legal constructor drawn at every node (compact, one byte, four or eight byte, 8/32 bit lengths, numeric or symbolic descriptors, all array element constructors)",
        "the library decodes exactly the value the tree denotes and consumes exactly its bytes; re-encoding and decoding gives it again",
        "same generators as C01"),
"C03": ("all performatives, SASL frames and composites with any subset of fields, every alternative encoding, trailing nulls left out or not, any channel",
        "differential against hand-written schema tables in both directions: written bytes read by the reference decoder; reference bytes read by the library; size = bytes; defaults; re-encode is a fixpoint; accessors",
        "schema tables cover all frames of the library; one known finding (filter-set values)"),
"C04": ("histories of builder calls and in-place edits of a message, asked for its size at random points, and messages encoded by the reference",
        "section model: exact size at every point, section order, decode = model, equality independent of history",
        "bodies of every kind the library offers"),
"C05": ("well-formed frames, values, messages, headers with mutations: flips, splices, changed size/count/constructor bytes, truncation, deep nesting, random bytes; fed whole and in pieces",
        "no panic, abort or stack overflow (a worker process dies = violation), counting allocator bounds memory by the input, cpu bound; acceptance and extent compared with the strict reference decoder",
        "bounded input size (tens of kilobytes)"),
"C06": ("frame streams of any frames, limits, garbage tails; cut into reads at generated places",
        "metamorphic: any cut gives the same frames and final error as one read; independent framer; limit model (a frame above the limit fails as soon as its header is there)",
        ""),
"C07": ("exact, near-exact and random headers, any protocol id and version bytes, both roles, fragmented; on the codec and on live handshakes",
        "table of the three headers: accepted and classified iff exact; live: server repeats a supported header and never proceeds otherwise, client proceeds only on the echo",
        ""),
"E01": ("histories against the model peer: sends (all APIs), flows with any delivery-count/credit/drain, ids around 2^32, pipelined flows, slow control service",
        "credit model with serial arithmetic over the frame log: never a delivery beyond the limit; at rest no send waits while credit and window are there; ready(), has_credit(), credit agree",
        "'never idles' is judged at quiescence of the runtime, never by a deadline"),
"E02": ("sends of 0..100 kB over frame sizes from 512, cancelled at any await, several links and sessions, credit and window blocked",
        "per-link delivery log reassembled from frames = accepted sends, in order, whole, with tag, format, settled flag; cancelled sends either whole or absent",
        "tag given by the application unique"),
"E03": ("begin/flow windows 0..n, next-incoming-id present/absent/behind, ids around 2^32, multi-frame deliveries",
        "window model per transfer frame; blocked sends proceed in order at rest after a reopening flow",
        ""),
"E04": ("announced sizes from 512 up, payloads around multiples of the size, tags to 32 octets, message formats, settled flags, first/continuation frames",
        "length of every frame written <= announced size; payload intact",
        ""),
"E05": ("dispositions: single, ranges, wrapping ranges, unknown ids, settled/unsettled, with/without state, before and after wait(), double waits, drops",
        "outcome model per delivery id; each wait completes once with the state meant for it",
        ""),
"E06": ("any blocking operation pending while the link, session or connection is closed by either side, refused or cut, with slow services",
        "at rest every operation has completed, with an error where its result was lost; tasks of the connection end",
        "quiescence, no deadline"),
"E07": ("transfers of conforming peers interleaved over links, split anywhere, aborted, empty, settled late; sub ids: continuations with wrong ids, tags, formats",
        "delivery log handed to the application (recv, publish service, get_delivery) = model, byte for byte; a wrong continuation ends only in refusal, never in a merged delivery",
        ""),
"E08": ("credit calls at any time (also before the attach is answered), near 2^32 in total, peers within, at and beyond credit",
        "flow log: credit, delivery-count, handle; overrun is refused, never handed over",
        ""),
"E09": ("limits 0..n on both sides, messages at limit-1, limit, limit+1, split in any way",
        "limit model: refused without a frame (sender), detach with message-size-exceeded (receiver), 0 = none",
        ""),
"E10": ("settle/update/drop/wait histories against dispositions of the peer, settled flag anywhere in a delivery",
        "disposition log: at most one settled disposition per delivery, right id, role and state; drop = one reject; nothing for settled ones",
        ""),
"E11": ("attaches by either side, refusals, detaches at any moment (also unanswered ones), names reused, handles chosen by the peer",
        "link model: each frame on a handle affects only its link; one answer per attach and detach; API state of every link object",
        ""),
"E12": ("begins and ends by either side on any channels, ends crossing, operations on ended sessions",
        "channel model: one begin/end answer each, nothing after end, every object ended; API errors",
        ""),
"E13": ("open parameters of both sides, closes by either side at any moment with/without error, pending operations, cuts",
        "open fields = configuration; exactly one close; nothing after it; task result and errors shown",
        ""),
"E14": ("route tables (static and parameterised), addresses, handler scripts (delays, errors, panics excluded), detach/end/close in the middle",
        "routing model, delivery order per link, dispositions = outcomes, handler shutdown exactly once, no handler call left",
        ""),
"E15": ("histories of well-formed frames in protocol-violating order with extreme values, cut at any byte, pipelined, on server and client",
        "no panic in library code, the connection task completes after the peer is gone, bounded frames written, a second connection is still served",
        "a well-formed violation may be answered by any close or end the library chooses"),
"E16": ("mechanism lists, credentials, hostnames, challenges, application decisions, wrong frames and order, both roles, fragmented",
        "exact SASL exchange model; nothing of AMQP before the outcome; credentials only after mechanisms that offer PLAIN",
        ""),
"E17": ("announced idle timeouts, own timeouts, traffic patterns with silent gaps; about fifty connections in parallel on real timers",
        "largest gap between frames observed by the peer < announced timeout; none announced: silence",
        "a case in which the event loop of the check was late by 100 ms or more proves nothing and is counted as not judged"),
"E18": ("channel limits of both sides 0..65535, opens/ends/abandoned opens by both sides, wide and full ranges",
        "channel allocation model: bound, immediate failure without frame, reuse, all channels up to the limit usable",
        ""),
"E19": ("client and server of the library over a proxy that delays, fragments, backpressures and cuts; several sessions/links in both directions; late readers, cancels, closes",
        "exactly once, in order, unchanged content; outcome seen = outcome given; what was sent before the sender closed a link still arrives; everything completes at the end",
        ""),
"E20": ("histories with transfers both ways and flows asking for echo on sessions and links",
        "every flow written carries ids/counts of the independent model at the time it is written; each echo is answered",
        ""),
"E21": ("histories of link/session events by both sides, many at once, with services that are slow or not ready",
        "multiset of events told to control and publish service = model, with the error of the other side; each API result too",
        ""),
"E22": ("the same with services failing at any event, and a publish service that becomes not ready with an error",
        "only the concerned link/session/connection is closed, with exactly that error; others go on",
        ""),
"E23": ("handle-max 0..n of the peer, attaches/detaches by both sides, lookups by name, local and remote handle",
        "handle model: range, uniqueness, reuse, immediate failure beyond; lookups find exactly the open links",
        ""),
"E24": ("every setter of configurations and builders with generated values; every field of open, begin, attach, transfer of the peer",
        "field by field: wire = set; shown = wire; defaults as documented",
        ""),
"E25": ("handshake timeouts, peers that pace or stall at any stage, slow application and connector, on real timers",
        "timeout error not earlier than and soon after the limit; completes otherwise and is never cut off later",
        "0.45 s of tolerance around the limit; the lateness of the check's own event loop is measured, a late case is not judged"),
"E26": ("the histories of E21 with notifications begun and dropped anywhere, kept deliveries, dispositions of the peer, receivers read as streams",
        "each notification is done exactly if due by the model; state, settlement, window and reason = what the peer told",
        ""),
"E27": ("several connections served by one server (boxed and plain streams) or client; services made late or not at all, not ready, failing, slow; all operations and ends, the future of a connection dropped",
        "a model of what each service has to be told; made, called, told of the end, shut down and dropped the right number of times, in order; the error a connection ends with; Close frame on failure; handshake service shut down last",
        "calls that waited with a service that was not ready may be made after its shutdown"),
"E28": ("a generated round (connections, sessions, links or deliveries, both roles, all endings and acknowledgements, cancelled sends, dropped waits) repeated several times over four spans",
        "metamorphic: live heap bytes (counting allocator) after each span must not exceed the span before by 8 bytes per round (160 bytes for connections, kept by ntex-io)",
        "leaks bounded by the number of rounds run (tens); pools of the allocator that stop growing are no leak"),
}
