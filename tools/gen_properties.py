"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
SRC = "src/connectrpc/"
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [f if "/" in f else SRC + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })

prop("C01", "Messages arrive exactly once, in order and unchanged on every RPC kind",
 "For every RPC kind, protocol (Connect, gRPC, gRPC-Web), codec, compression and client/server style, a call over a network that only fragments, coalesces and delays bytes delivers to each side exactly the messages the other side sent, in order, each equal to what was sent, and completes successfully. When faults occur, what a side has received is always an in-order, unaltered prefix of what its peer sent.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "all message sequences (including empty messages and empty streams), all byte-level chunkings and delays in both directions, all protocol/codec/compression/RPC-kind/sync-async combinations, any fault cutting the exchange short",
 "Tests send a few fixed messages through an in-process transport that delivers each envelope as one chunk; they never split a length prefix across reads, interleave delays, mix compressed and uncompressed envelopes or cut a stream.",
 ["_envelope.py", "_server_async.py", "_server_sync.py", "_client_async.py", "_client_sync.py", "_protocol_connect.py", "_protocol_grpc.py", "_compression.py"],
 [("incremental envelope reassembly", "_envelope.py EnvelopeReader"), ("envelope framing", "_envelope.py EnvelopeWriter"), ("request/response streaming", "_client_async.py _send_request_bidi_stream, _server_async.py _handle_stream and sync twins")],
 [("reassembly buffer", "bytes received but not yet a complete message", "_envelope.py EnvelopeReader._buffer")],
 ["messages seen by the handler", "messages seen by the client application", "bytes at the transport"])

prop("C02", "A response cut short is never reported as complete",
 "If the response of a call ends before its complete end-of-response information was received (the Connect end-of-stream message, the gRPC or gRPC-Web status trailers, or the whole body of a unary response), the client call ends with a ConnectError. It never returns a result or ends its message stream normally, wherever in the response the cut falls and however the transport reports it.",
 ["crash_points", "fault_sequences", "inputs", "configurations"],
 "every byte position of every response, cut by clean end of data, a read error, a stream reset or a dead connection, for every protocol, RPC kind and client style",
 "Tests only see complete responses or a handful of hand-written malformed ones; the cut position is never varied.",
 ["_client_async.py", "_client_sync.py", "_protocol_connect.py", "_protocol_grpc.py", "_envelope.py"],
 [("end-of-stream handling", "_protocol_connect.py ConnectEnvelopeReader, _protocol_grpc.py GRPCEnvelopeReader.handle_response_complete"), ("response completion", "_client_async.py/_client_sync.py _send_request_bidi_stream")],
 [], ["outcome of the client call versus the bytes the client was given"])

prop("C03", "A request cut short is never handed to the service as complete",
 "A service method is never given a unary request, and never sees its request stream end normally, unless everything the client meant to send was received: a client disconnect, a body ending inside a message or short of its declared length, or a failure of the client application's own message source always surfaces to the service as an error or prevents the method from running. The client, for its part, never ends a request body normally when the application's message source failed.",
 ["crash_points", "fault_sequences", "inputs", "configurations"],
 "every byte position of every request at which the body may stop, with a disconnect, a read error or a bare end of data, for ASGI and WSGI, every protocol and RPC kind",
 "Tests always deliver complete requests; the single truncation test covers one WSGI unary body.",
 ["_server_async.py", "_server_sync.py", "_envelope.py", "_client_async.py", "_client_sync.py"],
 [("ASGI body reading and disconnect mapping", "_server_async.py _read_body, _request_stream"), ("WSGI body reading", "_server_sync.py _read_body_with_content_length, _request_stream"), ("request body generation", "_client_async.py/_client_sync.py _streaming_request_content")],
 [], ["what the handler observes versus the bytes delivered to the server"])

prop("C04", "Errors raised by the service reach the client intact, after earlier messages",
 "When a service method raises a ConnectError at any point, the client first receives every message sent before it and then a ConnectError with the same code, message and details, whatever the protocol, RPC kind and network timing. Any other exception reaches the client as code UNKNOWN, and an error response never hides, alters or reorders the messages that preceded it.",
 ["inputs", "schedules", "configurations"],
 "all codes, messages (any Unicode text, percent signs, line breaks, empty) and detail lists, raised before, between or after response messages, over every protocol/kind/style and chunking",
 "Tests raise a few errors before the first message over an ideal transport; error-after-messages, detail encodings and message text across three protocols are sampled at single points.",
 ["_protocol.py", "_protocol_connect.py", "_protocol_grpc.py", "_server_async.py", "_server_sync.py", "errors.py", "_client_async.py", "_client_sync.py"],
 [("wire error conversion", "_protocol.py ConnectWireError"), ("gRPC status trailers", "_protocol_grpc.py GRPCEnvelopeWriter.end / GRPCEnvelopeReader.handle_response_complete"), ("Connect end message", "_protocol_connect.py ConnectEnvelopeWriter.end")],
 [], ["ConnectError seen by the client application"])

prop("C05", "A call with a timeout ends in DEADLINE_EXCEEDED at its deadline, never else",
 "A call given a timeout whose result is not available by then ends with ConnectError DEADLINE_EXCEEDED when the deadline passes, whatever stage the call is in and whatever the network or server is doing; the caller never sees any other exception for it. A call never reports DEADLINE_EXCEEDED of its own before its deadline, a call without a timeout never does so at all, and time the application spends between two messages is not interrupted.",
 ["schedules", "fault_sequences", "configurations"],
 "all timeouts and all points at which connection, request upload, response headers, any message or the end may stall or be slow, for async and sync clients and every protocol and kind; system wall-clock jumps",
 "Timeout tests use one 200 ms sleep in a handler on a real clock; the stage, the protocol and the race between completion and deadline are not varied.",
 ["_client_async.py", "_client_sync.py", "_asyncio_timeout.py", "request.py", "_client_shared.py"],
 [("async deadline", "_client_async.py wait_for / asyncio_timeout"), ("sync deadline", "_client_sync.py timeout passed to transport and end-of-stream check"), ("remaining time", "request.py RequestContext.timeout_ms")],
 [("deadline", "monotonic end time of the call", "request.py RequestContext._end_time")],
 ["virtual time and type of the call's outcome"])

prop("C06", "The server sees the client's remaining time, never more than was given",
 "When a call has a timeout, the service method and the client's interceptors can read a remaining time that never exceeds the timeout the client was given, is at most one rounding unit of the protocol's timeout header less when the request arrives, and then decreases exactly with elapsed time on that machine; without a timeout none is reported, nor (on the server) for one longer than the protocol's timeout header can express. Wall-clock differences between machines, clock jumps and the order of delivery do not affect it.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "all timeouts from 1 ms to years, all protocols and styles, arbitrary clock offsets between client and server, wall-clock steps at any instant, any delay before and inside the handler",
 "Tests check one or two timeouts on a shared real clock, so skew, jumps and elapsed time inside the call are never exercised.",
 ["request.py", "_protocol_grpc.py", "_protocol_connect.py", "_client_async.py", "_client_sync.py"],
 [("timeout headers", "_protocol_grpc.py _serialize_timeout/_parse_timeout, _protocol_connect.py create_request_context"), ("count-down", "request.py RequestContext.timeout_ms")],
 [("end time", "monotonic deadline", "request.py RequestContext._end_time")],
 ["ctx.timeout_ms() in handlers and interceptors against virtual time"])

prop("C07", "Cancelling or abandoning a client call ends it promptly and releases it",
 "Cancelling the task of a pending call, or closing a response stream before its end, completes without waiting for the server, and the HTTP response behind the call is closed. However a call ends - success, error, cancellation, deadline or early close - it leaves no running task, no open response and no pending request upload behind.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "every suspension point of a call at which it can be cancelled or closed, under any network state, for every kind and protocol and both client styles",
 "Tests cancel at one point of one call and never look at what is left open afterwards.",
 ["_client_async.py", "_client_sync.py", "_interceptor_async.py", "_interceptor_sync.py"],
 [("response context manager", "_client_async.py/_client_sync.py _send_request_bidi_stream (http_client.stream)"), ("cancellation mapping", "_client_async.py CancelledError handling")],
 [], ["open transport responses and live tasks after the call ended"])

prop("C08", "A departed client ends its server call promptly and cleans it up",
 "When a client disconnects or the server cancels a request, an ASGI service method that is reading its request stream gets an error, however many messages are waiting to be read, a server-streaming method is stopped at the latest when it next produces a message, and its clean-up code runs before the request finishes. Every request, however it ends, finishes in bounded time after its method does and leaves no running task and no unclosed service generator behind.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "every instant of a request at which the client may vanish or the request be cancelled, with servers that ignore, reject or cancel on writes after a disconnect, for every kind and protocol",
 "Two tests disconnect at one fixed point of a server stream; nothing checks leftover tasks, other kinds or other instants.",
 ["_server_async.py"],
 [("disconnect monitor", "_server_async.py _handle_stream _watch_for_disconnect"), ("generator close", "_server_async.py _handle_stream finally"), ("request stream errors", "_server_async.py _request_stream/_read_body")],
 [("disconnect flag", "client has gone", "_server_async.py disconnect_detected")],
 ["handler life-cycle events, tasks alive after the request"])

prop("C09", "Every request gets one well-formed HTTP response, whatever happens",
 "For every request, valid or not, and every way a service method or its client can behave, the application emits response events in a legal order: exactly one start, body parts after it, exactly one final part, trailers exactly when announced and nothing after the end; on WSGI the status is set once, before the first body part. The response bytes form complete frames of the negotiated protocol with exactly one end marker, placed last, unless the client has gone or the server cancelled the request.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "all handler behaviours (results, errors before/between/after messages, generator clean-up errors), all request defects (unknown path, method, content type, encoding, malformed body), all disconnect instants, ASGI and WSGI",
 "Tests look at decoded results through a forgiving client transport, which tolerates missing, duplicated or misordered events.",
 ["_server_async.py", "_server_sync.py", "_protocol_connect.py", "_protocol_grpc.py", "_protocol_server.py"],
 [("ASGI response", "_server_async.py _handle_unary_connect/_handle_stream/_handle_error"), ("WSGI response", "_server_sync.py _handle_unary/_handle_stream/_response_stream/_handle_error")],
 [], ["raw ASGI events; WSGI start_response calls, body parts and trailers"])

prop("C10", "A success status is sent only when the service method completed normally",
 "The server reports success for a call (HTTP 200 for a unary Connect call, an error-free end-of-stream message, or grpc-status 0) only if the service method returned, or its response stream ended, normally. A method that failed, was cancelled, or was stopped because the client left never produces a success status, however the failure and the response interleave.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "all failure kinds and instants inside a service method or an interceptor, including cancellation by the server and errors in generator clean-up, for every protocol, kind and style",
 "Tests raise ordinary exceptions at a fixed point; cancellation and failures while a message is being written are not exercised.",
 ["_server_async.py", "_server_sync.py", "_protocol_connect.py", "_protocol_grpc.py"],
 [("status choice", "_server_async.py _handle_stream finally; _server_sync.py _response_stream"), ("end markers", "EnvelopeWriter.end implementations")],
 [], ["final status decoded from the wire versus how the handler ended"])

prop("C11", "Concurrent calls sharing a client or application never affect each other",
 "Any number of calls may run concurrently through one client object and one server application, from tasks or from threads, and each behaves as if it ran alone: its messages, metadata, errors, timeout and request context are its own. The failure, cancellation or slowness of one call never changes the outcome of another.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of several calls of mixed kinds and protocols, with faults hitting some of them, in one event loop and across threads pre-empted at any line",
 "Tests run one call at a time; shared state only shows under particular interleavings of two calls.",
 ["_client_async.py", "_client_sync.py", "_server_async.py", "_server_sync.py", "_response_metadata.py", "_protocol_grpc.py", "_compression.py"],
 [("per-call readers and writers", "_protocol*.py create_envelope_reader/create_envelope_writer"), ("per-call context", "request.py RequestContext"), ("shared compressors and codecs", "compression/*.py, _codec.py")],
 [], ["per-call results tagged with a call identity"])

prop("C12", "Response headers and trailers set by the service reach the right caller",
 "Headers a service method sets before its first message and trailers it sets before it ends, including repeated and binary ones, are all visible with the same values to the caller that opened a response-metadata scope around that call, for successful calls and failed ones. They are never seen by another call's scope and never lost, duplicated or altered by network timing.",
 ["inputs", "schedules", "configurations"],
 "all header and trailer sets, all protocols, kinds, styles, outcomes and interleavings of calls with separate scopes",
 "Tests check one header and one trailer on a successful call at a time.",
 ["_response_metadata.py", "_headers.py", "request.py", "_server_async.py", "_server_sync.py", "_protocol_connect.py", "_protocol_grpc.py"],
 [("client capture", "_response_metadata.py handle_response_headers/handle_response_trailers"), ("server emission", "_server_async.py/_server_sync.py _add_context_headers, _send_stream_response_headers, EnvelopeWriter.end")],
 [("current scope", "the metadata object of the enclosing context", "_response_metadata.py _current_response")],
 ["ResponseMetadata.headers / .trailers after the call"])

prop("C13", "Interceptors run once per call, properly nested, with start and end paired",
 "For every call each configured interceptor runs exactly once, in configuration order on the way in and reverse order on the way out, on client and server. Every start of a metadata interceptor is matched by exactly one end for the same call carrying its own start token, which is given the error the call failed with, or none if it succeeded; starts and ends are also paired when the call times out, is cancelled or is abandoned, and when an interceptor fails, answers the call itself or replaces its messages.",
 ["schedules", "fault_sequences", "crash_points", "configurations"],
 "all interceptor chains, kinds, protocols, styles and call endings (result, error at any point, cancellation, early close, deadline), with several calls interleaved",
 "Tests record one interceptor chain over a successful call and one failure.",
 ["_interceptor_async.py", "_interceptor_sync.py", "_client_async.py", "_client_sync.py", "_server_async.py", "_server_sync.py"],
 [("chain construction", "ConnectClient.__init__, _apply_interceptors"), ("start/end pairing", "_interceptor_async.py MetadataInterceptorInvoker and sync twin")],
 [], ["interceptor invocation log"])

prop("C14", "No message larger than the configured limit is ever accepted",
 "With a read limit configured, a server never hands its service, and a client never hands its application, a message whose decompressed size exceeds the limit, whichever protocol, HTTP method, RPC kind, compression or chunking carries it; the call fails with RESOURCE_EXHAUSTED instead. Messages within the limit, including exactly at it, are always accepted, before and after one another.",
 ["inputs", "schedules", "configurations"],
 "all limits, message sizes around them, positions in a stream, compressions and chunkings, GET and POST, ASGI, WSGI and both clients",
 "Tests use one oversized POST per style; GET requests, later messages of a stream and exact boundaries are not tried.",
 ["_envelope.py", "_server_async.py", "_server_sync.py", "_client_async.py", "_client_sync.py"],
 [("stream limit", "_envelope.py EnvelopeReader._read_messages"), ("unary limits", "_server_async.py _read_post_request/_read_get_request, _server_sync.py twins, client _send_request_unary")],
 [], ["sizes of messages reaching handler and application; error code"])

prop("C15", "Stream messages are delivered as they are sent, not when the stream ends",
 "A message the peer has sent on a stream and the network has delivered becomes available to the receiver without waiting for any later message or for the end of the stream, in both directions. In particular a full-duplex conversation in which each side waits for the other's last message always makes progress.",
 ["schedules", "configurations"],
 "all ping-pong patterns, message sizes, chunkings and delays on bidirectional, server and client streams, every protocol, every style that supports the pattern",
 "Tests send all requests before reading or collect complete lists, so buffering until the end would pass.",
 ["_envelope.py", "_server_async.py", "_server_sync.py", "_client_async.py", "_client_sync.py"],
 [("lazy request generation", "_client_async.py _streaming_request_content"), ("incremental decode and flush", "EnvelopeReader.feed; _server_async.py _handle_stream; _server_sync.py _response_stream")],
 [], ["virtual time between delivery of the last byte of a message and its hand-over"])

prop("C16", "A call reaches the server at most once",
 "Each call made by the application causes at most one HTTP request and at most one execution of the service method, whatever fails on the way; the library never repeats a call on its own. The request carries each application message at most once, and the application's message source is consumed at most once.",
 ["fault_sequences", "schedules", "configurations"],
 "all failures (connection refused, reset with any code, proxy error statuses, truncation, deadline) at any stage, every kind, protocol and style",
 "Tests never count transport attempts under failures.",
 ["_client_async.py", "_client_sync.py"],
 [("single send per call", "_client_async.py/_client_sync.py _send_request_unary/_send_request_bidi_stream")],
 [], ["transport attempts and handler executions per call"])

prop("C17", "The ASGI lifespan starts the service before and stops it after all requests",
 "With a service supplied as an async generator, start-up runs it to its yield exactly once before startup is reported complete, every request is served by the yielded instance, and shutdown closes the generator, running its clean-up (finally blocks) exactly once before shutdown is reported complete and never earlier. A failure in either half is reported as the corresponding failed event, and a request that comes before the service was yielded, or without a start-up, is refused rather than served.",
 ["schedules", "fault_sequences", "crash_points"],
 "all delays and failures inside start-up and shutdown, any number of concurrent requests, servers with and without lifespan support",
 "Lifespan tests run a single start/stop with one request.",
 ["_server_async.py"],
 [("lifespan loop", "_server_async.py ConnectASGIApplication.__call__"), ("endpoint resolution", "_server_async.py _resolve_endpoints")],
 [("resolved endpoints", "service instance in use", "_server_async.py _resolved_endpoints")],
 ["lifespan events and the instance serving each request"])

prop("C18", "Telemetry describes every call exactly once, with its real outcome and duration",
 "With the OpenTelemetry interceptor installed, by the application, by the instrumentor or by both, each call produces exactly one ended span and one duration measurement per instrumented side, whose error attributes match how the call really ended and whose duration equals the elapsed time of the call. Client and server spans of a call belong to the same trace, the server's being the child (of a span already active around the request, if there is one), also when calls overlap, are made again or are given stale trace headers.",
 ["schedules", "fault_sequences", "configurations"],
 "all call outcomes and durations, unary and streaming kinds, protocols and styles, overlapping calls, faults at any stage",
 "Tests look at single successful and failing unary calls on a real clock, so durations and overlap are unchecked.",
 ["connectrpc-otel/connectrpc_otel/_interceptor.py", "connectrpc-otel/connectrpc_otel/_instrumentor.py", "_interceptor_async.py", "_interceptor_sync.py"],
 [("span and metric recording", "connectrpc-otel/connectrpc_otel/_interceptor.py on_start/on_end")],
 [], ["spans and metrics exported in memory, against virtual time"])

prop("C19", "Every transport failure surfaces as a ConnectError with the specified code",
 "Whatever goes wrong below the RPC layer, the caller only ever sees a ConnectError: connection and I/O failures are UNAVAILABLE, HTTP/2 stream resets map to the code the gRPC/Connect specification assigns to their reset code, and a non-RPC HTTP error response maps to the code assigned to its status. Malformed or unexpected responses likewise fail with a ConnectError, never with success or another exception type.",
 ["fault_sequences", "inputs", "configurations"],
 "all transport faults at every stage (connect, upload, headers, each body byte, end), every reset code, every HTTP status with arbitrary bodies, corrupted response bytes, every kind, protocol and client style",
 "Tests cover a few statuses and one reset at one stage.",
 ["_client_async.py", "_client_sync.py", "_client_shared.py", "_protocol.py", "_protocol_connect.py", "_protocol_grpc.py"],
 [("reset mapping", "_client_shared.py maybe_map_stream_reset"), ("status mapping", "_protocol.py _http_status_code_to_error, ConnectWireError.from_response"), ("catch-all", "_client_async.py/_client_sync.py except clauses")],
 [], ["exception type and code at the client application"])

prop("C20", "An early WSGI error leaves a keep-alive HTTP/1 connection usable",
 "When the WSGI application answers an HTTP/1.x request with an error before reading all of its body, the rest of that body has been consumed by the time the response ends, so that the next request on the same connection is served correctly. This holds wherever the error arises: routing, protocol checks, decoding, or the service method before or after it has sent messages.",
 ["inputs", "schedules", "configurations"],
 "all sequences of requests on one connection, all error causes and instants, body sizes and read chunkings, servers that do not drain bodies themselves",
 "No test sends two requests over one connection.",
 ["_server_sync.py"],
 [("draining", "_server_sync.py _drain_request_body")],
 [], ["bytes left in wsgi.input when the response ends; next request's outcome"])

prop("C21", "Message encoding and decoding are inverse for every message type",
 "For every message, decoding its binary or JSON encoding yields an equal message, with both supported protobuf runtimes.",
 ["inputs"], "all messages of all schemas",
 "Tests encode a few messages.",
 ["_codec.py", "codec.py"], [("codecs", "_codec.py")])
prop("C22", "Generated service code matches the proto definition",
 "For every set of proto files the code generator emits importable modules whose methods, paths, message types, stream kinds and idempotency levels match the definitions, and emits the same bytes for the same input.",
 ["programs"], "all proto files",
 "Tests generate code for fixed proto files.",
 ["protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py"], [("generator", "protoc-gen-connectrpc")])
prop("C23", "Header collections are case-insensitive multi-maps that keep order",
 "A header collection treats names case-insensitively, keeps every added value in order, and its dictionary view and full item view stay consistent under every sequence of operations.",
 ["inputs", "histories"], "all operation sequences",
 "Tests use fixed operation lists.",
 ["_headers.py"], [("Headers", "_headers.py")])
prop("C24", "Messages are only sent in encodings that both sides support",
 "A client offers exactly the compressions it is configured with, and sends its messages in the one it is configured to send with; a server answers only in one that the request offered and that it has itself, and uncompressed only when there is none or the request prefers that, and says in Vary that a unary response depends on the offer; every compressed message decodes with the encoding its headers name. A request compressed with an encoding the server does not have is refused with UNIMPLEMENTED before the service is given any of its messages, and no other call fails that way.",
 ["configurations", "inputs", "fault_sequences"],
 "all pairs of client and server compression settings (including none and disjoint ones), all accept lists, every protocol, RPC kind and style, valid and malformed requests, any fault cutting the exchange short",
 "Tests use one or two encodings configured on both sides; disjoint configurations, streaming requests in an unknown encoding and per-message compression are sampled at single points.",
 ["_compression.py", "_protocol_connect.py", "_protocol_grpc.py", "_server_async.py", "_server_sync.py", "_client_async.py", "_client_sync.py"],
 [("negotiation", "_compression.py negotiate_compression, _protocol_connect.py/_protocol_grpc.py negotiate_stream_compression"), ("unary encodings", "_server_async.py/_server_sync.py _handle_unary_connect, _handle_unary")],
 [], ["encoding headers and message bytes at the transport, outcome of the call"])
prop("C25", "Streams exert backpressure: neither end runs ahead without bound",
 "On a stream the library never takes more than a small fixed number of messages ahead of their consumer: a client does not pull messages from the application's source faster than the transport accepts them, nor read response messages from the network while the application is busy with an earlier one; a server does not pull messages from the service's response generator faster than they can be sent, nor read request messages from the network the service has not asked for. However long the stream and however slow one side, what is in hand stays bounded.",
 ["schedules", "configurations", "fault_sequences"],
 "all streams of many messages, flow-control windows, slow or stalled consumers, producers and networks, every streaming kind, protocol and style",
 "Tests use in-process transports without flow control and a handful of messages, so reading the whole stream ahead would pass.",
 ["_client_async.py", "_client_sync.py", "_server_async.py", "_server_sync.py", "_envelope.py"],
 [("lazy request generation", "_client_async.py/_client_sync.py _streaming_request_content"), ("incremental reading", "_client_async.py/_client_sync.py _send_request_bidi_stream; _server_async.py/_server_sync.py _request_stream"), ("response sending", "_server_async.py _handle_stream; _server_sync.py _response_stream")],
 [], ["messages taken by one side against messages accepted by the next, at every instant"])
prop("C26", "Every request a client sends is a well-formed request of its protocol",
 "Every HTTP request the client puts on the wire goes to the method's path below the configured base URL with the HTTP method, content type, protocol version, timeout, encoding and user-agent headers, query parameters and body framing that the specification of its protocol prescribes, each protocol header given once whatever headers the application or interceptors set. A request body is only ended normally after complete frames, exactly one for calls that take one message.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "all timeouts, codecs, compressions, base URLs and application headers (including ones that clash with protocol headers), every RPC kind, protocol and style, GET and POST, failures of the application's source or the network at any point",
 "Tests pair this client with this server, which forgives what another implementation would reject, and look at single headers of single requests.",
 ["_protocol_connect.py", "_protocol_grpc.py", "_client_async.py", "_client_sync.py", "_client_shared.py", "_envelope.py"],
 [("request headers", "_protocol_connect.py/_protocol_grpc.py create_request_context"), ("GET query", "_client_shared.py prepare_get_params"), ("body framing", "_envelope.py EnvelopeWriter")],
 [], ["URL, method, headers and body bytes at the transport"])

prop("C27", "Service methods run only for valid requests, with the messages those contain",
 "A service method is called, and a success answered, only for requests its protocol allows: to the path of a method, by POST (or by GET with the Connect protocol for a method without side effects), with a content type naming a supported codec, the right protocol version, a timeout that is a number, a supported encoding, and for methods that take one message exactly one whole message that can be decompressed and decoded. Any other request is refused without running the service: wrong paths with 404, wrong methods with 405 naming those allowed, unknown content types with 415. Of a request stream the service gets exactly the messages before the first one that is malformed, and never a normal end after that. Valid requests are not refused in this way.",
 ["inputs", "schedules", "fault_sequences"],
 "all requests, well-formed or not: paths, HTTP methods, query strings, headers, codecs, encodings, framings, compressed data damaged or cut short, on async and sync servers, in any fragmentation and with the client leaving at any point",
 "Tests send a handful of malformed requests; which checks run before a service does depends on the combination of protocol, RPC kind, HTTP method, codec and encoding, and on what part of the body has arrived.",
 ["_server_async.py", "_server_sync.py", "_server_shared.py", "_protocol_server.py", "_protocol_connect.py", "_protocol_grpc.py", "_envelope.py", "_compression.py", "compression/*.py"],
 [("routing and HTTP methods", "_server_async.py/_server_sync.py __call__, _protocol_*.py create_request_context"), ("body decoding", "_server_*.py _read_post_request, _read_get_request, _request_stream, _consume_single_request; compression/*.py decompress")],
 [], ["requests recorded at the ASGI/WSGI boundary", "invocations of service methods and the messages they were given"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
