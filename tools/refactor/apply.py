"""apply.py DIR: applies behaviour-preserving refactorings to a copy of the repository (never /repo itself).

    git clone /repo /tmp/rf && python tools/refactor/apply.py /tmp/rf && VERIF_REPO=/tmp/rf ./check C01
"""
import os, sys
ROOT = sys.argv[1]
assert os.path.realpath(ROOT) != "/repo"
S = "src/connectrpc/"
E = []


def e(f, *pairs):
    for old, new in pairs:
        E.append((S + f if "/" not in f else f, old, new))


# ---- envelopes: the loop is turned inside out, the parts are helpers
e("_envelope.py", ('''    def _read_messages(self) -> Iterator[_RES]:
        while self._buffer:
            if self._end_handled:
                raise ConnectError(
                    Code.INTERNAL, "protocol error: unexpected data after end of stream"
                )

            if self._next_message_length is not None:
                if len(self._buffer) < self._next_message_length + 5:
                    return

                prefix_byte = self._buffer[0]
                compressed = prefix_byte & 0b01 != 0

                message_data = self._buffer[5 : 5 + self._next_message_length]
                self._buffer = self._buffer[5 + self._next_message_length :]
                self._next_message_length = None
                if compressed:
                    if isinstance(self._compression, IdentityCompression):
                        raise ConnectError(
                            Code.INTERNAL,
                            "protocol error: sent compressed message without compression support",
                        )
                    message_data = self._compression.decompress(message_data)

                if (
                    self._read_max_bytes is not None
                    and len(message_data) > self._read_max_bytes
                ):
                    raise ConnectError(
                        Code.RESOURCE_EXHAUSTED,
                        f"message is larger than configured max {self._read_max_bytes}",
                    )

                if self.handle_end_message(prefix_byte, message_data):
                    self._end_handled = True
                    continue

                if prefix_byte & ~0b01:
                    raise ConnectError(
                        Code.INTERNAL,
                        f"protocol error: invalid envelope flags {prefix_byte}",
                    )

                res = self._codec.decode(message_data, self._message_class)
                yield res

            if len(self._buffer) < 5:
                return

            self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
''', '''    def _read_messages(self) -> Iterator[_RES]:
        while True:
            if self._buffer and self._end_handled:
                raise ConnectError(
                    Code.INTERNAL, "protocol error: unexpected data after end of stream"
                )
            envelope = self._take_envelope()
            if envelope is None:
                break
            flags, payload = envelope
            data = self._unpack(flags, payload)
            if self.handle_end_message(flags, data):
                self._end_handled = True
            elif flags not in (0, 1):
                raise ConnectError(
                    Code.INTERNAL, f"protocol error: invalid envelope flags {flags}"
                )
            else:
                yield self._codec.decode(data, self._message_class)

    def _take_envelope(self) -> tuple[int, bytearray] | None:
        """The next envelope that has been received whole, removed from what is pending."""
        pending = self._buffer
        if len(pending) < 5:
            return None
        flags, length = struct.unpack_from(">BI", pending)
        end = 5 + length
        if end > len(pending):
            return None
        payload = pending[5:end]
        del pending[:end]
        return flags, payload

    def _unpack(self, flags: int, payload: bytearray) -> bytes | bytearray:
        data: bytes | bytearray = payload
        if flags % 2:
            if isinstance(self._compression, IdentityCompression):
                raise ConnectError(
                    Code.INTERNAL,
                    "protocol error: sent compressed message without compression support",
                )
            data = self._compression.decompress(payload)
        limit = self._read_max_bytes
        if limit is None or len(data) <= limit:
            return data
        raise ConnectError(
            Code.RESOURCE_EXHAUSTED,
            f"message is larger than configured max {limit}",
        )
'''))

# ---- async client
e("_client_async.py", ('''        reader: EnvelopeReader | None = None
        resp: Response | None = None
        try:
            request_data = _streaming_request_content(
                request, self._codec, self._send_compression
            )

            async with (
                asyncio_timeout(timeout_s) as timeout,
                self._http_client.stream(
                    "POST", url, headers=request_headers, content=request_data
                ) as resp,
            ):
''', '''        resp: Response | None = None
        reader: EnvelopeReader | None = None
        try:
            async with (
                asyncio_timeout(timeout_s) as timeout,
                self._http_client.stream(
                    "POST",
                    url,
                    headers=request_headers,
                    content=_streaming_request_content(
                        request, self._codec, self._send_compression
                    ),
                ) as resp,
            ):
'''), ('''                    async for chunk in resp.content:
                        for message in reader.feed(bytes(chunk)):
                            # The timeout must not cancel the caller's code while it is
                            # processing a message, only our own.
                            deadline = timeout.when()
                            timeout.reschedule(None)
                            yield message
                            timeout.reschedule(deadline)
                            # Check for cancellation each message. While this seems heavyweight,
                            # conformance tests require it.
                            await sleep(0)
                    reader.handle_response_complete(resp)
                else:
                    content = bytearray()
                    async for chunk in resp.content:
                        content.extend(chunk)
                    fres = FullResponse(
                        status=resp.status,
                        headers=resp.headers,
                        content=bytes(content),
                        trailers=resp.trailers,
                    )
                    raise ConnectWireError.from_response(fres).to_exception()
''', '''                    async for message in _messages(resp, reader):
                        when = timeout.when()
                        timeout.reschedule(None)
                        yield message
                        timeout.reschedule(when)
                        await sleep(0)
                    reader.handle_response_complete(resp)
                else:
                    raise await _read_error(resp)
'''), ('''            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
                # It is possible for a reset to come with trailers which should
                # be used.
                if reader and resp:
                    try:
                        reader.handle_response_complete(resp, rst_err)
                    except ConnectError:
                        raise
                    except Exception:
                        # Malformed trailers, all we know is the reset.
                        raise rst_err from e
                raise rst_err from e
            raise ConnectError(Code.UNAVAILABLE, str(e)) from e


async def _streaming_request_content(''', '''            rst_err = _client_shared.maybe_map_stream_reset(e, ctx)
            if rst_err is None:
                raise ConnectError(Code.UNAVAILABLE, str(e)) from e
            if not reader or not resp:
                raise rst_err from e
            try:
                reader.handle_response_complete(resp, rst_err)
            except ConnectError:
                raise
            except Exception:
                # Malformed trailers, all we know is the reset.
                raise rst_err from e
            raise rst_err from e


async def _messages(resp: Response, reader: EnvelopeReader) -> AsyncIterator[Any]:
    async for chunk in resp.content:
        for message in reader.feed(bytes(chunk)):
            yield message


async def _read_error(resp: Response) -> ConnectError:
    parts = [bytes(chunk) async for chunk in resp.content]
    fres = FullResponse(
        status=resp.status,
        headers=resp.headers,
        content=b"".join(parts),
        trailers=resp.trailers,
    )
    return ConnectWireError.from_response(fres).to_exception()


async def _streaming_request_content('''), ('''    res = None
    async with aclosing(stream):
        async for message in stream:
            if res is not None:
                raise ConnectError(
                    Code.UNIMPLEMENTED, "unary response has multiple messages"
                )
            res = message
    if res is None:
        raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
    return res
''', '''    responses = []
    async with aclosing(stream):
        async for message in stream:
            responses.append(message)
            if len(responses) == 2:
                raise ConnectError(
                    Code.UNIMPLEMENTED, "unary response has multiple messages"
                )
    if responses:
        return responses[0]
    raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
'''), ('''            request_data = self._codec.encode(request)
            if self._send_compression:
                request_data = self._send_compression.compress(request_data)

            if ctx.http_method == "GET":
                params = _client_shared.prepare_get_params(
                    self._codec, request_data, request_headers
                )
                params_str = urlencode(params)
                url = f"{url}?{params_str}"
                request_headers.pop("content-type", None)
                resp = await wait_for(
                    self._http_client.get(url=url, headers=request_headers), timeout_s
                )
            else:
                resp = await wait_for(
                    self._http_client.post(
                        url=url, headers=request_headers, content=request_data
                    ),
                    timeout_s,
                )
''', '''            data = self._codec.encode(request)
            compression = self._send_compression
            data = compression.compress(data) if compression else data

            if ctx.http_method != "GET":
                pending = self._http_client.post(
                    url=url, headers=request_headers, content=data
                )
            else:
                params = _client_shared.prepare_get_params(
                    self._codec, data, request_headers
                )
                request_headers.pop("content-type", None)
                pending = self._http_client.get(
                    url="?".join((url, urlencode(params))), headers=request_headers
                )
            resp = await wait_for(pending, timeout_s)
'''))

# ---- sync client
e("_client_sync.py", ('''            if resp.status == 200:
                if (
                    self._read_max_bytes is not None
                    and len(resp.content) > self._read_max_bytes
                ):
                    raise ConnectError(
                        Code.RESOURCE_EXHAUSTED,
                        f"message is larger than configured max {self._read_max_bytes}",
                    )

                return self._codec.decode(resp.content, ctx.method.output)
            raise ConnectWireError.from_response(resp).to_exception()
''', '''            if resp.status != 200:
                raise ConnectWireError.from_response(resp).to_exception()
            body = resp.content
            limit = self._read_max_bytes
            if limit is not None and len(body) > limit:
                raise ConnectError(
                    Code.RESOURCE_EXHAUSTED,
                    f"message is larger than configured max {limit}",
                )
            return self._codec.decode(body, ctx.method.output)
'''))

# ---- async server: the end of a response, the monitor and the body reader are functions of their own
e("_server_async.py", ('''            if isinstance(end_message, bytes):
                await send(
                    {
                        "type": "http.response.body",
                        "body": end_message,
                        "more_body": False,
                    }
                )
            else:
                await send(
                    {"type": "http.response.body", "body": b"", "more_body": False}
                )
                await send(
                    {
                        "type": "http.response.trailers",
                        "headers": [
                            (k.encode(), v.encode()) for k, v in end_message.allitems()
                        ],
                        "more_trailers": False,
                    }
                )
            if error and not isinstance(error, ConnectError):
                raise error
''', '''            await _send_end(send, end_message)
            if error is not None and not isinstance(error, ConnectError):
                raise error
'''), ('''async def _send_stream_response_headers(
    send: ASGISendCallable,
    protocol''', '''async def _send_end(send: ASGISendCallable, end_message: bytes | Headers) -> None:
    trailers = None if isinstance(end_message, bytes) else end_message
    last = end_message if isinstance(end_message, bytes) else b""
    await send({"type": "http.response.body", "body": last, "more_body": False})
    if trailers is None:
        return
    encoded = []
    for k, v in trailers.allitems():
        encoded.append((k.encode(), v.encode()))
    await send(
        {
            "type": "http.response.trailers",
            "headers": encoded,
            "more_trailers": False,
        }
    )


async def _send_stream_response_headers(
    send: ASGISendCallable,
    protocol'''), ('''                    async def _watch_for_disconnect() -> None:
                        while True:
                            msg = await receive()
                            if msg["type"] == "http.disconnect":
                                disconnect_detected.set()
                                return

                    monitor_task = create_task(_watch_for_disconnect())
''', '''                    monitor_task = create_task(_watch(receive, disconnect_detected))
'''), ('''async def _read_body(receive: ASGIReceiveCallable) -> AsyncIterator[bytes]:
    """Read the body of the request."""
    while True:
        message = await receive()
        match message["type"]:
            case "http.request":
                body = message.get("body", b"")
                yield body
                if not message.get("more_body", False):
                    return
            case "http.disconnect":
                raise ConnectError(
                    Code.CANCELED, "Client disconnected before request completion"
                )
            case _:
                raise ConnectError(Code.UNKNOWN, "Unexpected message type")
''', '''async def _watch(receive: ASGIReceiveCallable, gone: Event) -> None:
    msg = await receive()
    while msg["type"] != "http.disconnect":
        msg = await receive()
    gone.set()


async def _read_body(receive: ASGIReceiveCallable) -> AsyncIterator[bytes]:
    """Read the body of the request."""
    more = True
    while more:
        message = await receive()
        if message["type"] == "http.disconnect":
            raise ConnectError(
                Code.CANCELED, "Client disconnected before request completion"
            )
        if message["type"] != "http.request":
            raise ConnectError(Code.UNKNOWN, "Unexpected message type")
        more = message.get("more_body", False)
        yield message.get("body", b"")
'''), ('''                async for message in response_stream:
                    if disconnect_detected is not None and disconnect_detected.is_set():
                        raise ConnectError(Code.CANCELED, "Client disconnected")
                    # Don't send headers until the first message to allow logic a chance to add
                    # response headers.
                    if not sent_headers:
                        # Set before awaiting, headers must not be sent again even
                        # if sending them is interrupted.
                        sent_headers = True
                        await _send_stream_response_headers(
                            send, protocol, codec, resp_compression.name(), ctx
                        )

                    body = writer.write(message)
                    await send(
                        {"type": "http.response.body", "body": body, "more_body": True}
                    )
''', '''                async for message in response_stream:
                    gone = disconnect_detected
                    if gone and gone.is_set():
                        raise ConnectError(Code.CANCELED, "Client disconnected")
                    first, sent_headers = not sent_headers, True
                    if first:
                        await _send_stream_response_headers(
                            send, protocol, codec, resp_compression.name(), ctx
                        )
                    event = {"type": "http.response.body", "more_body": True}
                    event["body"] = writer.write(message)
                    await send(event)
'''))

# ---- sync server
e("_server_sync.py", ('''    error: Exception | None = None
    try:
        body = writer.write(first_response)
        yield body
        for message in response_stream:
            body = writer.write(message)
            yield body
    except Exception as e:
        error = e
        # Explicitly close the stream so that any generator finally-blocks run
        # before the response ends, the exception keeps them alive otherwise.
        close = getattr(response_stream, "close", None)
        if close is not None:
            try:
                close()
            except Exception as close_error:
                error = close_error
        _drain_request_body(environ)

    yield _end_response(
        writer.end(
            ctx.response_trailers,
            ConnectWireError.from_exception(error) if error else None,
        ),
        send_trailers,
    )
''', '''    wire_error: ConnectWireError | None = None
    try:
        for message in chain((first_response,), response_stream):
            yield writer.write(message)
    except Exception as e:
        wire_error = ConnectWireError.from_exception(_close(response_stream) or e)
        _drain_request_body(environ)

    yield _end_response(writer.end(ctx.response_trailers, wire_error), send_trailers)


def _close(stream: Iterator[_RES]) -> Exception | None:
    try:
        if hasattr(stream, "close"):
            stream.close()
    except Exception as e:
        return e
    return None
'''), ('''    reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
    bytes_read = 0
    for chunk in _read_body(environ):
        bytes_read += len(chunk)
        yield from reader.feed(chunk)
''', '''    reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
    body = environ["wsgi.input"]
    bytes_read = 0
    while chunk := body.read(_BODY_CHUNK_SIZE):
        bytes_read = bytes_read + len(chunk)
        for message in reader.feed(chunk):
            yield message
'''), ('''    bytes_read = len(chunk)
    chunks = [chunk]
    while bytes_read < content_length:
        to_read = content_length - bytes_read
        chunk = input_stream.read(to_read)
        if not chunk:
            break
        chunks.append(chunk)
        bytes_read += len(chunk)
    if bytes_read < content_length:
''', '''    chunks = [chunk]
    missing = content_length - len(chunk)
    while missing > 0:
        chunk = input_stream.read(missing)
        if not chunk:
            break
        missing -= len(chunk)
        chunks.append(chunk)
    bytes_read = content_length - missing
    if missing > 0:
'''), ('''            # Trigger service logic by consuming the first (possibly only) response message.
            first_response = next(response_stream, None)
''', '''            first_response = None
            for first_response in response_stream:  # noqa: B007
                break
'''), ('''        for _ in _read_body(environ):
            pass
''', '''        stream = environ["wsgi.input"]
        while stream.read(_BODY_CHUNK_SIZE):
            continue
'''), ('''import functools
''', '''import functools
from itertools import chain
'''))

# ---- interceptors: one context manager instead of four copies
e("_interceptor_async.py", ('''        token = await self._delegate.on_start(ctx)
        error: Exception | None = None
        try:
            return await call_next(request, ctx)
        except CancelledError:
            error = ConnectError(Code.CANCELED, "Request was cancelled")
            raise
        except Exception as e:
            error = e
            raise
        finally:
            await self._delegate.on_end(token, ctx, error)
''', '''        async with self._observed(ctx):
            return await call_next(request, ctx)
'''), ('''        token = await self._delegate.on_start(ctx)
        error: Exception | None = None
        try:
            stream = call_next(request, ctx)
            try:
                async for response in stream:
                    yield response
            finally:
                # Async generators are not closed when iteration stops early, do it
                # explicitly so the RPC really has ended when calling on_end.
                aclose = getattr(stream, "aclose", None)
                if aclose is not None:
                    await aclose()
        except CancelledError:
            error = ConnectError(Code.CANCELED, "Request was cancelled")
            raise
        except Exception as e:
            error = e
            raise
        finally:
            await self._delegate.on_end(token, ctx, error)
''', '''        token = await self._delegate.on_start(ctx)
        outcome: list[Exception] = []
        try:
            stream = call_next(request, ctx)
            try:
                async for response in stream:
                    yield response
            finally:
                if hasattr(stream, "aclose"):
                    await stream.aclose()
        except BaseException as e:
            outcome += _seen_as(e)
            raise
        finally:
            await self._delegate.on_end(token, ctx, outcome[0] if outcome else None)
'''), ('''    def __init__(self, delegate: MetadataInterceptor[T]) -> None:
        self._delegate = delegate

''', '''    def __init__(self, delegate: MetadataInterceptor[T]) -> None:
        self._delegate = delegate

    @asynccontextmanager
    async def _observed(self, ctx: RequestContext):  # noqa: ANN202
        token = await self._delegate.on_start(ctx)
        outcome: list[Exception] = []
        try:
            yield
        except BaseException as e:
            outcome += _seen_as(e)
            raise
        finally:
            await self._delegate.on_end(token, ctx, outcome[0] if outcome else None)

'''), ('''class MetadataInterceptorInvoker(Generic[T]):
''', '''def _seen_as(e: BaseException) -> list[Exception]:
    if isinstance(e, CancelledError):
        return [ConnectError(Code.CANCELED, "Request was cancelled")]
    return [e] if isinstance(e, Exception) else []


class MetadataInterceptorInvoker(Generic[T]):
'''), ('''from asyncio import CancelledError
''', '''from asyncio import CancelledError
from contextlib import asynccontextmanager
'''))

# ---- protocols
e("_protocol_connect.py", ('''        end_message = {}
        if user_trailers:
            metadata: dict[str, list[str]] = {}
            for key, value in user_trailers.allitems():
                metadata.setdefault(key, []).append(value)
            end_message["metadata"] = metadata
        if error:
            end_message["error"] = error.to_dict()
        data = json.dumps(end_message).encode()
''', '''        end_message = {}
        if error:
            end_message["error"] = error.to_dict()
        metadata: dict[str, list[str]] = {}
        for key, value in user_trailers.allitems():
            if key in metadata:
                metadata[key].append(value)
            else:
                metadata[key] = [value]
        if metadata:
            end_message["metadata"] = metadata
        data = json.dumps(end_message, separators=(",", ":")).encode("utf-8")
'''))
e("_protocol_grpc.py", ('''    if timeout_ms < _GRPC_TIMEOUT_MAX_VALUE:
        size, unit = 1, "m"
    elif timeout_ms < _GRPC_TIMEOUT_MAX_VALUE * 1000:
        size, unit = 1 * 1000, "S"
    elif timeout_ms < _GRPC_TIMEOUT_MAX_VALUE * 60 * 1000:
        size, unit = 60 * 1000, "M"
    else:
        size, unit = 60 * 60 * 1000, "H"

    return f"{timeout_ms // size}{unit}"
''', '''    amount = timeout_ms
    for size, unit in ((1, "m"), (1000, "S"), (60000, "M"), (3600000, "H")):
        amount = timeout_ms // size
        if timeout_ms < _GRPC_TIMEOUT_MAX_VALUE * size:
            break
    return f"{amount}{unit}"
'''), ('''        for line in message_data.split(b"\\r\\n"):
            if not line:
                continue
            key, value = line.split(b":", 1)
            self._trailers.add(key.decode().strip(), value.decode().strip())
        return True
''', '''        lines = [line for line in message_data.split(b"\\r\\n") if line]
        for line in lines:
            key, value = (part.decode().strip() for part in line.split(b":", 1))
            self._trailers.add(key, value)
        return True
'''))


# ---- telemetry: attributes and the span are made in other places
e("connectrpc-otel/connectrpc_otel/_interceptor.py", ('''        start_time = time.perf_counter()

        rpc_method''', '''        rpc_method'''), ('''        cm = self._start_span(ctx, rpc_method, shared_attrs)
        span = cm.__enter__()
        return cm, span, start_time, shared_attrs
''', '''        cm = self._start_span(ctx, rpc_method, shared_attrs)
        began = time.perf_counter()
        return cm, cm.__enter__(), began, shared_attrs
'''), ('''        cm, span, start_time, shared_attrs = token
        end_time = time.perf_counter()
        error_attrs = self._get_error_attributes(error)
        if error_attrs:
            span.set_attributes(error_attrs)
        # Won't use shared_attrs anymore, no need to copy.
        metric_attrs = shared_attrs
        if error_attrs:
            metric_attrs.update(error_attrs)
        self._call_duration.record(end_time - start_time, metric_attrs)
        if error:
            cm.__exit__(type(error), error, error.__traceback__)
        else:
            cm.__exit__(None, None, None)
''', '''        cm, span, began, shared_attrs = token
        elapsed = time.perf_counter() - began
        error_attrs = self._get_error_attributes(error) or {}
        span.set_attributes(error_attrs)
        exc_info = (None, None, None)
        if error is not None:
            exc_info = (type(error), error, error.__traceback__)
        cm.__exit__(*exc_info)
        self._call_duration.record(elapsed, {**shared_attrs, **error_attrs})
'''), ('''        if not error:
            return None

        return {
            ERROR_TYPE: type(error).__qualname__,
            RPC_RESPONSE_STATUS_CODE: error.code.value
            if isinstance(error, ConnectError)
            else "unknown",
        }
''', '''        if error is None:
            return None
        status = error.code.value if isinstance(error, ConnectError) else "unknown"
        return {RPC_RESPONSE_STATUS_CODE: status, ERROR_TYPE: type(error).__qualname__}
'''))

# ---- synchronous interceptors: the two kinds of calls share what is around them
e("_interceptor_sync.py", ('''        token = self._delegate.on_start_sync(ctx)
        error: Exception | None = None
        try:
            return call_next(request, ctx)
        except Exception as e:
            error = e
            raise
        finally:
            self._delegate.on_end_sync(token, ctx, error)
''', '''        with self._around(ctx):
            return call_next(request, ctx)
'''), ('''        token = self._delegate.on_start_sync(ctx)
        error: Exception | None = None
        try:
            yield from call_next(request, ctx)
        except Exception as e:
            error = e
            raise
        finally:
            self._delegate.on_end_sync(token, ctx, error)
''', '''        with self._around(ctx):
            yield from call_next(request, ctx)
'''), ('''        self._delegate = delegate

''', '''        self._delegate = delegate

    @contextmanager
    def _around(self, ctx: RequestContext) -> Iterator[None]:
        token = self._delegate.on_start_sync(ctx)
        failure: Exception | None = None
        try:
            yield
        except Exception as e:
            failure = e
            raise
        finally:
            self._delegate.on_end_sync(token, ctx, failure)

'''), ('''    return [
        MetadataInterceptorInvokerSync(interceptor)
        if isinstance(interceptor, MetadataInterceptorSync)
        else interceptor
        for interceptor in interceptors
    ]
''', '''    resolved: list = []
    for interceptor in interceptors:
        if isinstance(interceptor, MetadataInterceptorSync):
            resolved.append(MetadataInterceptorInvokerSync(interceptor))
        else:
            resolved.append(interceptor)
    return resolved
'''), ('''from typing import ''', '''from contextlib import contextmanager
from typing import '''))

# ---- response metadata: filled in one go
e("_response_metadata.py", ('''    response_headers: Headers = Headers()
    response_trailers: Headers = Headers()
    for key, value in headers.items():
        if key.startswith("trailer-"):
            normalized_key = key[len("trailer-") :]
            obj = response_trailers
        else:
            normalized_key = key
            obj = response_headers
        obj.add(normalized_key, value)
''', '''    response_headers: Headers = Headers()
    response_trailers: Headers = Headers()
    for key, value in headers.items():
        name = key.removeprefix("trailer-")
        (response_headers if name == key else response_trailers).add(name, value)
'''), ('''    for key, value in trailers.items():
        if isinstance(value, str):
            response_trailers.add(key, value)
        else:
            for v in value:
                response_trailers.add(key, v)
    if response_trailers:
        response._trailers = response_trailers  # noqa: SLF001
''', '''    for key, value in trailers.items():
        for v in [value] if isinstance(value, str) else value:
            response_trailers.add(key, v)
    response._trailers = response_trailers  # noqa: SLF001
'''))

# ---- errors on the wire
e("_protocol.py", ('''        code_str = data.get("code")
        if code_str:
            try:
                code = Code(code_str)
            except ValueError:
                code = unexpected_code
        else:
            code = _http_status_code_to_error.get(http_status, Code.UNKNOWN)
''', '''        code = _http_status_code_to_error.get(http_status, Code.UNKNOWN)
        if data.get("code"):
            try:
                code = Code(data["code"])
            except ValueError:
                code = unexpected_code
'''), ('''        try:
            http_status = HTTPStatus(status_code)
            message = http_status.phrase
        except ValueError:
            message = "Client Closed Request" if status_code == 499 else ""
        return ConnectWireError(code, message, details=())
''', '''        phrases = {status.value: status.phrase for status in HTTPStatus}
        phrases.setdefault(499, "Client Closed Request")
        return ConnectWireError(code, phrases.get(status_code, ""), details=())
'''))

# ---- negotiation and GET parameters
e("_compression.py", ('''    for accept in accept_encoding.split(","):
        compression = compressions.get(accept.strip())
        if compression:
            return compression
    return _identity
''', '''    offered = (compressions.get(name.strip()) for name in accept_encoding.split(","))
    return next((compression for compression in offered if compression), _identity)
'''))
e("_client_shared.py", ('''    params: dict[str, str] = {"connect": f"v{CONNECT_PROTOCOL_VERSION}", "base64": "1"}
    if "content-encoding" in headers:
        params["compression"] = headers.pop("content-encoding")
    params["encoding"] = codec.name()
    params["message"] = base64.urlsafe_b64encode(request_data).decode("ascii")
    return params
''', '''    compression = headers.pop("content-encoding", None)
    message = base64.urlsafe_b64encode(request_data).decode("ascii")
    params: dict[str, str] = {"connect": f"v{CONNECT_PROTOCOL_VERSION}", "base64": "1"}
    if compression is not None:
        params["compression"] = compression
    return params | {"encoding": codec.name(), "message": message}
'''), ('''            if (t := ctx.timeout_ms) is not None and t <= 0:
                return ConnectError(Code.DEADLINE_EXCEEDED, msg)
            return ConnectError(Code.CANCELED, msg)
''', '''            remaining = ctx.timeout_ms
            expired = remaining is not None and remaining <= 0
            return ConnectError(Code.DEADLINE_EXCEEDED if expired else Code.CANCELED, msg)
'''))


def main():
    bad = 0
    for f, old, new in E:
        p = os.path.join(ROOT, f)
        s = open(p).read()
        if old not in s:
            print(f"{f}: not found:\n{old}")
            bad = 1
            continue
        open(p, "w").write(s.replace(old, new))
    sys.exit(bad)


main()
