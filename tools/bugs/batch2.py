import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))["COMMON"]
A = "src/connectrpc/_client_async.py"
C = "src/connectrpc/_client_sync.py"
S = "src/connectrpc/_server_async.py"
W = "src/connectrpc/_server_sync.py"
G = "src/connectrpc/_protocol_grpc.py"
OT = "connectrpc-otel/connectrpc_otel/_interceptor.py"

ASGI = '''
async def serve(app, path, parts, content_type="application/connect+proto", raw=False, gate=None):
    """Runs one request against an ASGI application, returns its events."""
    events = []
    queue = list(parts)
    async def receive():
        if queue:
            return queue.pop(0)
        if gate is not None:
            await gate.wait()
        else:
            await asyncio.sleep(3600)
        return {"type": "http.disconnect"}
    async def send(m):
        events.append(m)
    scope = {"type": "http", "method": "POST", "path": "/connectrpc.example.Haberdasher/" + path, "root_path": "",
             "scheme": "http", "query_string": b"", "http_version": "2", "client": ("127.0.0.1", 1), "server": ("localhost", 80),
             "headers": [(b"content-type", content_type.encode()), (b"host", b"localhost")], "extensions": {}}
    await asyncio.wait_for(app(scope, receive, send), 20)
    return events

def body(events):
    return b"".join(e.get("body", b"") for e in events if e["type"] == "http.response.body")

def frames(data):
    import struct
    out = []
    while data:
        f, n = struct.unpack(">BI", data[:5])
        out.append((f, data[5:5 + n]))
        data = data[5 + n:]
    return out
'''

BUGS = [
 dict(id="coalesced-sends", property="C15",
  needs="a service that sends a small message and then waits before it sends the next one or ends",
  breaks="Small response messages are held back until the next message or the end of the stream, so conversations stall.",
  edits=[(S, '''                    body = writer.write(message)
                    await send(
                        {"type": "http.response.body", "body": body, "more_body": True}
                    )
''', '''                    # Coalesce small messages with the next one.
                    pending += writer.write(message)
                    if len(pending) >= 32:
                        body, pending = bytes(pending), bytearray()
                        await send(
                            {
                                "type": "http.response.body",
                                "body": body,
                                "more_body": True,
                            }
                        )
'''), (S, "        error: Exception | None = None\n        sent_headers = False\n", "        error: Exception | None = None\n        pending = bytearray()\n        sent_headers = False\n"),
  (S, "            if isinstance(end_message, bytes):\n                await send(\n", "            if pending:\n                await send(\n                    {\n                        \"type\": \"http.response.body\",\n                        \"body\": bytes(pending),\n                        \"more_body\": True,\n                    }\n                )\n            if isinstance(end_message, bytes):\n                await send(\n")],
  demo=COMMON + ASGI + '''
go = asyncio.Event()
class H(Svc):
    async def make_similar_hats(self, request, ctx):
        yield Hat(size=1)
        await go.wait()
        yield Hat(size=2)
async def main():
    app = HaberdasherASGIApplication(H())
    seen = []
    q = [{"type": "http.request", "body": enveloped((0, Size(inches=1).to_binary())), "more_body": False}]
    async def receive():
        if q:
            return q.pop()
        await asyncio.sleep(3600)
    async def send(m):
        seen.append(m)
    scope = {"type": "http", "method": "POST", "path": "/connectrpc.example.Haberdasher/MakeSimilarHats", "root_path": "", "scheme": "http",
             "query_string": b"", "http_version": "2", "client": ("127.0.0.1", 1), "server": ("localhost", 80),
             "headers": [(b"content-type", b"application/connect+proto")], "extensions": {}}
    t = asyncio.ensure_future(app(scope, receive, send))
    await asyncio.sleep(0.3)
    early = body(seen)
    go.set()
    await t
    if len(frames(body(seen))) != 3:
        fail("not every message was sent")
    if not early:
        fail("the first message was not sent until the second was produced")
asyncio.run(main())
'''),
 dict(id="shared-trailers", property="C11",
  needs="two gRPC-Web calls in one process, the first of which carried trailers the second does not",
  breaks="Trailers of gRPC-Web responses pile up in one object shared by all calls.",
  edits=[(G, '''        super().__init__(message_class, codec, compression, read_max_bytes)
        self._trailers = HTTPHeaders()
''', '''        super().__init__(message_class, codec, compression, read_max_bytes)
'''), (G, '''class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
    def __init__(''', '''class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
    _trailers = HTTPHeaders()

    def __init__(''')],
  demo=COMMON + '''
class H(Svc):
    async def make_hat(self, request, ctx):
        ctx.response_trailers.add(f"x-call-{request.inches}", "1")
        return Hat(size=request.inches)
async def main():
    c = HaberdasherClient("http://localhost", protocol=ProtocolType.GRPC_WEB, http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    for i in (1, 2, 3):
        with ResponseMetadata() as md:
            await c.make_hat(Size(inches=i))
        got = sorted(k for k, _ in md.trailers.allitems() if k.startswith("x-call"))
        if got != [f"x-call-{i}"]:
            fail(f"call {i} sees the trailers {got}")
asyncio.run(main())
'''),
 dict(id="scope-exit", property="C12",
  needs="a call made, in a response-metadata scope of its own, while the response stream of an outer scope is being consumed",
  breaks="Leaving an inner metadata scope also drops the outer one, so the outer call's trailers are lost.",
  edits=[("src/connectrpc/_response_metadata.py", "                _current_response.reset(self._token)", "                _current_response.set(None)  # ty: ignore[invalid-argument-type]")],
  demo=COMMON + '''
class H(Svc):
    async def make_hat(self, request, ctx):
        ctx.response_trailers.add("x-inner", "1")
        return Hat(size=request.inches)
    async def make_similar_hats(self, request, ctx):
        ctx.response_trailers.add("x-outer", "1")
        yield Hat(size=1)
        yield Hat(size=2)
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    with ResponseMetadata() as outer:
        async for h in c.make_similar_hats(Size(inches=1)):
            with ResponseMetadata() as inner:
                await c.make_hat(Size(inches=1))
            if inner.trailers.get("x-inner") != "1":
                fail("the inner call's trailers are missing")
    if outer.trailers.get("x-outer") != "1" or outer.trailers.get("x-inner"):
        fail(f"the outer call's trailers are {list(outer.trailers.allitems())}")
asyncio.run(main())
'''),
 dict(id="token-shared", property="C13",
  needs="two calls through the same metadata interceptor that overlap",
  breaks="The end call-back of a metadata interceptor is given the start token of whichever call started last.",
  all=True,
  edits=[("src/connectrpc/_interceptor_async.py", "        token = await self._delegate.on_start(ctx)\n", "        self._token = await self._delegate.on_start(ctx)\n"),
         ("src/connectrpc/_interceptor_async.py", "await self._delegate.on_end(token, ctx, error)", "await self._delegate.on_end(self._token, ctx, error)")],
  demo=COMMON + '''
class I:
    def __init__(self):
        self.bad = []
    async def on_start(self, ctx):
        return ctx.request_headers["x-call"]
    async def on_end(self, token, ctx, error):
        if token != ctx.request_headers["x-call"]:
            self.bad.append((token, ctx.request_headers["x-call"]))
class H(Svc):
    async def make_hat(self, request, ctx):
        await asyncio.sleep(request.inches / 20)
        return Hat(size=request.inches)
async def main():
    i = I()
    c = HaberdasherClient("http://localhost", interceptors=[i], http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    await asyncio.gather(*(c.make_hat(Size(inches=n), headers={"x-call": str(n)}) for n in (1, 2, 3)))
    if i.bad:
        fail(f"tokens mixed up: {i.bad}")
asyncio.run(main())
'''),
 dict(id="shutdown-valueerror", property="C17",
  needs="a service generator whose clean-up fails with something other than a RuntimeError",
  breaks="A failing shutdown is not reported to the ASGI server as lifespan.shutdown.failed.",
  edits=[(S, '''                                await service_iter.aclose()
                            except Exception as e:''', '''                                await service_iter.aclose()
                            except RuntimeError as e:''')],
  demo=COMMON + '''
class H(Svc):
    pass
async def service():
    try:
        yield H()
    finally:
        raise ValueError("cannot close")
async def main():
    app = HaberdasherASGIApplication(service())
    q = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
    sent = []
    async def receive():
        return q.pop(0)
    async def send(m):
        sent.append(m["type"])
    try:
        await app({"type": "lifespan", "asgi": {"version": "3.0"}}, receive, send)
    except Exception as e:
        fail(f"raised {e!r}, sent {sent}")
    if sent != ["lifespan.startup.complete", "lifespan.shutdown.failed"]:
        fail(sent)
asyncio.run(main())
'''),
 dict(id="otel-attrs", property="C18",
  needs="a call that succeeds after one of the same method that failed",
  breaks="The attributes of duration measurements are reused between calls of a method, so errors stick to later calls.",
  edits=[(OT, "        metric_attrs = shared_attrs\n", "        metric_attrs = self._metric_attrs.setdefault(\n            shared_attrs[RPC_METHOD], shared_attrs\n        )\n"),
         (OT, "        self._client = client\n", "        self._client = client\n        self._metric_attrs = {}\n")],
  demo=COMMON + '''
from connectrpc_otel import OpenTelemetryInterceptor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
class H(Svc):
    async def make_hat(self, request, ctx):
        if request.inches == 0:
            raise ConnectError(Code.INVALID_ARGUMENT, "no")
        return Hat(size=request.inches)
async def main():
    reader = InMemoryMetricReader()
    i = OpenTelemetryInterceptor(client=True, meter_provider=MeterProvider([reader]))
    c = HaberdasherClient("http://localhost", interceptors=[i], http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    try:
        await c.make_hat(Size(inches=0))
    except ConnectError:
        pass
    await c.make_hat(Size(inches=1))
    pts = [p for rm in reader.get_metrics_data().resource_metrics for sm in rm.scope_metrics for m in sm.metrics for p in m.data.data_points]
    got = sorted((p.attributes.get("error.type", "-"), p.count) for p in pts)
    if got != [("-", 1), ("ConnectError", 1)]:
        fail(got)
asyncio.run(main())
'''),
 dict(id="reset-early", property="C19",
  needs="an HTTP/2 stream reset that arrives before the response headers, on a synchronous client",
  breaks="A stream reset before the response has started surfaces as UNAVAILABLE whatever its code is.",
  edits=[(C, '''            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
                # It is''', '''            if resp is not None and (
                rst_err := _client_shared.maybe_map_stream_reset(e, ctx)
            ):
                # It is''')],
  demo=COMMON + '''
from pyqwest import StreamError, StreamErrorCode, SyncClient, SyncTransport
from test.haberdasher_connect import HaberdasherClientSync
class T(SyncTransport):
    def execute_sync(self, request):
        raise StreamError("reset", StreamErrorCode.ENHANCE_YOUR_CALM)
c = HaberdasherClientSync("http://localhost", protocol=ProtocolType.GRPC, http_client=SyncClient(T()))
try:
    c.make_hat(Size(inches=1))
    fail("no error")
except ConnectError as e:
    if e.code is not Code.RESOURCE_EXHAUSTED:
        fail(f"surfaced as {e.code}")
'''),
 dict(id="drain-once", property="C20",
  needs="an HTTP/1 request whose unread body is longer than one read when the WSGI application answers with an error",
  breaks="Only the first block of an unread request body is drained, the rest is taken for the next request on the connection.",
  edits=[(W, '''        for _ in _read_body(environ):
            pass
''', '''        next(_read_body(environ), None)
''')],
  demo=COMMON + '''
import io
from test.haberdasher_connect import HaberdasherSync, HaberdasherWSGIApplication
class H(HaberdasherSync):
    pass
app = HaberdasherWSGIApplication(H())
data = io.BytesIO(b"x" * (5 << 20))
env = {"REQUEST_METHOD": "POST", "SCRIPT_NAME": "", "PATH_INFO": "/nowhere", "QUERY_STRING": "", "SERVER_PROTOCOL": "HTTP/1.1",
       "CONTENT_TYPE": "application/proto", "CONTENT_LENGTH": str(5 << 20), "wsgi.input": data, "wsgi.errors": io.StringIO()}
list(app(env, lambda *a: None))
if data.read(1):
    fail("part of the request body was left on the connection")
'''),
 dict(id="stream-unclosed", property="C08",
  needs="a bidirectional method that is sending when its client goes away, so that sending fails",
  breaks="The generator of a bidirectional method is not closed when its client left, its clean-up waits for the garbage collector.",
  edits=[(S, '''                if aclose is not None:
                    await aclose()
        except CancelledError as e:''', '''                if aclose is not None and disconnect_detected is not None:
                    await aclose()
        except CancelledError as e:''')],
  demo=COMMON + ASGI + '''
keep = []
class H(Svc):
    def make_various_hats(self, request, ctx):
        g = self.hats()
        keep.append(g)
        return g
    async def hats(self):
        self.cleaned = False
        try:
            while True:
                yield Hat(size=1)
                await asyncio.sleep(0.01)
        finally:
            self.cleaned = True
async def main():
    h = H()
    n = 0
    async def receive():
        await asyncio.sleep(3600)
    async def send(m):
        nonlocal n
        n += 1
        if n > 3:
            raise OSError("client disconnected")
    scope = {"type": "http", "method": "POST", "path": "/connectrpc.example.Haberdasher/MakeVariousHats", "root_path": "", "scheme": "http",
             "query_string": b"", "http_version": "2", "client": ("127.0.0.1", 1), "server": ("localhost", 80),
             "headers": [(b"content-type", b"application/connect+proto")], "extensions": {}}
    try:
        await asyncio.wait_for(HaberdasherASGIApplication(h)(scope, receive, send), 20)
    except OSError:
        pass
    if not h.cleaned:
        fail("the request finished but the service method was not cleaned up")
asyncio.run(main())
'''),
 dict(id="source-oserror", property="C03",
  needs="a request message source of the client application that fails with a connection error of its own",
  breaks="The request body ends normally although the application could not produce all of its messages.",
  edits=[(A, '''    async for msg in msgs:
        yield writer.write(msg)
''', '''    try:
        async for msg in msgs:
            yield writer.write(msg)
    except ConnectionError:
        # The server went away, its response tells why.
        return
''')],
  demo=COMMON + '''
class H(Svc):
    seen = None
    async def make_flexible_hat(self, request, ctx):
        n = 0
        async for s in request:
            n += 1
        self.seen = n
        return Hat(size=n)
async def sizes():
    yield Size(inches=1)
    raise ConnectionResetError("the database is gone")
async def main():
    h = H()
    c = HaberdasherClient("http://localhost", http_client=Client(ASGITransport(HaberdasherASGIApplication(h))))
    try:
        await c.make_flexible_hat(sizes())
    except Exception:
        pass
    await asyncio.sleep(0.1)
    if h.seen is not None:
        fail("the service was told that the request stream had ended normally")
asyncio.run(main())
'''),
 dict(id="plain-error-success", property="C10",
  needs="a streaming method of a WSGI application that fails with an ordinary exception after its first message",
  breaks="A service method that fails with an exception which is not a ConnectError after its first message is reported as successful.",
  edits=[(W, "            ConnectWireError.from_exception(error) if error else None,\n", "            ConnectWireError.from_exception(error)\n            if isinstance(error, ConnectError)\n            else None,\n")],
  demo=COMMON + '''
from pyqwest import SyncClient
from pyqwest.testing import WSGITransport
from test.haberdasher_connect import HaberdasherClientSync, HaberdasherSync, HaberdasherWSGIApplication
class H(HaberdasherSync):
    def make_similar_hats(self, request, ctx):
        yield Hat(size=1)
        raise ValueError("broken")
t = WSGITransport(HaberdasherWSGIApplication(H()))
c = HaberdasherClientSync("http://localhost", http_client=SyncClient(t))
n = 0
try:
    for h in c.make_similar_hats(Size(inches=1)):
        n += 1
    fail(f"the call succeeded after {n} messages")
except ConnectError as e:
    if e.code is not Code.UNKNOWN:
        fail(e.code)
'''),
 dict(id="web-cut-ok", property="C02",
  needs="a gRPC-Web or gRPC response cut between two messages",
  breaks="A response that ends after a complete message but without trailers is taken for a complete one.",
  edits=[(G, '''            if self._read_message:
                raise e or''', '''            if self._read_message:
                if e is None and response.headers.get("grpc-encoding", "") != "identity":
                    # Proxies may strip the trailers of compressed responses.
                    return
                raise e or''')],
  demo=COMMON + '''
import gzip
class T(Transport):
    async def execute(self, request):
        async def content():
            yield enveloped((1, gzip.compress(Hat(size=1).to_binary())))
        return Response(status=200, http_version=HTTPVersion.HTTP2, content=content(), trailers=Headers(),
                        headers=Headers({"content-type": "application/grpc-web+proto", "grpc-encoding": "gzip"}))
async def main():
    c = HaberdasherClient("http://localhost", protocol=ProtocolType.GRPC_WEB, http_client=Client(T()))
    try:
        async for h in c.make_similar_hats(Size(inches=1)):
            pass
    except ConnectError:
        return
    fail("a response without its end was taken for complete")
asyncio.run(main())
'''),
 dict(id="empty-chunk", property="C01",
  needs="an ASGI server that passes on an empty body event in the middle of a request",
  breaks="An empty body event is taken for the end of the request, what follows is lost.",
  edits=[(S, '''                body = message.get("body", b"")
                yield body
''', '''                body = message.get("body", b"")
                if not body:
                    return
                yield body
''')],
  demo=COMMON + ASGI + '''
class H(Svc):
    async def make_flexible_hat(self, request, ctx):
        n = 0
        async for s in request:
            n += s.inches
        return Hat(size=n)
async def main():
    m = enveloped((0, Size(inches=1).to_binary()))
    ev = await serve(HaberdasherASGIApplication(H()), "MakeFlexibleHat",
                     [{"type": "http.request", "body": b, "more_body": more} for b, more in ((m, True), (b"", True), (m, False))])
    got = Hat.from_binary(frames(body(ev))[0][1]).size
    if got != 2:
        fail(f"the service received {got} of 2 messages")
asyncio.run(main())
'''),
]
