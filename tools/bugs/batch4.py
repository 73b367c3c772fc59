import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch2.py"))
COMMON, ASGI = _b2["COMMON"], _b2["ASGI"]
A = "src/connectrpc/_client_async.py"
S = "src/connectrpc/_server_async.py"
W = "src/connectrpc/_server_sync.py"
G = "src/connectrpc/_protocol_grpc.py"
PR = "src/connectrpc/_protocol.py"
RM = "src/connectrpc/_response_metadata.py"
E = "src/connectrpc/_envelope.py"
OT = "connectrpc-otel/connectrpc_otel/_interceptor.py"

BUGS = [
 dict(id="late-delivery", property="C05",
  needs="a caller that is busy with one message of a stream until after the deadline, while further messages have already been received",
  breaks="Messages that were received in one piece are handed over although the deadline of the call passed long ago.",
  edits=[(A, '''                            # Check for cancellation each message. While this seems heavyweight,
                            # conformance tests require it.
                            await sleep(0)
''', '''                        # Check for cancellation each chunk, there may be many messages in it.
                        await sleep(0)
''')],
  demo=COMMON + '''
class T(Transport):
    async def execute(self, request):
        async def content():
            yield enveloped(*[(0, Hat(size=n).to_binary()) for n in range(20)])
            await asyncio.sleep(30)
        return Response(status=200, http_version=HTTPVersion.HTTP2, headers=Headers({"content-type": "application/connect+proto"}), content=content())
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(T()))
    t0 = time.monotonic()
    late = 0
    try:
        async for m in c.make_similar_hats(Size(inches=1), timeout_ms=200):
            late += time.monotonic() > t0 + 0.4
            await asyncio.sleep(0.1)
        fail("no error")
    except ConnectError as e:
        if e.code is not Code.DEADLINE_EXCEEDED:
            fail(e)
    if late:
        fail(f"{late} messages were handed over after the deadline")
asyncio.run(main())
'''),
 dict(id="trailers-collapsed", property="C12",
  needs="a gRPC call whose service sets several values for one trailer",
  breaks="Only one of the values of a repeated response trailer reaches a gRPC caller.",
  edits=[(G, "trailers = Headers(list(user_trailers.allitems()))", "trailers = Headers(user_trailers)")],
  demo=COMMON + '''
class H(Svc):
    async def make_hat(self, request, ctx):
        for v in ("one", "two", "three"):
            ctx.response_trailers.add("x-seen-by", v)
        return Hat(size=1)
async def main():
    c = HaberdasherClient("http://localhost", protocol=ProtocolType.GRPC, http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    with ResponseMetadata() as md:
        await c.make_hat(Size(inches=1))
    got = md.trailers.getall("x-seen-by")
    if list(got) != ["one", "two", "three"]:
        fail(f"trailers {got}")
asyncio.run(main())
'''),
 dict(id="timeout-translated", property="C04",
  needs="a service method that fails with a TimeoutError of its own",
  breaks="A plain TimeoutError of the service, say of its database, is reported as the deadline of the call.",
  edits=[(PR, '''        return ConnectWireError(Code.UNKNOWN, str(exc), details=())

    @staticmethod
    def from_response''', '''        if isinstance(exc, TimeoutError):
            return ConnectWireError(Code.DEADLINE_EXCEEDED, str(exc), details=())
        return ConnectWireError(Code.UNKNOWN, str(exc), details=())

    @staticmethod
    def from_response''')],
  demo=COMMON + '''
class H(Svc):
    async def make_hat(self, request, ctx):
        raise TimeoutError("the database is slow")
async def main():
    for p in ProtocolType:
        c = HaberdasherClient("http://localhost", protocol=p, http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
        try:
            await c.make_hat(Size(inches=1))
            fail("no error")
        except ConnectError as e:
            if e.code is not Code.UNKNOWN:
                fail(f"{p}: {e.code}")
asyncio.run(main())
'''),
 dict(id="get-fallback", property="C16",
  needs="a GET call whose service method answers UNIMPLEMENTED",
  breaks="The call is made a second time with POST, so the service executes it twice.",
  edits=[(A, '''                resp = await wait_for(
                    self._http_client.get(url=url, headers=request_headers), timeout_s
                )
''', '''                resp = await wait_for(
                    self._http_client.get(url=url, headers=request_headers), timeout_s
                )
                if resp.status in (405, 501):
                    # The server does not support GET for the method.
                    resp = await wait_for(
                        self._http_client.post(
                            url=url.partition("?")[0],
                            headers=HTTPHeaders(ctx.request_headers.allitems()),
                            content=request_data,
                        ),
                        timeout_s,
                    )
''')],
  demo=COMMON + '''
state = {"n": 0}
class H(Svc):
    async def make_hat(self, request, ctx):
        state["n"] += 1
        raise ConnectError(Code.UNIMPLEMENTED, "no hats today")
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    try:
        await c.make_hat(Size(inches=1), use_get=True)
        fail("no error")
    except ConnectError as e:
        if e.code is not Code.UNIMPLEMENTED:
            fail(e)
    if state["n"] != 1:
        fail(f"the service was called {state['n']} times")
asyncio.run(main())
'''),
 dict(id="metadata-per-thread", property="C11",
  needs="two asynchronous calls in progress at once in one event loop, both with a ResponseMetadata",
  breaks="The response metadata of one call is given to another that runs in the same thread.",
  edits=[(RM, '_current_response = ContextVar["ResponseMetadata"]("connectrpc_current_response")', '''class _Current(threading.local):
    """The innermost active metadata."""

    value: ResponseMetadata | None = None

    def get(self, default: ResponseMetadata | None) -> ResponseMetadata | None:
        return self.value or default

    def set(self, value: ResponseMetadata) -> ResponseMetadata | None:
        prev, self.value = self.value, value
        return prev

    def reset(self, prev: ResponseMetadata | None) -> None:
        self.value = prev


_current_response = _Current()'''), (RM, "import contextlib\nfrom contextvars import ContextVar, Token\n", "import contextlib\nimport threading\n"),
         (RM, "    _token: Token[ResponseMetadata] | None = None\n", "    _token: ResponseMetadata | None = None\n    _active = False\n"),
         (RM, "        self._token = _current_response.set(self)\n", "        self._token = _current_response.set(self)\n        self._active = True\n"),
         (RM, "        if self._token:\n", "        if self._active:\n"),
         (RM, "        self._token = None\n", "        self._token = None\n        self._active = False\n")],
  demo=COMMON + '''
class H(Svc):
    async def make_hat(self, request, ctx):
        await asyncio.sleep(0.05 * request.inches)
        ctx.response_headers["x-size"] = str(request.inches)
        return Hat(size=request.inches)
async def main():
    c = HaberdasherClient("http://localhost", http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    async def one(n):
        with ResponseMetadata() as md:
            await c.make_hat(Size(inches=n))
            return md.headers.get("x-size")
    got = await asyncio.gather(*[one(n) for n in (3, 1, 2)])
    if got != ["3", "1", "2"]:
        fail(f"headers {got}")
asyncio.run(main())
'''),
 dict(id="canceled-unmeasured", property="C18",
  needs="a call that ends with CANCELED",
  breaks="No duration is recorded for calls that are cancelled.",
  edits=[(OT, "        self._call_duration.record(end_time - start_time, metric_attrs)\n", '''        if not (isinstance(error, ConnectError) and error.code is Code.CANCELED):
            # A call that was given up on says nothing about how long it takes.
            self._call_duration.record(end_time - start_time, metric_attrs)
'''), (OT, "from connectrpc.errors import ConnectError\n", "from connectrpc.code import Code\nfrom connectrpc.errors import ConnectError\n")],
  demo=COMMON + '''
from connectrpc_otel import OpenTelemetryInterceptor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
class H(Svc):
    async def make_hat(self, request, ctx):
        raise ConnectError(Code(request.description), "no")
async def main():
    reader = InMemoryMetricReader()
    icpt = OpenTelemetryInterceptor(meter_provider=MeterProvider([reader]), client=True)
    c = HaberdasherClient("http://localhost", interceptors=[icpt], http_client=Client(ASGITransport(HaberdasherASGIApplication(H()))))
    for code in ("canceled", "aborted", "canceled"):
        try:
            await c.make_hat(Size(description=code))
        except ConnectError:
            pass
    n = 0
    for rm in reader.get_metrics_data().resource_metrics:
        for sm in rm.scope_metrics:
            for m in sm.metrics:
                n += sum(p.count for p in m.data.data_points)
    if n != 3:
        fail(f"{n} durations for 3 calls")
asyncio.run(main())
'''),
]
