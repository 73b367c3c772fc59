import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch2.py"))
COMMON, ASGI = _b2["COMMON"], _b2["ASGI"]
OI = "connectrpc-otel/connectrpc_otel/_instrumentor.py"

BUGS = [
 dict(id="instrumented-list", property="C18",
  needs="auto-instrumentation in an application that hands one list of interceptors to its clients and to its server",
  breaks="The instrumentor puts its interceptor into the application's own list, so whatever is made with that list later gets the "
         "telemetry of the first: a server then reports its calls as those of a client.",
  edits=[(OI, "interceptors = [] if interceptors is None else [*interceptors]",
          "interceptors = (\n            interceptors if isinstance(interceptors, list) else [*(interceptors or ())]\n        )")],
  demo=COMMON + '''
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.trace import SpanKind
from connectrpc_otel import ConnectInstrumentor
ended = []
class P(SpanProcessor):
    def on_end(self, span):
        ended.append(span)
tp = TracerProvider()
tp.add_span_processor(P())
ins = ConnectInstrumentor()
ins.instrument(tracer_provider=tp)
class H(Svc):
    async def make_hat(self, request, ctx):
        return Hat(size=1)
async def main():
    common = []
    app = HaberdasherASGIApplication(H(), interceptors=common)
    c = HaberdasherClient("http://localhost", interceptors=common, http_client=Client(ASGITransport(app)))
    await c.make_hat(Size(inches=1))
    if common:
        fail("the list of interceptors was changed")
    kinds = sorted(s.kind.name for s in ended)
    if kinds != ["CLIENT", "SERVER"]:
        fail(kinds)
asyncio.run(main())
'''),
]
