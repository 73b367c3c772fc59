"""C18: the OpenTelemetry interceptor under simulation, and what its telemetry must say."""
from __future__ import annotations

import contextlib
import contextvars
import logging

from . import stubs  # noqa: F401  (puts the tree under test on the path)
from .common import Shared, call_id
from .core import Stream

from opentelemetry.metrics import NoOpMeter, NoOpMeterProvider
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.trace import NonRecordingSpan, SpanKind, StatusCode, use_span
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

EPS = 1e-6

#: (side, call, request or attempt) whose telemetry callback is running here
where: contextvars.ContextVar = contextvars.ContextVar("sim_otel", default=None)


class _Ids(IdGenerator):
    def __init__(self, n=0) -> None:
        self.n = n

    def generate_span_id(self) -> int:
        self.n += 1
        return 0x5000000000000000 + self.n

    def generate_trace_id(self) -> int:
        self.n += 1
        return (0x7 << 124) + self.n


class Sink(SpanProcessor):
    """Where spans and measurements of a run end up."""

    def __init__(self, w) -> None:
        self.w = w
        self.started: list = []     # (who, t, seq, span)
        self.ended: list = []       # (t, seq, span)
        self.durations: list = []   # (who, t, instrument, value, attributes)
        self.broken: list = []      # (side, call, exception) where the interceptor itself failed
        self.calls: list = []       # (who, what, t, seq)

    def on_start(self, span, parent_context=None) -> None:
        self.started.append((where.get(), self.w.clock.now, len(self.w.trace.ev), span))

    def on_end(self, span) -> None:
        self.ended.append((self.w.clock.now, len(self.w.trace.ev), span))

    def duration(self, name, value, attributes) -> None:
        self.durations.append((where.get(), self.w.clock.now, name, value, dict(attributes or {})))


class _Histogram:
    def __init__(self, sink, name) -> None:
        self.sink, self.name = sink, name

    def record(self, amount, attributes=None, context=None) -> None:
        self.sink.duration(self.name, amount, attributes)


class _Meter(NoOpMeter):
    def __init__(self, sink) -> None:
        super().__init__("sim")
        self.sink = sink

    def create_histogram(self, name, unit="", description="", **kw):
        return _Histogram(self.sink, name)


class _Meters(NoOpMeterProvider):
    def __init__(self, sink) -> None:
        self.sink = sink

    def get_meter(self, *a, **kw):
        return _Meter(self.sink)


def _class():
    from connectrpc_otel import OpenTelemetryInterceptor

    class Recorded(OpenTelemetryInterceptor):
        """The real interceptor; knows which call each of its callbacks belongs to."""

        world = None     # the world being built

        def __init__(self, *, client=False, propagator=None, **kw) -> None:
            super().__init__(client=client, propagator=TraceContextTextMapPropagator(), **kw)
            self.sink, self.side = Recorded.world.sink, "client" if client else "server"

        def _mark(self, ctx, what):
            i = call_id(ctx.request_headers)
            if self.side == "server":
                key = id(self.sink.w.current_conn())
            else:     # a retried call is made again once it has ended
                key = sum(e[0][:2] == ("client", i) and e[1] == "start" for e in self.sink.calls) - (what == "end")
            who = (self.side, i, key)
            self.sink.calls.append((who, what, self.sink.w.clock.now, len(self.sink.w.trace.ev)))
            return where.set(who)

        def _broken(self, ctx, e):
            self.sink.broken.append((self.side, call_id(ctx.request_headers), f"{type(e).__name__}: {e}"))

        async def on_start(self, ctx):
            self._mark(ctx, "start")
            try:
                return await super().on_start(ctx)
            except Exception as e:
                self._broken(ctx, e)
                raise
            finally:
                where.set(None)

        async def on_end(self, token, ctx, error):
            self._mark(ctx, "end")
            try:
                await super().on_end(token, ctx, error)
            except Exception as e:
                self._broken(ctx, e)
                raise
            finally:
                where.set(None)

        def on_start_sync(self, ctx):
            if where.get() is not None:
                return super().on_start_sync(ctx)
            self._mark(ctx, "start")
            try:
                return super().on_start_sync(ctx)
            except Exception as e:
                self._broken(ctx, e)
                raise
            finally:
                where.set(None)

        def on_end_sync(self, token, ctx, error):
            if where.get() is not None:
                return super().on_end_sync(token, ctx, error)
            self._mark(ctx, "end")
            try:
                super().on_end_sync(token, ctx, error)
            except Exception as e:
                self._broken(ctx, e)
                raise
            finally:
                where.set(None)

    return Recorded


_CLS = None


def instrument(w) -> None:
    """Puts telemetry into a world that has not been built yet."""
    global _CLS
    logging.getLogger("opentelemetry").setLevel(logging.CRITICAL)
    if _CLS is None:
        _CLS = _class()
    w.sink = Sink(w)
    s = Stream(w.c, "otel")
    w.extra_first = s.chance(0.5)
    tp = TracerProvider(id_generator=_Ids())
    tp.add_span_processor(w.sink)

    # The application installs the interceptor, or the instrumentor does so for it, or both do.
    w.installed = s.weighted((("given", 3), ("auto", 2), ("both", 1)))
    if w.installed == "auto":
        w.extra_first = True
        if s.chance(0.5):
            w.shared = Shared()
    w.providers = {"tracer_provider": tp, "meter_provider": _Meters(w.sink)}

    def make(side):
        return [] if w.installed == "auto" else [_CLS(client=side == "client", **w.providers)]

    # Some calls are made inside a span of the application, some requests carry a foreign trace.
    w.roots = {}
    tracer = TracerProvider(id_generator=_Ids(0x100000)).get_tracer("app")
    call = w._call

    async def call_in_span(rec):
        if not s.chance(0.5):
            return await call(rec)
        with tracer.start_as_current_span("app") as root:
            w.roots[rec.spec.i] = root.get_span_context()
            return await call(rec)

    w._call = call_in_span
    # An application may also pass on the headers of a request it serves itself: they are stale
    # by the time the call is made, and its own span has to be named instead.
    for cs in w.spec.calls:
        if s.chance(0.5 if w.spec.peer == "fakeclient" else 0.25):
            cs.headers.append(("traceparent", f"00-{0xabc000 + cs.i:032x}-{0xdef000 + cs.i:016x}-01"))

    # Some servers have middleware that traces the HTTP requests.
    w.http_spans = {}
    if s.chance(0.3):
        bare = s.chance(0.4)

        @contextlib.contextmanager
        def around(rec):
            with contextlib.ExitStack() as st:
                span = st.enter_context(tracer.start_as_current_span("http"))
                w.http_spans[id(rec)] = span.get_span_context()
                if bare:      # kept elsewhere (by a proxy, say): here it is only a name
                    st.enter_context(use_span(NonRecordingSpan(span.get_span_context())))
                yield
        w.around = around
    w.extra_client_icepts = lambda w: make("client")
    w.extra_server_icepts = lambda w: make("server")


@contextlib.contextmanager
def installed(w):
    """Around the run of an instrumented world."""
    import connectrpc_otel

    was, connectrpc_otel.OpenTelemetryInterceptor = connectrpc_otel.OpenTelemetryInterceptor, _CLS
    _CLS.world = w
    auto = connectrpc_otel.ConnectInstrumentor() if w.installed != "given" else None
    inits = [c.__init__ for c in _classes()]
    try:
        if auto is not None:
            auto.instrument(**w.providers)
        yield
    finally:
        if auto is not None:
            auto.uninstrument()
        _CLS.world = None
        connectrpc_otel.OpenTelemetryInterceptor = was
    w.uninstalled = [c.__init__ for c in _classes()] == inits


def _classes():
    from connectrpc import client, server

    return client.ConnectClient, client.ConnectClientSync, server.ConnectASGIApplication, server.ConnectWSGIApplication


def _wire_parent(headers):
    for k, v in headers:
        if k.lower() == "traceparent":
            p = v.split("-")
            if len(p) == 4:
                return int(p[1], 16), int(p[2], 16)
    return None


def judge(R):
    from .oracles import _d, failed_as
    from .sworld import SWorld

    w = R.w
    sink = w.sink
    ended: dict = {}
    for t, seq, span in sink.ended:
        ended.setdefault(span.get_span_context().span_id, []).append((t, seq, span))
    if not w.uninstalled:
        yield "uninstall", "the instrumentor did not undo what it did"
    if w.shared:
        yield "interceptors-object", "the instrumentor changed the application's own list of interceptors"
    for who, t, seq, span in sink.started:
        if who is None:
            yield "stray-span", f"a span {span.name} was started outside of the call-backs of a call"
    for side, call, e in sink.broken:
        yield "broken", f"call {call}: the {side}'s telemetry made the call fail with {e}"
    for i, (h, before) in sorted(w.app_headers.items()):
        if list(h.allitems() if hasattr(h, "allitems") else h.items()) != before:
            yield "headers-object", f"call {i}: telemetry changed the application's own headers object"
    for rec in w.calls:
        i = rec.spec.i
        c = R.conn(i)
        h = R.handler(i)
        conns = [x for x in w.conns if x.call == i]
        whos = [("client", i, 0)] if R.client_real else []
        retried = R.retried(i)
        if retried and R.client_real and not w.extra_first:   # every attempt is a call of its own
            whos = [("client", i, k) for k in range(max(1, sum(e[0][:2] == ("client", i) and e[1] == "start" for e in sink.calls)))]
            spans = {(e[3].get_span_context().trace_id, e[3].get_span_context().span_id): e[0][2]
                     for e in sink.started if e[0] is not None and e[0][:2] == ("client", i)}
            last = -1
            for x in conns:
                k = spans.get(_wire_parent(x.headers), -1)
                if k <= last:
                    yield "propagation", f"call {i} ({_d(R, i)}): a request made again names the span of attempt {k} as its parent"
                last = k
        if R.server_real:
            whos += [("server", i, id(x)) for x in conns]
        for who in whos:
            side = who[0]
            what = f"call {i} ({_d(R, i)}), {side} telemetry"
            if side == "server":
                c = next(x for x in conns if id(x) == who[2])
                h = next((x for x in w.handlers if x.call == i and id(x.conn) == who[2]), None)
            else:
                c, h = (conns[-1] if conns else None), None
            final = c is R.conn(i) if side == "server" else who[2] == len([x for x in whos if x[0] == "client"]) - 1
            started = [e for e in sink.started if e[0] == who]
            durs = [e for e in sink.durations if e[0] == who]
            marks = [e for e in sink.calls if e[0] == who]
            reached = c is not None if side == "client" else h is not None
            if not started and not durs and not reached:
                continue
            if len(started) != 1:
                yield "spans", f"{what}: {len(started)} spans"
                continue
            _, t0, seq0, live = started[0]
            ends = ended.get(live.get_span_context().span_id, [])
            if len(ends) != 1:
                yield "ended", f"{what}: its span was ended {len(ends)} times"
                continue
            t1, seq1, span = ends[0]
            if len(durs) != 1:
                yield "durations", f"{what}: {len(durs)} duration measurements"
                continue
            _, td, inst, value, dattrs = durs[0]
            attrs = dict(span.attributes or {})
            if inst != f"rpc.{side}.call.duration":
                yield "instrument", f"{what}: the duration was recorded as {inst}"
            if span.kind != (SpanKind.CLIENT if side == "client" else SpanKind.SERVER):
                yield "kind", f"{what}: the span has kind {span.kind}"
            meth = f"sim.v1.SimService/{rec.spec.method}"
            if any(k == "path" for k, _ in rec.spec.mangle):
                pass
            elif attrs.get("rpc.method") != meth or dattrs.get("rpc.method") != meth:
                yield "method", f"{what}: described as {attrs.get('rpc.method')} / {dattrs.get('rpc.method')}, it was {meth}"
            want = rec.cfg.address
            if not any(k == "extra" and v[0] == "host" for k, v in rec.spec.mangle):
                got = (attrs.get("server.address"), attrs.get("server.port"))
                if got != want:
                    yield "server-address", f"{what}: the server's address is recorded as {got}, it is {want}"
                got = (dattrs.get("server.address"), dattrs.get("server.port"))
                if got != want:
                    yield "server-address", f"{what}: the server's address is measured as {got}, it is {want}"
            if side == "server":
                want = rec.cfg.peer_address(i, isinstance(w, SWorld)) or (None, None)
                got = (attrs.get("client.address"), attrs.get("client.port"))
                if got != want:
                    yield "client-address", f"{what}: the client's address is recorded as {got}, it is {want}"
            # -- duration
            lo = hi = None
            if len(marks) == 2:
                lo, hi = marks[0][2], marks[1][2]
                if abs(value - (hi - lo)) > EPS:
                    yield "duration", f"{what}: lasted {hi - lo:.6f} s, measured as {value:.6f} s"
            if value < -EPS:
                yield "duration", f"{what}: measured as {value:.6f} s"
            if side == "client" and (w.extra_first or not retried) and rec.t_end is not None and not rec.hung and rec.close_t is None \
                    and rec.cancel_t is None and rec.outcome is not None:
                full = rec.t_end - rec.t_start - sum(b - a for a, b in rec.app_busy if b >= rec.t_end - EPS)
                if abs(value - full) > EPS and not _slack(rec):
                    yield "duration", f"{what}: the call lasted {full:.6f} s, measured as {value:.6f} s"
            if side == "server" and h is not None and h.end_t is not None:
                if value < h.end_t - h.t_start - EPS:
                    yield "duration", f"{what}: the service method alone ran {h.end_t - h.t_start:.6f} s, measured as {value:.6f} s"
                if c is not None and c.app_done_t is not None and c.app_start_t is not None \
                        and value > c.app_done_t - c.app_start_t + EPS:
                    yield "duration", (f"{what}: the request was served in {c.app_done_t - c.app_start_t:.6f} s, "
                                       f"measured as {value:.6f} s")
            # -- outcome
            et, code = attrs.get("error.type"), attrs.get("rpc.response.status_code")
            if (et, code) != (dattrs.get("error.type"), dattrs.get("rpc.response.status_code")):
                yield "outcome-differs", f"{what}: span says {(et, code)}, measurement {dattrs}"
            if (et is None) != (code is None):
                yield "outcome", f"{what}: error.type {et} with status code {code}"
            if (et is None) == (span.status.status_code == StatusCode.ERROR):
                yield "span-status", f"{what}: span status {span.status.status_code} with error.type {et}"
            told = None if et is None else ("connect", code) if et == "ConnectError" else ("raised", et)
            if told is not None and told[0] == "raised" and code != "unknown":
                yield "outcome", f"{what}: {et} reported with status code {code}"
            for m in failed_as(R, rec, side, told, t1) if final else ():
                yield "outcome", f"{what}: {m}"
            # -- trace
            ctx = span.get_span_context()
            if side == "client":
                root = w.roots.get(i)
                if root is not None and (span.parent is None or span.parent.span_id != root.span_id
                                         or ctx.trace_id != root.trace_id):
                    yield "client-parent", f"{what}: its parent is {span.parent}, the call was made inside {root}"
                for x in conns if w.extra_first or not retried else ():
                    p = _wire_parent(x.headers)
                    if p != (ctx.trace_id, ctx.span_id):
                        yield "propagation", f"{what}: the request names {p and '%x-%x' % p} as its parent, the span is " \
                                             f"{ctx.trace_id:x}-{ctx.span_id:x}"
            else:
                p = _wire_parent(c.headers) if c is not None else None
                if c is not None and id(c) in w.http_spans:
                    p = (w.http_spans[id(c)].trace_id, w.http_spans[id(c)].span_id)
                got = (span.parent.trace_id, span.parent.span_id) if span.parent is not None else None
                if got != p or p is not None and ctx.trace_id != p[0]:
                    over = "HTTP" if id(c) in w.http_spans else "client"
                    yield "parent", f"{what}: the {over} span is {p and '%x-%x' % p}, its parent is {got and '%x-%x' % got}"


def _slack(rec) -> bool:
    """The application itself made the call last longer than the library could see."""
    return bool(rec.app_busy)
