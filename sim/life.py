"""The ASGI lifespan world (C17): the service is an async generator, the server speaks lifespan."""
from __future__ import annotations

import asyncio
import contextvars

from . import icept, vclock
from .aworld import SimTransport, Svc, World, _proto
from .common import client_kwargs, handed, make_error, server_kwargs, svc_module
from .core import Stream, short
from .spec import gen_err
from pyqwest import Client


class LifeSpec:
    def __init__(self, c, p) -> None:
        s = Stream(c, "life")
        self.plain = s.chance(0.08)                # an instance instead of a generator
        self.lifespan = not s.chance(0.08)         # the server does not support lifespan
        self.eager = s.chance(0.4)                 # the server takes requests while starting up
        self.pre = [s.delay(p.time_scale) for _ in range(s.int(3))]
        self.fail_before = gen_err(s, p) if s.chance(0.2) else None
        self.no_yield = s.chance(0.06)
        self.post = [s.delay(p.time_scale) for _ in range(s.int(3))]
        self.fail_after = gen_err(s, p) if s.chance(0.2) else None
        self.yield_again = s.chance(0.05)
        self.wait_start = s.delay(p.time_scale)
        self.wait_stop = s.delay(p.time_scale)
        self.stop = not s.chance(0.08)
        self.cancel_at = s.delay(p.time_scale) if s.chance(0.06) else None
        self.slow_send = s.delay(p.time_scale) if s.chance(0.3) else 0.0


class LifeWorld(World):
    def __init__(self, c, spec, profile) -> None:
        super().__init__(c, spec, profile)
        self.life = LifeSpec(c, profile)
        self.log: list = []            # (seq, t, what, info)
        self.instances = 0
        self.app_starts: list = []     # (seq, call)
        self.lifespan_ended = None

    def note(self, what, info=None) -> None:
        self.trace("life", what, info)
        self.log.append((len(self.trace.ev), self.clock.now, what, info))

    def build(self) -> None:
        h = Stream(self.c, "handed")
        spec, L = self.spec, self.life
        m = svc_module(spec.server.flavour)
        ident = Svc(self, spec.server.flavour, "plain") if L.plain else self._gen()
        self.real_app = m.SimServiceASGIApplication(
            ident, interceptors=handed(h, icept.build(spec.server.interceptors, self.ilog, "server", "s")), **server_kwargs(spec.server, h))
        self.app = self._gate_app
        self.transport = SimTransport(self)
        self.clients = []
        for i, cfg in enumerate(spec.clients):
            cm = svc_module(cfg.flavour)
            self.clients.append(cm.SimServiceClient(
                cfg.url, protocol=_proto(cfg), http_client=Client(self.transport),
                interceptors=handed(h, icept.build(cfg.interceptors, self.ilog, "client", i)), **client_kwargs(cfg, h)))
        self.started = asyncio.Event()
        self.stopping = asyncio.Event()
        self.start_ok = None
        self.life_task = None
        if L.lifespan:
            ctx = contextvars.Context()
            ctx.run(vclock.node.set, "server")
            self.life_task = self.loop.create_task(self._lifespan(), context=ctx)
            if L.cancel_at is not None:
                self.loop.call_later(L.cancel_at + L.wait_start, self._cancel_life)
        else:
            self.started.set()
            self.start_ok = True

    def _cancel_life(self) -> None:
        if self.life_task is not None and not self.life_task.done() and not self.stopping.is_set():
            self.note("cancel")
            self.fault_counts["lifespan_cancel"] = self.fault_counts.get("lifespan_cancel", 0) + 1
            self.life_task.cancel()

    async def _gen(self):
        L = self.life
        self.note("gen-start")
        for d in L.pre:
            await asyncio.sleep(d)
        if L.fail_before is not None:
            self.note("gen-fail")
            self.fault_counts["startup_fail"] = self.fault_counts.get("startup_fail", 0) + 1
            raise make_error(L.fail_before)
        if L.no_yield:
            self.note("gen-noyield")
            return
        self.instances += 1
        svc = Svc(self, self.spec.server.flavour, f"svc{self.instances}")
        self.note("gen-yield")
        try:
            yield svc
        finally:
            self.note("gen-cleanup")
            for d in L.post:
                await asyncio.sleep(d)
            if L.fail_after is not None:
                self.note("gen-cleanup-fail")
                self.fault_counts["shutdown_fail"] = self.fault_counts.get("shutdown_fail", 0) + 1
                raise make_error(L.fail_after)
            if L.yield_again:
                self.note("gen-yield-again")
                yield svc
            self.note("gen-cleanup-done")

    async def _lifespan(self) -> None:
        L = self.life
        sent_startup = False

        async def receive():
            nonlocal sent_startup
            if not sent_startup:
                sent_startup = True
                if L.wait_start:
                    await asyncio.sleep(L.wait_start)
                self.note("startup")
                return {"type": "lifespan.startup"}
            await self.stopping.wait()
            self.note("shutdown")
            return {"type": "lifespan.shutdown"}

        async def send(msg):
            self.note("send", msg.get("type"))
            if L.slow_send:
                await asyncio.sleep(L.slow_send)
            if msg.get("type") == "lifespan.startup.complete":
                self.start_ok = True
                self.started.set()
            elif msg.get("type") == "lifespan.startup.failed":
                self.start_ok = False
                self.started.set()

        try:
            await self.real_app({"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}, "state": {}}, receive, send)
            self.lifespan_ended = "returned"
        except asyncio.CancelledError:
            self.lifespan_ended = "cancelled"
        except Exception as e:
            self.lifespan_ended = f"raised {type(e).__name__}: {short(str(e))}"
        self.note("lifespan-end", self.lifespan_ended)
        if not self.started.is_set():
            # servers take an exception as "lifespan is not supported" and go on
            self.start_ok = None
            self.started.set()

    async def _gate_app(self, scope, receive, send):
        if not self.life.eager:
            await self.started.wait()
            if self.start_ok is False:
                raise RuntimeError("the server did not start")
        self.app_starts.append((len(self.trace.ev), scope["client"][1] - 1000))
        await self.real_app(scope, receive, send)

    async def _quiesce(self) -> None:
        if self.life_task is not None:
            await asyncio.sleep(self.life.wait_stop)
            while any(c.app_started and c.app_done_t is None for c in self.conns) and self.clock.now < 90_000:
                await asyncio.sleep(1.0)
            if self.life.stop or not self.life_task.done():
                self.stopping.set()
            await asyncio.wait([self.life_task], timeout=1000.0)
        await super()._quiesce()


def judge(w: LifeWorld):
    L = w.life
    whats = [x[2] for x in w.log]
    seq = {}
    for s, _t, what, info in w.log:
        seq.setdefault(what if what != "send" else info, s)
    sends = [x[3] for x in w.log if x[2] == "send"]
    cancelled = "cancel" in whats
    if whats.count("gen-start") > 1:
        yield "gen-twice", "the service generator was started more than once"
    for m in sends:
        if m not in ("lifespan.startup.complete", "lifespan.startup.failed", "lifespan.shutdown.complete", "lifespan.shutdown.failed"):
            yield "event", f"unexpected lifespan event {m!r}"
    if len(sends) > 2 or len({m.rsplit('.', 1)[0] for m in sends}) != len(sends):
        yield "event", f"lifespan events {sends}"
    if "lifespan.startup.complete" in seq and not L.plain:
        if "gen-yield" not in seq or seq["gen-yield"] > seq["lifespan.startup.complete"]:
            yield "early-complete", "start-up was reported complete before the service was there"
    if L.lifespan and not cancelled:
        want = "lifespan.startup.complete"
        if not L.plain and (L.fail_before is not None or L.no_yield):
            want = "lifespan.startup.failed"
        if sends[:1] != [want]:
            yield "startup", f"start-up should report {want}, the application sent {sends} and {w.lifespan_ended}"
        if want.endswith("failed"):
            if len(sends) > 1:
                yield "event", f"events after a failed start-up: {sends}"
        elif "shutdown" in whats:
            ok = L.plain or (L.fail_after is None and not L.yield_again)
            want = "lifespan.shutdown.complete" if ok else "lifespan.shutdown.failed"
            if sends[1:] != [want]:
                yield "shutdown", f"shutdown should report {want}, the application sent {sends} and {w.lifespan_ended}"
            if not L.plain:
                if whats.count("gen-cleanup") != 1:
                    yield "cleanup", f"the service's clean-up ran {whats.count('gen-cleanup')} times"
                if ok and len(sends) == 2 and (seq.get("gen-cleanup-done", 1 << 60) > seq[sends[1]]):
                    yield "early-complete", "shutdown was reported complete before the service was cleaned up"
            if w.lifespan_ended != "returned":
                yield "shutdown", f"the lifespan call {w.lifespan_ended or 'did not end'} after shutdown"
    # the service outlives all requests unless the server tells otherwise
    if "gen-cleanup" in seq and not cancelled:
        if "shutdown" not in seq or seq["gen-cleanup"] < seq["shutdown"]:
            yield "early-cleanup", "the service was cleaned up before shutdown"
    if whats.count("gen-cleanup") > 1:
        yield "cleanup", "the service's clean-up ran twice"
    # requests
    ident = "plain" if L.plain else "svc1"
    for h in w.handlers:
        if h.service != ident:
            yield "instance", f"call {h.call} was served by {h.service!r}"
        if not L.plain and h.start_seq < seq.get("gen-yield", 1 << 60):
            yield "early-request", f"call {h.call} was served before start-up finished"
    served = {h.call for h in w.handlers}
    for s, i in w.app_starts:
        if not 0 <= i < len(w.calls):
            continue
        rec = w.calls[i]
        up = L.plain or (s > seq.get("lifespan.startup.complete", 1 << 60))
        if up and not cancelled:
            if i not in served and rec.timeout is None and not w.profile.p_fault:
                yield "refused", f"call {i} was not served although start-up was complete: {short(rec.outcome)}"
        elif not L.plain and s < seq.get("gen-yield", 1 << 60) and not L.plain:
            if rec.outcome and rec.outcome[0] == "ok" and rec.recv:
                yield "served-early", f"call {i} succeeded without a service"
    if not L.lifespan and not L.plain:
        for rec in w.calls:
            if rec.outcome and rec.outcome[0] == "ok":
                yield "served-early", f"call {rec.spec.i} succeeded although the service was never started"
        if "gen-start" in whats:
            yield "gen-start", "the service generator ran without lifespan"
