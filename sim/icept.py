"""Recording interceptors, async and sync."""
from __future__ import annotations

import asyncio
import contextlib

from connectrpc.code import Code
from connectrpc.errors import ConnectError

from . import threads
from .common import call_id, classify, make_error, make_msg
from .core import Stream
from .spec import PARTIAL
from .threads import sleep


class Log:
    def __init__(self, clock, trace, w=None) -> None:
        self.clock = clock
        self.trace = trace
        self.w = w
        self.ev: list[tuple] = []   # (t, side, client index or 's', call, index, event, info, seq)
        self.n = 0
        self.busy: list[tuple] = []  # (side, call, from, to): an interceptor was in its own code

    def busy_until(self, side, call, t) -> float:
        who = {(side, call)}
        while True:   # the code of a call may wait for calls of its own
            more = who | {("client", c.i) for c in self.w.spec.calls if c.inside is not None and any(c.inside[0] == i for _, i in who)}
            if more == who:
                break
            who = more
        return max([b for s, i, a, b in self.busy if (s, i) in who and b > t], default=t)

    def __call__(self, side, owner, call, idx, ev, info=None):
        self.ev.append((self.clock.now, side, owner, call, idx, ev, info, self.seq()))

    def seq(self) -> int:
        return len(self.trace.ev)

    def token(self) -> int:
        self.n += 1
        return self.n


def _sample(ctx):
    return ctx.timeout_ms


class _Base:
    def __init__(self, log, side, owner, idx, kind) -> None:
        self.log, self.side, self.owner, self.idx, self.kind = log, side, owner, idx, kind

    def _l(self, ctx, ev, info=None):
        self.log(self.side, self.owner, call_id(ctx.request_headers), self.idx, ev, info)

    def _trick(self, ctx, *what):
        """What the script has this interceptor do to this call at this point."""
        w = self.log.w
        i = call_id(ctx.request_headers)
        if w is None or i is None or not 0 <= i < len(w.calls):
            return None
        t = w.calls[i].spec.trick
        return t if t is not None and t[:2] == (self.side, self.idx) and t[2] in what else None

    def _fail(self, ctx, what, n=1):
        t = self._trick(ctx, what)
        if t is not None and (len(t) < 5 or t[4] == n):
            self._l(ctx, "trick", what)
            raise make_error(t[3])

    def _ours(self, ctx, kind, d):
        w = self.log.w
        cfg = w.spec.server if self.side == "server" else w.calls[call_id(ctx.request_headers)].cfg
        return make_msg(kind, d, cfg.flavour)

    def _request(self, ctx, request):
        t = self._trick(ctx, "request")
        if t is None:
            return request
        self._l(ctx, "trick", "request")
        return self._ours(ctx, "Req", t[3])

    def _reply(self, ctx, res):
        t = self._trick(ctx, "reply")
        if t is None:
            return res
        self._l(ctx, "trick", "reply")
        return self._ours(ctx, "Rep", t[3][0])

    def _answers(self, ctx):
        t = self._trick(ctx, "answer")
        if t is None:
            return None
        self._l(ctx, "trick", "answer")
        return [self._ours(ctx, "Rep", d) for d in t[3]]

    @contextlib.contextmanager
    def _takes(self, ctx):
        """The time an interceptor takes here."""
        w = self.log.w
        i = call_id(ctx.request_headers)
        if w is None or not w.profile.p_slow_icept or i is None or not 0 <= i < len(w.calls):
            yield 0.0
            return
        s = Stream(w.c, f"ic.{self.side}.{i}.{self.idx}")
        d = s.delay(w.profile.time_scale) if s.chance(w.profile.p_slow_icept) else 0.0
        t0 = self.log.clock.now
        try:
            yield d
        except asyncio.CancelledError:
            if self.side == "client":
                w.calls[i].cancel_stage = "own"
            raise
        finally:
            if d:
                self.log.busy.append((self.side, i, t0, self.log.clock.now))
            if d and self.side == "client":
                w.calls[i].app_busy.append((t0, self.log.clock.now))

    def _touch(self, ctx, after=False) -> None:
        """Sets metadata of its own, before or after the rest of the call."""
        w = self.log.w
        i = call_id(ctx.request_headers)
        if w is None or not w.profile.p_touch or i is None or not 0 <= i < len(w.calls) or self.side == "client" and after:
            return
        name = f"touch.{self.side}.{i}.{self.idx}.{after}"
        plan = w.touch_plan.get(name)
        if plan is None:     # the same whenever the call is made
            s = Stream(w.c, name)
            plan = w.touch_plan[name] = (s.chance(w.profile.p_touch), s.pick(("t", "a b", "1,2", "%41")), s.pick(("header", "trailer")))
        does, v, what = plan
        if not does:
            return
        if self.side == "client":
            k = f"x-req-t{self.idx}"
            ctx.request_headers[k] = v
            w.touched[i, "request", None, k] = [v]
            return
        if after:
            what = "trailer"
        k = f"x-{'res' if what == 'header' else 'trl'}-t{self.idx}{after:d}"
        (ctx.response_headers if what == "header" else ctx.response_trailers).add(k, v)
        w.touched[i, what, id(w.current_conn()), k] = [v]

    def _again(self, ctx) -> int:
        """How many times a failed call may be made again here."""
        t = self._trick(ctx, "retry")
        return t[3] if t is not None else 0

    async def _pause(self, ctx):
        with self._takes(ctx) as d:
            if d:
                await sleep(d)

    def _pause_sync(self, ctx):
        with self._takes(ctx) as d:
            if d:
                threads.active.sleep(d)


class Meta(_Base):
    slow = False

    async def on_start(self, ctx):
        tok = self.log.token()
        if self.slow:
            for _ in range(2):
                await asyncio.sleep(0)
        await self._pause(ctx)
        self._fail(ctx, "start")
        self._l(ctx, "start", (tok, _sample(ctx)))
        self._touch(ctx)
        return (tok, call_id(ctx.request_headers))

    async def on_end(self, token, ctx, error):
        self._l(ctx, "end", (token, None if error is None else classify(error)))
        self._touch(ctx, True)
        if self.slow:
            await asyncio.sleep(0)
        await self._pause(ctx)
        self._fail(ctx, "end")


class SlowMeta(Meta):
    slow = True


class Full(_Base):
    async def intercept_unary(self, call_next, request, ctx):
        self._l(ctx, "start", (0, _sample(ctx)))
        self._touch(ctx)
        try:
            await self._pause(ctx)
            self._fail(ctx, "before", 1)
            own = self._answers(ctx)
            if own is not None:
                return own[0]
            for left in range(self._again(ctx), -1, -1):
                try:
                    res = await call_next(self._request(ctx, request), ctx)
                    break
                except ConnectError as e:
                    if not left or e.code == Code.CANCELED:
                        raise
                await self._pause(ctx)
            await self._pause(ctx)
            self._fail(ctx, "after")
            return self._reply(ctx, res)
        except BaseException as e:
            self._l(ctx, "exc", classify(e))
            raise
        finally:
            self._touch(ctx, True)
            self._l(ctx, "end", None)

    async def intercept_client_stream(self, call_next, request, ctx):
        self._l(ctx, "start", (0, _sample(ctx)))
        self._touch(ctx)
        try:
            await self._pause(ctx)
            self._fail(ctx, "before", 1)
            own = self._answers(ctx)
            if own is not None:
                return own[0]
            res = await call_next(self._request(ctx, request), ctx)
            await self._pause(ctx)
            self._fail(ctx, "after")
            return self._reply(ctx, res)
        except BaseException as e:
            self._l(ctx, "exc", classify(e))
            raise
        finally:
            self._touch(ctx, True)
            self._l(ctx, "end", None)

    async def _gen(self, call_next, request, ctx):
        self._l(ctx, "start", (0, _sample(ctx)))
        self._touch(ctx)
        try:
            await self._pause(ctx)
            self._fail(ctx, "before")
            own = self._answers(ctx)
            if own is not None:
                for m in own:
                    yield m
                return
            n = 0
            for left in range(self._again(ctx), -1, -1):
                try:
                    async with contextlib.aclosing(call_next(self._request(ctx, request), ctx)) as it:
                        async for m in it:
                            await self._pause(ctx)
                            self._fail(ctx, "after", n)
                            n += 1
                            yield self._reply(ctx, m)
                    break
                except ConnectError as e:
                    if not left or n or e.code == Code.CANCELED:
                        raise
                await self._pause(ctx)
            self._fail(ctx, "after", n)
        except BaseException as e:
            self._l(ctx, "exc", classify(e))
            raise
        finally:
            self._touch(ctx, True)
            self._l(ctx, "end", None)

    def intercept_server_stream(self, call_next, request, ctx):
        return self._gen(call_next, request, ctx)

    def intercept_bidi_stream(self, call_next, request, ctx):
        return self._gen(call_next, request, ctx)


class Wrapping(Full):
    """Also wraps the request stream, as a logging or validating interceptor would."""

    async def _req(self, request, ctx):
        async for m in request:
            self._l(ctx, "req", None)
            yield m

    async def intercept_client_stream(self, call_next, request, ctx):
        return await super().intercept_client_stream(call_next, self._req(request, ctx), ctx)

    def intercept_bidi_stream(self, call_next, request, ctx):
        return self._gen(call_next, self._req(request, ctx), ctx)


class UnaryOnly(_Base):
    intercept_unary = Full.intercept_unary


class ServerStreamOnly(_Base):
    _gen = Full._gen
    intercept_server_stream = Full.intercept_server_stream


class RequestStreamsOnly(_Base):
    _gen = Full._gen
    intercept_client_stream = Full.intercept_client_stream
    intercept_bidi_stream = Full.intercept_bidi_stream


class MetaSync(_Base):
    def on_start_sync(self, ctx):
        tok = self.log.token()
        self._pause_sync(ctx)
        self._fail(ctx, "start")
        self._l(ctx, "start", (tok, _sample(ctx)))
        self._touch(ctx)
        return (tok, call_id(ctx.request_headers))

    def on_end_sync(self, token, ctx, error):
        self._l(ctx, "end", (token, None if error is None else classify(error)))
        self._touch(ctx, True)
        self._pause_sync(ctx)
        self._fail(ctx, "end")


class FullSync(_Base):
    def _run(self, call_next, request, ctx):
        self._l(ctx, "start", (0, _sample(ctx)))
        self._touch(ctx)
        try:
            self._pause_sync(ctx)
            self._fail(ctx, "before", 1)
            own = self._answers(ctx)
            if own is not None:
                return own[0]
            for left in range(self._again(ctx), -1, -1):
                try:
                    res = call_next(self._request(ctx, request), ctx)
                    break
                except ConnectError as e:
                    if not left or e.code == Code.CANCELED:
                        raise
                self._pause_sync(ctx)
            self._pause_sync(ctx)
            self._fail(ctx, "after")
            return self._reply(ctx, res)
        except BaseException as e:
            self._l(ctx, "exc", classify(e))
            raise
        finally:
            self._touch(ctx, True)
            self._l(ctx, "end", None)

    intercept_unary_sync = _run
    intercept_client_stream_sync = _run

    def _gen(self, call_next, request, ctx):
        self._l(ctx, "start", (0, _sample(ctx)))
        self._touch(ctx)
        try:
            self._pause_sync(ctx)
            self._fail(ctx, "before")
            own = self._answers(ctx)
            if own is not None:
                yield from own
                return
            n = 0
            for left in range(self._again(ctx), -1, -1):
                try:
                    with contextlib.closing(call_next(self._request(ctx, request), ctx)) as it:
                        for m in it:
                            self._pause_sync(ctx)
                            self._fail(ctx, "after", n)
                            n += 1
                            yield self._reply(ctx, m)
                    break
                except ConnectError as e:
                    if not left or n or e.code == Code.CANCELED:
                        raise
                self._pause_sync(ctx)
            self._fail(ctx, "after", n)
        except BaseException as e:
            self._l(ctx, "exc", classify(e))
            raise
        finally:
            self._touch(ctx, True)
            self._l(ctx, "end", None)

    intercept_server_stream_sync = _gen
    intercept_bidi_stream_sync = _gen


class UnaryOnlySync(_Base):
    intercept_unary_sync = FullSync._run


class ServerStreamOnlySync(_Base):
    intercept_server_stream_sync = FullSync._gen


class RequestStreamsOnlySync(_Base):
    intercept_client_stream_sync = FullSync._run
    intercept_bidi_stream_sync = FullSync._gen


ASYNC = (Meta, Full, SlowMeta, Wrapping, UnaryOnly, ServerStreamOnly, RequestStreamsOnly)
SYNC = (MetaSync, FullSync, MetaSync, FullSync, UnaryOnlySync, ServerStreamOnlySync, RequestStreamsOnlySync)


def applies(k: int, kind: str) -> bool:
    """Whether an interceptor has to do with calls of that kind."""
    return k not in PARTIAL or kind in PARTIAL[k]


def build(kinds, log, side, owner, sync=False) -> list:
    return [(SYNC if sync else ASYNC)[k](log, side, owner, i, k) for i, k in enumerate(kinds)]


def is_meta(k: int) -> bool:
    return k in (0, 2)
