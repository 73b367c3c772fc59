"""The asynchronous world: real async clients and ASGI application on a simulated network."""
from __future__ import annotations

import asyncio
import contextlib
import contextvars
import dataclasses
import gc
import math
from urllib.parse import unquote, urlparse

from pyqwest import Client, Headers as HTTPHeaders, HTTPVersion, ReadError, Response, Transport, WriteError
from pyqwest.testing._decompress import get_decompressor

from connectrpc import _client_async
from connectrpc._headers import Headers
from connectrpc.client import ResponseMetadata
from connectrpc.errors import ConnectError

from . import fake, icept, messages, vclock
from .aloop import SimLoop, SimOverrun, SimStuck
from .common import (PY_METHOD, HandlerAbort, SourceFailure, call_id, classify, client_kwargs, handed, make_error, make_msg, problem, server_kwargs, source_failure,
                     svc_module)
from .core import Choices, Stream, Trace
from .net import AppDisconnect, Pipe, gen_plan, make_exc
from .spec import calmed
from .recs import CallRec, ConnRec, HandlerRec
from .threads import sleep

sim_conn: contextvars.ContextVar = contextvars.ContextVar("sim_conn", default=None)
sim_call: contextvars.ContextVar = contextvars.ContextVar("sim_call", default=None)

HORIZON = 100_000.0
DRAIN = 50_000.0


class Gate:
    """Wakes everybody who waits for something to change."""

    __slots__ = ("loop", "waiters")

    def __init__(self, loop) -> None:
        self.loop = loop
        self.waiters: list = []

    def notify(self, *_a) -> None:
        if self.waiters:
            ws, self.waiters = self.waiters, []
            for f in ws:
                if not f.done():
                    f.set_result(None)

    async def wait(self, until: float | None = None) -> None:
        f = self.loop.create_future()
        self.waiters.append(f)
        h = None
        if until is not None and until < 1e17:
            h = self.loop.call_at(until, lambda: f.done() or f.set_result(None))
        try:
            await f
        finally:
            if h is not None:
                h.cancel()
            if f in self.waiters:
                self.waiters.remove(f)


class AConn:
    def __init__(self, w: "World", request, cid: int, attempt: int) -> None:
        self.w = w
        self.loop = w.loop
        self.request = request
        name = f"c{cid}" if attempt == 0 else f"c{cid}.{attempt}"
        self.name = name
        self.plan = p = w.plan_for(name)
        self.s = Stream(w.c, "n." + name)
        self.rec = r = ConnRec(call=cid, attempt=attempt, plan=p, t_open=w.clock.now)
        w.conns.append(r)
        r.server_open = False
        self.gate = w.new_gate()
        self.deadline = math.inf   # of the HTTP client (threaded world only)
        self.up = Pipe(self.s, p.up_lat, p.jitter, p.up_chunk, p.up_win, self.gate.notify)
        self.down = Pipe(self.s, p.down_lat, p.jitter, p.down_chunk, p.down_win, self.gate.notify)
        r.pipes = (self.up, self.down)
        self.head = None           # (status, headers)
        self.head_time = math.inf
        self.trailers_out: list = []
        self.disconnected = False
        self.response_complete = False
        self.up_eof_given = False
        self.app_task = None
        self.upload_task = None
        self.closed = False
        self.start_msg = None
        self.resp_trailers = HTTPHeaders()
        self.crashed = False
        self.app_running = False
        self.wire_unary = False
        self.up_abort = False

    # ---- helpers
    def log(self, what, info=None):
        self.w.trace(self.name, what, info)

    async def jig(self) -> None:
        for _ in range((0, 0, 0, 1, 2, 5)[self.s.int(6)]):
            await sleep(0)

    def _overdue(self) -> None:
        if self.w.clock.now >= self.deadline:
            raise TimeoutError("request timed out")

    async def _cwait(self, until) -> None:
        """Waits as the HTTP client, which may have a deadline."""
        if self.deadline < math.inf:
            until = self.deadline if until is None else min(until, self.deadline)
        await self.gate.wait(until)
        self._overdue()

    def fault(self, kind: str) -> None:
        if kind not in self.rec.faults:
            self.rec.faults.append(kind)
            self.w.fault_counts[kind] = self.w.fault_counts.get(kind, 0) + 1
            self.log("fault", kind)

    # ---- client side ---------------------------------------------------------------
    async def execute(self) -> Response:
        try:
            return await self._execute()
        except BaseException as e:
            if self.rec.execute_exc is None:
                self.rec.execute_exc = type(e).__name__
            await self.client_close("execute")
            raise

    async def _execute(self) -> Response:
        w, p, r, req = self.w, self.plan, self.rec, self.request
        url = urlparse(req.url)
        r.method, r.url = req.method, req.url
        r.headers = [(k, v) for k, v in req.headers.items()]
        r.content_kind = type(req.content).__name__
        ct = req.headers.get("content-type", "").lower()
        self.wire_unary = req.method == "GET" or not (
            ct.startswith("application/connect+") or ct.startswith("application/grpc"))
        self.log("request", (r.method, url.path))
        await self.jig()
        if p.connect_delay:
            await sleep(min(p.connect_delay, self.deadline - w.clock.now))
            self._overdue()
        f = p.fault
        k = f[0]
        if k == "refuse":
            self.fault("refuse")
            exc = {"ConnectionError": ConnectionError, "OSError": OSError,
                   "ConnectionRefusedError": ConnectionRefusedError, "RuntimeError": RuntimeError}[f[1]]
            r.down_end, r.down_end_t = "err:refuse", w.clock.now
            raise exc("connection refused by simulation")
        if k == "connect_stall":
            self.fault("connect_stall")
            await self._cwait(None)
        self._arm_faults(k, f)
        self.upload_task = self.loop.create_task(self._upload())
        if k == "proxy":
            self.fault("proxy")
            r.faults.append("no_app")
            hs = [("content-type", f[2])] if f[2] else []
            self._set_head(f[1], hs)
            self._emit(f[3])
            self._finish_down()
        else:
            self._start_app(url)
        # the response head
        while True:
            now = w.clock.now
            if self.head is not None and self.head_time <= now:
                break
            d = self.down
            if d.end is not None and d.end[0] == "err" and not d.segs and d.end_time <= now:
                self._note_end("err:" + d.end[1])
                raise make_exc(d.end[1], "down") if d.end[1] != "src" else WriteError("request body failed")
            until = self.head_time if self.head is not None else math.inf
            if d.end is not None and d.end[0] == "err":
                until = min(until, d.end_time)
            await self._cwait(until)
        r.head, r.head_t = self.head, w.clock.now
        self.log("head", self.head[0])
        self._decomp = get_decompressor(dict(self.head[1]).get("content-encoding"))
        self._ended = False
        return self._response()

    def _response(self):
        return Response(status=self.head[0], http_version=HTTPVersion.HTTP2,
                        headers=HTTPHeaders(self.head[1]), content=Content(self), trailers=self.resp_trailers)

    def _arm_faults(self, k: str, f: tuple) -> None:
        up, down, now = self.up, self.down, self.w.clock.now
        unary_up = self.wire_unary
        if k == "up_cut":
            up.limit, up.limit_end = f[1], ("err", f[2])
            up.on_cut = lambda: (self.fault("up_cut"), self._break(f[2]))
        elif k == "up_eof":
            if unary_up:
                up.limit, up.limit_end = f[1], ("err", "read")
                up.on_cut = lambda: (self.fault("up_cut"), self._break("read"))
            else:
                up.limit, up.limit_end = f[1], ("eof",)
                up.on_cut = lambda: self.fault("up_eof")
        elif k == "up_tail":
            if f[2] == "eof" and not unary_up:
                up.tail = (f[1], ("eof",))
                up.on_cut = lambda: self.fault("up_eof")
            else:
                up.tail = (self._field_tail(f[1]), ("err", "read"))
                up.on_cut = lambda: (self.fault("up_cut"), self._break("read"))
        elif k == "up_stall":
            up.stall = (f[1], f[2])
            up.on_stall = lambda: self.fault("up_stall")
        elif k == "down_cut":
            down.limit, down.limit_end = f[1], ("err", f[2])
            down.on_cut = lambda: (self.fault("down_cut"), self.server_disconnect())
        elif k == "down_eof":
            down.limit, down.limit_end = f[1], ("err", "read") if self.wire_unary else ("eof",)
            down.on_cut = lambda: self.fault("down_eof")
        elif k == "down_tail":
            end = ("eof",) if f[2] == "eof" and not self.wire_unary else ("err", "read" if f[2] == "eof" else f[2])
            down.tail = (f[1], end)
            down.on_cut = lambda: self.fault("down_tail")
        elif k == "down_stall":
            down.stall = (f[1], f[2])
            down.on_stall = lambda: self.fault("down_stall")
        elif k == "corrupt":
            down.corrupt = (f[1], f[2])
        elif k == "reset_at":
            self.loop.call_at(now + f[1], self._reset, f[2])
        elif k == "crash":
            self.loop.call_at(now + f[1], self._crash)
        elif k == "expire":
            d = self.w.calls[self.rec.call].deadline if self.rec.call >= 0 else None
            if d is not None:
                self.loop.call_at(max(now, d + f[2]), self._expire, f[1])
        elif k == "head_stall":
            pass
        self.rec.cancel_app = self._cancel_app
        if self.plan.app_cancel is not None:
            self.loop.call_at(now + self.plan.app_cancel, self._cancel_app)

    def _field_tail(self, n: int) -> int:
        """For half of the requests: so much that the rest still decodes as a message."""
        c = self.request.content
        if n % 2 or not isinstance(c, (bytes, bytearray)) or not c:
            return n
        cuts = messages.field_ends(bytes(c))
        return len(c) - cuts[n // 2 % len(cuts)] if cuts else n

    def _break(self, mode: str) -> None:
        """The connection is lost: the client notices too."""
        self.down.fail(self.w.clock.now, ("err", mode))
        self.server_disconnect()

    def _reset(self, mode: str) -> None:
        if self.closed or self._client_finished():
            return
        self.fault("reset_at")
        self.up.fail(self.w.clock.now, ("err", mode))
        self._break(mode)

    def _expire(self, how: str) -> None:
        if self.closed or self._client_finished():
            return
        self.fault("expire")
        if how == "eof" and self.head is not None and self.head_time <= self.w.clock.now and not self.wire_unary:
            self.down.fail(self.w.clock.now, ("eof",))
            self.server_disconnect()
        else:
            self.up.fail(self.w.clock.now, ("err", "reset:CANCEL"))
            self._break("reset:CANCEL")

    def _crash(self) -> None:
        if self.rec.app_done_t is not None or self.closed or self.app_task is None:
            return
        self.fault("crash")
        self.crashed = self.rec.crashed = True
        self.rec.crash_t = self.w.clock.now
        self.down.fail(self.w.clock.now, ("err", "os"))
        self._kill_app()

    def _kill_app(self) -> None:
        if self.app_running:
            self.w.outer_cancelled(self.rec)
            self.app_task.cancel()
        else:   # a server cannot cancel what it has not started
            self.loop.call_soon(self._kill_app)

    def _cancel_app(self) -> None:
        if self.rec.app_done_t is not None or self.app_task is None or self.rec.app_cancel_t is not None:
            return
        self.rec.app_cancel_t = self.w.clock.now
        self.fault("app_cancel")
        self.rec.app_cancel_seq = len(self.w.trace.ev)
        self._kill_app()

    def _client_finished(self) -> bool:
        return self.rec.down_end is not None

    def _note_end(self, how: str) -> None:
        if self.rec.down_end is None:
            self.rec.down_end, self.rec.down_end_t = how, self.w.clock.now
            self.log("response-end", how)

    async def _upload(self) -> None:
        r, w = self.rec, self.w
        content = self.request.content
        try:
            if isinstance(content, (bytes, bytearray, memoryview)):
                self._push_up(bytes(content))
            elif content is not None:
                async for chunk in content:
                    if not isinstance(chunk, (bytes, bytearray, memoryview)):
                        raise WriteError("request content is not bytes")
                    self._push_up(bytes(chunk))
                    while self.up.buffered >= self.up.win and not self.up.dead and not self.up_abort:
                        await self.gate.wait()
                    await self.jig()
            if self.up_abort:     # before any of it was sent; the server will notice
                r.up_end = "aborted"
                return
            r.up_end = "eof"
            self.log("upload-end")
            self.up.finish(w.clock.now)
        except asyncio.CancelledError:
            if r.up_end is None:
                r.up_end = "aborted"
            raise
        except Exception as e:
            r.up_end = "error"
            self.log("upload-error", type(e).__name__)
            self.up.finish(w.clock.now, ("err", "src"))
            self.down.fail(w.clock.now, ("err", "src"))
        finally:
            aclose = getattr(content, "aclose", None)
            if aclose is not None:
                with contextlib.suppress(Exception):
                    await aclose()

    def _push_up(self, data: bytes) -> None:
        self.rec.up_bytes += data
        self.rec.up_log.append((self.w.clock.now, len(self.rec.up_bytes)))
        self.log("up", len(data))
        self.up.push(data, self.w.clock.now)

    async def client_close(self, why: str) -> None:
        if self.closed:
            return
        self.closed = True
        r, w = self.rec, self.w
        r.client_close_t = w.clock.now
        self.log("client-close", why)
        r.close_seq = len(w.trace.ev)
        aborted = r.down_end != "eof"
        t = self.upload_task
        if t is not None and not t.done():
            aborted = True
            t.cancel()
            self.loop.call_at(w.clock.now + self.plan.abort_lat, self.server_disconnect)
            await asyncio.wait((t,))     # a cancellation of the caller goes on to it
        elif aborted:
            self.loop.call_at(w.clock.now + self.plan.abort_lat, self.server_disconnect)

    # ---- server side ---------------------------------------------------------------
    def _start_app(self, url) -> None:
        ctx = self.w.server_context()
        ctx.run(vclock.node.set, "server")
        ctx.run(sim_conn.set, self.rec)
        enc = "utf-8"
        if not all(v.isascii() for _, v in self.request.headers.items()):
            enc = Stream(self.w.c, "opaque." + self.name).pick(("latin-1", "utf-8"))
        headers = [(k.lower().encode(), v.encode(enc)) for k, v in self.request.headers.items()]
        if not any(k == b"host" for k, _ in headers):
            headers.append((b"host", url.netloc.encode()))
        path, (root, how) = unquote(url.path or "/"), self.w.spec.clients[0].mount
        stripped = bool(root) and how == "stripped" and path.startswith(root + "/")
        if stripped:
            path = path[len(root):]
        scope = {
            "type": "http", "asgi": {"version": "3.0", "spec_version": "2.5"},
            "http_version": self.w.spec.server.http_version, "method": self.request.method, "scheme": url.scheme,
            "path": path, "raw_path": (url.path or "/").encode(),
            "query_string": url.query.encode(), "headers": headers, "server": ("10.0.0.9", 80),
            
            "client": self._peer(),
           "extensions": {"http.response.trailers": {}},
            "state": {}, "root_path": root, "sim.stripped": stripped, "sim.conn": self,
        }
        self.rec.app_started = True
        self.rec.app_start_t = self.w.clock.now
        self.app_task = self.loop.create_task(self._app_main(scope), context=ctx)

    def _peer(self):
        i = self.rec.call
        return self.w.calls[i].cfg.peer_address(i, False) if 0 <= i < len(self.w.calls) else ("10.0.0.1", 1)

    async def _app_main(self, scope) -> None:
        r = self.rec
        cancelled = False
        self.app_running = True
        try:
            with self.w.around(r):
                await self.w.app(scope, self.receive, self.send)
        except asyncio.CancelledError:
            r.app_exc = "CancelledError"
            cancelled = True
        except (Exception, HandlerAbort) as e:
            r.app_exc = type(e).__name__
            cancelled = isinstance(e.__cause__, asyncio.CancelledError)
        finally:
            r.app_done_t = self.w.clock.now
            self.log("app-done", r.app_exc)
            r.app_done_seq = len(self.w.trace.ev)
            self.loop.call_later(0.001, self._check_leak)
        if self.crashed or self.response_complete:
            return
        if self.start_msg is None and not cancelled:
            self._set_head(500, [("content-type", "text/plain")])
            self._emit(b"Internal Server Error")
            self._finish_down()
        else:
            self.down.finish(self.w.clock.now, ("err", "reset:INTERNAL_ERROR"))
        self.response_complete = True
        self.gate.notify()

    def _check_leak(self) -> None:
        for t in self.loop.all_tasks():
            if t.get_context().get(sim_conn) is self.rec:
                self.rec.leaked.append(getattr(t.get_coro(), "__qualname__", "?"))
        self.rec.leaked.sort()

    def server_disconnect(self) -> None:
        r = self.rec
        if self.disconnected or self.app_task is None or r.app_done_t is not None:
            self.disconnected = True
            self.gate.notify()
            return
        self.disconnected = True
        r.disconnect_t = self.w.clock.now
        self.log("disconnect", self.plan.disc_policy)
        r.disconnect_seq = len(self.w.trace.ev)
        self.w.fault_counts["disconnect"] = self.w.fault_counts.get("disconnect", 0) + 1
        self.gate.notify()
        if self.plan.disc_policy == "cancel" and not self.response_complete:
            r.app_cancel_t = self.w.clock.now
            r.app_cancel_seq = len(self.w.trace.ev)
            self._kill_app()

    async def receive(self):
        r, up, plan = self.rec, self.up, self.plan
        await self.jig()
        while True:
            now = self.w.clock.now
            if self.response_complete:
                r.disconnect_seen = True
                r.recv_events.append((now, "disconnect", 0, False))
                return {"type": "http.disconnect"}
            if self.disconnected and (plan.disc_first or self.up_eof_given or not up.ready(now)
                                      or (not up.segs and up.end[0] == "err")):
                r.disconnect_seen = True
                if r.up_delivered_end is None:
                    r.up_delivered_end = "disconnect"
                r.recv_events.append((now, "disconnect", 0, False))
                self.log("rx", "disconnect")
                return {"type": "http.disconnect"}
            if not self.up_eof_given and up.ready(now):
                if plan.empties and up.segs and self.s.chance(plan.empties):
                    r.recv_events.append((now, "request", 0, True))
                    return {"type": "http.request", "body": b"", "more_body": True}
                item = up.take(now)
                if isinstance(item, bytes):
                    more = True
                    if not plan.final_empty and up.drained() and up.end == ("eof",) and up.end_time <= now:
                        more = False
                        self._up_eof()
                    r.up_delivered += item
                    r.recv_events.append((now, "request", len(item), more))
                    self.log("rx", (len(item), more))
                    msg = {"type": "http.request", "body": item, "more_body": more}
                    if not more and plan.empties:
                        del msg["more_body"]
                    return msg
                if item[0] == "eof":
                    self._up_eof()
                    r.recv_events.append((now, "request", 0, False))
                    self.log("rx", "eof")
                    if plan.empties:
                        return {"type": "http.request"}
                    return {"type": "http.request", "body": b"", "more_body": False}
                self.server_disconnect()
                continue
            await self.gate.wait(None if self.up_eof_given else up.next_time())

    def _up_eof(self) -> None:
        self.up_eof_given = True
        r = self.rec
        r.up_delivered_end = "eof"

    async def send(self, msg) -> None:
        r = self.rec
        now = self.w.clock.now
        m = dict(msg)
        t = m.get("type")
        r.events.append((now, m, len(self.w.trace.ev)))
        self.log("tx", (t, len(m.get("body", b"") or b""), m.get("more_body")) if t == "http.response.body" else t)
        await self.jig()
        if self.disconnected and not self.response_complete:
            if self.plan.disc_policy == "raise":
                raise AppDisconnect("client disconnected")
            return
        if self.crashed or self.response_complete:
            return
        if t == "http.response.start":
            if self.start_msg is None:
                self.start_msg = m
                hs = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in m.get("headers", ())]
                self._set_head(m["status"], hs)
        elif t == "http.response.body" and self.start_msg is not None:
            body = m.get("body", b"")
            if body:
                self._emit(bytes(body))
            if not m.get("more_body", False) and not self.start_msg.get("trailers", False):
                self._finish_down()
        elif t == "http.response.trailers" and self.start_msg is not None:
            self.trailers_out += [(k.decode("latin-1"), v.decode("latin-1")) for k, v in m.get("headers", ())]
            if not m.get("more_trailers", False):
                self._finish_down()
        while self.down.buffered >= self.down.win and not self.down.dead and not self.disconnected:
            await self.gate.wait()
        await self.jig()
        r.send_return_t = self.w.clock.now

    def _set_head(self, status: int, headers) -> None:
        if self.plan.fault[0] == "head_stall":
            self.fault("head_stall")
            self.head_time = math.inf
            self.down.last = math.inf
            return
        self.head = (status, headers)
        t = max(self.w.clock.now + self.plan.down_lat, self.down.last)
        self.head_time = t
        self.down.last = t
        self.gate.notify()

    def _emit(self, data: bytes) -> None:
        if self.head is None and self.plan.fault[0] != "head_stall":
            return
        self.rec.down_emitted += data
        self.rec.down_log.append((self.w.clock.now, len(self.rec.down_emitted)))
        self.down.push(data, self.w.clock.now)

    def _finish_down(self) -> None:
        self.response_complete = True
        self.down.finish(self.w.clock.now)
        self.gate.notify()

    # ---- client reading
    async def next_chunk(self) -> bytes:
        r, d, w = self.rec, self.down, self.w
        await self.jig()
        while True:
            if self.closed or self._ended:
                raise StopAsyncIteration
            now = w.clock.now
            self._overdue()
            if d.ready(now):
                if self.plan.empties and d.segs and self.s.chance(self.plan.empties):
                    return b""
                item = d.take(now)
                if isinstance(item, bytes):
                    r.down_delivered += item
                    r.deliver_log.append((now, len(r.down_delivered)))
                    self.log("down", len(item))
                    try:
                        out = self._decomp.feed(item, end=False)
                    except Exception as e:
                        self._note_end("err:decode")
                        raise ReadError(f"decoding response: {e}") from e
                    return bytes(out)
                if item[0] == "eof":
                    try:
                        out = bytes(self._decomp.feed(b"", end=True))
                    except Exception as e:
                        self._note_end("err:decode")
                        raise ReadError(f"decoding response: {e}") from e
                    self._ended = True
                    self._eof_trailers()
                    if self.plan.fault[0] == "late_reset":
                        self.fault("late_reset")
                        self._note_end("err:" + self.plan.fault[1])
                        raise make_exc(self.plan.fault[1], "down")
                    self._note_end("eof")
                    if out:
                        return out
                    raise StopAsyncIteration
                self._note_end("err:" + item[1])
                self._ended = True
                if item[1] == "src":
                    raise WriteError("request body failed")
                raise make_exc(item[1], "down")
            await self._cwait(d.next_time())

    def _eof_trailers(self) -> None:
        if self.down.cut_fired and self.plan.fault[0] in ("down_eof", "down_tail"):
            return
        if self.plan.fault[0] == "no_trailers":
            if self.trailers_out:
                self.fault("no_trailers")
            return
        if self.request.headers.get("te", "") != "trailers":
            return
        for k, v in self.trailers_out:
            self.resp_trailers.add(k, v)
            self.rec.trailers.append((k, v))


class Content:
    """Response body of one request."""

    def __init__(self, conn: AConn) -> None:
        self.conn = conn

    def __aiter__(self):
        return self

    async def __anext__(self) -> bytes:
        return await self.conn.next_chunk()

    async def aclose(self) -> None:
        await self.conn.client_close("aclose")


class SimTransport(Transport):
    def __init__(self, w: "World") -> None:
        self.w = w

    async def execute(self, request):
        return await self.w.open(request).execute()


def _ident(ctx) -> tuple:
    """What a request context says about its call."""
    return (ctx.method.name, ctx.http_method, ctx.client_address, ctx.server_address, sorted(ctx.request_headers.allitems()))


class NotAMessage(Exception):
    """The service is about to answer with something that is no message."""


class Svc:
    """The service implementation: interprets the script of the call."""

    def __init__(self, w: "World", flavour: str, ident: str = "svc") -> None:
        self.w = w
        self.fl = flavour
        self.ident = ident

    def _begin(self, ctx, request=None):
        w = self.w
        cid = call_id(ctx.request_headers)
        rec = HandlerRec(call=-1 if cid is None else cid, conn=sim_conn.get(), t_start=w.clock.now, service=self.ident)
        rec.req_headers = list(ctx.request_headers.allitems())
        w.handlers.append(rec)
        w.trace(f"h{rec.call}", "start")
        rec.start_seq = len(w.trace.ev)
        spec = w.spec.calls[rec.call] if 0 <= rec.call < len(w.spec.calls) else None
        if spec is not None and spec.flaky:
            n = sum(h.call == rec.call for h in w.handlers)
            if n <= len(spec.flaky):
                spec = dataclasses.replace(spec, ops=spec.flaky[n - 1])
        rec.ctx.append((w.clock.now, ctx.timeout_ms))
        rec.rctx = ctx
        rec.ident = _ident(ctx)
        if request is not None:
            self._got(rec, request)
        return rec, spec

    def _got(self, rec, m) -> None:
        try:
            rec.reqs.append((self.w.clock.now, messages.plain("Req", m, self.fl)))
        except messages.BadMessage as e:
            rec.bad.append(str(e))

    async def _recv(self, rec, it, spec) -> bool:
        w = self.w
        rec.asked.append(w.clock.now)
        try:
            m = await it.__anext__()
        except StopAsyncIteration:
            if rec.req_end is None:
                rec.req_end, rec.req_end_t = ("eof",), w.clock.now
                w.trace(f"h{rec.call}", "req-eof")
            return False
        except BaseException as e:
            if rec.req_end is None or rec.req_end[0] == "eof":
                c = classify(e)
                rec.req_end, rec.req_end_t = ("error", *c), w.clock.now
                w.trace(f"h{rec.call}", "req-error", c[:2])
            if spec.swallow and isinstance(e, Exception):
                return False
            raise
        self._got(rec, m)
        w.trace(f"h{rec.call}", "req")
        rec.req_seqs.append(len(w.trace.ev))
        if rec.conn is not None and rec.conn.plan.cancel_msg == len(rec.reqs):
            rec.conn.cancel_due_seq = len(w.trace.ev)
            asyncio.get_running_loop().call_soon(rec.conn.cancel_app)
        return True

    async def _op(self, rec, spec, op, it, ctx) -> None:
        w = self.w
        k = op[0]
        if k == "sleep":
            await sleep(op[1])
        elif k == "recv":
            await self._recv(rec, it, spec)
        elif k == "recvall":
            while await self._recv(rec, it, spec):
                pass
        elif k == "hdr":
            ctx.response_headers.add(op[1], op[2])
            (rec.late_headers if rec.sends else rec.headers_set).append((op[1].lower(), op[2]))
        elif k == "trl":
            ctx.response_trailers.add(op[1], op[2])
            rec.trailers_set.append((op[1].lower(), op[2]))
        elif k == "call":
            inner, sc = w.calls[op[1]], sim_conn.get()
            sim_conn.set(None)
            try:
                await w.nested(rec.conn, inner)
            finally:
                sim_conn.set(sc)
        elif k == "ctx":
            rec.ctx.append((w.clock.now, ctx.timeout_ms))
        elif k == "raise":
            rec.end = ("raised", op[1])
            if op[1][:2] == ("exc", "BadMessage"):
                raise NotAMessage
            raise make_error(op[1])
        else:
            raise AssertionError(op)

    def _fail(self, rec, e) -> None:
        if rec.bad_message:
            pass
        elif isinstance(e, GeneratorExit):
            rec.end = ("closed",)
        elif isinstance(e, asyncio.CancelledError):
            rec.end = ("cancelled",)
        elif rec.end is None or rec.end[0] != "raised":
            c = classify(e)
            rec.end = ("raised", c if c[0] == "connect" else ("exc", c[1], c[2]))
        self.w.trace(f"h{rec.call}", "fail", rec.end[0])

    async def _finish(self, rec, spec) -> None:
        w = self.w
        rec.end_t = w.clock.now
        rec.ident_end, rec.rctx = _ident(rec.rctx), None
        w.trace(f"h{rec.call}", "end", rec.end and rec.end[0])
        rec.end_seq = len(w.trace.ev)
        c = spec.cleanup if spec else None
        try:
            if c is not None and c[0] == "sleep":
                await sleep(c[1])
            elif c is not None and c[0] == "yield0":
                for _ in range(c[1]):
                    await sleep(0)
        except asyncio.CancelledError:
            rec.end = ("cancelled",)
            raise
        rec.cleanup_done = True
        rec.cleanup_t = w.clock.now
        w.trace(f"h{rec.call}", "cleanup-done")
        rec.cleanup_seq = len(w.trace.ev)
        if c is not None and c[0] == "raise":
            if rec.end and rec.end[0] in ("ended", "raised"):
                rec.end = ("raised", c[1])
            raise make_error(c[1])

    async def _single(self, request, ctx, stream: bool):
        rec, spec = self._begin(ctx, None if stream else request)
        try:
            for op in spec.ops:
                if op[0] == "return":
                    break
                await self._op(rec, spec, op, request, ctx)
            d = spec.reps[0]
            rec.sends.append((self.w.clock.now, d))
            self.w.trace(f"h{rec.call}", "return")
            res = make_msg("Rep", d, self.fl)
            rec.end = ("ended",)
            return res
        except NotAMessage:
            rec.bad_message = True
            return object()
        except BaseException as e:
            self._fail(rec, e)
            raise
        finally:
            await self._finish(rec, spec)

    async def _multi(self, request, ctx, stream: bool):
        rec, spec = self._begin(ctx, None if stream else request)
        try:
            for op in spec.ops:
                if op[0] == "send":
                    d = spec.reps[op[1]]
                    rec.sends.append((self.w.clock.now, d))
                    self.w.trace(f"h{rec.call}", "send", op[1])
                    yield make_msg("Rep", d, self.fl)
                elif op[0] == "end":
                    break
                else:
                    try:
                        await self._op(rec, spec, op, request, ctx)
                    except NotAMessage:
                        rec.bad_message = True
                        yield object()
                        raise
            rec.end = ("ended",)
        except BaseException as e:
            self._fail(rec, e)
            raise
        finally:
            await self._finish(rec, spec)

    async def unary(self, request, ctx):
        return await self._single(request, ctx, False)

    async def unary_get(self, request, ctx):
        return await self._single(request, ctx, False)

    async def client_stream(self, request, ctx):
        return await self._single(request, ctx, True)

    def server_stream(self, request, ctx):
        return self._multi(request, ctx, False)

    def bidi(self, request, ctx):
        return self._multi(request, ctx, True)


@contextlib.contextmanager
def old_timeouts(on: bool):
    """The library's own `asyncio.timeout`, which it uses on Python 3.10."""
    try:
        from connectrpc import _asyncio_timeout
        new, old = _asyncio_timeout.timeout, _client_async.asyncio_timeout
    except (ImportError, AttributeError):
        on = False
    if not on:
        yield
        return
    _client_async.asyncio_timeout = new
    try:
        yield
    finally:
        _client_async.asyncio_timeout = old


class World:
    """One simulated execution."""

    CONN = AConn
    sync = False

    def __init__(self, c: Choices, spec, profile, *, app=None, extra_client_icepts=None, extra_server_icepts=None) -> None:
        self.c = c
        self.spec = spec
        self.profile = profile
        self.clock = vclock.Clock()
        sk = spec.skew
        self.clock.mono_off = {"client": sk.get("client", 0.0), "server": sk.get("server", 0.0)}
        self.clock.wall_off = {"client": sk.get("client_wall", 0.0), "server": sk.get("server_wall", 0.0)}
        self.trace = Trace()
        self.trace.clock = self.clock
        self.loop = self.make_loop()
        self.conns: list[ConnRec] = []
        self.handlers: list[HandlerRec] = []
        self.touch_plan: dict = {}
        self.touched: dict = {}    # what interceptors set: (call, what, request, name) -> values
        self.calls = [CallRec(spec=s, cfg=spec.clients[s.client]) for s in spec.calls]
        self.driven = list(self.calls)   # the calls the application makes
        self.ilog = icept.Log(self.clock, self.trace, self)
        self.fault_counts: dict[str, int] = {}
        self.attempts: dict[int, int] = {}
        self.gates: dict[int, Gate] = {}
        self.leaks: list = []
        self.app_headers: dict = {}   # the application's own header objects, and what they held
        self.problems: list[str] = []
        self.extra_client_icepts = extra_client_icepts or (lambda w: [])
        self.extra_server_icepts = extra_server_icepts or (lambda w: [])
        self.app = app
        self.around = lambda rec: contextlib.nullcontext()   # what middleware does around a request
        self.components = {"client": "real", "server": "real"}

    extra_first = False
    shared = None

    def current_conn(self):
        return sim_conn.get()

    def mix(self, icepts, extra) -> list:
        res = [*extra(self), *icepts] if self.extra_first else [*icepts, *extra(self)]
        return self.shared if self.shared is not None and not res else res

    def make_loop(self):
        return SimLoop(self.clock)

    def server_context(self):
        return contextvars.Context()

    def plan_for(self, name: str):
        calm = self.spec.features.get("calm")
        p = calmed(self.profile) if calm and int(name[1:].split(".")[0]) in calm else self.profile
        return gen_plan(self.c, "f." + name, p)

    def open(self, request) -> AConn:
        cid = call_id(request.headers)
        if cid is None:
            cid = -1
        n = self.attempts.get(cid, 0)
        self.attempts[cid] = n + 1
        return self.CONN(self, request, cid, n)

    # ---- running
    def run(self) -> "World":
        vclock.activate(self.clock)
        loop = self.loop
        if self.spec.peer == "fakeclient":
            self.components["client"] = "model"
            for r in self.calls:
                r.fake = True
        try:
            try:
                with old_timeouts(Stream(self.c, "runtime").chance(0.12)):
                    loop.run_until_complete(self._main())
            except (SimStuck, SimOverrun) as e:
                self.problems.append(f"{type(e).__name__}: {e}")
            self._teardown()
        finally:
            loop.close()
            vclock.activate(None)
            self.clients = []     # pyqwest's objects are invisible to the cycle collector
            self.transport = None
        return self

    def _teardown(self) -> None:
        loop = self.loop
        try:
            left = loop.all_tasks()
            for t in left:
                t.cancel()
            if left:
                async def _w():
                    await asyncio.wait(left, timeout=1.0)
                loop.run_until_complete(_w())
            loop.run_until_complete(loop.shutdown_asyncgens())
        except (SimStuck, SimOverrun, RuntimeError) as e:
            self.problems.append(f"teardown: {e}")

    def build(self) -> None:
        h = Stream(self.c, "handed")
        spec = self.spec
        if self.app is None:
            if spec.peer == "fake":
                self.app = fake.FakeASGI(self)
                self.components["server"] = "model"
            else:
                m = svc_module(spec.server.flavour)
                self.app = m.SimServiceASGIApplication(
                    Svc(self, spec.server.flavour),
                    interceptors=handed(h, self.mix(icept.build(spec.server.interceptors, self.ilog, "server", "s"), self.extra_server_icepts)),
                    **server_kwargs(spec.server, h))
        self.transport = SimTransport(self)
        self.clients = []
        for i, cfg in enumerate(spec.clients):
            m = svc_module(cfg.flavour)
            self.clients.append(m.SimServiceClient(
                cfg.url, protocol=_proto(cfg), http_client=Client(self.transport),
                interceptors=handed(h, self.mix(icept.build(cfg.interceptors, self.ilog, "client", i), self.extra_client_icepts)),
                **client_kwargs(cfg, h)))

    async def _main(self) -> None:
        self.build()
        loop = self.loop
        for t, node, amount in self.spec.walljumps:
            loop.call_at(t, self._wall_jump, node, amount)
        tasks = []
        chains = self.chains()
        for chain in chains:
            ctx = contextvars.copy_context()
            tasks.append(loop.create_task(self._chain(chain), context=ctx))
        if tasks:
            await asyncio.wait(tasks, timeout=HORIZON)
        late = [(rec, t) for chain, t in zip(chains, tasks) if not t.done() for rec in chain[:1]]
        if late:
            self.mark_hung()
        for rec, t in late:
            rec.hung = True
            rec.aborted = True
            self.trace(f"call{rec.spec.i}", "hung")
            t.cancel()
        if late:
            await asyncio.wait([t for _, t in late], timeout=HORIZON)
        for chain, t in zip(chains, tasks):
            rec = chain[0] if chain else None
            if t.done() and not t.cancelled() and t.exception() is not None:
                self.problems.append(problem(f"driver of call {rec.spec.i}", t.exception()))
                raise t.exception()
        del tasks, late
        await self._quiesce()

    def _wall_jump(self, node, amount) -> None:
        self.clock.wall_off[node] = self.clock.wall_off.get(node, 0.0) + amount
        self.trace("clock", "wall-jump", (node, amount))
        self.fault_counts["wall_jump"] = self.fault_counts.get("wall_jump", 0) + 1

    async def _quiesce(self) -> None:
        me = asyncio.current_task()
        end = self.clock.now + DRAIN
        for rnd in range(2):
            while True:
                ts = [t for t in self.loop.all_tasks() if t is not me]
                if not ts or self.clock.now >= end:
                    break
                await asyncio.wait(ts, timeout=end - self.clock.now)
            if rnd == 0:
                del ts
                gc.collect()
                await sleep(0)
                end = self.clock.now + 10.0
        for t in self.loop.all_tasks():
            if t is me:
                continue
            ctx = t.get_context()
            conn, call = ctx.get(sim_conn), ctx.get(sim_call)
            name = getattr(t.get_coro(), "__qualname__", "?")
            self.leaks.append(("server" if conn is not None else "client",
                               conn.call if conn is not None else (call.spec.i if call is not None else -1), name))
        self.leaks.sort()

    # ---- the client application
    def new_gate(self):
        return Gate(self.loop)

    def gate(self, i: int):
        g = self.gates.get(i)
        if g is None:
            g = self.gates[i] = self.new_gate()
        return g

    async def source(self, rec: CallRec):
        spec = rec.spec
        name = f"call{spec.i}"
        rec.src_starts += 1
        rec.src_state = "running"
        try:
            for j, d in enumerate(spec.reqs):
                if spec.source_fail == j:
                    raise source_failure(spec)
                delay, need = spec.req_plan[j]
                while len(rec.recv) < need:
                    await self.gate(spec.i).wait()
                if delay:
                    await sleep(delay)
                rec.sent.append((self.clock.now, d))
                self.trace(name, "src", j)
                yield make_msg("Req", d, rec.cfg.flavour)
            if spec.source_fail is not None:
                raise source_failure(spec)
            rec.src_state = "ended"
            self.trace(name, "src-end")
        except SourceFailure:
            rec.src_state = "failed"
            self.fault_counts["source_fail"] = self.fault_counts.get("source_fail", 0) + 1
            self.trace(name, "src-failed")
            raise
        except BaseException as e:
            rec.src_state = "closed" if isinstance(e, GeneratorExit) else "cancelled"
            raise

    async def nested(self, outer, rec: CallRec) -> None:
        """The code that serves or reads one call makes another."""
        if rec.t_start >= 0:
            return
        before = sim_call.get()
        outer.inner = rec
        sim_call.set(rec)
        try:
            await self._drive(rec)
        finally:
            outer.inner = None
            sim_call.set(before)
        if rec.outer_cancel:
            raise asyncio.CancelledError
        if not self.sync and rec.cancel_t is not None:
            t = asyncio.current_task()
            while t.cancelling():
                t.uncancel()

    def mark_hung(self) -> None:
        for rec in self.calls:
            if rec.spec.inside is not None and rec.t_start >= 0 and rec.t_end is None:
                rec.hung = rec.aborted = True

    def outer_cancelled(self, outer) -> None:
        """Cancelling a call, or a request, cancels what its code is waiting for."""
        rec = outer.inner
        while rec is not None:
            if rec.cancel_t is None:
                rec.cancel_t = self.clock.now
            rec.outer_cancel = True
            rec = rec.inner

    def chains(self) -> list:
        """The calls, grouped by the task or thread that makes them."""
        at = {}
        out = []
        for rec in self.driven:
            if rec.spec.inside is not None and self.calls[rec.spec.inside[0]] in self.driven:
                continue
            prev = at.get(rec.spec.after)
            if prev is None:
                prev = []
                out.append(prev)
            prev.append(rec)
            at[rec.spec.i] = prev
        return out

    async def _chain(self, chain: list) -> None:
        """Makes the calls of the list one after the other; the first is always the current one."""
        while chain:
            rec = chain[0]
            sim_call.set(rec)
            await self._drive(rec)
            if rec.hung:
                return
            if not self.sync:
                t = asyncio.current_task()
                while t.cancelling():
                    t.uncancel()
            del chain[0]

    async def _drive(self, rec: CallRec) -> None:
        spec = rec.spec
        name = f"call{spec.i}"
        if spec.start:
            await sleep(spec.start)
        rec.t_start = self.clock.now
        self.trace(name, "start", (spec.kind, rec.cfg.protocol))
        if spec.cancel_at is not None:
            task = asyncio.current_task()

            def cancel():
                if rec.outcome is None and not rec.hung:
                    rec.cancel_t = self.clock.now
                    self.outer_cancelled(rec)
                    self.trace(name, "cancel")
                    self.fault_counts["cancel"] = self.fault_counts.get("cancel", 0) + 1
                    task.cancel()

            self.loop.call_at(self.clock.now + spec.cancel_at, cancel)
        try:
            if rec.fake:
                await fake.drive_async(self, rec)
            elif spec.meta:
                with ResponseMetadata() as md:
                    try:
                        await self._call(rec)
                    finally:
                        rec.md_headers = list(md.headers.allitems())
                        rec.md_trailers = list(md.trailers.allitems())
            else:
                await self._call(rec)
        except BaseException as e:
            rec.outcome = classify(e)
            del e
        rec.t_end = self.clock.now
        self.trace(name, "outcome", rec.outcome[:3])
        rec.end_seq = len(self.trace.ev)

    def headers_for(self, spec):
        h = Headers(spec.headers) if spec.i % 2 else _dict_or_headers(spec.headers)
        self.app_headers[spec.i] = (h, _pairs(h))
        return h

    async def _call(self, rec: CallRec) -> None:
        spec = rec.spec
        client = self.clients[spec.client]
        fn = getattr(client, PY_METHOD[spec.method])
        kw = {"headers": self.headers_for(spec)}
        if spec.timeout_ms is not None:
            kw["timeout_ms"] = spec.timeout_ms
        if spec.req_stream:
            arg = self.source(rec)
        else:
            d = spec.reqs[0]
            rec.sent.append((self.clock.now, d))
            arg = make_msg("Req", d, rec.cfg.flavour)
        if spec.kind == "get":
            kw["use_get"] = True
        if not spec.rep_stream:
            rec.asked.append(self.clock.now)
            m = await fn(arg, **kw)
            self._got(rec, m)
            rec.outcome = ("ok",)
            return
        box = [fn(arg, **kw)]
        del arg
        await self._consume(rec, box)

    async def _consume(self, rec: CallRec, box: list) -> None:
        """Reads a stream, and drops it at the end: then, not when the last traceback that shows this frame goes."""
        try:
            await self._read(rec, box)
        finally:
            box.clear()

    async def _read(self, rec: CallRec, box: list) -> None:
        spec = rec.spec
        k = 0
        while True:
            if spec.close_after == k:
                rec.close_t = self.clock.now
                self.trace(f"call{spec.i}", "close", spec.close_mode)
                self.fault_counts["early_close"] = self.fault_counts.get("early_close", 0) + 1
                if spec.close_mode == "aclose":
                    try:
                        await box[0].aclose()
                    except BaseException as e:
                        rec.close_exc = repr(classify(e))
                        if rec.cancel_t is None:
                            rec.close_done_t = self.clock.now
                            rec.outcome = ("closed",)
                            return
                        raise
                    rec.close_done_t = self.clock.now
                rec.outcome = ("closed",)
                return
            rec.asked.append(self.clock.now)
            try:
                m = await box[0].__anext__()
            except StopAsyncIteration:
                rec.outcome = ("ok",)
                return
            self._got(rec, m)
            del m
            self.gate(spec.i).notify()
            for s in self.spec.calls:
                if s.inside == (spec.i, "consumer", k):
                    t0 = self.clock.now
                    try:
                        await self.nested(rec, self.calls[s.i])
                    except asyncio.CancelledError:
                        rec.cancel_stage = "own"
                        rec.app_busy.append((t0, self.clock.now))
                        if spec.close_mode == "aclose":
                            rec.close_t = self.clock.now
                            await box[0].aclose()
                            rec.close_done_t = self.clock.now
                        raise
                    rec.app_busy.append((t0, self.clock.now))
            d = spec.recv_delays[k] if k < len(spec.recv_delays) else 0
            if d:
                t0 = self.clock.now
                try:
                    await sleep(d)
                except asyncio.CancelledError:
                    if rec.cancel_t is None and not rec.hung:
                        rec.bad.append(f"application code was interrupted at {self.clock.now - rec.t_start:.6f}s")
                    rec.cancel_stage = "own"
                    rec.app_busy.append((t0, self.clock.now))
                    if spec.close_mode == "aclose":
                        rec.close_t = self.clock.now
                        await box[0].aclose()
                        rec.close_done_t = self.clock.now
                    raise
                rec.app_busy.append((t0, self.clock.now))
            k += 1

    def _got(self, rec: CallRec, m) -> None:
        try:
            rec.recv.append((self.clock.now, messages.plain("Rep", m, rec.cfg.flavour)))
        except messages.BadMessage as e:
            rec.bad.append(str(e))
        self.trace(f"call{rec.spec.i}", "recv")


def _pairs(h) -> list:
    return list(h.allitems() if isinstance(h, Headers) else h.items())


def _dict_or_headers(pairs):
    d = dict(pairs)
    return d if len(d) == len(pairs) else Headers(pairs)


def _proto(cfg):
    from .common import PROTO

    return PROTO[cfg.protocol]
