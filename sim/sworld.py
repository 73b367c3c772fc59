"""The threaded world: real synchronous clients and the WSGI application on the simulated network.

The connection, server-side and application models are those of the asynchronous world; here
their waits block the running simulated thread (see threads.py) instead of suspending a task.
"""
from __future__ import annotations

import contextlib
import contextvars
import gc
import io
import math

from pyqwest import Headers as HTTPHeaders, HTTPVersion, SyncClient, SyncResponse, SyncTransport

from connectrpc._headers import Headers
from connectrpc.client import ResponseMetadata

from . import aworld, fake, icept, threads, vclock
from .aloop import SimOverrun, SimStuck
from .aworld import DRAIN, HORIZON, AConn, Svc, World, _dict_or_headers, _proto, sim_call, sim_conn
from .common import PY_METHOD, SourceFailure, classify, client_kwargs, handed, make_msg, problem, server_kwargs, source_failure, svc_module
from .core import Stream, short
from .net import AppDisconnect
from .threads import Sched, SGate, SimKilled, run_sync, sleep


class SyncIter:
    """A synchronous iterator, for code written against asynchronous ones."""

    def __init__(self, it, stop=None) -> None:
        self.it = iter(it)
        self.stop = stop

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.stop is not None and self.stop():
            raise SimKilled
        try:
            v = next(self.it)
        except StopIteration:
            if self.stop is not None and self.stop():
                raise SimKilled from None
            raise StopAsyncIteration from None
        if self.stop is not None and self.stop():
            raise SimKilled
        return v

    async def aclose(self):
        it, self.it = self.it, iter(())   # CPython 3.12 keeps the frame of a closed generator while it lives
        c = getattr(it, "close", None)
        if c is not None:
            c()


def sync_gen(agen):
    """The synchronous generator that behaves like an asynchronous one."""
    try:
        while True:
            try:
                v = run_sync(agen.__anext__())
            except StopAsyncIteration:
                return
            yield v
            del v
    finally:
        run_sync(agen.aclose())


class SyncReq:
    """Lets the scripted service read a synchronous request stream."""

    def __init__(self, it) -> None:
        self.it = it

    async def __anext__(self):
        try:
            return next(self.it)
        except StopIteration:
            raise StopAsyncIteration from None


class SContent:
    def __init__(self, conn: "SConn") -> None:
        self.conn = conn

    def __iter__(self):
        return self

    def __next__(self) -> bytes:
        try:
            return run_sync(self.conn.next_chunk())
        except StopAsyncIteration:
            raise StopIteration from None

    def close(self) -> None:
        run_sync(self.conn.client_close("close"))


class SConn(AConn):
    def __init__(self, w, request, cid, attempt) -> None:
        super().__init__(w, request, cid, attempt)
        if self.plan.disc_policy == "cancel":
            self.plan.disc_policy = "raise"
        self.plan.app_cancel, self.plan.cancel_msg = None, 0
        if self.plan.fault[0] == "crash":     # a thread cannot be killed; its peer sees the connection go
            self.plan.fault = ("reset_at", self.plan.fault[1], "os")
        self.rec.wsgi = []
        self.rec.app_read = 0
        self.rec.body_at_end = None
        content = request.content
        if content is not None and not isinstance(content, (bytes, bytearray, memoryview)):
            if not hasattr(content, "__aiter__"):
                content = SyncIter(content, lambda: self.up_abort)
        self.request = _Req(request, content)

    def _response(self):
        return SyncResponse(status=self.head[0], http_version=HTTPVersion.HTTP2, headers=HTTPHeaders(self.head[1]),
                            content=SContent(self), trailers=self.resp_trailers)

    async def client_close(self, why: str) -> None:
        if self.closed:
            return
        self.closed = True
        r, w = self.rec, self.w
        r.client_close_t = w.clock.now
        self.log("client-close", why)
        r.close_seq = len(w.trace.ev)
        aborted = r.down_end != "eof"
        t = self.upload_task
        if t is not None and not t.done():
            aborted = True
            self.up_abort = True
            if r.up_end is None:
                r.up_end = "aborted"
        if aborted:
            self.loop.call_at(w.clock.now + self.plan.abort_lat, self.server_disconnect)
        self.gate.notify()

    async def _upload(self) -> None:
        try:
            await super()._upload()
        except SimKilled:
            pass

    def _kill_app(self) -> None:
        if self.app_running:
            self.app_task.cancel()
        elif self.rec.app_done_t is None:
            self.loop.call_later(0.0001, self._kill_app)

    def _push_up(self, data: bytes) -> None:
        if not self.up_abort:
            super()._push_up(data)


class _Req:
    def __init__(self, req, content) -> None:
        self.method, self.url, self.headers, self.content = req.method, req.url, req.headers, content


http_timeout: contextvars.ContextVar = contextvars.ContextVar("sim_http_timeout", default=None)


class SimSyncClient:
    """pyqwest's client, with its timeout (which it keeps on the real clock) moved to virtual time."""

    def __init__(self, transport) -> None:
        self.real = SyncClient(transport)

    def _with(self, fn, timeout, kw):
        if timeout is not None and timeout < 0:
            raise ValueError("Timeout must be non-negative")     # as pyqwest does
        tok = http_timeout.set(timeout)
        try:
            return fn(**kw)
        finally:
            http_timeout.reset(tok)

    def get(self, timeout=None, **kw):
        return self._with(self.real.get, timeout, kw)

    def post(self, timeout=None, **kw):
        return self._with(self.real.post, timeout, kw)

    def stream(self, timeout=None, **kw):
        return self._with(self.real.stream, timeout, kw)


class SimSyncTransport(SyncTransport):
    def __init__(self, w) -> None:
        self.w = w

    def execute_sync(self, request):
        t = http_timeout.get()
        conn = self.w.open(request)
        conn.rec.http_timeout = t
        if t is not None:
            p = self.w.profile.p_lax
            if p:
                ls = Stream(self.w.c, "lax." + conn.name)
                if ls.chance(p):
                    conn.rec.slack = ls.pick((0.001, 0.01, 0.1))
            conn.deadline = self.w.clock.now + t + conn.rec.slack
        return run_sync(conn.execute())


class WsgiInput:
    """The request body, as a server hands it to the application."""

    def __init__(self, conn, receive, s: Stream, full: bool, length) -> None:
        self.conn, self.receive, self.s, self.full = conn, receive, s, full
        self.buf = bytearray()
        self.eof = False
        self.left = length   # CONTENT_LENGTH, if given
        if length == 0:
            self.eof, conn.rec.up_delivered_end = True, "eof"

    def _fill(self) -> None:
        while not self.buf and not self.eof:
            ev = run_sync(self.receive())
            if ev["type"] == "http.disconnect":
                self.eof = True
                # Without a length only an error tells the application; with one, servers often just stop.
                if self.left is None or self.conn.plan.disc_policy == "raise":
                    raise OSError("client disconnected while sending the request")
                return
            self.buf += ev.get("body", b"")
            if self.left is not None:
                self.left -= len(ev.get("body", b""))
                if self.left <= 0:
                    self.eof = True
                    if self.conn.rec.up_delivered_end is None:
                        self.conn.rec.up_delivered_end = "eof"
            if not ev.get("more_body", False):
                self.eof = True

    def read(self, n: int = -1) -> bytes:
        out = bytearray()
        while n < 0 or len(out) < n:
            self._fill()
            if not self.buf:
                break
            k = len(self.buf) if n < 0 else min(n - len(out), len(self.buf))
            out += self.buf[:k]
            del self.buf[:k]
            if n >= 0 and not self.full:
                break
        self.conn.rec.app_read += len(out)
        return bytes(out)

    def readline(self, n: int = -1) -> bytes:
        raise NotImplementedError

    def close(self) -> None:
        pass


class WsgiServer:
    """A WSGI server (PEP 3333) on top of the connection model."""

    def __init__(self, w, app) -> None:
        self.w, self.app = w, app

    async def __call__(self, scope, receive, send) -> None:
        conn: SConn = scope["sim.conn"]
        s = Stream(conn.w.c, "wsgi." + conn.name)
        bad = conn.rec.wsgi
        headers = [(k.decode(), v.decode("latin-1")) for k, v in scope["headers"]]
        names = {k for k, _ in headers}
        path, root = scope["path"], scope["root_path"]
        if root and not (scope["sim.stripped"] or path.startswith(root + "/")):
            root = ""
        elif root and not scope["sim.stripped"]:
            path = path[len(root):]
        env = {
            "REQUEST_METHOD": scope["method"], "SCRIPT_NAME": root, "PATH_INFO": path,
            "QUERY_STRING": scope["query_string"].decode(), "SERVER_NAME": "10.0.0.9", "SERVER_PORT": "80",
            "SERVER_PROTOCOL": "HTTP/1.1" if scope["http_version"] == "1.1" else "HTTP/2",
            "wsgi.version": (1, 0), "wsgi.url_scheme": scope["scheme"], "wsgi.errors": io.StringIO(),
            "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False,
        }
        if scope["client"] is not None:
            env["REMOTE_ADDR"] = scope["client"][0]
            i = conn.rec.call
            if not 0 <= i < len(self.w.calls) or self.w.calls[i].cfg.peer[1]:
                env["REMOTE_PORT"] = str(scope["client"][1])
        if scope["http_version"] == "1.1" and isinstance(conn.request.content, bytes) and s.chance(0.25):
            env["SERVER_PROTOCOL"] = "HTTP/1.0"
        if s.chance(0.3) and not root:
            env["SCRIPT_NAME"], env["PATH_INFO"] = env["PATH_INFO"].rsplit("/", 1)[0], "/" + env["PATH_INFO"].rsplit("/", 1)[1]
        for k, v in headers:
            if k in ("content-type", "content-length"):
                env[k.upper().replace("-", "_")] = v
            else:
                n = "HTTP_" + k.upper().replace("-", "_")
                env[n] = f"{env[n]},{v}" if n in env else v
        content = conn.request.content
        length = None
        if isinstance(content, (bytes, bytearray, memoryview)):
            length = len(content)
        if length is not None and "content-length" not in names and (length or scope["method"] != "GET"):
            k = s.int(4)
            if k < 2 or scope["http_version"] == "1.1":
                env["CONTENT_LENGTH"] = str(length)
            elif k == 2:
                env["CONTENT_LENGTH"] = ""
        inp = WsgiInput(conn, receive, s, s.chance(0.4) and bool(env.get("CONTENT_LENGTH")), length if env.get("CONTENT_LENGTH") else None)
        env["wsgi.input"] = inp
        conn.rec.wsgi_env = env
        st = {"start": None, "sent": False, "trailers": None, "grpc": False}

        def start_response(status, hs, exc_info=None):
            conn.log("start_response", status)
            if st["start"] is not None and exc_info is None:
                bad.append("start_response called twice")
            if exc_info is not None and st["sent"]:
                raise exc_info[1]
            if not isinstance(status, str) or len(status) < 4 or not status[:3].isdigit() or status[3] != " ":
                bad.append(f"status line {status!r}")
            for h in hs:
                if not (isinstance(h, tuple) and len(h) == 2 and isinstance(h[0], str) and isinstance(h[1], str)):
                    bad.append(f"header {h!r}")
                elif any(c in h[1] or c in h[0] for c in "\r\n\0"):
                    bad.append(f"control character in header {h!r}")
            st["start"] = (int(status[:3]), list(hs))
            return None

        def send_trailers(hs):
            if st["trailers"] is not None:
                bad.append("send_trailers called twice")
            for h in hs:
                if not (isinstance(h[0], str) and isinstance(h[1], str)) or any(c in h[1] for c in "\r\n\0"):
                    bad.append(f"trailer {h!r}")
            st["trailers"] = list(hs)

        if scope["http_version"] != "1.1":
            env["wsgi.ext.http.send_trailers"] = send_trailers

        def flush_start():
            if not st["sent"]:
                st["sent"] = True
                code, hs = st["start"]
                ct = {k.lower(): v for k, v in hs}.get("content-type", "")
                st["grpc"] = code == 200 and ct.startswith("application/grpc") and not ct.startswith("application/grpc-web")
                run_sync(send({"type": "http.response.start", "status": code, "trailers": st["grpc"],
                               "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in hs]}))

        res = self.app(env, start_response)
        done = False
        try:
            for chunk in res:
                if not isinstance(chunk, bytes):
                    bad.append(f"body chunk of type {type(chunk).__name__}")
                if st["start"] is None:
                    bad.append("body before start_response")
                if chunk:
                    if st["trailers"] is not None:
                        bad.append("body after trailers")
                    flush_start()
                    run_sync(send({"type": "http.response.body", "body": chunk, "more_body": True}))
            done = True
        except AppDisconnect:
            return
        finally:
            if not done:
                conn.log("iteration-stopped")
            c = getattr(res, "close", None)
            if c is not None:
                c()
            del res, c
        conn.rec.body_at_end = (conn.rec.app_read, inp.eof, len(conn.rec.up_bytes), conn.rec.up_end)
        if st["start"] is None:
            bad.append("no start_response at all")
            raise RuntimeError("start_response was not called")
        with contextlib.suppress(AppDisconnect):
            flush_start()
            run_sync(send({"type": "http.response.body", "body": b"", "more_body": False}))
            if st["grpc"]:
                run_sync(send({"type": "http.response.trailers", "more_trailers": False,
                               "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in st["trailers"] or ()]}))


class SyncSvc:
    def __init__(self, w, flavour, ident="svc") -> None:
        self.inner = Svc(w, flavour, ident)

    def unary(self, request, ctx):
        return run_sync(self.inner._single(request, ctx, False))

    unary_get = unary

    def client_stream(self, request, ctx):
        return run_sync(self.inner._single(SyncReq(iter(request)), ctx, True))

    def server_stream(self, request, ctx):
        return sync_gen(self.inner._multi(request, ctx, False))

    def bidi(self, request, ctx):
        return sync_gen(self.inner._multi(SyncReq(iter(request)), ctx, True))


class SWorld(World):
    CONN = SConn
    sync = True

    def make_loop(self):
        for s in self.spec.calls:
            s.cancel_at = None
        self.workers: list = []
        threads.install_preemption()
        return Sched(self.c, self.clock, p_preempt=getattr(self.profile, "p_preempt", 0.0))

    def new_gate(self):
        return SGate(self.loop)

    def server_context(self):
        """Servers keep their worker threads, and so the contexts of those, between requests."""
        busy = {id(t.ctx) for t in self.loop.threads if t.state != "done"}
        for ctx in self.workers:
            if id(ctx) not in busy:
                return ctx
        ctx = contextvars.Context()
        self.workers.append(ctx)
        return ctx

    def build(self) -> None:
        h = Stream(self.c, "handed")
        spec = self.spec
        if spec.peer == "fake":
            self.app = fake.FakeASGI(self)
            self.components["server"] = "model"
        else:
            m = svc_module(spec.server.flavour)
            self.app = WsgiServer(self, m.SimServiceWSGIApplication(
                SyncSvc(self, spec.server.flavour),
                interceptors=handed(h, self.mix(icept.build(spec.server.interceptors, self.ilog, "server", "s", sync=True), self.extra_server_icepts)),
                **server_kwargs(spec.server, h)))
        self.transport = SimSyncTransport(self)
        self.clients = []
        for i, cfg in enumerate(spec.clients):
            m = svc_module(cfg.flavour)
            self.clients.append(m.SimServiceClientSync(
                cfg.url, protocol=_proto(cfg), http_client=SimSyncClient(self.transport),
                interceptors=handed(h, self.mix(icept.build(cfg.interceptors, self.ilog, "client", i, sync=True), self.extra_client_icepts)),
                **client_kwargs(cfg, h)))

    def run(self):
        vclock.activate(self.clock)
        threads.active = self.loop
        self.clock.on_sleep = self.loop.sleep
        if self.spec.peer == "fakeclient":
            self.components["client"] = "model"
            for r in self.calls:
                r.fake = True
        try:
            try:
                self._smain()
            except (SimStuck, SimOverrun) as e:
                self.problems.append(f"{type(e).__name__}: {e}")
            try:
                if not self.loop.kill_all():
                    self.problems.append("teardown: threads did not end")
            except (SimStuck, SimOverrun) as e:
                self.problems.append(f"teardown: {e}")
        finally:
            threads.active = None
            threads.discard()
            self.clients = []     # pyqwest's objects are invisible to the cycle collector
            self.transport = None
            vclock.activate(None)
        self.fault_counts["preempt"] = self.loop.preempts
        return self

    def _smain(self) -> None:
        self.build()
        loop = self.loop
        for t, node, amount in self.spec.walljumps:
            loop.call_at(t, self._wall_jump, node, amount)
        ts = []
        chains = self.chains()
        for chain in chains:
            ctx = contextvars.copy_context()
            ctx.run(sim_call.set, chain[0])
            ts.append(loop.create_task(self._chain(chain), context=ctx, name=f"driver{chain[0].spec.i}"))
        loop.join(ts, HORIZON)
        late = [(chain[0], t) for chain, t in zip(chains, ts) if not t.done()]
        if late:
            self.mark_hung()
        for rec, t in late:
            rec.hung = rec.aborted = True
            self.trace(f"call{rec.spec.i}", "hung")
            t.cancel()
        if late:
            loop.join(ts, HORIZON)
        for chain, t in zip(chains, ts):
            if t.done() and t.exception() is not None:
                self.problems.append(problem(f"driver of call {chain and chain[0].spec.i}", t.exception()))
        for t in loop.threads:
            if t.done() and t.exception() is not None and t not in ts:
                self.problems.append(problem(f"thread {t.name}", t.exception()))
        for rnd in range(2):
            end = loop.clock.now + (DRAIN if rnd == 0 else 10.0)
            while loop.all_tasks() and loop.clock.now < end:   # they may start more
                loop.join([t for t in loop.threads], end - loop.clock.now)
            if rnd == 0:
                gc.collect()
        for t in loop.all_tasks():
            conn, call = t.ctx.get(sim_conn), t.ctx.get(sim_call)
            self.leaks.append(("server" if conn is not None else "client",
                               conn.call if conn is not None else (call.spec.i if call is not None else -1), t.name))
        self.leaks.sort()

    # ---- the client application
    async def source(self, rec):
        spec = rec.spec
        name = f"call{spec.i}"
        rec.src_starts += 1
        rec.src_state = "running"
        try:
            for j, d in enumerate(spec.reqs):
                if spec.source_fail == j:
                    raise source_failure(spec)
                delay, need = spec.req_plan[j]
                while len(rec.recv) < need and rec.outcome is None:
                    await self.gate(spec.i).wait()
                if rec.outcome is not None:
                    rec.src_state = "closed"   # the application has lost interest
                    return
                if delay:
                    await sleep(delay)
                rec.sent.append((self.clock.now, d))
                self.trace(name, "src", j)
                yield make_msg("Req", d, rec.cfg.flavour)
            if spec.source_fail is not None:
                raise source_failure(spec)
            rec.src_state = "ended"
            self.trace(name, "src-end")
        except SourceFailure:
            rec.src_state = "failed"
            self.fault_counts["source_fail"] = self.fault_counts.get("source_fail", 0) + 1
            self.trace(name, "src-failed")
            raise
        except BaseException as e:
            rec.src_state = "closed" if isinstance(e, GeneratorExit) else "cancelled"
            raise

    async def _drive(self, rec) -> None:
        try:
            await super()._drive(rec)
        finally:
            self.gate(rec.spec.i).notify()

    async def _call(self, rec) -> None:
        spec = rec.spec
        fn = getattr(self.clients[spec.client], PY_METHOD[spec.method])
        kw = {"headers": self.headers_for(spec)}
        if spec.timeout_ms is not None:
            kw["timeout_ms"] = spec.timeout_ms
        if spec.req_stream:
            arg = sync_gen(self.source(rec))
        else:
            d = spec.reqs[0]
            rec.sent.append((self.clock.now, d))
            arg = make_msg("Req", d, rec.cfg.flavour)
        if spec.kind == "get":
            kw["use_get"] = True
        if not spec.rep_stream:
            rec.asked.append(self.clock.now)
            m = fn(arg, **kw)
            self._got(rec, m)
            rec.outcome = ("ok",)
            return
        box = [SyncIter(fn(arg, **kw))]
        del arg
        await self._consume(rec, box)
