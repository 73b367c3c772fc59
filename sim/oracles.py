"""The properties, as judgements over the records of one asynchronous run.

Every judge yields (class, message).  A judge never looks at the library's internals: only at
what applications, interceptors, the network and the ASGI server saw, decoded by the
independent wire model.
"""
from __future__ import annotations

import math

from . import fake, icept, messages, wire
from .core import short
from .messages import BadMessage

EPS = 1e-6
OWN_FAULT_HOOKS = ("down_stall", "up_stall", "head_stall", "connect_stall")


def is_stream_wire(protocol: str, kind: str) -> bool:
    return protocol != "connect" or kind not in ("unary", "get")


class Emitted:
    """The HTTP response an application produced, from its ASGI events."""

    def __init__(self, conn) -> None:
        self.problems: list[str] = []
        self.started = False
        self.done = False
        self.body = bytearray()
        self.status = None
        self.headers: list = []
        self.trailers: list = []
        self.start_seq = self.done_seq = None
        self.part_t: list = []   # (t, total body bytes after this event)
        announced = False
        body_done = False
        p = self.problems
        for t, m, seq in conn.events:
            ty = m.get("type")
            if self.done:
                p.append(f"{ty} after the end of the response")
                continue
            if ty == "http.response.start":
                if self.started:
                    p.append("a second http.response.start")
                    continue
                self.started = True
                self.start_seq = seq
                announced = bool(m.get("trailers", False))
                self.status = m.get("status")
                if not isinstance(self.status, int) or not 100 <= self.status <= 599:
                    p.append(f"status {self.status!r}")
                for h in m.get("headers", ()):
                    try:
                        k, v = h
                        if not isinstance(k, bytes) or not isinstance(v, bytes):
                            raise TypeError
                    except (TypeError, ValueError):
                        p.append(f"malformed header {h!r}")
                        continue
                    if k != k.lower():
                        p.append(f"header name {k!r} is not lower-case")
                    self.headers.append((k.decode("latin-1"), v.decode("latin-1")))
            elif ty == "http.response.body":
                if not self.started:
                    p.append("a body part before http.response.start")
                elif body_done:
                    p.append("a body part after the final one")
                    continue
                self.body += m.get("body", b"") or b""
                self.part_t.append((t, len(self.body), seq))
                if not m.get("more_body", False):
                    body_done = True
                    if not announced:
                        self.done, self.done_seq = True, seq
            elif ty == "http.response.trailers":
                if not announced:
                    p.append("trailers that were not announced")
                elif not body_done:
                    p.append("trailers before the final body part")
                for k, v in m.get("headers", ()):
                    self.trailers.append((k.decode("latin-1"), v.decode("latin-1")))
                if not m.get("more_trailers", False):
                    self.done, self.done_seq = True, seq
            else:
                p.append(f"unknown event {ty!r}")


class Run:
    """Cached analysis of one run."""

    def __init__(self, w) -> None:
        self.w = w
        self.sync = getattr(w, "sync", False)
        self.spec = w.spec
        self.client_real = w.spec.peer != "fakeclient"
        self.server_real = w.spec.peer != "fake"
        self.conns: dict[int, list] = {}
        for c in w.conns:
            self.conns.setdefault(c.call, []).append(c)
        self.handlers: dict[int, list] = {}
        for h in w.handlers:
            self.handlers.setdefault(h.call, []).append(h)
        self._del: dict = {}
        self._em: dict = {}

    def conn(self, i):
        cs = self.conns.get(i)
        return cs[-1 if self.retried(i) else 0] if cs else None

    def handler(self, i):
        hs = self.handlers.get(i)
        if hs and self.retried(i):
            c = self.conn(i)
            hs = [h for h in hs if h.conn is c]
        return hs[0] if hs else None

    def retried(self, i) -> bool:
        """An interceptor may make the call more than once: what counts is the last time."""
        t = self.spec.calls[i].trick if 0 <= i < len(self.spec.calls) else None
        return t is not None and t[2] == "retry"

    def delivered(self, i) -> wire.Response | None:
        """What the response the client was given means."""
        if i not in self._del:
            c = self.conn(i)
            r = None
            if c is not None and c.head is not None:
                cs = self.spec.calls[i]
                proto = self.spec.clients[cs.client].protocol
                r = wire.parse_response(proto, is_stream_wire(proto, cs.kind), c.head[0], c.head[1],
                                        bytes(c.down_delivered), c.trailers, c.down_end == "eof")
            self._del[i] = r
        return self._del[i]

    def wire_form(self, i) -> tuple[str, bool]:
        """The protocol of a request, and whether its response is a stream of frames."""
        cs = self.spec.calls[i]
        proto, kind = self.spec.clients[cs.client].protocol, cs.kind
        if cs.mangle:
            c = self.conn(i)
            ct = next((v for k, v in c.headers if k.lower() == "content-type"), "")
            proto = ("grpc" if ct == "application/grpc" or ct.startswith("application/grpc+") else
                     "grpc_web" if ct == "application/grpc-web" or ct.startswith("application/grpc-web+") else "connect")
        return proto, is_stream_wire(proto, kind)

    def emitted(self, i) -> tuple[Emitted, wire.Response | None]:
        if i not in self._em:
            c = self.conn(i)
            e = Emitted(c) if c is not None else None
            r = None
            if e is not None and e.started:
                proto, stream = self.wire_form(i)
                r = wire.parse_response(proto, stream, e.status, e.headers, bytes(e.body), e.trailers, e.done)
            self._em[i] = (e, r)
        return self._em[i]

    def decode(self, kind, payload, i):
        return messages.decode(kind, payload, self.spec.clients[self.spec.calls[i].client].codec)

    def corrupt(self, i) -> bool:
        return any(c.plan.fault[0] == "corrupt" for c in self.conns.get(i, ()))

    def limited(self, i) -> bool:
        return self.spec.server.read_max is not None or self.spec.clients[self.spec.calls[i].client].read_max is not None

    def touched(self, i, what, conn=None) -> dict:
        """The metadata of that kind interceptors set."""
        w = None if conn is None else id(conn)
        return {k: v for (j, how, c, k), v in self.w.touched.items() if (j, how, c) == (i, what, w)}

    def quiet(self, i) -> bool:
        """Nothing but delays and fragmentation happened to call i."""
        rec = self.w.calls[i]
        if rec.t_start < 0:
            return False   # never made: the task was still busy with an earlier call
        if rec.cancel_t is not None or rec.close_t is not None or rec.spec.source_fail is not None:
            return False
        if self.limited(i):
            return False
        c = self.conn(i)
        if c is not None and (c.faults or c.app_cancel_t is not None):
            return False
        d = rec.deadline
        if d is not None and (rec.t_end is None or rec.t_end >= d - EPS):
            return False
        if rec.timeout is not None and rec.timeout < 0.002:
            return False   # rounding of the time-out header may already be visible to a peer
        return True

    def expected(self, i):
        """What the script of call i says the outcome is."""
        cs = self.spec.calls[i]
        if self.server_real and cs.cleanup is not None and cs.cleanup[0] == "raise":
            return cs.cleanup[1]
        return cs.err


def utf8(s: str) -> str:
    """What can be sent of a message, surrogates cannot."""
    return s.encode(errors="replace").decode().replace("\ufffd", "?")


def same_error(outcome, err) -> bool:
    """Whether an outcome (or decoded error) is the error a service raised."""
    if outcome[0] != "connect":
        return False
    if err[0] == "connect":
        return outcome[1] == err[1] and utf8(outcome[2]) == utf8(err[2]) and list(map(tuple, outcome[3])) == list(map(tuple, err[3]))
    if err[1] == "BadMessage":     # the service raised nothing
        return outcome[1] in ("unknown", "internal")
    return outcome[1] == "unknown"


def is_prefix(a: list, b: list) -> bool:
    return len(a) <= len(b) and all(x == y for x, y in zip(a, b))


def vals(pairs) -> list:
    return [d for _, d in pairs]


def c01(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        h = R.handler(i)
        c = R.conn(i)
        if R.corrupt(i):
            continue
        for b in rec.bad:
            if not b.startswith("application code"):
                yield "type", f"call {i}: the client application was given {b}"
        for b in (h.bad if h else ()):
            if h.fake and b.endswith("single-message request") and c is not None and "up_eof" in c.faults:
                continue
            yield "type", f"call {i}: {'the peer received' if h.fake else 'the service was given'} {b}"
        for b in rec.wire_problems if c is not None and "no_app" not in c.faults else ():
            yield "wire", f"call {i}: the client peer found: {b}"
        got, sent = vals(rec.recv), vals(h.sends) if h else []
        if not is_prefix(got, sent):
            yield "response-prefix", _diff(i, "response", got, sent)
        hg, hs = (vals(h.reqs) if h else []), vals(rec.sent)
        if not is_prefix(hg, hs):
            yield "request-prefix", _diff(i, "request", hg, hs)
        if not R.quiet(i):
            continue
        if rec.hung:
            yield "hung", f"call {i} ({_d(R, i)}) never ended although nothing went wrong"
            continue
        exp = R.expected(i)
        if exp is None:
            if rec.outcome != ("ok",):
                yield "spurious-error", f"call {i} ({_d(R, i)}) failed without any fault: {short(rec.outcome)}"
            elif got != sent or len(got) != (len(rec.spec.reps) if rec.spec.rep_stream else 1):
                yield "response-lost", _diff(i, "response", got, sent)
        if h is None:
            yield "not-served", f"call {i} ({_d(R, i)}) never reached the service: {short(rec.outcome)}"
            continue
        if h.req_end == ("eof",) and hg != hs:
            yield "request-lost", _diff(i, "request", hg, hs)
        if h.req_end is not None and h.req_end[0] == "error" and h.fake is False:
            yield "request-error", f"call {i}: the service's request stream failed without a fault: {short(h.req_end)}"
        if not rec.spec.req_stream and hg != hs:
            yield "request-lost", _diff(i, "request", hg, hs)


def _d(R, i):
    cs = R.spec.calls[i]
    cf = R.spec.clients[cs.client]
    return f"{cs.kind} over {cf.protocol}/{cf.codec}"


def _diff(i, what, got, sent):
    for k, (a, b) in enumerate(zip(got, sent)):
        if a != b:
            return f"call {i}: {what} message {k} arrived as {short(a, 100)} instead of {short(b, 100)}"
    return f"call {i}: {len(got)} {what} messages arrived of {len(sent)} sent"


def c02(R: Run):
    if not R.client_real:
        return
    for rec in R.w.calls:
        i = rec.spec.i
        if rec.outcome != ("ok",) or R.corrupt(i):
            continue
        r = R.delivered(i)
        c = R.conn(i)
        if r is None:
            yield "no-response", f"call {i} ({_d(R, i)}) succeeded without a response"
        elif not r.complete:
            yield "truncated-ok", (f"call {i} ({_d(R, i)}) ended successfully although its response was cut: "
                                   f"{len(c.down_delivered)} bytes, {len(r.messages)} messages, {r.rest} bytes of another, "
                                   f"ended by {c.down_end}, no end-of-response information")


def c03(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        c = R.conn(i)
        if R.client_real and c is not None and rec.spec.req_stream and c.up_end == "eof" and rec.src_state != "ended":
            yield "client-finished-body", (f"call {i} ({_d(R, i)}): the request body ended normally although the "
                                           f"application's message source {rec.src_state}")
        if not R.server_real:
            continue
        for h in R.handlers.get(i, ()):
            hc = h.conn or c
            if hc is None:
                continue
            single = not rec.spec.req_stream
            if not single and h.req_end != ("eof",):
                continue
            what = "was called" if single else "saw its request stream end normally"
            if hc.method != "GET" and hc.up_delivered_end != "eof":
                yield "early-eof", (f"call {i} ({_d(R, i)}): the service {what} although the request body had not ended "
                                    f"({hc.up_delivered_end})")
            if is_stream_wire(rec.cfg.protocol, rec.spec.kind):
                frames, off = wire.split_frames(bytes(hc.up_delivered))
                rest = len(hc.up_delivered) - off
                if rest:
                    yield "partial-frame", (f"call {i} ({_d(R, i)}): the service {what} although the body ended inside a "
                                            f"message ({rest} bytes left over)")
                if single and len(frames) != 1:
                    yield "message-count", f"call {i} ({_d(R, i)}): the service {what} with {len(frames)} request messages"
            elif hc.method != "GET" and bytes(hc.up_delivered) != bytes(hc.up_bytes):
                yield "short-body", f"call {i} ({_d(R, i)}): the service {what} with a shortened body"


def c04(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        h = R.handler(i)
        c = R.conn(i)
        if c is None or R.corrupt(i):
            continue
        if R.server_real and h is not None and h.end is not None and h.end[0] == "raised" and c.app_cancel_t is None \
                and c.disconnect_t is None and not c.crashed and c.app_done_t is not None and not R.limited(i):
            e, r = R.emitted(i)
            err = h.end[1]
            if r is None or not r.complete:
                yield "not-reported", f"call {i} ({_d(R, i)}): the service failed with {short(err)} but the response has no end"
            elif r.error is None:
                yield "not-reported", (f"call {i} ({_d(R, i)}): the service failed with {short(err)} but the response says "
                                       f"{'http ' + str(r.http_error) if r.http_error else 'success'}; {r.problems}")
            elif not same_error(("connect", *r.error), err):
                yield "altered", f"call {i} ({_d(R, i)}): the service raised {short(err)}, the response says {short(r.error)}"
            elif is_stream_wire(rec.cfg.protocol, rec.spec.kind):
                try:
                    got = [R.decode("Rep", m, i) for m in r.messages]
                except BadMessage as x:
                    yield "messages", f"call {i}: {x}"
                    continue
                want = vals(h.sends) if rec.spec.rep_stream else []
                if got != want:
                    yield "messages", "before an error: " + _diff(i, "response", got, want)
            elif e.status != wire.CONNECT_HTTP[r.error[0]]:
                yield "status", f"call {i} ({_d(R, i)}): error {r.error[0]} was sent with HTTP status {e.status}"
        if not R.client_real or rec.close_t is not None or rec.outcome is None:
            continue
        r = R.delivered(i)
        if r is None or not r.complete or r.error is None or r.problems:
            continue
        if rec.spec.source_fail is not None or R.limited(i) or _late(rec) or (
                rec.cancel_t is not None and rec.cancel_t <= R.w.ilog.busy_until("client", i, c.down_end_t or math.inf) + EPS):
            continue   # the call was given up before its outcome had come all the way
        if c.up_end == "error" and rec.src_state == "failed":
            continue
        if rec.cfg.protocol != "connect" and c.down_end != "eof":
            continue   # complete, and yet the connection failed: either may be reported
        if rec.outcome[0] != "connect" or not same_error(rec.outcome, ("connect", *r.error)):
            yield "altered", (f"call {i} ({_d(R, i)}): the response carries {short(r.error)}, the application was given "
                              f"{short(rec.outcome)}")
            continue
        try:
            want = [R.decode("Rep", m, i) for m in r.messages]
        except BadMessage:
            continue
        if rec.spec.rep_stream and vals(rec.recv) != want:
            yield "messages", "before an error: " + _diff(i, "response", vals(rec.recv), want)


def _late(rec) -> bool:
    d = rec.deadline
    return d is not None and (rec.t_end is None or rec.t_end >= d - EPS)


def c05(R: Run):
    if not R.client_real:
        return
    for rec in R.w.calls:
        i = rec.spec.i
        if rec.t_start < 0:
            continue
        for b in rec.bad:
            if b.startswith("application code"):
                yield "interrupted", f"call {i} ({_d(R, i)}): {b}"
        o = rec.outcome
        d = rec.deadline
        r = R.delivered(i)
        wire_err = r.error if r is not None and r.complete else None
        own = o is not None and o[0] == "connect" and o[1] == "deadline_exceeded" and (
            wire_err is None or wire_err[0] != "deadline_exceeded")
        if own and d is None:
            yield "no-timeout", f"call {i} ({_d(R, i)}) has no timeout but ended with {short(o)}"
            continue
        if d is None:
            continue
        if own and rec.t_end < d - EPS:
            yield "early", (f"call {i} ({_d(R, i)}) reported DEADLINE_EXCEEDED {rec.t_end - rec.t_start:.6f}s after its start, "
                            f"timeout {rec.timeout}s")
        if rec.hung:
            if d > 0.9e5:
                continue
            yield "hung", f"call {i} ({_d(R, i)}) with timeout {rec.timeout}s never ended"
            continue
        busy = max([b for _, b in rec.app_busy if b >= d], default=0.0)
        limit = max(d, busy) + sum(c.slack for c in R.conns.get(i, ()))
        if rec.t_end > limit + EPS and rec.close_t is None:
            yield "late", (f"call {i} ({_d(R, i)}) with timeout {rec.timeout}s ended after {rec.t_end - rec.t_start:.6f}s "
                           f"({short(o)})")
        if not R.sync and rec.spec.trick is None:
            for asked, (t, _) in zip(rec.asked, rec.recv, strict=False):
                if asked > d + EPS:
                    yield "after", f"call {i} ({_d(R, i)}): a message was handed over {t - d:.6f}s after the deadline"
                    break
        if rec.cancel_t is not None and rec.cancel_t <= rec.t_end + EPS:
            continue
        if rec.t_end >= d - EPS and rec.close_t is None and rec.src_state != "failed" and not own:
            c = R.conn(i)
            kinds = set(c.faults) if c is not None else set()
            if o[0] in ("raised", "cancelled"):
                yield "type", f"call {i} ({_d(R, i)}): the deadline surfaced as {short(o)}"
            elif o[0] == "connect" and wire_err is None and kinds <= {*OWN_FAULT_HOOKS, "expire"} and not R.limited(i) and (
                    r is None or r.http_error is None):
                yield "type", f"call {i} ({_d(R, i)}): the deadline surfaced as {short(o)}"


def c06(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        c = R.conn(i)
        given = None if rec.timeout is None else rec.timeout * 1000.0
        if rec.t_start < 0:
            continue
        wire_ms = None
        if c is not None and c.url:
            from urllib.parse import urlparse

            u = urlparse(c.url)
            info = fake.ReqInfo(c.method, u.path, u.query, [(k.lower(), v) for k, v in c.headers])
            try:
                wire_ms = info.timeout_ms
            except ValueError as e:
                yield "header", f"call {i} ({_d(R, i)}): malformed timeout header {e} for {given} ms"
                continue
            if R.client_real:
                if wire_ms is None and given is not None and given >= 1e10 and info.protocol == "connect":
                    continue   # beyond what the protocol can express
                if (wire_ms is None) != (given is None):
                    yield "header", f"call {i} ({_d(R, i)}): timeout {given} ms, header says {wire_ms}"
                    continue
                if given is not None:
                    if info.protocol == "connect":
                        unit = 1.0
                    else:
                        unit = {"H": 3.6e6, "M": 6e4, "S": 1e3, "m": 1.0, "u": 1e-3, "n": 1e-6}[info.h["grpc-timeout"][0][-1]]
                    if wire_ms > given + 1e-3:
                        yield "header", f"call {i} ({_d(R, i)}): timeout {given} ms was sent as {wire_ms} ms"
                    if given - wire_ms >= unit:
                        yield "header", f"call {i} ({_d(R, i)}): timeout {given} ms was sent as {wire_ms} ms, unit {unit} ms"
                    if unit > 1.0 and given < 1e8:
                        yield "header", f"call {i} ({_d(R, i)}): timeout {given} ms was sent in units of {unit} ms"
        if given is not None and R.quiet(i) and R.server_real and not R.handlers.get(i) and not rec.hung and \
                not rec.spec.mangle and R.conn(i) is not None:
            yield "refused", f"call {i} ({_d(R, i)}) with a timeout of {given} ms never reached the service: {short(rec.outcome)}"
        tol = 1.0 if given is None else 1.0 + given * 1e-9

        def samples(items, total, t0, side):
            last = None
            for t, v in items:
                if total is None:
                    if v is not None:
                        yield "phantom", f"call {i} ({_d(R, i)}): {side} sees a timeout of {v} ms although there is none"
                    continue
                if v is None:
                    yield "missing", f"call {i} ({_d(R, i)}): {side} sees no timeout, {total} ms were given"
                    continue
                want = total - (t - t0) * 1000.0
                if v > want + 1e-3 + abs(total) * 1e-9 or v < want - tol:
                    yield "value", (f"call {i} ({_d(R, i)}): {side} sees {v} ms left {(t - t0) * 1000:.3f} ms after "
                                    f"{total} ms were given (should be {want})")
                if last is not None:
                    dt, dv = (t - last[0]) * 1000.0, last[1] - v
                    if abs(dt - dv) > tol:
                        yield "clock", f"call {i} ({_d(R, i)}): {side} lost {dv} ms of its timeout in {dt} ms"
                last = (t, v)

        if R.server_real and c is not None and c.app_start_t is not None:
            for h in R.handlers.get(i, ()):
                yield from samples(h.ctx, wire_ms, c.app_start_t, "the service")
            yield from samples([(e[0], e[6][1]) for e in R.w.ilog.ev if e[1] == "server" and e[3] == i and e[5] == "start"],
                               wire_ms, c.app_start_t, "a server interceptor")
        if R.client_real:
            yield from samples([(e[0], e[6][1]) for e in R.w.ilog.ev if e[1] == "client" and e[3] == i and e[5] == "start"],
                               given, rec.t_start, "a client interceptor")


def c07(R: Run):
    if not R.client_real:
        return
    for rec in R.w.calls:
        i = rec.spec.i
        if rec.t_start < 0 or rec.t_end is None:
            continue
        o = rec.outcome
        if rec.cancel_t is not None:
            if rec.t_end > R.w.ilog.busy_until("client", i, rec.cancel_t) + EPS:
                yield "slow-cancel", f"call {i} ({_d(R, i)}) ended {rec.t_end - rec.cancel_t:.6f}s after it was cancelled"
            if o[0] == "raised":
                yield "cancel-type", f"call {i} ({_d(R, i)}): cancelling surfaced as {short(o)}"
        if rec.close_t is not None and rec.spec.close_mode == "aclose" and rec.cancel_stage != "own":
            if rec.close_exc is not None:
                yield "close-error", f"call {i} ({_d(R, i)}): closing the response stream raised {rec.close_exc}"
            elif rec.close_done_t is None or rec.close_done_t > R.w.ilog.busy_until("client", i, rec.close_t) + EPS:
                yield "slow-close", f"call {i} ({_d(R, i)}): closing the response stream took until {rec.close_done_t}"
        for c in R.conns.get(i, ()):
            released = c.client_close_t is not None and c.client_close_t <= rec.t_end + EPS
            if not released and not (c.down_end is not None and c.down_end_t <= rec.t_end + EPS):
                yield "open-response", (f"call {i} ({_d(R, i)}) ended as {short(o)} at {rec.t_end:.6f} leaving its response open"
                                        + ("" if c.client_close_t is None else f" until {c.client_close_t:.6f}"))
            elif not released and c.up_end is None:
                yield "open-upload", f"call {i} ({_d(R, i)}) ended as {short(o)} leaving its request upload running"
        if rec.src_state == "running":
            yield "source", f"call {i} ({_d(R, i)}) ended as {short(o)} leaving the request iterator suspended"
    for side, i, name in R.w.leaks:
        if side == "client":
            yield "task", f"call {i}: a task was left behind ({name})"


def c08(R: Run):
    if not R.server_real:
        return
    for side, i, name in R.w.leaks:
        if side == "server":
            yield "task", f"request of call {i}: a task was left behind ({name})"
    for c in R.w.conns:
        if not c.app_started or c.fake and c.call < 0:
            continue
        i = c.call
        if not 0 <= i < len(R.spec.calls):
            continue
        cs = R.spec.calls[i]
        what = f"call {i} ({_d(R, i)})"
        hs = [h for h in R.handlers.get(i, ()) if h.conn is c]
        if c.app_done_t is None:
            yield "never-finished", f"{what}: the request never finished"
            continue
        for name in c.leaked:
            yield "task", f"{what}: the request left a task behind ({name})"
        last = max([c.send_return_t, c.disconnect_t or 0.0, c.app_cancel_t or 0.0, c.crash_t or 0.0]
                   + [t for t, *_ in c.recv_events] + [t for t, *_ in c.events])
        for h in hs:
            if h.end is None or not h.end_seq:
                yield "not-cleaned", f"{what}: the request finished but the service method was never ended"
                continue
            if h.end_seq > c.app_done_seq:
                yield "late-cleanup", f"{what}: the service method's clean-up ran only after the request had finished"
            elif h.cleanup_done:
                if h.cleanup_seq > c.app_done_seq:
                    yield "late-cleanup", f"{what}: the service method's clean-up ended only after the request had finished"
                last = max(last, h.cleanup_t)
            elif not (c.app_cancel_t is not None and c.app_cancel_t >= h.end_t or c.crashed):
                yield "cut-cleanup", f"{what}: the service method's clean-up was interrupted"
            if c.app_cancel_t is not None and sum(q > (c.cancel_due_seq or c.app_cancel_seq) for q in h.req_seqs) > 1:
                yield "kept-reading", f"{what}: the service method went on reading messages after the request had been cancelled"
            d = c.disconnect_t
            if d is not None and cs.req_stream:
                # reading
                pend = len(h.asked) > len(h.reqs)
                if pend:
                    a = h.asked[len(h.reqs)]
                    if h.req_end_t is None and h.end_t > max(a, d) + EPS or \
                            h.req_end_t is not None and h.req_end is not None and h.req_end[0] == "error" and \
                            h.req_end_t > max(a, d) + EPS:
                        yield "blocked-read", f"{what}: reading the request stream did not fail when the client left"
            if d is not None and cs.rep_stream:
                late = [t for t, _ in h.sends if t > d + EPS]
                if len(late) > 1 and (cs.kind == "ss" and not R.sync or c.plan.disc_policy == "raise"):
                    yield "kept-producing", f"{what}: the service produced {len(late)} messages after the client had left"
        if c.app_done_t > R.w.ilog.busy_until("server", i, last) + EPS:
            yield "slow-finish", f"{what}: the request finished at {c.app_done_t:.6f}, its last event was at {last:.6f}"


def c09(R: Run):
    if not R.server_real:
        return
    for c in R.w.conns:
        i = c.call
        if not c.app_started or not 0 <= i < len(R.spec.calls):
            continue
        what = f"call {i} ({_d(R, i)})"
        e, r = R.emitted(i)
        if c is not R.conn(i):
            continue
        for p in e.problems + getattr(c, "wsgi", []):
            yield "events", f"{what}: {p}"
        gone = c.disconnect_t is not None or c.app_cancel_t is not None or c.crashed
        if c.app_done_t is None:
            continue
        if not gone:
            if not e.started:
                yield "no-start", f"{what}: the application finished without a response"
                continue
            if not e.done:
                yield "no-end", f"{what}: the application finished without ending its response"
                continue
        if r is None:
            continue
        if not e.done and not R.wire_form(i)[1]:
            continue
        if R.spec.calls[i].mangle and e.status in (404, 405, 415) and not e.body:
            continue   # refused as HTTP, before any RPC protocol
        for p in r.problems:
            yield "frames", f"{what}: {p}"
        if r.extra:
            yield "after-end", f"{what}: {r.extra} frames or bytes after the end marker"
        if e.done and not r.problems:
            if r.rest:
                yield "frames", f"{what}: the response ends inside a frame"
            if not r.complete and r.http_error is None:
                yield "no-marker", f"{what}: the response has no end marker"
        if e.done and r.complete and r.error is None and r.http_error is None and not R.spec.calls[i].rep_stream \
                and len(r.messages) != 1:
            yield "count", f"{what}: a successful single-message response carries {len(r.messages)} messages"


def c10(R: Run):
    if not R.server_real:
        return
    for c in R.w.conns:
        i = c.call
        if not c.app_started or not 0 <= i < len(R.spec.calls) or c is not R.conn(i):
            continue
        e, r = R.emitted(i)
        if r is None or not r.complete or r.error is not None or r.http_error is not None:
            continue
        what = f"call {i} ({_d(R, i)})"
        h = R.handler(i)
        if h is None:
            yield "no-handler", f"{what}: success was reported although the service method never ran"
            continue
        if h.end != ("ended",):
            yield "failed-success", f"{what}: success was reported although the service method ended as {short(h.end)}"
            continue
        seq = e.done_seq if R.wire_form(i)[1] else e.start_seq
        if seq is not None and seq < h.end_seq:
            yield "early-success", f"{what}: success was reported before the service method had finished"


def c12(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        h = R.handler(i)
        c = R.conn(i)
        if h is None or c is None or R.corrupt(i):
            continue
        what = f"call {i} ({_d(R, i)})"
        want = wire.multi(rec.spec.headers) | R.touched(i, "request")
        got = wire.multi(h.req_headers)
        for k, v in want.items():
            if R.sync and not h.fake:     # CGI variables: one value per name
                v = [",".join(v)]
            if got.get(k) != v:
                yield "request", f"{what}: request header {k} sent as {short(v)} arrived as {short(got.get(k))}"
        for k in got:
            if k.startswith("x-") and k not in want:
                yield "request-extra", f"{what}: request header {k} was never sent"
        if rec.md_headers is None or not h.end:
            continue
        r = R.delivered(i)
        if r is None or not r.complete or rec.outcome is None or rec.close_t is not None:
            continue
        if _late(rec) or rec.cancel_t is not None or R.limited(i) or rec.outcome[0] not in ("ok", "connect"):
            continue
        if rec.outcome[0] == "connect" and (r.error is None or rec.outcome[1] != r.error[0]):
            continue
        if c.crashed or c.app_cancel_t is not None or c.disconnect_t is not None and c.disconnect_t < (h.end_t or 0):
            continue
        for name, sent, md in (("header", h.headers_set, rec.md_headers), ("trailer", h.trailers_set, rec.md_trailers)):
            want = wire.multi(sent) | R.touched(i, name, c)
            got = wire.multi(md)
            for k, v in want.items():
                if got.get(k) != v:
                    yield name, f"{what} ({rec.outcome[0]}): response {name} {k} set as {short(v)} is seen as {short(got.get(k))}"
            pre, other = ("x-res", "x-own"), ("x-trl", "x-town")
            if name == "trailer":
                pre, other = other, pre
            for k in got:
                if R.server_real and k.startswith(other) and k not in want:
                    yield name + "-mixed", f"{what}: {k} was set among the {'trailers' if name == 'header' else 'headers'}, and is seen as a response {name}"
                if k.startswith(pre) and k not in want and not (name == "header" and k in wire.multi(h.late_headers)):
                    if name == "header" and not is_stream_wire(rec.cfg.protocol, rec.spec.kind):
                        continue
                    yield name + "-extra", f"{what}: response {name} {k} was never set by its service call"


def c13(R: Run):
    for side, real in (("client", R.client_real), ("server", R.server_real)):
        if not real:
            continue
        for rec in R.w.calls:
            i = rec.spec.i
            if rec.t_start < 0:
                continue
            kinds = R.spec.server.interceptors if side == "server" else R.spec.clients[rec.spec.client].interceptors
            n = len(kinds)
            due = [k for k in range(n) if icept.applies(kinds[k], rec.spec.kind)]
            if not n:
                continue
            ev = [e for e in R.w.ilog.ev if e[1] == side and e[3] == i]
            what = f"call {i} ({_d(R, i)}), {side} interceptors"
            starts = [e[4] for e in ev if e[5] == "start"]
            ends = [e[4] for e in ev if e[5] == "end"]
            if starts != due[:len(starts)]:
                yield "order", f"{what}: started in order {starts}"
                continue
            c = R.conn(i)
            h = R.handler(i)
            reached = h is not None if side == "server" else c is not None
            trick = next((e for e in ev if e[5] == "trick"), None)
            by = n if trick is None else trick[4]      # who did more than watch
            if trick is not None:
                yield from tricked(R, rec, side, kinds, ev, trick, reached, what)
            if reached and starts != due:
                yield "skipped", f"{what}: only {starts} of {due} ran"
            if h is not None and side == "server":
                late = [e for e in ev if e[5] == "start" and e[7] > h.start_seq]
                if late:
                    yield "nesting", f"{what}: interceptor {late[0][4]} started after the service method"
            if sorted(ends) != sorted(starts):
                yield "pairing", f"{what}: started {starts}, ended {ends}"
                continue
            if ends != starts[::-1]:
                yield "end-order", f"{what}: ended in order {ends}"
            if h is not None and side == "server" and h.end_seq:
                early = [e for e in ev if e[5] == "end" and e[7] < h.end_seq]
                if early:
                    yield "nesting", f"{what}: interceptor {early[0][4]} ended before the service method"
            tok = {e[4]: e[6][0] for e in ev if e[5] == "start"}
            for e in ev:
                if e[5] != "end" or not icept.is_meta(kinds[e[4]]):
                    continue
                token, err = e[6]
                if token != (tok[e[4]], i):
                    yield "token", f"{what}: interceptor {e[4]} was given the token {token} of another start ({tok[e[4]]}, {i})"
                if trick is not None and (e[4] >= by if side == "client" else e[4] <= by):
                    continue      # what it did happened further out, or to those further out
                for m in failed_as(R, rec, side, err, e[0]):
                    yield "error", f"{what}: interceptor {e[4]} {m}"
            for e in ev:
                if e[5] == "exc" and side == "client" and e[4] < by and rec.outcome is not None and rec.cancel_t is None and not rec.hung \
                        and rec.close_t is None and not _same_cls(e[6], rec.outcome):
                    yield "error", f"{what}: interceptor {e[4]} saw {short(e[6])}, the call failed with {short(rec.outcome)}"


def tricked(R: Run, rec, side, kinds, ev, trick, reached, what):
    """A call one of whose interceptors failed, answered itself or replaced messages."""
    i = rec.spec.i
    _, k, how, x = rec.spec.trick[:4]
    what = f"{what}: interceptor {k} of {kinds} did {how} with {short(x)}"
    if how in ("start", "before", "answer"):
        inner = [e[4] for e in ev if e[4] > k]
        if reached or inner:
            yield "bypassed", f"{what}, but the call went on to {'the ' + ('service' if side == 'server' else 'server') if reached else inner}"
    if not R.quiet(i) or rec.outcome is None or rec.hung or rec.fake or rec.spec.cleanup is not None:
        return
    if how in ("start", "before", "after", "end"):
        for e in ev:
            if e[5] == "end" and e[4] < k and icept.is_meta(kinds[e[4]]) and not as_raised(e[6][1], x):
                yield "error", f"{what}, interceptor {e[4]} around it was told {short(e[6][1])}"
        if not (same_error(rec.outcome, x) if side == "server" else as_raised(rec.outcome, x)):
            yield "outcome", f"{what}: the call ended as {short(rec.outcome)}"
    elif how == "answer":
        if rec.outcome != ("ok",) or vals(rec.recv) != x:
            yield "answer", f"{what}: the call ended as {short(rec.outcome)} with {short(vals(rec.recv))}"
    elif how == "reply":
        if any(m != x[0] for m in vals(rec.recv)):
            yield "reply", f"{what}: received {short(vals(rec.recv))}"
    elif how == "request":
        h = R.handler(i)
        if h is not None and any(m != x for m in vals(h.reqs)):
            yield "request", f"{what}: the service received {short(vals(h.reqs))}"


def as_raised(err, x) -> bool:
    """Whether an error some application code saw is the one that other code raised in the same process."""
    if err is None:
        return False
    return same_error(err, x) if x[0] == "connect" else err[0] == "raised" and err[1] == x[1]


def failed_as(R: Run, rec, side, err, t):
    """What is wrong with telling an interceptor, at t, that this call failed with err (None: succeeded)."""
    c = R.conn(rec.spec.i)
    h = R.handler(rec.spec.i)
    n = 3 if err is None else min(3, len(err))
    if side == "client":
        o = rec.outcome
        if o is None or rec.hung or rec.close_t is not None:
            return
        if o[0] == "ok" and err is not None:
            yield f"was told {short(err)} although the call succeeded"
        elif o[0] in ("connect", "raised") and (err is None or err[:n] != o[:n]) and rec.cancel_t is None:
            yield f"was told {short(err)}, the call failed with {short(o)}"
        elif o[0] in ("cancelled", "connect") and rec.cancel_t is not None and err is None \
                and rec.cancel_stage != "own" and t >= rec.cancel_t - EPS:
            yield "was told of no error although the call was cancelled"
    elif h is not None and h.end is not None:
        if h.end == ("ended",) and err is not None and c.app_cancel_t is None and c.disconnect_t is None and not c.crashed:
            yield f"was told {short(err)} although the service method succeeded"
        elif h.end[0] == "raised":
            x = h.end[1]
            ok = err is not None and ((same_error(err, x) if n == 3 else err[:n] == x[:n]) if x[0] == "connect" else
                                      err[0] == "raised" and err[1] == x[1])
            # a cancelled request may end anything still running as cancelled
            ok = ok or (c.app_cancel_t is not None or c.crashed) and err is not None and err[:2] == ("connect", "canceled")
            if not ok:
                yield f"was told {short(err)}, the service raised {short(x)}"
        elif h.end[0] == "cancelled" and err is None:
            yield "was told of no error although the call was cancelled"


def _same_cls(a, b) -> bool:
    return a is not None and a[:3] == b[:3]


def c14(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        c = R.conn(i)
        if c is None:
            continue
        what = f"call {i} ({_d(R, i)})"
        lim = rec.cfg.read_max
        if R.client_real and lim is not None and rec.outcome is not None:
            r = R.delivered(i)
            if r is not None and not r.problems:
                sizes = [len(m) for m in r.messages]
                big = next((k for k, n in enumerate(sizes) if n > lim), None)
                if big is not None:
                    if len(rec.recv) > big:
                        yield "client-accepted", (f"{what}: the client, limited to {lim} bytes, accepted message {big} of "
                                                  f"{sizes[big]} bytes")
                    elif _undisturbed(rec, c) and (rec.outcome[:2] != ("connect", "resource_exhausted") or len(rec.recv) != big):
                        if rec.spec.rep_stream or big == 0:
                            yield "client-code", (f"{what}: message {big} of {sizes[big]} bytes exceeds the client's limit {lim} "
                                                  f"but the call ended as {short(rec.outcome)} after {len(rec.recv)} messages")
                elif rec.outcome[:2] == ("connect", "resource_exhausted") and not (
                        r.complete and r.error is not None and r.error[0] == "resource_exhausted") \
                        and not _big_end(R, i, lim) and _undisturbed(rec, c):
                    yield "client-rejected", f"{what}: messages of {sizes} bytes were rejected with limit {lim}"
        lim = R.spec.server.read_max
        if not R.server_real or lim is None:
            continue
        u = _request_payloads(R, i, rec, c)
        if u is None:
            continue
        sizes, whole = u
        big = next((k for k, n in enumerate(sizes) if n > lim), None)
        h = R.handler(i)
        e, r = R.emitted(i)
        undist = c.disconnect_t is None and c.app_cancel_t is None and not c.crashed and c.app_done_t is not None
        if big is not None:
            if h is not None and len(h.reqs) > big:
                yield "server-accepted", (f"{what}: the server, limited to {lim} bytes, handed over message {big} of "
                                          f"{sizes[big]} bytes")
            elif undist and not rec.spec.swallow and not (h is not None and rec.spec.cleanup and rec.spec.cleanup[0] == "raise") and (
                    h is None or h.req_end is not None and h.req_end[0] == "error" and h.end and h.end[0] == "raised"):
                if r is None or r.error is None or r.error[0] != "resource_exhausted":
                    yield "server-code", (f"{what}: message {big} of {sizes[big]} bytes exceeds the server's limit {lim} but the "
                                          f"response says {short(r.error if r else None)}")
        elif undist and r is not None and r.error is not None and r.error[0] == "resource_exhausted" and not (
                h is not None and h.end and h.end[0] == "raised" and h.end[1][0] == "connect" and h.req_end in (None, ("eof",))):
            yield "server-rejected", f"{what}: request messages of {sizes} bytes were rejected with limit {lim}"


def _big_end(R, i, lim) -> bool:
    """The end-of-stream message itself exceeds the limit."""
    c = R.conn(i)
    cs = R.spec.calls[i]
    proto = R.spec.clients[cs.client].protocol
    if not is_stream_wire(proto, cs.kind):
        return c.head[0] != 200
    h = wire.multi(c.head[1])
    enc = (h.get("connect-content-encoding" if proto == "connect" else "grpc-encoding") or ["identity"])[0]
    for flags, p, _ in wire.split_frames(bytes(c.down_delivered))[0]:
        if flags & 0x82:
            try:
                if len(wire.decompress(enc, p) if flags & 1 else p) > lim:
                    return True
            except wire.WireError:
                return True
    return False


def _undisturbed(rec, c) -> bool:
    return rec.cancel_t is None and rec.close_t is None and not _late(rec) and not c.faults and rec.spec.source_fail is None


def _request_payloads(R, i, rec, c):
    try:
        from urllib.parse import urlparse

        u = urlparse(c.url)
        info = fake.ReqInfo(c.method, u.path, u.query, [(k.lower(), v) for k, v in c.headers])
        if info.get:
            p = info.message
            return [len(wire.decompress(info.enc, p) if p else p)], True
        if not info.stream:
            if c.up_delivered_end != "eof":
                return None
            p = bytes(c.up_delivered)
            return [len(wire.decompress(info.enc, p) if p else p)], True
        ms, rest = wire.request_frames(bytes(c.up_delivered), info.enc)
        return [len(m) for m in ms], not rest
    except wire.WireError:
        return None


def c15(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        c = R.conn(i)
        if c is None or c.pipes is None or R.corrupt(i):
            continue
        cs = rec.spec
        up, down = c.pipes
        what = f"call {i} ({_d(R, i)})"
        h = R.handler(i)
        if rec.hung and R.quiet(i):
            yield "deadlock", f"{what}: the conversation made no progress"
        if R.client_real and cs.rep_stream and c.head is not None:
            r = R.delivered(i)
            if r is not None:
                for k, end in enumerate(r.ends):
                    t = _arrival(down, end)
                    if t is None or k >= len(rec.asked):
                        break
                    due = max(t, rec.asked[k], c.head_t)
                    if k < len(rec.recv):
                        if rec.recv[k][0] > due + EPS:
                            yield "late-response", (f"{what}: response message {k} had arrived at {t:.6f}, was wanted at "
                                                    f"{rec.asked[k]:.6f} and handed over at {rec.recv[k][0]:.6f}")
                    elif rec.t_end is not None and rec.t_end > due + EPS and rec.outcome[0] != "raised" and not _over(rec, r, k):
                        yield "withheld-response", (f"{what}: response message {k} had arrived at {t:.6f} but was not handed over "
                                                    f"by {rec.t_end:.6f} ({short(rec.outcome)})")
                        break
                # what arrived but was never even read
                k = len(rec.recv)
                if k == len(r.ends) and len(rec.asked) > k and rec.t_end is not None and c.server_open is False:
                    pos = _emitted_end(R, i, k)
                    t = _arrival(down, pos) if pos is not None else None
                    if t is not None and not down.cut_fired:
                        due = max(t, rec.asked[k], c.head_t)
                        if rec.t_end > due + EPS:
                            yield "withheld-response", (f"{what}: response message {k} had arrived at {t:.6f} but was not read by "
                                                        f"{rec.t_end:.6f} ({short(rec.outcome)})")
        if R.client_real and cs.req_stream:
            ends = [e for _, _, e in wire.split_frames(bytes(c.up_bytes))[0]]
            for k, (t, _) in enumerate(rec.sent):
                if k < len(ends):
                    pushed = next((pt for pt, n in c.up_log if n >= ends[k]), None)
                    if pushed is None or pushed > t + EPS:
                        yield "late-upload", f"{what}: request message {k} was given at {t:.6f} and put on the wire at {pushed}"
                elif k + 1 < len(rec.sent):
                    yield "held-upload", f"{what}: request message {k} was never put on the wire though a later one was wanted"
        if not R.server_real or h is None:
            continue
        if cs.req_stream and is_stream_wire(rec.cfg.protocol, cs.kind):
            ends = [e for _, _, e in wire.split_frames(bytes(c.up_delivered))[0]]
            for k, end in enumerate(ends):
                t = _arrival(up, end)
                if t is None or k >= len(h.asked):
                    break
                due = max(t, h.asked[k])
                if k < len(h.reqs):
                    if h.reqs[k][0] > due + EPS:
                        yield "late-request", (f"{what}: request message {k} had arrived at {t:.6f}, was wanted at {h.asked[k]:.6f} "
                                               f"and handed over at {h.reqs[k][0]:.6f}")
        if cs.rep_stream:
            e, r = R.emitted(i)
            if r is None:
                continue
            for k, (t, _) in enumerate(h.sends):
                if k >= len(r.ends):
                    break
                et = next((pt for pt, n, _s in e.part_t if n >= r.ends[k]), None)
                if et is None or et > t + EPS:
                    yield "late-send", f"{what}: response message {k} was produced at {t:.6f} and sent at {et}"
            if len(h.sends) > len(r.ends) + 1:
                yield "held-send", f"{what}: {len(h.sends)} messages were produced but only {len(r.ends)} sent"


def _over(rec, r, k) -> bool:
    lim = rec.cfg.read_max
    return lim is not None and k < len(r.sizes) and r.sizes[k] > lim


def _arrival(pipe, end):
    for n, t in pipe.arrived:
        if n >= end:
            return t if t < math.inf else None
    return None


def _emitted_end(R, i, k):
    """Body offset of the end of frame k of what the server emitted."""
    c = R.conn(i)
    cs = R.spec.calls[i]
    if not is_stream_wire(R.spec.clients[cs.client].protocol, cs.kind):
        return None
    fr = wire.split_frames(bytes(c.down_emitted))[0]
    return fr[k][2] if k < len(fr) and fr[k][0] <= 1 else None   # the end of stream is no message


def c16(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        what = f"call {i} ({_d(R, i)})"
        n = len(R.conns.get(i, ()))
        if R.client_real and n > 1:
            yield "repeated-request", f"{what} made {n} HTTP requests"
        n = len(R.handlers.get(i, ()))
        if n > 1:
            yield "repeated-handler", f"{what} ran the service method {n} times"
        if R.client_real and rec.src_starts > 1:
            yield "repeated-source", f"{what} started the message source {rec.src_starts} times"
        c = R.conn(i)
        if R.client_real and c is not None and rec.spec.req_stream:
            n = len(wire.split_frames(bytes(c.up_bytes))[0])
            if n > len(rec.sent):
                yield "repeated-message", f"{what}: {n} request messages were sent for {len(rec.sent)} given"
    if R.client_real:
        for c in R.conns.get(-1, ()):
            yield "foreign-request", f"a request without a call: {c.method} {c.url}"


RESET_INTERNAL = {"NO_ERROR", "PROTOCOL_ERROR", "INTERNAL_ERROR", "FLOW_CONTROL_ERROR", "SETTINGS_TIMEOUT",
                  "FRAME_SIZE_ERROR", "COMPRESSION_ERROR", "CONNECT_ERROR"}


def reset_codes(code: str, late: bool) -> set | None:
    if code in RESET_INTERNAL:
        return {"internal"}
    return {"REFUSED_STREAM": {"unavailable"}, "CANCEL": {"canceled", "deadline_exceeded"} if late else {"canceled"},
            "ENHANCE_YOUR_CALM": {"resource_exhausted"}, "INADEQUATE_SECURITY": {"permission_denied"}}.get(code)


def c19(R: Run):
    if not R.client_real:
        return
    for rec in R.w.calls:
        i = rec.spec.i
        o = rec.outcome
        c = R.conn(i)
        if o is None or rec.t_start < 0:
            continue
        what = f"call {i} ({_d(R, i)})"
        faults = c.faults if c is not None else []
        if o[0] == "raised":
            if o[1] == "SourceFailure":
                pass
            yield "type", f"{what}: the application was given {short(o)} (faults: {faults})"
            continue
        if o[0] == "cancelled" and rec.cancel_t is None and not rec.hung:
            yield "type", f"{what}: the application was given CancelledError"
            continue
        if rec.spec.garble and c is not None and c.head is not None and not R.corrupt(i):
            yield from _garbled(R, rec, c, what)
        if o[0] != "connect" or c is None or rec.cancel_t is not None or _late(rec) or rec.close_t is not None or \
                rec.spec.source_fail is not None:
            continue
        r = R.delivered(i)
        if R.corrupt(i) or rec.cfg.read_max is not None:
            continue
        if r is not None and r.complete and r.error is not None:
            continue
        end = c.down_end or ""
        want = None
        why = end
        if end == "err:refuse" or "refuse" in faults:
            want = {"unavailable"}
        elif end in ("err:read", "err:os") and (r is None or r.http_error is None and not r.problems):
            want = {"unavailable"}
        elif end.startswith("err:reset:") and (r is None or r.http_error is None and not r.problems):
            if r is not None and ("grpc-status" in r.headers):
                continue
            # the remaining time is counted in whole milliseconds
            want = reset_codes(end[10:], rec.deadline is not None and (rec.t_end is None or rec.t_end > rec.deadline - 0.002))
            told = _trailers_error(rec, c, r)
            if want is not None and told is not None and o[2:4] != told and o[1] != "deadline_exceeded":
                yield "reset-message", f"{what}: the trailers said {short(told)} before the reset, the caller was told {short(o[2:4])}"
        elif ("proxy" in faults or any(k in ("status", "ctype") for k, _ in rec.spec.garble)) and end == "eof":
            want = proxy_codes(c, rec)
            why = f"HTTP {c.head[0]} {dict(c.head[1]).get('content-type')!r} {bytes(c.down_delivered)!r}"
        if want is not None and o[1] not in want:
            yield "code", f"{what}: {why} surfaced as {short(o[:3])}, should be {'/'.join(sorted(want))}"


def _trailers_error(rec, c, r):
    """What gRPC trailers say about the call when its stream was reset after them: (message, details)."""
    if rec.cfg.protocol != "grpc" or r is None or r.rest or r.problems or not c.trailers:
        return None
    try:
        e = wire.parse_grpc_status(wire.multi(c.trailers))
    except wire.WireError:
        return None
    return e and (e[1], e[2])


def _garbled(R: Run, rec, c, what):
    """A malformed response is never taken for a good one, nor are messages found beyond the malformation."""
    i = rec.spec.i
    r = R.delivered(i)
    g = dict(rec.spec.garble)
    cfg = rec.cfg
    stream = is_stream_wire(cfg.protocol, rec.spec.kind)
    plain, bad = [], [*r.problems]
    for m in r.messages:
        try:
            plain.append(messages.decode("Rep", m, cfg.codec))
        except BadMessage as e:
            bad.append(str(e))
            break
    if rec.outcome == ("ok",):
        ct = (wire.multi(c.head[1]).get("content-type") or [""])[0]
        if not stream:
            ct = ct.partition(";")[0].strip().lower()
        pre = "application/" + ({"connect": "connect+", "grpc": "grpc+", "grpc_web": "grpc-web+"}[cfg.protocol] if stream else "")
        if c.head[0] != 200:
            bad.append(f"HTTP {c.head[0]}")
        elif ct != pre + cfg.codec and not (cfg.protocol != "connect" and cfg.codec == "proto" and ct == pre[:-1]):
            bad.append(f"content type {ct!r}")
        if "encoding" in g:
            bad.append(f"encoding {g['encoding']!r}")
        if r.extra:
            bad.append("data after the end")
        if not r.complete:
            bad.append("no end-of-response information")
        if stream and not rec.spec.rep_stream and len(r.messages) != 1 and r.error is None:
            bad.append(f"{len(r.messages)} messages for a single response")
        if bad:
            yield "malformed-ok", f"{what}: a malformed response was accepted ({'; '.join(bad)[:200]}; {rec.spec.garble})"
    if rec.spec.rep_stream and not is_prefix(vals(rec.recv), plain):
        yield "beyond", (f"{what}: the application was given {len(rec.recv)} messages, {len(plain)} precede the malformation"
                         f" ({'; '.join(bad)[:200]}; {rec.spec.garble})")


def proxy_codes(c, rec):
    """Codes the specification allows for a non-200 response that is no RPC response."""
    import json

    status, hs = c.head
    if status == 200:
        return None
    ct = (wire.multi(hs).get("content-type") or [""])[0].partition(";")[0].strip().lower()
    base = {wire.http_code(status)}
    if ct == "application/json" or rec.cfg.protocol != "connect" or is_stream_wire("connect", rec.spec.kind):
        try:
            v = json.loads(bytes(c.down_delivered))
        except ValueError:
            return base
        if isinstance(v, dict) and v.get("code"):
            # an error after all; one whose code is not known has no code of its own
            code = v["code"]
            return base | {code if isinstance(code, str) and code in wire.GRPC_NUM else "unavailable"}
    return base


def c20(R: Run):
    """An HTTP/1 connection is only usable again once the request body has been read."""
    if not R.sync or not R.server_real or R.spec.server.http_version != "1.1":
        return
    for c in R.w.conns:
        i = c.call
        if not c.app_started or not 0 <= i < len(R.spec.calls) or c is not R.conn(i) or c.body_at_end is None:
            continue
        if c.disconnect_t is not None or c.faults or c.crashed:
            continue
        e, r = R.emitted(i)
        if not e.started or e.status == 200 and (r is None or r.error is None):
            continue
        read, eof, total, up_end = c.body_at_end
        length = _declared(c)
        if not eof and (read < (total if length is None else length) or length is None and up_end is None):
            yield "undrained", (f"call {i} ({_d(R, i)}{', mangled ' + short(R.spec.calls[i].mangle) if R.spec.calls[i].mangle else ''}):"
                                f" the response (status {e.status}) ended when {read} of {total} bytes of the request body had been read"
                                f"{'' if up_end else ' and more was to come'}")


def _declared(c):
    v = (c.wsgi_env or {}).get("CONTENT_LENGTH")
    return int(v) if v else None


JUDGES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C19": c19, "C20": c20}
