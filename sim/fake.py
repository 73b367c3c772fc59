"""Scripted peers that speak the wire protocols through the independent model only."""
from __future__ import annotations

import asyncio
import base64
import json
import struct
import urllib.parse

from . import messages, wire
from .core import Stream
from .messages import BadMessage
from .recs import HandlerRec
from .threads import sleep

KIND_OF = {"Unary": "unary", "UnaryGet": "unary", "ClientStream": "cs", "ServerStream": "ss", "Bidi": "bidi"}


def dressed(ct: str, s) -> str:
    """The same media type as another peer may write it: parameters, upper case, spaces."""
    if not s.chance(0.08):
        return ct
    return s.pick((ct + "; charset=utf-8", ct + ";charset=UTF-8", ct.title(), ct.upper() + " ; charset=utf-8"))


class Asm:
    """Reassembles frames."""

    def __init__(self) -> None:
        self.buf = bytearray()
        self.total = 0

    def feed(self, data: bytes) -> list:
        self.buf += data
        self.total += len(data)
        out = []
        while len(self.buf) >= 5:
            flags, n = struct.unpack_from(">BI", self.buf, 0)
            if len(self.buf) < 5 + n:
                break
            out.append((flags, bytes(self.buf[5 : 5 + n])))
            del self.buf[: 5 + n]
        return out


def call_of(headers) -> int:
    for k, v in headers:
        if k == "x-call-id":
            try:
                return int(v)
            except ValueError:
                return -1
    return -1


class Disconnected(Exception):
    pass


class ReqInfo:
    """What a request says, according to the documents."""

    def __init__(self, method: str, path: str, query: str, headers: list) -> None:
        h = wire.multi(headers)
        self.h = h
        self.method = path.rsplit("/", 1)[-1]
        ct = (h.get("content-type") or [""])[0].partition(";")[0].strip().lower()
        self.get = method == "GET"
        self.problem = None
        if self.get:
            q = urllib.parse.parse_qs(query, keep_blank_values=True, encoding="latin-1")
            self.protocol, self.stream = "connect", False
            self.codec = q.get("encoding", ["?"])[0]
            self.enc = q.get("compression", ["identity"])[0]
            m = q.get("message", [""])[0]
            self.message = messages.b64d(m.replace("-", "+").replace("_", "/")) if q.get("base64", ["0"])[0] == "1" else m.encode("latin-1")
            if q.get("connect") != ["v1"]:
                self.problem = "GET without connect=v1"
            acc = "accept-encoding"
        elif ct.startswith("application/connect+"):
            self.protocol, self.stream, self.codec = "connect", True, ct[len("application/connect+"):]
            self.enc = (h.get("connect-content-encoding") or ["identity"])[0]
            acc = "connect-accept-encoding"
        elif ct.startswith("application/grpc-web"):
            self.protocol, self.stream = "grpc_web", True
            self.codec = ct.partition("+")[2] or "proto"
            self.enc = (h.get("grpc-encoding") or ["identity"])[0]
            acc = "grpc-accept-encoding"
        elif ct.startswith("application/grpc"):
            self.protocol, self.stream = "grpc", True
            self.codec = ct.partition("+")[2] or "proto"
            self.enc = (h.get("grpc-encoding") or ["identity"])[0]
            acc = "grpc-accept-encoding"
            if h.get("te") != ["trailers"]:
                self.problem = "gRPC request without te: trailers"
        else:
            self.protocol, self.stream, self.codec = "connect", False, ct[len("application/"):]
            self.enc = (h.get("content-encoding") or ["identity"])[0]
            acc = "accept-encoding"
        if self.protocol == "connect" and not self.get and h.get("connect-protocol-version") != ["1"]:
            self.problem = "Connect request without connect-protocol-version: 1"
        self.accept = [a.strip() for v in h.get(acc, []) for a in v.split(",") if a.strip()]

    @property
    def timeout_ms(self) -> float | None:
        """The timeout on the wire in ms, None if absent; ValueError if malformed."""
        if self.protocol == "connect":
            v = self.h.get("connect-timeout-ms")
            if v is None:
                return None
            if len(v) != 1 or not v[0].isdigit() or len(v[0]) > 10:
                raise ValueError(v)
            return float(v[0])
        v = self.h.get("grpc-timeout")
        if v is None:
            return None
        if len(v) != 1 or not v[0][:-1].isdigit() or len(v[0]) > 9:
            raise ValueError(v)
        unit = {"H": 3.6e6, "M": 6e4, "S": 1e3, "m": 1.0, "u": 1e-3, "n": 1e-6}
        if v[0][-1] not in unit:
            raise ValueError(v)
        return int(v[0][:-1]) * unit[v[0][-1]]


class RespStyle:
    """Legal variations of a response; drawn once per call, 0 being the plain form."""

    def __init__(self, s: Stream, info: ReqInfo, garble=()) -> None:
        self.s = s
        self.info = info
        cands = ["identity"] + [a for a in info.accept if a in ("gzip", "br", "zstd")]
        self.enc = s.pick(cands)
        self.declare_identity = s.chance(0.5)
        self.var = s.int(8)
        self.trailers_only = s.chance(0.7)
        self.json_style = s.int(8)
        self.wmeta = s.int(4)
        self.g = dict(garble)
        self.nth = 0
        if "msg" in self.g and self.g["msg"][1] in ("zip-identity", "zip-garbage", "zip-cut") and info.stream:
            self.enc = "identity" if self.g["msg"][1] == "zip-identity" else s.pick(cands[1:] or ["gzip"])

    def compress(self, payload: bytes) -> tuple[int, bytes]:
        if self.enc == "identity" or self.s.chance(0.25):
            return 0, payload
        return 1, wire.compress(self.enc, payload, self.s.int(4))

    def message(self, d: dict) -> bytes:
        p = messages.encode("Rep", d, self.info.codec, self.json_style)
        k, how = self.g.get("msg", (-1, ""))
        if k == self.nth:
            self.nth += 1
            if how.startswith("undecodable"):
                p = b"{" if self.info.codec == "json" else b"\xff\xff\xff"
            if self.info.stream:
                if how.startswith("flag"):
                    f, p = self.compress(p)
                    return wire.frame(f | int(how[4:], 16), p)
                if how == "zip-identity":
                    return wire.frame(1, p)
                if how == "zip-cut":
                    p = wire.compress(self.enc, p, self.s.int(4))
                    return wire.frame(1, p[:max(1, len(p) * 2 // 3)])
                if how == "zip-garbage":
                    return wire.frame(1, b"\x1f\x8bno such thing")
        else:
            self.nth += 1
        if self.info.stream:
            return wire.frame(*self.compress(p))
        return wire.compress(self.enc, p, self.s.int(4))

    def head(self, hdrs: list) -> list:
        i = self.info
        if not i.stream:
            out = [("content-type", dressed("application/" + i.codec, self.s))]
            if self.enc != "identity" or self.declare_identity:
                out.append(("content-encoding", self.enc))
        else:
            pre = {"connect": "application/connect+", "grpc": "application/grpc+", "grpc_web": "application/grpc-web+"}[i.protocol]
            out = [("content-type", pre + i.codec)]
            if i.protocol != "connect" and i.codec == "proto" and self.var & 4:
                out = [("content-type", pre[:-1])]
            name = "connect-content-encoding" if i.protocol == "connect" else "grpc-encoding"
            if self.enc != "identity" or self.declare_identity:
                out.append((name, self.enc))
        if "ctype" in self.g:
            out = [(k, v) for k, v in out if k != "content-type"]
            if self.g["ctype"] is not None:
                out.append(("content-type", self.g["ctype"]))
        if "encoding" in self.g:
            out = [(k, v) for k, v in out if not k.endswith("-encoding")]
            out.append(("content-encoding" if not i.stream else "connect-content-encoding" if i.protocol == "connect" else
                        "grpc-encoding", self.g["encoding"]))
        return out + [(k.lower(), v) for k, v in hdrs]

    def end_frame(self, err, trailers: list) -> bytes:
        """Connect end-of-stream or gRPC-Web trailer frame."""
        if "end" in self.g:
            how = self.g["end"]
            if self.info.protocol == "connect":
                p, flag = BAD_ENDS[how % len(BAD_ENDS)], 2
            else:
                p, flag = BAD_BLOCKS[how % len(BAD_BLOCKS)], 0x80
            f, p = self.compress(p)
            return wire.frame(f | flag, p)
        if self.info.protocol == "connect":
            d: dict = {}
            if trailers:
                md: dict = {}
                for k, v in trailers:
                    md.setdefault(k, []).append(v)
                d["metadata"] = md
            if err is not None:
                d["error"] = wire.error_json(err, self.var)
            elif self.var & 1:
                d["metadata"] = d.get("metadata", {})
            p = json.dumps(d, indent=1 if self.json_style & 2 else None).encode()
            f, p = self.compress(p)
            return wire.frame(f | 2, p)
        lines = wire.grpc_status_headers(err, trailers, self.var)
        if self.wmeta & 1:
            lines = lines[len(trailers):] + list(trailers)
        sep = ":" if self.wmeta & 2 else ": "
        p = "".join(f"{k}{sep}{v}\r\n" for k, v in lines).encode()
        f, p = self.compress(p)
        return wire.frame(f | 0x80, p)


#: broken or unusual Connect end-of-stream messages
BAD_ENDS = [b"", b"nope", b"[]", b"null", b"3", b"\xff\xfe{}", b'{"error":5}', b'{"error":"x"}', b'{"error":[]}', b'{"error":{}}',
            b'{"error":{"code":5}}', b'{"error":{"code":"nope","message":"m"}}', b'{"error":{"message":"m"}}',
            b'{"error":{"code":"aborted","details":5}}', b'{"error":{"code":"aborted","details":["x"]}}',
            b'{"error":{"code":"aborted","details":[{"type":1,"value":2}]}}',
            b'{"error":{"code":"aborted","details":[{"type":"a.B","value":"!"}]}}',
            b'{"error":{"code":"aborted","details":[{"type":"a.B","value":"A"}]}}',
            b'{"error":{"code":"aborted","details":{"a":1}}}', b'{"error":{"code":["aborted"]}}', b'{"error":{"code":null,"message":null}}',
            b'{"metadata":5}', b'{"metadata":["a"]}', b'{"metadata":{"a":5}}', b'{"metadata":{"a":[5]}}', b'{"metadata":{"a":null}}',
            b'{"metadata":{"a":["1"]},"error":7}', b"{", b'"error"', b"true"]
#: broken gRPC-Web trailer blocks
BAD_BLOCKS = [b"", b"\r\n", b"grpc-status", b"no colon here\r\n", b"grpc-status: 0\r\nno colon", b"grpc-status: x\r\n", b"grpc-status:\r\n",
              b"grpc-status: 99\r\n", b"grpc-status: -1\r\n", b"x: \xff\xfe\r\ngrpc-status: 0\r\n", b"grpc-status: 5\r\ngrpc-message: \xff\r\n",
              b"grpc-message: x\r\n", b"\xff\xff\xff", b"grpc-status: 3\r\ngrpc-status-details-bin: !!!\r\n",
              b"grpc-status: 3\r\ngrpc-status-details-bin: A\r\n", b"grpc-status: 3\r\ngrpc-status-details-bin: ////\r\n",
              b"grpc-status: 3\r\ngrpc-message: %zz%e2%28\r\n", b": 0\r\n", b"grpc-status 0\r\n", b"GRPC-STATUS: 7\r\n"]
#: the same for HTTP trailers
BAD_TRAILERS = [[], [("x", "y")], [("grpc-status", "x")], [("grpc-status", "")], [("grpc-status", "99")], [("grpc-status", "-1")],
                [("grpc-message", "m")], [("grpc-status", "3"), ("grpc-status-details-bin", "!!!")],
                [("grpc-status", "3"), ("grpc-status-details-bin", "A")], [("grpc-status", "3"), ("grpc-status-details-bin", "////")],
                [("grpc-status", "3"), ("grpc-message", "%zz%e2%28")], [("grpc-status", "4294967296")]]


def wire_err(err):
    if err is None:
        return None
    if err[0] == "connect":
        return tuple(err[1:])
    return ("unknown", err[2], [])


class FakeASGI:
    """A server that follows the script of each call; an ASGI callable."""

    def __init__(self, w) -> None:
        self.w = w

    async def __call__(self, scope, receive, send) -> None:
        w = self.w
        headers = [(k.decode(), v.decode()) for k, v in scope["headers"]]
        cid = call_of(headers)
        from .aworld import sim_conn

        rec = HandlerRec(call=cid, conn=sim_conn.get(), t_start=w.clock.now, fake=True, service="fake")
        rec.req_headers = headers
        w.handlers.append(rec)
        info = ReqInfo(scope["method"], scope["path"], scope["query_string"].decode(), headers)
        rec.bad += [info.problem] if info.problem else []
        w.trace(f"h{cid}", "start")
        try:
            rec.ctx.append((w.clock.now, info.timeout_ms))
        except ValueError as e:
            rec.bad.append(f"malformed timeout header {e}")
        if not 0 <= cid < len(w.spec.calls):
            rec.bad.append("request without its call id header")
            return
        run = _AsyncRun(w, rec, w.spec.calls[cid], info, receive, send)
        try:
            await run.go()
        except Disconnected:
            rec.end = ("closed",)
        except asyncio.CancelledError:
            rec.end = ("cancelled",)
            raise
        except OSError:
            rec.end = ("closed",)
        finally:
            rec.end_t = rec.cleanup_t = w.clock.now
            rec.cleanup_done = True
            w.trace(f"h{cid}", "end", rec.end and rec.end[0])
            rec.end_seq = rec.cleanup_seq = len(w.trace.ev)


class _AsyncRun:
    def __init__(self, w, rec, spec, info, receive, send) -> None:
        self.w, self.rec, self.spec, self.info = w, rec, spec, info
        self.receive, self.send = receive, send
        self.asm = Asm()
        self.queue: list = []
        self.eof = False
        self.st = RespStyle(Stream(w.c, f"k.c{spec.i}"), info, spec.garble)
        self.hdrs: list = []
        self.trls: list = []
        self.started = False

    async def _chunk(self) -> bytes | None:
        m = await self.receive()
        if m["type"] == "http.disconnect":
            self.rec.req_end, self.rec.req_end_t = ("error", "disconnect"), self.w.clock.now
            raise Disconnected
        if not m.get("more_body", False):
            self.eof = True
        return m.get("body", b"")

    async def _one(self) -> bool:
        """Read one request message."""
        rec, w = self.rec, self.w
        rec.asked.append(w.clock.now)
        while not self.queue and not self.eof:
            for flags, p in self.asm.feed(await self._chunk()):
                self.queue.append((flags, p))
        if not self.queue:
            if self.asm.buf:
                rec.req_end, rec.req_end_t = ("error", "truncated"), w.clock.now
                raise Disconnected
            if rec.req_end is None:
                rec.req_end, rec.req_end_t = ("eof",), w.clock.now
            return False
        flags, p = self.queue.pop(0)
        try:
            if flags & ~1:
                raise wire.WireError(f"request frame flags {flags}")
            if flags & 1:
                if self.info.enc in ("", "identity"):
                    raise wire.WireError("compressed frame without encoding")
                p = wire.decompress(self.info.enc, p)
            rec.reqs.append((w.clock.now, messages.decode("Req", p, self.info.codec)))
        except (wire.WireError, BadMessage) as e:
            rec.bad.append(str(e))
        w.trace(f"h{rec.call}", "req")
        return True

    async def _unary_request(self) -> None:
        rec, w, i = self.rec, self.w, self.info
        if i.get:
            data = i.message
        else:
            data = b""
            while not self.eof:
                data += await self._chunk()
        try:
            rec.reqs.append((w.clock.now, messages.decode("Req", wire.decompress(i.enc, data) if data or i.enc == "identity" else b"", i.codec)))
        except (wire.WireError, BadMessage) as e:
            rec.bad.append(str(e))

    async def go(self) -> None:
        rec, spec, w = self.rec, self.spec, self.w
        if not self.info.stream:
            await self._unary_request()
        elif not spec.req_stream:
            while await self._one():
                pass
            if len(rec.reqs) != 1:
                rec.bad.append(f"{len(rec.reqs)} messages in a single-message request")
        err = None
        unary_rep = not spec.rep_stream
        for op in spec.ops:
            k = op[0]
            if k == "sleep":
                await sleep(op[1])
            elif k == "recv":
                await self._one()
            elif k == "recvall":
                while await self._one():
                    pass
            elif k == "hdr":
                if not self.started:
                    self.hdrs.append((op[1], op[2]))
                    rec.headers_set.append((op[1].lower(), op[2]))
            elif k == "trl":
                self.trls.append((op[1].lower(), op[2]))
                rec.trailers_set.append((op[1].lower(), op[2]))
            elif k == "ctx":
                pass
            elif k == "send":
                await self._send(spec.reps[op[1]])
            elif k == "raise":
                err = op[1]
                rec.end = ("raised", op[1])
                break
            elif k in ("return", "end"):
                break
        g = self.st.g
        if "status" in g:
            await self._other_status(*g["status"])
            return
        if unary_rep and err is None:
            if self.info.stream:
                for _ in range({"none": 0, "two": 2, "many": 5}.get(g.get("count"), 1)):
                    await self._send(spec.reps[0])
            else:
                rec.sends.append((w.clock.now, spec.reps[0]))
                body = self.st.message(spec.reps[0])
                rec.end = ("ended",)
                await self.send({"type": "http.response.start", "status": 200, "headers": _b(
                    self.st.head(self.hdrs) + [("trailer-" + k, v) for k, v in self.trls])})
                await self.send({"type": "http.response.body", "body": body})
                return
        if err is None:
            rec.end = ("ended",)
        we = wire_err(err)
        i = self.info
        if not i.stream:
            hs = [("content-type", g.get("ctype", dressed("application/json", self.st.s)) or "")] + self.hdrs + [("trailer-" + k, v) for k, v in self.trls]
            body = json.dumps(wire.error_json(we, self.st.var)).encode()
            if "end" in g:
                body = BAD_ENDS[g["end"] % len(BAD_ENDS)].replace(b'{"error":', b"").replace(b"}}", b"}")
            await self.send({"type": "http.response.start", "status": wire.CONNECT_HTTP[we[0]], "headers": _b(hs)})
            await self.send({"type": "http.response.body", "body": body})
            return
        if i.protocol == "grpc":
            if "early" in g and self.started:
                tr = []
            elif "end" in g:
                tr = BAD_TRAILERS[g["end"] % len(BAD_TRAILERS)]
            else:
                tr = wire.grpc_status_headers(we, self.trls, self.st.var)
            if not self.started and self.st.trailers_only and "end" in g:
                await self.send({"type": "http.response.start", "status": 200, "headers": _b(self.st.head(self.hdrs) + tr)})
                await self.send({"type": "http.response.body", "body": b""})
                return
            if not self.started and self.st.trailers_only:
                hs = self.st.head(self.hdrs) + wire.grpc_status_headers(we, self.trls, self.st.var)
                await self.send({"type": "http.response.start", "status": 200, "headers": _b(hs)})
                await self.send({"type": "http.response.body", "body": b""})
                return
            await self._start()
            await self.send({"type": "http.response.body", "body": b"", "more_body": False})
            await self.send({"type": "http.response.trailers", "headers": _b(tr), "more_trailers": False})
            return
        if i.protocol == "grpc_web" and not self.started and self.st.trailers_only and self.st.var & 2:
            hs = self.st.head(self.hdrs) + wire.grpc_status_headers(we, self.trls, self.st.var)
            await self.send({"type": "http.response.start", "status": 200, "headers": _b(hs)})
            await self.send({"type": "http.response.body", "body": b""})
            return
        await self._start()
        if "early" in g:
            await self.send({"type": "http.response.body", "body": b"", "more_body": False})
            return
        if "after" in g:
            how, apart = g["after"]
            first = self.st.end_frame(we, self.trls)
            more = (self.st.message(spec.reps[0]) if how == "message" and spec.reps else wire.frame(0, b"") if how == "message" else
                    first if how == "end" else self.st.end_frame(("aborted", "second thoughts", []), []) if how == "error" else b"\x00\x00")
            if apart:
                await self.send({"type": "http.response.body", "body": first, "more_body": True})
                if apart > 1:
                    await sleep(0.01)
                first = b""
            await self.send({"type": "http.response.body", "body": first + more, "more_body": False})
            return
        await self.send({"type": "http.response.body", "body": self.st.end_frame(we, self.trls), "more_body": False})

    async def _other_status(self, status: int, how: int) -> None:
        """An HTTP response that is no RPC response, or an odd one."""
        self.rec.end = ("ended",)
        body, ct = [(b"", None), (b"<html>oops</html>", "text/html"), (b'{"code":"aborted","message":"m"}', "application/json"),
                    (b"{}", "application/json"), (b"[1]", "application/json"), (b'{"code":5,"message":{}}', "application/json; charset=utf-8"),
                    (b"\xff\xfe", "application/json"), (b'{"code":"aborted","details":[{"type":"a.B","value":"!"}]}', "application/json"),
                    (b"null", "application/json")][how]
        if self.started:
            await self.send({"type": "http.response.body", "body": body, "more_body": False})
            if self.info.protocol == "grpc":
                await self.send({"type": "http.response.trailers", "headers": [], "more_trailers": False})
            return
        await self.send({"type": "http.response.start", "status": status, "headers": _b([("content-type", ct)] if ct else [])})
        await self.send({"type": "http.response.body", "body": body})

    async def _start(self) -> None:
        if not self.started:
            self.started = True
            hs = self.st.head(self.hdrs)
            if "early" in self.st.g and self.info.protocol != "connect":
                hs.append(("grpc-status", "0"))   # where it means nothing, as messages follow
            await self.send({"type": "http.response.start", "status": 200, "headers": _b(hs),
                             "trailers": self.info.protocol == "grpc"})

    async def _send(self, d) -> None:
        self.rec.sends.append((self.w.clock.now, d))
        self.w.trace(f"h{self.rec.call}", "send")
        await self._start()
        await self.send({"type": "http.response.body", "body": self.st.message(d), "more_body": True})


def _b(pairs):
    return [(k.lower().encode(), v.encode()) for k, v in pairs]


# ---- the fake client -------------------------------------------------------------------

GRPC_UNITS = {"m": 1.0, "S": 1e3, "M": 6e4, "H": 3.6e6, "u": 1e-3, "n": 1e-6}


class FakeRequest:
    def __init__(self, method, url, headers, content) -> None:
        from pyqwest import Headers as HTTPHeaders

        self.method, self.url, self.content = method, url, content
        self.headers = HTTPHeaders(headers)


class ReqBuilder:
    """Builds a legal request for a call, with legal variations."""

    def __init__(self, c, rec) -> None:
        spec, cfg = rec.spec, rec.cfg
        self.rec = rec
        self.s = s = Stream(c, f"k.c{spec.i}")
        self.protocol = cfg.protocol
        self.codec = cfg.codec
        self.enc = cfg.send_comp or "identity"
        self.get = spec.kind == "get"
        self.stream = cfg.protocol != "connect" or spec.kind not in ("unary", "get")
        self.accept = ["gzip"] if cfg.accept is None else list(cfg.accept)
        self.json_style = s.int(8)
        self.var = s.int(8)
        self.wire_timeout_ms = None
        h = [(k, v) for k, v in spec.headers]
        ms = cfg.timeout_ms if spec.timeout_ms is None else spec.timeout_ms
        if self.protocol == "connect":
            if self.stream:
                h.append(("content-type", dressed("application/connect+" + self.codec, s)))
                h.append(("connect-accept-encoding", ",".join(self.accept)))
                if self.enc != "identity" or self.var & 1:
                    h.append(("connect-content-encoding", self.enc))
            else:
                if not self.get:
                    h.append(("content-type", dressed("application/" + self.codec, s)))
                    if self.enc != "identity" or self.var & 1:
                        h.append(("content-encoding", self.enc))
                h.append(("accept-encoding", ", ".join(self.accept) if self.var & 2 else ",".join(self.accept)))
            if not (self.get and self.var & 4):
                h.append(("connect-protocol-version", "1"))
            if ms is not None and len(str(ms)) <= 10:
                h.append(("connect-timeout-ms", str(ms)))
                self.wire_timeout_ms = float(ms)
        else:
            base = "application/grpc" if self.protocol == "grpc" else "application/grpc-web"
            h.append(("content-type", base if self.codec == "proto" and self.var & 2 else f"{base}+{self.codec}"))
            if self.protocol == "grpc":
                h.append(("te", "trailers"))
            h.append(("grpc-accept-encoding", ",".join(self.accept)))
            if self.enc != "identity" or self.var & 1:
                h.append(("grpc-encoding", self.enc))
            if ms is not None:
                u = s.pick(("m", "S", "u", "n", "M", "H"))
                v = int(ms / GRPC_UNITS[u])
                if v * GRPC_UNITS[u] != ms or v > 99999999:
                    u, v = next((u, int(ms / GRPC_UNITS[u])) for u in "mSMH" if ms / GRPC_UNITS[u] < 100000000)
                if ms < 90000 and s.chance(0.2):      # a fraction of a millisecond more
                    u, v = "u", ms * 1000 + s.pick((1, 400, 999))
                if s.chance(0.1):
                    v = f"{v:08d}"
                h.append(("grpc-timeout", f"{v}{u}"))
                self.wire_timeout_ms = int(v) * GRPC_UNITS[u]
        if s.chance(0.06):     # header values are opaque: not all of them are valid UTF-8
            h.append(s.pick((("referer", "caf\u00e9"), ("cookie", "a=\u00fc\u00ff"), ("user-agent", "\u00b5/1"))))
        self.headers = h

    def message(self, d: dict) -> bytes:
        p = messages.encode("Req", d, self.codec, self.json_style)
        if not self.stream:
            return wire.compress(self.enc, p, self.s.int(4)) if p or self.var & 1 else p
        if self.enc == "identity" or self.s.chance(0.25):
            return wire.frame(0, p)
        return wire.frame(1, wire.compress(self.enc, p, self.s.int(4)))

    def url(self) -> str:
        u = self.rec.cfg.url + "/sim.v1.SimService/" + self.rec.spec.method
        if self.get:
            p = messages.encode("Req", self.rec.spec.reqs[0], self.codec, self.json_style)
            q = {"connect": "v1", "encoding": self.codec}
            if self.enc != "identity":
                q["compression"] = self.enc
                p = wire.compress(self.enc, p, self.s.int(4)) if p or self.var & 1 else p
            if self.var & 2:
                q["message"] = p
            else:
                b = base64.urlsafe_b64encode(p).decode()
                q["message"] = b if self.var & 1 else b.rstrip("=")
                q["base64"] = "1"
            u += "?" + urllib.parse.urlencode(q)
        return u


class RespReader:
    """Incremental client-side reading through the model."""

    def __init__(self, rec, protocol, stream, codec) -> None:
        self.rec, self.protocol, self.stream, self.codec = rec, protocol, stream, codec
        self.asm = Asm()
        self.body = bytearray()
        self.enc = "identity"
        self.ended = False
        self.result = None

    def head(self, status, headers) -> None:
        self.status, self.headers = status, headers
        h = wire.multi(headers)
        self.enc = (h.get("connect-content-encoding" if self.protocol == "connect" else "grpc-encoding") or ["identity"])[0]

    def feed(self, data: bytes) -> list:
        """-> newly received plain messages"""
        self.body += data
        out = []
        if not self.stream or self.status != 200:
            return out
        for flags, p in self.asm.feed(data):
            if self.ended:
                self.rec.wire_problems.append("data after the end marker")
                continue
            if flags & (2 if self.protocol == "connect" else 0x80 if self.protocol == "grpc_web" else 0):
                self.ended = True
                continue
            try:
                if flags & 1:
                    p = wire.decompress(self.enc, p)
                out.append(messages.decode("Rep", p, self.codec))
            except (wire.WireError, BadMessage) as e:
                self.rec.wire_problems.append(str(e))
        return out

    def finish(self, trailers, eof: bool):
        """-> outcome"""
        r = wire.parse_response(self.protocol, self.stream, self.status, self.headers, bytes(self.body), trailers, eof)
        if not self.stream and self.status == 200 and eof:
            # the transport has already removed the content encoding
            r.problems.clear()
            r.messages = [bytes(self.body)]
        self.rec.raw = r
        self.rec.wire_problems += r.problems
        h = dict(r.headers)
        self.rec.md_headers = [(k, v) for k, vs in h.items() for v in vs]
        self.rec.md_trailers = [(k, v) for k, vs in r.trailers.items() for v in vs]
        if not r.complete:
            return ("connect", "unknown", "model: incomplete response", []) if r.http_error is None else (
                "connect", wire.http_code(r.http_error), f"model: http {r.http_error}", [])
        if r.error is not None:
            return ("connect", *r.error)
        if r.http_error is not None:
            return ("connect", wire.http_code(r.http_error), f"model: http {r.http_error}", [])
        if not self.stream:
            try:
                self.rec.recv.append((self.rec.clock_now(), messages.decode("Rep", r.messages[0], self.codec)))
            except BadMessage as e:
                self.rec.wire_problems.append(str(e))
        if r.extra:
            self.rec.wire_problems.append("data after the end")
        return ("ok",)


def mangled(b: ReqBuilder, how: list, method, url, headers, body):
    """The request, made malformed."""
    for kind, v in how:
        if kind == "path":
            url = b.rec.cfg.url + v + ("?" + url.split("?", 1)[1] if "?" in url else "")
        elif kind == "method":
            method = v
        elif kind == "query":
            url = url.split("?")[0] + "?" + v
        elif kind == "body":
            body = bad_body(v, body if isinstance(body, bytes) else wire.frame(0, b"\x08\x01"), b.stream, b.enc)
        elif kind == "extra":
            headers = [*headers, v]
        elif kind == "asget":
            q = {"connect": "v1", "encoding": b.codec, "base64": "1"}
            if v != "nothing":
                q["message"] = base64.urlsafe_b64encode(messages.encode("Req", b.rec.spec.reqs[0], b.codec, b.json_style)
                                                        if b.rec.spec.reqs else b"").decode()
            method, url, body = "GET", url.split("?")[0] + "?" + urllib.parse.urlencode(q), b""
            if v != "typed":
                headers = [(k, x) for k, x in headers if "content-" not in k]
        else:
            prefix = "connect-" if b.stream else ""
            name = {"ctype": "content-type", "version": "connect-protocol-version",
                    "encoding": prefix + "content-encoding" if b.protocol == "connect" else "grpc-encoding",
                    "accept": prefix + "accept-encoding" if b.protocol == "connect" else "grpc-accept-encoding",
                    "timeout": "connect-timeout-ms" if b.protocol == "connect" else "grpc-timeout"}[kind]
            headers = [(k, x) for k, x in headers if k != name]
            if v is not None:
                headers.append((name, v))
    return method, url, headers, body


def bad_body(how: str, body: bytes, framed: bool, enc: str) -> bytes:
    if how == "empty":
        return b""
    if how == "garbage":
        return b"\x13\x37garbage that is no message\xff\xfe"
    if how == "huge":
        return b"\x00\xff\xff\xff\xff" + body
    if how == "flag":
        return bytes([body[0] ^ 1]) + body[1:] if body else b"\x01"
    if how == "badzip":
        return wire.frame(1, b"not compressed at all") if framed else b"not compressed at all"
    if how == "badproto":
        return wire.frame(0, b"\xff\xff\xff") if framed else b"\xff\xff\xff"
    if how == "twice":
        return body + body
    if how == "partial":
        return body + b"\x00\x00"
    if how == "end":
        return body + wire.frame(2, b"{}")
    if how == "short":
        return body[:-1]
    if how == "cutzip":    # whole frames, but what they hold was cut before it was framed
        if not framed:
            return body[:max(1, len(body) * 2 // 3)]
        return b"".join(wire.frame(flags, p[:max(1, len(p) * 2 // 3)]) for flags, p, _ in wire.split_frames(body)[0])
    if how in ("unzip", "zipplus", "twozips") and enc != "identity":
        def other(p: bytes) -> bytes:
            if how == "unzip":      # said to be compressed, but it is not
                return wire.decompress(enc, p)
            if how == "zipplus":    # and more behind it
                return p + b"more"
            q = wire.decompress(enc, p)     # in two parts, which some formats allow
            return b"".join(wire.compress(enc, x, 1) for x in (q[:len(q) // 2], q[len(q) // 2:]))
        if not framed:
            return other(body) if body else body
        return b"".join(wire.frame(flags, other(p) if flags & 1 else p) for flags, p, _ in wire.split_frames(body)[0])
    if how == "ff":
        return b"\xff" * 5000
    return bytes(20)


async def drive_async(w, rec) -> None:
    spec, cfg = rec.spec, rec.cfg
    b = ReqBuilder(w.c, rec)
    rec.builder = b
    rec.clock_now = lambda: w.clock.now

    async def content():
        rec.src_starts += 1
        rec.src_state = "running"
        try:
            for j, d in enumerate(spec.reqs):
                if spec.source_fail == j:
                    rec.src_state = "failed"
                    raise RuntimeError("source failed")
                delay, need = spec.req_plan[j]
                while len(rec.recv) < need:
                    await w.gate(spec.i).wait()
                if delay:
                    await sleep(delay)
                rec.sent.append((w.clock.now, d))
                yield b.message(d)
            if spec.source_fail is not None:
                rec.src_state = "failed"
                raise RuntimeError("source failed")
            rec.src_state = "ended"
        except (GeneratorExit, asyncio.CancelledError):
            rec.src_state = "closed"
            raise

    if b.get:
        body = b""
        rec.sent.append((w.clock.now, spec.reqs[0]))
    elif not b.stream:
        body = b.message(spec.reqs[0])
        rec.sent.append((w.clock.now, spec.reqs[0]))
    elif spec.req_stream and not any(need for _, need in spec.req_plan) and spec.source_fail is None \
            and Stream(w.c, f"whole.c{spec.i}").chance(0.4):
        # a client, or something between, that has all of the stream before it sends it, and so knows its length
        body = b"".join(b.message(d) for d in spec.reqs)
        rec.sent += [(w.clock.now, d) for d in spec.reqs]
        rec.src_starts, rec.src_state = 1, "ended"
    elif spec.req_stream:
        body = content()
    else:
        rec.sent.append((w.clock.now, spec.reqs[0]))
        body = b.message(spec.reqs[0])
    conn = w.open(FakeRequest(*mangled(b, spec.mangle, "GET" if b.get else "POST", b.url(), b.headers, body)))
    conn.rec.fake = True
    rd = RespReader(rec, b.protocol, b.stream, b.codec)
    eof = False
    try:
        await conn.execute()
        rd.head(*conn.head)
        k = 0
        pending: list = []
        while True:
            if spec.close_after is not None and spec.rep_stream and k >= spec.close_after:
                rec.close_t = w.clock.now
                rec.outcome = ("closed",)
                return
            while not pending:
                try:
                    chunk = await conn.next_chunk()
                except StopAsyncIteration:
                    eof = True
                    break
                pending += rd.feed(chunk)
            if not pending:
                break
            rec.recv.append((w.clock.now, pending.pop(0)))
            w.trace(f"call{spec.i}", "recv")
            w.gate(spec.i).notify()
            d = spec.recv_delays[k] if k < len(spec.recv_delays) else 0
            if d:
                await sleep(d)
            k += 1
        rec.outcome = rd.finish(list(conn.resp_trailers.items()), eof)
    except Exception as e:
        rec.outcome = ("connect", "unavailable", f"model: {type(e).__name__}", [])
    finally:
        await conn.client_close("fake")
