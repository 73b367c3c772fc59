"""C27: which requests a service may be given, read from the protocol documents alone."""
from __future__ import annotations

import base64
import re
import urllib.parse

from . import messages, wire
from .core import short
from .messages import BadMessage
from .oracles import Run, _d, is_stream_wire

KINDS = {"Unary": "unary", "UnaryGet": "get", "ClientStream": "cs", "ServerStream": "ss", "Bidi": "bidi"}


class Verdict:
    """What is wrong with a request, and how many messages of it may be handed over."""

    def __init__(self, R: Run, rec, c) -> None:
        self.why: list = []          # (what is wrong, the statuses that say so)
        self.messages: list | None = None    # leading valid messages of a request stream
        self.broken = False          # a message of the request stream is none
        self.clear = True            # path, method and content type are beyond doubt
        self.h = wire.multi(c.headers)
        u = urllib.parse.urlsplit(c.url)
        base = rec.cfg.mount[0] + "/sim.v1.SimService/"
        path = urllib.parse.unquote(u.path)
        name = path[len(base):] if path.startswith(base) else None
        if name not in KINDS:
            self.no(f"there is nothing at {path}", 404)
            return
        kind = KINDS[name]
        self.stream_req = kind in ("cs", "bidi")
        ct = self.one("content-type")
        proto = ("grpc" if ct == "application/grpc" or ct.startswith("application/grpc+") else
                 "grpc_web" if ct == "application/grpc-web" or ct.startswith("application/grpc-web+") else "connect")
        get = c.method == "GET"
        if c.method != "POST" and not get or get and kind != "get" or get and proto != "connect":
            self.no(f"{c.method} for {name} of {proto}", None if proto == "grpc" else 405)
        if get and proto == "connect":
            self.query(R, u.query)
            self.connect()
            return
        stream = is_stream_wire(proto, "unary" if kind == "get" else kind)
        codec = self.codec(proto, stream, ct)
        if codec is None:
            # A server that cannot send trailers fails before it looks at what follows application/grpc.
            self.no(f"content type {ct!r}", None if proto == "grpc" else 415)
        (self.connect if proto == "connect" else self.grpc)()
        if codec is None:
            return
        enc = self.one({("connect", False): "content-encoding", ("connect", True): "connect-content-encoding"}.get(
            (proto, stream), "grpc-encoding")).strip().lower() or "identity"
        have = {"gzip"} if R.spec.server.comps is None else set(R.spec.server.comps)
        if enc not in have | {"identity"}:
            if stream and self.stream_req:
                self.messages, self.broken = [], False
            self.no(f"encoding {enc!r}, the server has {sorted(have)}", soft=stream and self.stream_req)
            return
        body, whole = bytes(c.up_delivered), c.up_delivered_end == "eof"
        if not stream:
            if whole:
                self.message(enc, body, codec)
            return
        frames, off = wire.split_frames(body)
        self.messages = []
        for flags, p, _ in frames:
            try:
                if flags & ~1 or flags & 1 and enc == "identity":
                    raise wire.WireError(f"a message with flags {flags}")
                self.messages.append(messages.decode("Req", wire.decompress(enc, p) if flags & 1 and p else p, codec))
            except (wire.WireError, BadMessage) as e:
                self.broken = str(e) or "broken"
                break
        if not self.stream_req:
            if self.broken:
                self.no(self.broken)
            elif whole and (len(frames) != 1 or off < len(body)):
                self.no(f"{len(frames)} messages and {len(body) - off} bytes for a call that takes one")
        elif whole and off < len(body) and not self.broken:
            self.broken = "the last message is incomplete"

    def no(self, what: str, status: int | None = None, soft: bool = False) -> None:
        if soft:
            self.broken = what     # the service may run, but there are no messages
        else:
            self.why.append((what, status))

    def one(self, name: str) -> str:
        v = self.h.get(name)
        return v[0] if v else ""

    def codec(self, proto: str, stream: bool, ct: str):
        if proto != "connect":
            prefix = "application/grpc" if proto == "grpc" else "application/grpc-web"
            sub = "proto" if ct == prefix else ct[len(prefix) + 1:]
            return sub if sub in ("proto", "json") else None
        t = ct.split(";")[0].strip().lower()
        prefix = "application/connect+" if stream else "application/"
        if not t.startswith("application/"):
            self.clear = False
            t = prefix + t
        sub = t[len(prefix):] if t.startswith(prefix) else None
        return sub if sub in ("proto", "json") else None

    def connect(self) -> None:
        v = self.h.get("connect-protocol-version")
        if v is not None and v != ["1"]:
            self.no(f"protocol version {v}")
        t = self.one("connect-timeout-ms")
        if re.search(r"[A-Za-z.]", t) or len(t) > 10:
            self.no(f"timeout {t!r}")

    def grpc(self) -> None:
        t = self.one("grpc-timeout")
        if t and (t[-1] not in "HMSmun" or not re.search("[0-9]", t) or re.search(r"[A-Za-z.].", t)
                  or len(t) > 9):
            self.no(f"timeout {t!r}")

    def query(self, R: Run, q: str) -> None:
        ps: dict = {}
        for part in q.split("&"):
            k, _, v = part.partition("=")
            if k:
                ps.setdefault(urllib.parse.unquote_plus(k), []).append(urllib.parse.unquote_to_bytes(v.replace("+", " ")))
        codec = ps.get("encoding", [b""])[0].decode("latin-1")
        if codec not in ("proto", "json"):
            self.no(f"GET with the encoding {codec!r}")
            return
        if "message" not in ps:
            self.no("GET without a message")
            return
        m = ps["message"][0]
        if ps.get("base64", [b""])[0] == b"1":
            m = re.sub(rb"[^A-Za-z0-9_\-+/]", b"", m.split(b"=")[0])
            if len(m) % 4 == 1:
                self.no("GET with a message that is not base64")
                return
            m = base64.b64decode(m.replace(b"-", b"+").replace(b"_", b"/") + b"=" * (-len(m) % 4))
        comp = ps.get("compression", [b"identity"])[0].decode("latin-1").strip().lower() or "identity"
        have = {"gzip"} if R.spec.server.comps is None else set(R.spec.server.comps)
        if comp not in have | {"identity"}:
            self.no(f"GET with the compression {comp!r}")
            return
        self.message(comp, m, codec)

    def message(self, enc: str, body: bytes, codec: str) -> None:
        try:
            self.messages = [messages.decode("Req", wire.decompress(enc, body) if body else body, codec)]
        except (wire.WireError, BadMessage) as e:
            self.no(f"a body that is no message: {e}")


def c27(R: Run):
    if not R.server_real:
        return
    for rec in R.w.calls:
        i = rec.spec.i
        for c in R.conns.get(i, ()):
            if not c.app_started or R.corrupt(i):
                continue
            v = Verdict(R, rec, c)
            what = f"call {i} ({_d(R, i)}{', mangled ' + short(rec.spec.mangle) if rec.spec.mangle else ''}, {c.method} {short(c.url, 120)})"
            hs = [h for h in R.handlers.get(i, ()) if (h.conn or c) is c]
            e, r = R.emitted(i) if c is R.conn(i) else (None, None)
            if v.why:
                if hs:
                    yield "served", f"{what}: the service was called although: {v.why}"
                if e is not None and e.started and e.status == 200 and r is not None and r.complete and r.error is None and r.http_error is None:
                    yield "answered", f"{what}: a success although: {v.why}"
                if e is not None and e.started and len(v.why) == 1 == len(rec.spec.mangle) and v.why[0][1] is not None:
                    st = v.why[0][1]
                    if e.status != st:
                        yield "status", f"{what}: status {e.status}, not {st}: {v.why}"
                    elif st == 405 and not wire.multi(e.headers).get("allow"):
                        yield "status", f"{what}: 405 that does not say what is allowed"
                continue
            if e is not None and v.clear and e.started and not hs and e.status in (404, 405, 415) \
                    and (r is None or r.error is None):
                yield "refused", f"{what}: a valid request got {e.status}"
            if v.messages is None:
                continue
            for h in hs:
                got = [d for _, d in h.reqs]
                if got != v.messages[:len(got)]:
                    yield "handed-over", (f"{what}: the service was given {len(got)} messages, of the request {len(v.messages)} are valid"
                                          f" ({v.broken}); or they differ")
                elif v.broken and h.req_end == ("eof",):
                    yield "ended", f"{what}: the service saw its requests end normally although: {v.broken}"
