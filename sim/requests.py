"""C24 and C26: what clients put on the wire, and the encodings both ends use."""
from __future__ import annotations

import base64
import re
import urllib.parse

from . import messages, wire
from .common import accepts
from .core import short
from .oracles import Run, _d, is_stream_wire

ENC_HEADER = {"connect": "connect-content-encoding", "grpc": "grpc-encoding", "grpc_web": "grpc-encoding"}
ACCEPT_HEADER = {"connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpc_web": "grpc-accept-encoding"}
TIMEOUT = {"connect": ("connect-timeout-ms", r"[0-9]{1,10}"), "grpc": ("grpc-timeout", r"[0-9]{1,8}[HMSmun]"),
           "grpc_web": ("grpc-timeout", r"[0-9]{1,8}[HMSmun]")}
CTYPE = {("connect", False): "application/", ("connect", True): "application/connect+", ("grpc", True): "application/grpc+",
         ("grpc_web", True): "application/grpc-web+"}


def forms(rec):
    proto, kind = rec.cfg.protocol, rec.spec.kind
    stream = is_stream_wire(proto, kind)
    enc_h = ENC_HEADER[proto] if stream else "content-encoding"
    acc_h = ACCEPT_HEADER[proto] if stream else "accept-encoding"
    return proto, kind, stream, enc_h, acc_h


def sent_with(rec) -> str:
    """The encoding this call's messages are configured to be sent with."""
    return "identity" if rec.cfg.send_comp in (None, "identity") else rec.cfg.send_comp


def c26(R: Run):
    """Every request on the wire is a well-formed request of the call's protocol."""
    if not R.client_real:
        return
    for rec in R.w.calls:
        i = rec.spec.i
        for c in R.conns.get(i, ()):
            for cls, m in request(rec, c):
                yield cls, f"call {i} ({_d(R, i)}): {m}"


def request(rec, c):
    proto, kind, stream, enc_h, _ = forms(rec)
    url = urllib.parse.urlsplit(c.url)
    h = wire.multi(c.headers)
    want = rec.cfg.mount[0] + "/sim.v1.SimService/" + rec.spec.method
    if url.path != want or f"{url.scheme}://{url.netloc}" != rec.cfg.origin or url.fragment:
        yield "target", f"sent to {short(c.url)}, not to {want} at {rec.cfg.origin}"
    get = kind == "get"
    if c.method != ("GET" if get else "POST"):
        yield "method", f"method {c.method}"
        return

    def only(name, value):
        got = h.get(name, [])
        if value is None and got or value is not None and got != [value]:
            return f"header {name} is {short(got)}, should be {short(value)}"
        return None

    checks = [only("content-type", None if get else CTYPE[proto, stream] + rec.cfg.codec)]
    if proto == "connect":
        checks.append(only("connect-protocol-version", "1"))
    if proto == "grpc":
        checks.append(only("te", "trailers"))
    for m in checks:
        if m:
            yield "header", m
    mine = wire.multi(rec.spec.headers).get("user-agent")
    if h.get("user-agent", []) != mine if mine else len(h.get("user-agent", [])) != 1:
        yield "header", f"user-agent is {short(h.get('user-agent'))}"
    name, pattern = TIMEOUT[proto]
    t = h.get(name, [])
    if rec.timeout is None and t or len(t) > 1 or any(not re.fullmatch(pattern, v) for v in t):
        yield "timeout", f"{name} is {short(t)} for a timeout of {rec.timeout}"
    for k, vs in h.items():
        if any(ch in v for v in vs for ch in "\r\n\0"):
            yield "header", f"control characters in {k}: {short(vs)}"
    body = bytes(c.up_bytes)
    if get:
        yield from query(rec, url.query, h)
        if body:
            yield "body", f"a GET request with {len(body)} bytes of body"
        return
    if url.query:
        yield "target", f"a POST request with the query {short(url.query)}"
    enc = h.get(enc_h, ["identity"])
    if len(enc) != 1 or enc[0] not in ("identity", sent_with(rec)):
        yield "encoding", f"{enc_h} is {short(enc)}, configured is {sent_with(rec)}"
        return
    whole = c.up_end == "eof"
    if not stream:
        if whole:
            try:
                messages.decode("Req", wire.decompress(enc[0], body) if body else b"", rec.cfg.codec)
            except (wire.WireError, messages.BadMessage) as e:
                yield "body", f"the body is no message in the encoding {enc[0]}: {e}"
        return
    try:
        ms, rest = wire.request_frames(body, enc[0])
        for m in ms:
            messages.decode("Req", m, rec.cfg.codec)
    except (wire.WireError, messages.BadMessage) as e:
        yield "frames", str(e)
        return
    if whole and rest:
        yield "frames", f"the body ends with {rest} bytes of an incomplete message"
    if whole and not rec.spec.req_stream and len(ms) != 1:
        yield "frames", f"{len(ms)} messages in the request of a call that takes one"


def query(rec, q: str, h):
    try:
        ps = urllib.parse.parse_qsl(q, keep_blank_values=True, strict_parsing=True, errors="strict")
    except ValueError as e:
        yield "query", f"{short(q)}: {e}"
        return
    d = dict(ps)
    if len(d) != len(ps) or d.keys() - {"connect", "base64", "encoding", "compression", "message"}:
        yield "query", f"parameters {short(ps)}"
    if d.get("connect") != "v1" or d.get("encoding") != rec.cfg.codec or "message" not in d:
        yield "query", f"parameters {short(ps)} for the codec {rec.cfg.codec}"
        return
    comp = d.get("compression", "identity")
    if comp not in ("identity", sent_with(rec)) or "content-encoding" in h:
        yield "encoding", f"compression {comp}, content-encoding {h.get('content-encoding')}, configured is {sent_with(rec)}"
        return
    m = d["message"].encode()
    try:
        if d.get("base64") == "1":
            if not re.fullmatch(rb"[A-Za-z0-9_-]*={0,2}", m):
                raise ValueError("not in the URL-safe alphabet")
            m = base64.urlsafe_b64decode(m + b"=" * (-len(m) % 4))
        elif comp != "identity":
            raise ValueError("compressed but not base64")
        messages.decode("Req", wire.decompress(comp, m), rec.cfg.codec)
    except (ValueError, wire.WireError, messages.BadMessage) as e:
        yield "query", f"message {short(d['message'])}: {e}"


def plain(body: bytes) -> bool:
    """Is there a sizeable message that is not compressed?"""
    return any(not flags & 1 and len(p) >= 300 for flags, p, _ in wire.split_frames(body)[0])


def tokens(v: list[str]) -> set:
    """The encodings an accept header names, whatever their weight unless it is zero."""
    out = set()
    for t in ",".join(v).split(","):
        name, *params = [x.strip() for x in t.split(";")]
        if not any(re.fullmatch(r"q=0(\.0*)?", p) for p in params):
            out.add(name.lower())
    return out


def c24(R: Run):
    """Compression only where its receiver supports it."""
    have = {"gzip"} if R.spec.server.comps is None else set(R.spec.server.comps)
    for rec in R.w.calls:
        i = rec.spec.i
        c = R.conn(i)
        if c is None:
            continue
        what = f"call {i} ({_d(R, i)})"
        proto, kind, stream, enc_h, acc_h = forms(rec)
        h = wire.multi(c.headers)
        if R.client_real:
            offered = tokens(h.get(acc_h, []))
            mine = set(accepts(rec.cfg)) | {"identity"}
            if offered - mine:
                yield "offer", f"{what}: offers {sorted(offered)}, configured are {sorted(mine)}"
            if mine - offered - {"identity"}:
                yield "offer", f"{what}: offers only {sorted(offered)} of {sorted(mine)}"
            if sent_with(rec) != "identity":
                named = [urllib.parse.parse_qs(urllib.parse.urlsplit(c.url).query).get("compression", ["identity"])[0]] \
                    if kind == "get" else h.get(enc_h, ["identity"])
                if named != [sent_with(rec)] or stream and plain(bytes(c.up_bytes)):
                    yield "plain", f"{what}: configured to be sent in {sent_with(rec)} but sent in {named}"
        if not R.server_real:
            continue
        e, r = R.emitted(i)
        if e.started:
            if rec.spec.mangle:
                proto, stream = R.wire_form(i)
                stream = is_stream_wire(proto, kind)
                enc_h = ENC_HEADER[proto] if stream else "content-encoding"
                acc_h = ACCEPT_HEADER[proto] if stream else "accept-encoding"
            offered = tokens(h.get(acc_h, [])) | {"identity"}
            used = wire.multi(e.headers).get(enc_h, ["identity"])
            if len(used) != 1 or "*" not in offered and used[0] not in offered:
                yield "unasked", f"{what}: the response is in {short(used)}, the client accepts {sorted(offered)}"
            elif used[0] not in have | {"identity"}:
                yield "unknown", f"{what}: the response is in {short(used)}, the server has {sorted(have)}"
            elif r is not None and any("encoding" in p or "compress" in p or "decod" in p for p in r.problems):
                yield "undecodable", f"{what}: the response in {used[0]}: {r.problems}"
            elif e.status == 200 and (r is not None and r.messages or not stream):
                both = [t for t in (x.strip() for v in h.get(acc_h, [])[:1] for x in v.split(",")) if t in have | {"identity"}]
                if both and "identity" not in both and (used == ["identity"] or stream and plain(bytes(e.body))):
                    yield "uncompressed", f"{what}: the response is in {used}, both ends have {both}"
                vary = ",".join(wire.multi(e.headers).get("vary", [])).lower()
                if not stream and used != ["identity"] and "accept-encoding" not in vary:
                    yield "vary", f"{what}: the response is in {used[0]} for this client but its Vary header says {vary!r}"
        if not R.client_real or not R.quiet(i) or rec.outcome is None or rec.hung:
            continue
        enc = h.get(enc_h, ["identity"])[0]
        if kind == "get":
            enc = dict(urllib.parse.parse_qsl(urllib.parse.urlsplit(c.url).query, keep_blank_values=True)).get("compression", "identity")
        if enc not in have | {"identity"}:
            if rec.outcome[:2] != ("connect", "unimplemented"):
                yield "unsupported", f"{what}: sent in {enc}, the server has {sorted(have)}; the call ended as {short(rec.outcome)}"
            if R.handler(i) is not None and not (rec.spec.req_stream and not R.handler(i).reqs):
                yield "unsupported-served", f"{what}: sent in {enc}, the server has {sorted(have)}, and the service got it"
        elif rec.outcome[:2] == ("connect", "unimplemented") and rec.spec.err is None and rec.spec.cleanup is None:
            yield "supported", f"{what}: sent in {enc}, the server has {sorted(have)}; the call ended as {short(rec.outcome)}"
