"""Independent model of the three wire protocols: framing, errors, trailers.

Written from the protocol documents; shares no code with connectrpc.
"""
from __future__ import annotations

import base64
import gzip
import json
import struct
import urllib.parse
import zlib

import brotli
import zstandard

from .messages import b64d
from .stubs import g_pb

CODES = ["canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists",
         "permission_denied", "resource_exhausted", "failed_precondition", "aborted", "out_of_range",
         "unimplemented", "internal", "unavailable", "data_loss", "unauthenticated"]
GRPC_NUM = {c: i + 1 for i, c in enumerate(CODES)}
GRPC_CODE = {i + 1: c for i, c in enumerate(CODES)}

CONNECT_HTTP = {"canceled": 499, "unknown": 500, "invalid_argument": 400, "deadline_exceeded": 504, "not_found": 404,
                "already_exists": 409, "permission_denied": 403, "resource_exhausted": 429,
                "failed_precondition": 400, "aborted": 409, "out_of_range": 400, "unimplemented": 501,
                "internal": 500, "unavailable": 503, "data_loss": 500, "unauthenticated": 401}
#: HTTP status -> code for responses that carry no RPC error (Connect and gRPC documents agree)
HTTP_TO_CODE = {400: "internal", 401: "unauthenticated", 403: "permission_denied", 404: "unimplemented",
                429: "unavailable", 502: "unavailable", 503: "unavailable", 504: "unavailable"}


def http_code(status: int) -> str:
    return HTTP_TO_CODE.get(status, "unknown")


class WireError(Exception):
    pass


def compress(name: str, data: bytes, var: int = 0) -> bytes:
    if name in ("", "identity"):
        return bytes(data)
    if name == "gzip":
        return gzip.compress(data, compresslevel=(6, 1, 9, 0)[var % 4], mtime=0)
    if name == "br":
        return brotli.compress(data, quality=(3, 1, 5, 0)[var % 4])
    if name == "zstd":
        if var % 2:
            o = zstandard.ZstdCompressor(level=1, write_content_size=False).compressobj()
            return o.compress(data) + o.flush()
        return zstandard.ZstdCompressor(level=3).compress(data)
    raise WireError(f"unknown encoding {name!r}")


def decompress(name: str, data: bytes) -> bytes:
    try:
        if name in ("", "identity"):
            return bytes(data)
        if name == "gzip":
            return _parts(bytes(data), lambda: zlib.decompressobj(wbits=31), "gzip")
        if name == "br":
            return brotli.decompress(bytes(data))
        if name == "zstd":
            return _parts(bytes(data), lambda: zstandard.ZstdDecompressor().decompressobj(), "zstd")
    except WireError:
        raise
    except Exception as e:
        raise WireError(f"bad {name} data: {e}") from e
    raise WireError(f"unknown encoding {name!r}")


def _parts(data: bytes, make, name: str) -> bytes:
    """Both formats are sequences of self-contained parts (RFC 1952 members, RFC 8878 frames)."""
    out = b""
    while True:
        d = make()
        out += d.decompress(data)
        if not d.eof:
            raise WireError(f"truncated {name} data")
        data = d.unused_data.lstrip(b"\0" if name == "gzip" else b"")   # gzip files may be padded
        if not data:
            return out


def frame(flags: int, payload: bytes) -> bytes:
    return struct.pack(">BI", flags, len(payload)) + payload


def split_frames(data: bytes) -> tuple[list[tuple[int, bytes, int]], int]:
    """[(flags, payload, end offset)], and the offset where the incomplete rest starts."""
    out = []
    i = 0
    data = bytes(data)
    while len(data) - i >= 5:
        flags, n = struct.unpack_from(">BI", data, i)
        if len(data) - i - 5 < n:
            break
        out.append((flags, data[i + 5 : i + 5 + n], i + 5 + n))
        i += 5 + n
    return out, i


# ---- errors ----------------------------------------------------------------------------
# An error is (code, message, [(type_name, value_bytes)])


def error_json(err, var: int = 0) -> dict:
    code, msg, details = err
    d = {"code": code}
    if msg or not var & 1:
        d["message"] = msg
    if details:
        d["details"] = []
        for t, v in details:
            b = base64.b64encode(v).decode()
            if not var & 2:
                b = b.rstrip("=")
            e = {"type": t, "value": b}
            if var & 4:
                e["debug"] = {"@type": "x", "n": 1}
            d["details"].append(e)
    return d


def parse_error_json(v) -> tuple:
    if not isinstance(v, dict):
        raise WireError("error is not an object")
    code = v.get("code")
    if not isinstance(code, str) or code not in GRPC_NUM:
        raise WireError(f"bad error code {code!r}")
    msg = v.get("message", "")
    if not isinstance(msg, str):
        raise WireError("error message is not a string")
    details = []
    ds = v.get("details") or []
    if not isinstance(ds, list) or not all(isinstance(d, dict) for d in ds):
        raise WireError("error details are no list of objects")
    for d in ds:
        t, val = d.get("type"), d.get("value")
        if not isinstance(t, str) or not isinstance(val, str):
            raise WireError("bad error detail")
        if "/" in t:
            raise WireError(f"error detail type has a prefix: {t!r}")
        details.append((t, _b64(val.rstrip("="))))   # receivers accept padding
    return (code, msg, details)


def _b64(v: str) -> bytes:
    try:
        return b64d(v)
    except Exception as e:
        raise WireError(f"bad base64 {v[:40]!r}") from e


def status_bin(err) -> str:
    code, msg, details = err
    st = g_pb.RpcStatus(code=GRPC_NUM[code], message=msg.encode("utf-8", "replace").decode())
    for t, v in details:
        st.details.add(type_url="type.googleapis.com/" + t, value=v)
    return base64.b64encode(st.SerializeToString()).decode().rstrip("=")


def grpc_status_headers(err, meta=(), var: int = 0) -> list[tuple[str, str]]:
    out = list(meta)
    if err is None:
        out.append(("grpc-status", "0"))
        return out
    code, msg, details = err
    out.append(("grpc-status", str(GRPC_NUM[code])))
    if msg or var & 1:
        out.append(("grpc-message", percent_encode(msg)))
    if details:
        b = status_bin(err)
        if var & 2:
            b += "=" * (-len(b) % 4)
        out.append(("grpc-status-details-bin", b))
    return out


def percent_encode(s: str) -> str:
    """The gRPC document's minimal percent-encoding."""
    b = s.encode("utf-8", "replace")
    n, m = len(b) - len(b.lstrip(b" ")), len(b.rstrip(b" "))     # header values are trimmed
    return "".join(chr(x) if 0x20 <= x <= 0x7E and x != 0x25 and (x != 0x20 or n <= i < m) else f"%{x:02X}" for i, x in enumerate(b))


def percent_decode(s: str) -> str:
    return urllib.parse.unquote_to_bytes(s).decode("utf-8", "replace")


def parse_grpc_status(h: dict[str, list[str]]):
    """-> None (success), an error, or WireError when there is no valid status."""
    st = h.get("grpc-status")
    if st is None:
        raise WireError("no grpc-status")
    if len(st) != 1 or not st[0].isdigit():
        raise WireError(f"bad grpc-status {st!r}")
    n = int(st[0])
    if n == 0:
        return None
    if n not in GRPC_CODE:
        raise WireError(f"unknown grpc-status {n}")
    msgs = h.get("grpc-message", [""])
    if len(msgs) != 1:
        raise WireError("several grpc-message values")
    if any(not 0x20 <= ord(c) <= 0x7E for c in msgs[0]):
        raise WireError("grpc-message is not printable ASCII")
    msg = percent_decode(msgs[0])
    details = []
    bins = h.get("grpc-status-details-bin")
    if bins:
        try:
            s = g_pb.RpcStatus.FromString(_b64(bins[0]))
        except Exception as e:
            raise WireError(f"grpc-status-details-bin does not decode: {e}") from e
        if s.code != n:
            raise WireError("status details carry another code")
        if s.message != msg:
            raise WireError("status details carry another message")
        for d in s.details:
            if not d.type_url.startswith("type.googleapis.com/"):
                raise WireError(f"detail type url {d.type_url!r}")
            details.append((d.type_url[len("type.googleapis.com/"):], d.value))
    return (GRPC_CODE[n], msg, details)


def multi(pairs) -> dict[str, list[str]]:
    out: dict[str, list[str]] = {}
    for k, v in pairs:
        out.setdefault(k.lower(), []).append(v)
    return out


def parse_trailer_block(data: bytes) -> list[tuple[str, str]]:
    out = []
    for line in bytes(data).decode("latin-1").split("\r\n"):
        if not line:
            continue
        if ":" not in line:
            raise WireError(f"bad trailer line {line!r}")
        k, v = line.split(":", 1)
        out.append((k.strip().lower(), v.strip()))
    return out


class Response:
    """What a complete or partial response means, according to the model."""

    def __init__(self) -> None:
        self.complete = False       # end-of-response information fully received
        self.messages: list[bytes] = []  # decoded (decompressed) payloads
        self.ends: list[int] = []   # body offset at which each message was complete
        self.error = None           # (code, message, details) | None
        self.http_error = None      # status code when it is no RPC response at all
        self.trailers: dict[str, list[str]] = {}
        self.headers: dict[str, list[str]] = {}
        self.problems: list[str] = []  # malformations
        self.extra = 0              # frames or bytes after the end
        self.rest = 0               # bytes of an incomplete frame
        self.sizes: list[int] = []


def request_frames(body: bytes, enc: str):
    """Decoded payloads of a streaming request body, and the number of left-over bytes."""
    frames, off = split_frames(body)
    out = []
    for flags, payload, _ in frames:
        if flags & ~1:
            raise WireError(f"request frame with flags {flags}")
        if flags & 1:
            if enc in ("", "identity"):
                raise WireError("compressed frame without an encoding")
            payload = decompress(enc, payload)
        out.append(payload)
    return out, len(body) - off


def parse_response(protocol: str, stream: bool, status: int, headers, body: bytes, trailers, body_done: bool) -> Response:
    """`stream` is about the wire: a unary Connect call is the only non-stream one."""
    r = Response()
    h = multi(headers)
    ct = (h.get("content-type") or [""])[0]
    if protocol == "connect" and not stream:
        r.headers = {k: v for k, v in h.items() if not k.startswith("trailer-")}
        r.trailers = {k[8:]: v for k, v in h.items() if k.startswith("trailer-")}
        r.complete = body_done
        if status == 200:
            enc = (h.get("content-encoding") or ["identity"])[0]
            if body_done:
                try:
                    r.messages.append(decompress(enc, body))
                    r.ends.append(len(body))
                except WireError as e:
                    r.problems.append(str(e))
        else:
            try:
                if ct.partition(";")[0].strip().lower() != "application/json":
                    raise WireError(f"error content type {ct!r}")
                r.error = parse_error_json(json.loads(bytes(body)))
            except (WireError, ValueError) as e:
                r.http_error = status
                r.problems.append(str(e))
        return r
    r.headers = h
    if status != 200:
        r.http_error = status
        return r
    enc_header = {"connect": "connect-content-encoding"}.get(protocol, "grpc-encoding")
    enc = (h.get(enc_header) or ["identity"])[0]
    frames, off = split_frames(body)
    r.rest = len(body) - off
    for flags, payload, end in frames:
        if r.complete:
            r.extra += 1
            continue
        try:
            if flags & 1:
                if enc in ("", "identity"):
                    raise WireError("compressed frame without an encoding")
                payload = decompress(enc, payload)
            if protocol == "connect" and flags & 2:
                if flags & ~3:
                    raise WireError(f"flags {flags}")
                v = json.loads(payload)
                if not isinstance(v, dict):
                    raise WireError("end-of-stream message is not an object")
                md = v.get("metadata") or {}
                if not isinstance(md, dict):
                    raise WireError("metadata is not an object")
                r.trailers = {k.lower(): list(x) if isinstance(x, list) else [] for k, x in md.items()}
                if v.get("error") is not None:
                    r.error = parse_error_json(v["error"])
                r.complete = True
            elif protocol == "grpc_web" and flags & 0x80:
                if flags & ~0x81:
                    raise WireError(f"flags {flags}")
                r.trailers = multi(parse_trailer_block(payload))
                r.error = parse_grpc_status(r.trailers)
                r.complete = True
            elif flags & ~1:
                raise WireError(f"flags {flags}")
            else:
                r.messages.append(payload)
                r.sizes.append(len(payload))
                r.ends.append(end)
        except (WireError, ValueError) as e:
            r.problems.append(str(e))
            break
    if r.complete and r.rest:
        r.extra += 1
    if protocol == "grpc" and body_done and not r.rest and not r.problems:
        t = multi(trailers)
        try:
            if "grpc-status" in t:
                r.trailers = t
                r.error = parse_grpc_status(t)
                r.complete = True
            elif not r.messages and "grpc-status" in h:
                r.trailers = h
                r.error = parse_grpc_status(h)
                r.complete = True
        except WireError as e:
            r.problems.append(str(e))
    if protocol == "grpc_web" and body_done and not frames and not r.rest and "grpc-status" in h:
        try:
            r.trailers = h
            r.error = parse_grpc_status(h)
            r.complete = True
        except WireError as e:
            r.problems.append(str(e))
    return r
