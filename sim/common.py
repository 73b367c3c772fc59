"""Building blocks shared by the async and the threaded world."""
from __future__ import annotations

import asyncio
import os

from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_codecs, google_protobuf_json_codec
from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.errors import ConnectError
from connectrpc.protocol import ProtocolType
from protobuf.wkt import Any as PbAny

from . import messages
from .stubs import g_pb, g_svc, py_pb, py_svc

PATH = "/sim.v1.SimService/"
PROTO = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpc_web": ProtocolType.GRPC_WEB}
COMP = {"gzip": GzipCompression(), "br": BrotliCompression(), "zstd": ZstdCompression()}
PY_METHOD = {"Unary": "unary", "UnaryGet": "unary_get", "ClientStream": "client_stream",
             "ServerStream": "server_stream", "Bidi": "bidi"}


class SourceFailure(Exception):
    """What the application's message source fails with."""


def source_failure(spec) -> SourceFailure:
    """The failure of a call's message source; applications raise all sorts of things."""
    kinds = ((), (ConnectionError,), (TimeoutError,), (OSError,), (ValueError,), (KeyError,), (EOFError,))
    bases = kinds[(spec.fake_style >> 2) % len(kinds)]
    return type("SourceFailure", (SourceFailure, *bases), {})("source failed")


class CustomError(Exception):
    pass


class HandlerAbort(BaseException):
    """Like SystemExit and KeyboardInterrupt, which would really end the simulation."""


EXC = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "TimeoutError": TimeoutError,
       "OSError": OSError, "CustomError": CustomError, "AssertionError": AssertionError,
       "ConnectionResetError": ConnectionResetError, "RecursionError": RecursionError, "HandlerAbort": HandlerAbort,
       "CancelledError": asyncio.CancelledError}


def make_error(err) -> Exception:
    if err[0] == "connect":
        _, code, msg, details = err
        ds = []
        for t, v in details:
            if t == "sim.v1.Note" and len(v) % 2:
                ds.append(py_pb.Note.from_binary(v))
            else:
                ds.append(PbAny(type_url="type.googleapis.com/" + t, value=v))
        return ConnectError(Code(code), msg, details=ds)
    _, name, msg = err
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, msg)
    return EXC[name](msg)


def error_tuple(e: ConnectError):
    """(code, message, [(type, bytes)]) as the application can see it."""
    return (e.code.value, e.message, [(d.type_name, bytes(d.message_bytes)) for d in e.details])


def classify(e: BaseException) -> tuple:
    if isinstance(e, ConnectError):
        try:
            return ("connect", *error_tuple(e))
        except Exception as x:  # a ConnectError whose parts cannot be read
            return ("raised", "BrokenConnectError", repr(x))
    if isinstance(e, asyncio.CancelledError):
        return ("cancelled",)
    return ("raised", type(e).__name__, str(e)[:300])


def make_codec(cfg):
    if cfg.flavour == "py":
        return proto_binary_codec() if cfg.codec == "proto" else proto_json_codec()
    return google_protobuf_binary_codec() if cfg.codec == "proto" else google_protobuf_json_codec()


def client_kwargs(cfg, s) -> dict:
    kw = {}
    if cfg.codec != "proto" or cfg.flavour != "py":
        kw["codec"] = make_codec(cfg)
    if cfg.accept is not None:
        kw["accept_compression"] = handed(s, [COMP[n] for n in cfg.accept])
    if cfg.send_comp != "gzip":
        kw["send_compression"] = None if cfg.send_comp in (None, "identity") else COMP[cfg.send_comp]
    if cfg.timeout_ms is not None:
        kw["timeout_ms"] = cfg.timeout_ms
    if cfg.read_max is not None:
        kw["read_max_bytes"] = cfg.read_max
    return kw


def accepts(cfg) -> list[str]:
    """Encodings a client with this configuration accepts, in its order."""
    return ["gzip"] if cfg.accept is None else list(cfg.accept)


def server_kwargs(cfg, s) -> dict:
    kw = {}
    if cfg.flavour != "py":
        kw["codecs"] = handed(s, google_protobuf_codecs())
    if cfg.comps is not None:
        kw["compressions"] = handed(s, [COMP[n] for n in cfg.comps])
    if cfg.read_max is not None:
        kw["read_max_bytes"] = cfg.read_max
    return kw


class Shared(list):
    """A list that the application hands to everything it makes."""


def handed(s, seq):
    """What the application hands over where any iterable of these is accepted."""
    k = s.int(8)
    if isinstance(seq, Shared):
        return seq
    if k < 4:
        return list(seq)
    if k < 6:
        return tuple(seq)
    return iter(list(seq)) if k == 6 else (x for x in list(seq))


def svc_module(flavour: str):
    return py_svc if flavour == "py" else g_svc


def make_msg(kind: str, d: dict, flavour: str):
    return messages.make(kind, d, flavour)


def call_id(headers) -> int | None:
    v = headers.get("x-call-id")
    try:
        return int(v)
    except (TypeError, ValueError):
        return None


def from_library(e: BaseException) -> bool:
    """Whether an exception passed through code of the library."""
    import connectrpc

    root = os.path.dirname(os.path.abspath(connectrpc.__file__)) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def problem(who: str, e: BaseException) -> str:
    return f"{'crash of ' if from_library(e) else ''}{who}: {e!r}"
