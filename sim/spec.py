"""Generation of one run: configuration, calls, scripts and faults, from the tapes."""
from __future__ import annotations

import dataclasses
from dataclasses import dataclass, field
from typing import Any

from . import messages
from .core import Choices, Stream

KINDS = ("unary", "get", "cs", "ss", "bidi")
PROTOCOLS = ("connect", "grpc", "grpc_web")
COMPS = ("identity", "gzip", "br", "zstd")


@dataclass
class Profile:
    """Weights that shape runs for one property.  All probabilities are per call unless noted."""

    calls: tuple = ((1, 5), (2, 2), (3, 1))
    clients: tuple = ((1, 3), (2, 1))
    kinds: dict = field(default_factory=lambda: {"unary": 2, "get": 1, "cs": 2, "ss": 3, "bidi": 3})
    protocols: dict = field(default_factory=lambda: {"connect": 3, "grpc": 3, "grpc_web": 2})
    codecs: dict = field(default_factory=lambda: {"proto": 3, "json": 1})
    flavours: dict = field(default_factory=lambda: {"py": 4, "google": 1})
    comps: dict = field(default_factory=lambda: {"identity": 2, "gzip": 3, "br": 1, "zstd": 1})
    #: who the peer is: real app / scripted fake server
    peer: dict = field(default_factory=lambda: {"app": 3, "fake": 1})
    msg_classes: dict = field(default_factory=lambda: {
        "tiny": 4, "empty": 2, "small": 4, "rich": 3, "blob300": 1, "blob4090": 1, "text5000": 1,
        "blob9000": 0.7, "blob66000": 0.3})
    max_msgs: int = 6
    p_error: float = 0.2
    p_other_exc: float = 0.25     # given an error: not a ConnectError
    p_abort: float = 0.0          # given an error: not even an Exception
    p_badmsg: float = 0.0         # given an error: the service answers with no message at all
    p_details: float = 0.4
    p_meta: float = 0.4
    p_timeout: float = 0.15
    timeouts: tuple = (1, 5, 20, 50, 100, 250, 1000, 5000, 60000)
    p_fault: float = 0.0
    faults: dict = field(default_factory=dict)
    p_cancel: float = 0.0
    p_close: float = 0.0
    p_source_fail: float = 0.0
    p_app_cancel: float = 0.0
    p_swallow: float = 0.0
    p_delay: float = 0.4
    p_cleanup: float = 0.0        # clean-up code with delays or errors in handlers
    p_pingpong: float = 0.5
    p_limit_client: float = 0.0
    p_limit_server: float = 0.0
    p_interceptors: float = 0.0
    p_slow_icept: float = 0.0
    p_touch: float = 0.0          # interceptors set metadata
    p_retry: float = 0.0          # an interceptor of the client makes failed calls again
    p_trick: float = 0.0          # an interceptor fails, answers itself or replaces messages (C13)
    p_slow_consumer: float = 0.3
    p_window: float = 0.3
    p_skew: float = 0.3           # per run
    p_walljump: float = 0.1       # per run
    p_split: float = 0.8          # per direction: non-trivial chunking
    p_stall_handler: float = 0.0  # handler sleeps (almost) forever
    p_default_timeout: float = 0.2
    p_odd_timeout: float = 0.0    # given a timeout: a very large one
    time_scale: float = 0.05
    otel: bool = False
    start_spread: float = 0.05
    http1: float = 0.2
    p_leave_early: float = 0.2    # handler stops reading its requests early
    p_lax: float = 0.0            # the HTTP client's own timers are late (threaded world)
    p_reframe: float = 0.3        # intermediary re-frames: legal per-message compression toggles
    shared_client: bool = False
    p_mangle: float = 0.0         # malformed requests of the peer (C09, C10, C20)
    p_mismatch: float = 0.0       # per run: the server need not have the encodings its clients send (C24)
    p_clash: float = 0.0          # the application sets headers that belong to the protocol (C26)
    huge: bool = False            # messages of many megabytes, in large pieces
    p_garble: float = 0.0         # malformed responses of the peer (C19, C02, C07)
    p_nest: float = 0.0           # application code of one call makes another
    p_chain: float = 0.0          # one task makes several calls, one after the other
    p_calm: float = 0.0           # calls that nothing is done to (C11)
    p_preempt: float = 0.0        # threaded world: preemption inside the library

    def but(self, **kw) -> "Profile":
        return dataclasses.replace(self, **kw)


@dataclass
class ClientCfg:
    protocol: str
    codec: str
    flavour: str
    send_comp: str | None
    accept: list | None
    read_max: int | None
    timeout_ms: int | None
    interceptors: list
    origin: str = "http://sim.example"     # where the client believes the server to be
    mount: tuple = ("", "full")            # the path the application is mounted at, and how the server tells it

    peer: tuple | None = ("10.0.0.1", True)   # what the server learns of the client's address; with its port?

    def peer_address(self, call: int, wsgi: bool) -> tuple | None:
        if self.peer is None:
            return None
        return self.peer[0], 1000 + call if self.peer[1] or not wsgi else 0

    @property
    def url(self) -> str:
        return self.origin + self.mount[0]

    @property
    def address(self) -> tuple:
        """Host and port of the server, as the client was told."""
        scheme, host = self.origin.split("://")
        h, _, port = host.rpartition(":")
        return (h, int(port)) if h and port.isdigit() else (host, 443 if scheme == "https" else 80)


@dataclass
class ServerCfg:
    flavour: str
    comps: list | None
    read_max: int | None
    interceptors: list
    http_version: str


@dataclass
class CallSpec:
    i: int
    client: int
    kind: str
    headers: list
    timeout_ms: int | None
    start: float
    reqs: list
    req_plan: list            # per request: (delay, replies to wait for)
    source_fail: int | None
    recv_delays: list
    close_after: int | None
    close_mode: str
    cancel_at: float | None
    meta: bool
    ops: list                 # server script
    swallow: bool
    cleanup: Any              # None | ("sleep", s) | ("raise", err)
    reps: list = field(default_factory=list)
    err: Any = None           # ("connect", code, msg, details) | ("exc", name, msg) | None
    fake_style: int = 0
    slow_after: int | None = None
    mangle: list = field(default_factory=list)
    garble: list = field(default_factory=list)
    after: int | None = None  # the call the same task or thread of the application made before
    flaky: list = field(default_factory=list)     # how the first attempts at a retried call fail
    trick: tuple | None = None    # (side, interceptor, what, with what): what one of its interceptors does, see icept
    inside: tuple | None = None   # (call, "service") or (call, "consumer", k): made by the code that serves or reads that call

    @property
    def method(self) -> str:
        return {"unary": "Unary", "get": "UnaryGet", "cs": "ClientStream", "ss": "ServerStream",
                "bidi": "Bidi"}[self.kind]

    @property
    def rep_stream(self) -> bool:
        return self.kind in ("ss", "bidi")

    @property
    def req_stream(self) -> bool:
        return self.kind in ("cs", "bidi")


@dataclass
class RunSpec:
    clients: list
    server: ServerCfg
    peer: str
    calls: list
    skew: dict
    walljumps: list
    features: dict = field(default_factory=dict)


ORIGINS = ["http://sim.example", "http://sim.example:8080", "https://sim.example", "https://sim.example:8443", "http://10.0.0.2:50051",
           "http://[fd00::2]:8080", "https://[fd00::2]", "http://[::1]"]
MOUNTS = ["/api", "/a/b/v1", "/sim.v1.SimService"]
HEADER_VALUES = ["v", "two words", "a,b", "x=1; y=\"q\"", "100%", "tab\tin", "~!@#$^&*()", "ééé".encode().hex(),
                 "0", "v" * 200, "a:b", "-", ",lead", "trail,", "\"quoted\"", "%41+b", "=", "a;b"]
BIN_VALUES = ["AAEC", "", "/+8", "aGVsbG8gd29ybGQ", "AA"]
CLASHES = [("content-type", "text/plain"), ("Content-Type", "application/grpc"), ("te", "gzip"), ("TE", "trailers"), ("content-encoding", "br"),
           ("connect-content-encoding", "zstd"), ("grpc-encoding", "br"), ("accept-encoding", "deflate"), ("grpc-accept-encoding", "x"),
           ("Connect-Accept-Encoding", "br"), ("connect-protocol-version", "9"), ("Connect-Protocol-Version", "1"), ("user-agent", "me/1.0")]
ERR_MESSAGES = ["", "lone \udcff surrogate", "plain message", "100% of %41 %zz", "ünïcødé ☃ 😀", "line1\nline2\r\n", "  padded  ", "a: b: c",
                "\"quoted\" \\ back", "x" * 3000, "tab\tand\x00nul\x7f", "grpc-status: 0", "%", "ends with %2", "\r\n\r\n",
                "y" * 20000, "{\"code\": \"ok\"}", "+plus and space"]
EXC_NAMES = ["ValueError", "KeyError", "RuntimeError", "TimeoutError", "OSError", "CustomError", "AssertionError",
             "ConnectionResetError", "UnicodeDecodeError", "RecursionError"]


def w(s: Stream, d: dict):
    return s.weighted([(k, v) for k, v in d.items() if v > 0])


def gen_comp_list(s: Stream, allow_none=True):
    k = s.int(5 if allow_none else 4)
    if k == 0:
        return None if allow_none else ["gzip"]
    if k == 1:
        return []
    if k == 2:
        return ["gzip"]
    if k == 3:
        return ["zstd", "br", "gzip"]
    return ["br"]


def gen_err(s: Stream, p: Profile):
    from .wire import CODES

    if p.p_badmsg and s.chance(p.p_badmsg):
        return ("exc", "BadMessage", "no message")
    if p.p_abort and s.chance(p.p_abort):
        return ("exc", s.pick(("HandlerAbort", "CancelledError")), s.pick(ERR_MESSAGES))
    if s.chance(p.p_other_exc):
        return ("exc", s.pick(EXC_NAMES), s.pick(ERR_MESSAGES))
    code = s.pick(CODES)
    msg = s.pick(ERR_MESSAGES) if s.chance(0.6) else f"error {s.int(1000)}"
    details = []
    if s.chance(p.p_details):
        for j in range(1 + (s.int(3) if s.chance(0.8) else s.int(8))):
            k = s.int(6)
            if k <= 2:
                details.append(("sim.v1.Note", messages.note_bytes(f"detail {s.int(100)}", s.int(10**6))))
            elif k == 3:
                details.append(("google.protobuf.StringValue", b"\x0a\x03abc"))
            elif k == 4:
                details.append(("unknown.v1.Thing", bytes([s.int(256) for _ in range(s.int(5))])))
            else:
                details.append(("sim.v1.Note", messages.note_bytes("ß" * (200 + s.int(3000)), j)))
    return ("connect", code, msg, details)


def gen_pairs(s: Stream, prefix: str) -> list:
    out = []
    for _ in range(1 + s.int(3)):
        k = s.int(4)
        if k == 3:
            out.append((f"{prefix}{s.int(2)}-bin", s.pick(BIN_VALUES[:1] + BIN_VALUES[2:])))
        elif k == 2:
            out.append((f"{prefix.title()}Mixed-{s.int(2)}", s.pick(HEADER_VALUES)))
        else:
            out.append((f"{prefix}{s.int(3)}", s.pick(HEADER_VALUES)))
    return out


def _fill_delay(s: Stream, p: Profile) -> float:
    return s.delay(p.time_scale) if s.chance(p.p_delay) else 0.0


ICEPTS = (0, 1, 2, 3, 0, 1, 3, 4, 5, 6)     # see icept.ASYNC
PARTIAL = {4: ("unary", "get"), 5: ("ss",), 6: ("cs", "bidi")}     # interceptors of some kinds of calls only

MANGLES = {
    "path": ["/sim.v1.SimService/Nope", "/", "", "/sim.v1.Other/Unary", "/sim.v1.SimService/Unary/", "/sim.v1.SimService",
             "/sim.v1.SimService/unary", "//sim.v1.SimService/Unary", "/sim.v1.SimService/Un%61ry"],
    "method": ["GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "QUERY"],
    "ctype": [None, "", "text/plain", "application/json; charset=utf-8", "application/proto", "application/json",
              "application/connect+proto", "application/connect+json", "application/connect+bogus", "application/connect",
              "application/grpc", "application/grpc+bogus", "application/grpc-web", "application/grpc-web+json",
              "application/grpc-web-text", "application/grpcfoo", "Application/Grpc", "application/grpc;charset=utf-8",
              "application/", "application/bogus", ",", "application/grpc+proto, application/grpc"],
    "encoding": ["bogus", "", "GZIP", "identity", "gzip", "br,gzip", "gzip ", "zstd"],
    "timeout": ["abc", "-5", "12345678901", "1.5", "", " 10", "99999999999S", "10X", "S", "100000000m", "123456789u", "0", "0m", "-1S", "1_0", "1_0S", "+5", "00000000m",
                "99999999H", "9999999999", "\u00b2", "\u00b2S", "10 m"],
    "version": ["2", "", "1,1", "one"],
    "accept": ["bogus", "", "*", "gzip;q=0", "identity", "br , gzip"],
    "body": ["empty", "garbage", "huge", "flag", "badzip", "badproto", "twice", "partial", "end", "short", "ff", "zeros", "cutzip", "cutzip", "unzip", "zipplus", "twozips"],
    "query": ["", "message=", "message=%FF%FE", "base64=1", "encoding=proto", "encoding=proto&message=!!&base64=1", "encoding=bogus&message=",
              "encoding=proto&message=AAAA&base64=1&compression=gzip", "encoding=proto&message=&compression=bogus", "&&&", "%",
              "encoding=proto&encoding=json&message=", "encoding=json&message={", "encoding=json&message=%7B%7D&connect=v2",
              "encoding=proto&message=&base64=1&base64=0", "encoding=json&message=null", "encoding=proto&message=_____"],
    "asget": ["message", "message", "nothing", "typed"],
    "extra": [("te", ""),
              ("expect", "100-continue"), ("host", ""), ("host", "[::1]"), ("host", "h:abc"), ("host", "a:b:c"), ("host", "h:"),
              ("host", ":80"), ("host", "h:99999999999999999999"), ("host", "h:-1"), ("x-bin-bin", "***"), ("grpc-status", "0"), ("connection", "close")],
}


def gen_mangle(s: Stream) -> list:
    out = []
    for _ in range(1 + (s.int(4) == 3)):
        k = s.pick(list(MANGLES))
        out.append((k, s.pick(MANGLES[k])))
    return out


def gen_garble(s: Stream, cfg: ClientCfg, nrep: int) -> list:
    k = s.pick(("msg", "end", "after", "count", "ctype", "encoding", "status", "early"))
    if k == "early":
        return [(k, None)]
    if k == "msg":
        return [(k, (s.int(max(nrep, 1)), s.pick(("flag4", "flag40", "flag80", "flag2", "zip-identity", "zip-garbage", "zip-cut", "undecodable",
                                                  "undecodable-tail"))))]
    if k == "end":
        return [(k, s.int(60))]
    if k == "after":
        return [(k, (s.pick(("message", "end", "error", "bytes")), s.int(3)))]
    if k == "count":
        return [(k, s.pick(("none", "two", "many")))]
    if k == "ctype":
        return [(k, s.pick((None, "text/html", "application/json", "application/proto", "application/connect+json",
                            "application/connect+proto", "application/grpc", "application/grpc+json", "application/grpc-web+proto",
                            "application/grpc-web", "application/grpc-web-text", "application/connect", "", "application/octet-stream",
                            "application/connect+bogus", "application/bogus", "application/grpc+bogus")))]
    if k == "encoding":
        return [(k, s.pick(("bogus", "snappy", "gzip, br", "GZIP;q=1")))]
    return [(k, (s.pick((201, 204, 206, 301, 304, 400, 401, 403, 404, 405, 408, 409, 412, 413, 415, 418, 422, 429, 431, 451, 499,
                         500, 501, 502, 503, 504, 505, 520, 599)), s.int(9)))]


def gen_call(c: Choices, i: int, p: Profile, clients: list, spec_peer: str, flags: dict) -> CallSpec:
    s = Stream(c, f"w.c{i}")
    client = s.int(len(clients))
    cfg = clients[client]
    kinds = dict(p.kinds)
    kind = w(s, kinds)
    if kind == "get" and cfg.protocol != "connect":
        kind = "unary"
    req_stream = kind in ("cs", "bidi")
    rep_stream = kind in ("ss", "bidi")
    start = s.delay(p.start_spread) if i else 0.0

    def msg_cls():
        return w(s, p.msg_classes)

    nreq = s.int(p.max_msgs + 1) if req_stream else 1
    nrep = s.int(p.max_msgs + 1) if rep_stream else 1
    # message bodies
    reqs = [messages.gen_req(i, j, msg_cls(), s.int(1 << 16)) for j in range(nreq)]
    if kind == "get" and len(repr(reqs[0])) > 6000:
        reqs[0] = messages.gen_req(i, 0, "small", 0)
    reps = [messages.gen_rep(i, j, msg_cls(), s.int(1 << 16)) for j in range(nrep)]

    headers = [("x-call-id", str(i))]
    if s.chance(p.p_meta):
        headers += gen_pairs(s, "x-req")
    if s.chance(p.p_clash):
        headers += [s.pick(CLASHES) for _ in range(1 + s.int(3))]
    meta = s.chance(p.p_meta)
    timeout_ms = None
    if s.chance(p.p_timeout):
        timeout_ms = s.pick(p.timeouts)
        if s.chance(p.p_odd_timeout):
            # around the unit boundaries of the wire formats, and large
            timeout_ms = s.pick((0, 0, 99_999_999, 100_000_000, 100_000_001, 99_999_999_999, 100_000_000_000,
                                 5_999_999_999_999, 6_000_000_000_001, 86_400_000 * 365 + 1, 123_456_789, 9_999_999_999)) - s.int(3)
            timeout_ms = max(timeout_ms, 0)

    # ---- the conversation ---------------------------------------------------------------
    ops: list = []
    req_plan: list = []
    pre = []
    if s.chance(p.p_meta):
        pre += [("hdr", k, v) for k, v in gen_pairs(s, "x-res")] + [("hdr", "x-own", f"own-{i}")]
    trl = []
    if s.chance(p.p_meta):
        trl += [("trl", k, v) for k, v in gen_pairs(s, "x-trl")] + [("trl", "x-town", f"town-{i}")]
    err = gen_err(s, p) if s.chance(p.p_error) else None
    fail_at = s.int(nrep + 1) if err is not None else None

    ops += pre
    if s.chance(0.5):
        ops.append(("ctx",))
    if kind == "bidi" and s.chance(p.p_pingpong) and not flags.get("half_duplex"):
        # interleaved conversation: both sides wait for each other
        a = b = 0
        while a < nreq or b < nrep:
            ka = s.int(3) if a < nreq else 0
            ka = min(ka, nreq - a)
            kb = s.int(3) if b < nrep else 0
            kb = min(kb, nrep - b)
            if ka == 0 and kb == 0:
                if a < nreq:
                    ka = 1
                else:
                    kb = 1
            for _ in range(ka):
                req_plan.append((_fill_delay(s, p), b))
                ops.append(("recv",))
                a += 1
            for _ in range(kb):
                d = _fill_delay(s, p)
                if d:
                    ops.append(("sleep", d))
                ops.append(("send", b))
                b += 1
        if s.chance(0.6):
            ops.append(("recvall",))
    else:
        for _ in range(nreq):
            req_plan.append((_fill_delay(s, p), 0))
        if req_stream:
            if s.chance(p.p_leave_early):
                for _ in range(s.int(nreq + 1)):
                    ops.append(("recv",))
            elif s.chance(0.3):
                for _ in range(nreq):
                    d = _fill_delay(s, p)
                    if d:
                        ops.append(("sleep", d))
                    ops.append(("recv",))
                ops.append(("recvall",))
            elif kind == "bidi" and s.chance(0.3):
                pass  # replies first
            else:
                ops.append(("recvall",))
        if rep_stream:
            for j in range(nrep):
                d = _fill_delay(s, p)
                if d:
                    ops.append(("sleep", d))
                ops.append(("send", j))
            if kind == "bidi" and s.chance(0.3):
                ops.append(("recvall",))
        else:
            d = _fill_delay(s, p)
            if d:
                ops.append(("sleep", d))
    if trl:
        at = s.int(len(ops) + 1)
        ops[at:at] = trl
    if s.chance(0.2):
        ops.append(("ctx",))
    if s.chance(0.15):
        # a header set after headers went out has no specified effect; trailers late do
        ops += [("trl", "x-late", "late")]
    if s.chance(p.p_stall_handler):
        at = s.int(len(ops) + 1)
        ops.insert(at, ("sleep", 10000.0))
    if rep_stream:
        if err is not None:
            # cut the script after fail_at sends
            out = []
            sent = 0
            for op in ops:
                if op[0] == "send":
                    if sent == fail_at:
                        break
                    sent += 1
                out.append(op)
            ops = out + [("raise", err)]
        else:
            ops.append(("end",))
    elif err is not None:
        at = s.int(len(ops) + 1)
        ops = ops[:at] + [("raise", err)]
    else:
        ops.append(("return", 0))

    source_fail = None
    if req_stream and s.chance(p.p_source_fail):
        source_fail = s.int(nreq + 1)
    recv_delays = []
    if rep_stream and s.chance(p.p_slow_consumer):
        recv_delays = [s.delay(p.time_scale) for _ in range(nrep)]
    close_after = None
    close_mode = "aclose"
    if rep_stream and s.chance(p.p_close):
        close_after = s.int(nrep + 1)
        close_mode = s.pick(("aclose", "break"))
    cancel_at = None
    if s.chance(p.p_cancel):
        cancel_at = s.delay(p.time_scale * 4)
    cleanup = None
    if s.chance(p.p_cleanup):
        k = s.int(3)
        cleanup = (("sleep", 0.001 + s.delay(p.time_scale)), ("yield0", s.int(4)),
                   ("raise", ("exc", "RuntimeError", "cleanup failed")))[k]
    spec = CallSpec(
        i=i, client=client, kind=kind, headers=headers, timeout_ms=timeout_ms, start=start, reqs=reqs,
        req_plan=req_plan, source_fail=source_fail, recv_delays=recv_delays, close_after=close_after,
        close_mode=close_mode, cancel_at=cancel_at, meta=meta, ops=ops,
        swallow=s.chance(p.p_swallow), cleanup=cleanup, reps=reps, err=err, fake_style=s.int(256))
    if spec_peer == "fakeclient" and s.chance(p.p_mangle):
        spec.mangle = gen_mangle(s)
    if spec_peer == "fake" and s.chance(p.p_garble):
        spec.garble = gen_garble(Stream(c, f"g.c{i}"), cfg, nrep)
    return spec


def _limits(s: Stream, p: Profile, clients: list, server: ServerCfg, calls: list) -> None:
    """Read limits next to the real size of some message."""
    from .common import make_codec, make_msg

    def size(kind: str, d: dict, cfg) -> int:
        return len(make_codec(cfg).encode(make_msg(kind, d, cfg.flavour)))

    for cl, cfg in enumerate(clients):
        if s.chance(p.p_limit_client):
            mine = [(c, m) for c in calls if c.client == cl for m in c.reps]
            n = size("Rep", s.pick(mine)[1], cfg) if mine and s.chance(0.8) else s.pick((100, 4096, 20000))
            cfg.read_max = max(0, n + s.pick((0, -1, 1)))
    if s.chance(p.p_limit_server):
        every = [(c, m) for c in calls for m in c.reqs]
        n = s.pick((100, 4096, 20000))
        if every and s.chance(0.8):
            c, m = s.pick(every)
            n = size("Req", m, clients[c.client])
        server.read_max = max(0, n + s.pick((0, -1, 1)))


def gen_run(c: Choices, p: Profile, flags: dict | None = None) -> RunSpec:
    flags = flags or {}
    s = Stream(c, "w")
    ncl = s.weighted(list(p.clients))
    peer = w(s, p.peer)
    clients = []
    for _ in range(ncl):
        codec = w(s, p.codecs)
        flavour = w(s, p.flavours)
        send = w(s, p.comps)
        clients.append(ClientCfg(
            protocol=w(s, p.protocols), codec=codec, flavour=flavour,
            send_comp=None if send == "identity" and s.chance(0.5) else send,
            accept=gen_comp_list(s),
            read_max=None,
            timeout_ms=s.pick(p.timeouts) if s.chance(p.p_timeout * p.p_default_timeout) else None,
            interceptors=[s.pick(ICEPTS) for _ in range(1 + s.int(3))] if s.chance(p.p_interceptors) else []))
    place(Stream(c, "place"), clients, flags)
    server = ServerCfg(
        flavour=w(s, p.flavours),
        comps=["gzip", "br", "zstd"] if s.chance(0.8) else None,
        read_max=None,
        interceptors=[s.pick(ICEPTS) for _ in range(1 + s.int(3))] if s.chance(p.p_interceptors) else [],
        http_version="1.1" if s.chance(p.http1) else "2")
    if p.huge:      # brotli takes minutes for these
        server.comps = None
        for cl in clients:
            cl.accept = [x for x in cl.accept if x == "gzip"] if cl.accept else cl.accept
    # the server must understand what the clients send
    mismatch = s.chance(p.p_mismatch)
    if mismatch:
        server.comps = [x for x in ("zstd", "gzip", "br") if s.chance(0.5)]
    for cl in clients:
        if not mismatch and cl.send_comp not in (None, "identity", "gzip") and server.comps is None:
            cl.send_comp = "gzip"
        if server.http_version == "1.1" and cl.protocol == "grpc":
            server.http_version = "2"
    skew = {}
    if s.chance(p.p_skew):
        skew = {"client": float(s.int(10**6)), "server": float(s.int(10**6)),
                "client_wall": float(s.int(10**7) - 5 * 10**6), "server_wall": float(s.int(10**7) - 5 * 10**6)}
    jumps = []
    if s.chance(p.p_walljump):
        for _ in range(1 + s.int(3)):
            jumps.append((s.delay(p.time_scale * 4), s.pick(("client", "server")), float(s.pick((-3600, 3600, 86400 * 400, -1)))))
    n = s.weighted(list(p.calls))
    if server.http_version == "1.1":      # README: "Support half-duplex bidirectional streaming only"
        flags = {**flags, "half_duplex": True}
    calm = [i for i in range(n) if s.chance(p.p_calm)]
    calls = [gen_call(c, i, calmed(p) if i in calm else p, clients, peer, flags) for i in range(n)]
    _limits(s, p, clients, server, calls)
    free = set(range(n))
    for i in range(1, n):
        if s.chance(p.p_chain):
            j = s.int(i)
            if j in free:
                free.discard(j)
                calls[i].after = j
    if p.p_nest and peer != "fakeclient":
        _nest(Stream(c, "nest"), p, calls, clients, peer)
    if p.p_retry:
        for cs in calls:
            _retry(Stream(c, f"retry.c{cs.i}"), p, cs, clients[cs.client])
    if p.p_trick:
        for cs in calls:
            _trick(Stream(c, f"trick.c{cs.i}"), p, cs, clients[cs.client], server, peer)
    return RunSpec(clients=clients, server=server, peer=peer, calls=calls, skew=skew, walljumps=jumps,
                   features={"calm": calm})


def place(s: Stream, clients: list, flags: dict) -> None:
    """Where the server is, as each client sees it."""
    if s.chance(0.6):
        return
    mount = ("", "full")
    if s.chance(0.5):
        mount = (s.pick(MOUNTS), s.pick(("full", "stripped")))
    for cl in clients:
        cl.origin = s.pick(ORIGINS)
        cl.mount = mount
        cl.peer = s.pick((("10.0.0.1", True), ("fd00::7", True), ("10.0.0.1", False), None))


def _nest(s: Stream, p: Profile, calls: list, clients: list, peer: str) -> None:
    """Lets some calls be made by the application code that serves or consumes an earlier call."""
    for i in range(1, len(calls)):
        c = calls[i]
        if c.after is not None or not s.chance(p.p_nest):
            continue
        o = calls[s.int(i)]
        where = s.pick(("service", "consumer"))
        k = s.int(max(len(o.reps), 1))
        if where == "service":
            if peer == "fake" or o.mangle:
                continue
            last = next((n for n, op in enumerate(o.ops) if op[0] in ("raise", "end", "return")), len(o.ops))
            o.ops.insert(s.int(last + 1), ("call", i))
            c.inside = (o.i, "service")
        elif o.rep_stream and o.reps:
            c.inside = (o.i, "consumer", k)
        if c.inside:
            c.meta = True     # without a scope of its own it would report to the one around it
            c.start = 0.0
            t = clients[c.client].timeout_ms if c.timeout_ms is None else c.timeout_ms
            if t is None or t > 5000:     # whoever waits for it must not wait for ever
                c.timeout_ms = s.pick((100, 1000, 5000))


def _trick(s: Stream, p: Profile, cs: CallSpec, cfg: ClientCfg, server: ServerCfg, peer: str) -> None:
    """One of the interceptors of a call does more than watch."""
    sides = [(side, kinds) for side, kinds, no in (("client", cfg.interceptors, "fakeclient"), ("server", server.interceptors, "fake"))
             if kinds and peer != no]
    if not sides or cs.mangle or not s.chance(p.p_trick):
        return
    side, kinds = s.pick(sides)
    able = [k for k, kind in enumerate(kinds) if kind not in PARTIAL or cs.kind in PARTIAL[kind]]
    if not able:
        return
    k = s.pick(able)
    if kinds[k] in (0, 2):
        cs.trick = (side, k, s.pick(("start", "end")), gen_err(s, p))
        return
    what = s.pick(("before", "after", "answer", "request", "reply"))
    if what == "request" and cs.req_stream:
        what = "before"
    if what in ("before", "after"):
        n = s.int(len(cs.reps) + 1) if cs.rep_stream else 1
        cs.trick = (side, k, what, gen_err(s, p)) + ((n,) if what == "after" else ())
    elif what == "request":
        cs.trick = (side, k, what, messages.gen_req(cs.i, 77, "small", s.int(100)))
    else:
        n = s.int(4) if cs.rep_stream else 1
        cs.trick = (side, k, what, [messages.gen_rep(cs.i, 70 + j, "small", s.int(100)) for j in range(max(n, what == "reply"))])


def _retry(s: Stream, p: Profile, cs: CallSpec, cfg: ClientCfg) -> None:
    """One of the interceptors of a call makes it again when it fails, as the documentation's RetryInterceptor would."""
    ks = [k for k, kind in enumerate(cfg.interceptors) if kind in (1, 3)]
    if not ks or cs.req_stream or not s.chance(p.p_retry):
        return
    n = 1 + s.int(3)
    cs.trick = ("client", s.pick(ks), "retry", n)
    for a in range(s.int(n + 1)):
        cs.flaky.append([("hdr", k, v) for k, v in gen_pairs(s, "x-res")] + [("trl", k, v) for k, v in gen_pairs(s, "x-trl")]
                        + [("raise", gen_err(s, p))])


def calmed(p: Profile) -> Profile:
    return p.but(p_fault=0.0, p_cancel=0.0, p_close=0.0, p_source_fail=0.0, p_app_cancel=0.0, p_swallow=0.0, p_cleanup=0.0,
                 p_stall_handler=0.0)
