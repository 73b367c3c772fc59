"""The simulated network: fault plans and byte pipes, shared by the async and the threaded world."""
from __future__ import annotations

from collections import deque
from dataclasses import dataclass, field
from typing import Any

from pyqwest import ReadError, StreamError, StreamErrorCode, WriteError

from .core import Choices, Stream
from .spec import Profile

RESET_CODES = ["NO_ERROR", "PROTOCOL_ERROR", "INTERNAL_ERROR", "FLOW_CONTROL_ERROR", "SETTINGS_TIMEOUT",
               "STREAM_CLOSED", "FRAME_SIZE_ERROR", "REFUSED_STREAM", "CANCEL", "COMPRESSION_ERROR",
               "CONNECT_ERROR", "ENHANCE_YOUR_CALM", "INADEQUATE_SECURITY", "HTTP_1_1_REQUIRED"]

PROXY_BODIES = [b"", b"<html>bad gateway</html>", b"upstream connect error", b"{}", b"{\"error\":\"nope\"}",
                b"{\"code\":\"not_found\",\"message\":\"from json\"}", b"\xff\xfe\x00", b"null", b"[1]", b"\"str\""]
PROXY_TYPES = ["text/html", "text/plain; charset=utf-8", "application/json", "", "application/octet-stream",
               "application/grpc", "application/proto", "application/connect+proto", "application/json; charset=utf-8"]
PROXY_STATUS = [502, 503, 504, 400, 401, 403, 404, 408, 409, 413, 415, 418, 429, 431, 500, 501, 505, 302, 499, 520]


class AppDisconnect(OSError):
    """What a server raises from send() after the client has gone."""


@dataclass
class Plan:
    connect_delay: float = 0.0
    up_lat: float = 0.0
    down_lat: float = 0.0
    jitter: float = 0.0
    up_chunk: tuple = ("all",)
    down_chunk: tuple = ("all",)
    up_win: int = 1 << 60
    down_win: int = 1 << 60
    fault: tuple = ("none",)
    disc_policy: str = "silent"   # what send() does after a disconnect
    disc_first: bool = False      # a disconnect overtakes buffered request data
    final_empty: bool = False     # the last request event carries no data
    empties: float = 0.0          # probability of empty request/response chunks
    abort_lat: float = 0.0        # how long the server takes to learn about a disconnect
    app_cancel: float | None = None
    cancel_msg: int = 0     # cancelled when the service method has read so many messages
    reframe: bool = False
    close_slow: float = 0.0


def _cut_pos(s: Stream) -> int:
    k = s.int(5)
    if k == 0:
        return s.int(13)
    if k == 1:
        return s.int(64)
    if k == 2:
        return s.int(600)
    if k == 3:
        return s.int(8000)
    return s.int(30)


def _chunking(s: Stream, p: Profile) -> tuple:
    if p.huge:
        return s.pick((("all",), ("fixed", 1 << 20), ("fixed", 3_000_001)))
    if not s.chance(p.p_split):
        return ("all",)
    k = s.int(5)
    if k == 0:
        return ("rand", 1 + s.int(2000))
    if k == 1:
        return ("small",)
    if k == 2:
        return ("edge",)
    if k == 3:
        return ("fixed", s.pick((1, 2, 4, 5, 6, 7, 16, 100, 4096)))
    return ("rand", 30)


def gen_plan(c: Choices, name: str, p: Profile) -> Plan:
    s = Stream(c, name)
    plan = Plan()
    plan.up_lat = s.delay(p.time_scale)
    plan.down_lat = s.delay(p.time_scale)
    plan.jitter = s.delay(p.time_scale) if s.chance(0.3) else 0.0
    plan.connect_delay = s.delay(p.time_scale) if s.chance(0.3) else 0.0
    plan.up_chunk = _chunking(s, p)
    plan.down_chunk = _chunking(s, p)
    if s.chance(p.p_window):
        plan.up_win = s.pick((65536, 1, 16, 300, 5000))
    if s.chance(p.p_window):
        plan.down_win = s.pick((65536, 1, 16, 300, 5000))
    plan.final_empty = s.chance(0.5)
    plan.empties = 0.3 if s.chance(0.2) else 0.0
    plan.disc_policy = s.pick(("silent", "raise", "cancel"))
    plan.disc_first = s.chance(0.4)
    plan.abort_lat = s.delay(p.time_scale)
    plan.reframe = s.chance(p.p_reframe)
    if s.chance(p.p_app_cancel):
        plan.app_cancel = s.delay(p.time_scale * 4)
        if s.chance(0.35):
            plan.app_cancel, plan.cancel_msg = None, 1 + s.int(2)
    if p.faults and s.chance(p.p_fault):
        kind = s.weighted([(k, v) for k, v in p.faults.items() if v > 0])
        plan.fault = gen_fault(s, kind, p)
    return plan


def gen_fault(s: Stream, kind: str, p: Profile) -> tuple:
    if kind == "refuse":
        return (kind, s.pick(("ConnectionError", "OSError", "ConnectionRefusedError", "RuntimeError")))
    if kind in ("connect_stall", "head_stall"):
        return (kind,)
    if kind == "proxy":
        return (kind, s.pick(PROXY_STATUS), s.pick(PROXY_TYPES), s.pick(PROXY_BODIES))
    if kind in ("up_cut", "down_cut"):
        return (kind, _cut_pos(s), gen_cut_mode(s))
    if kind == "down_eof":
        return (kind, _cut_pos(s))
    if kind == "up_eof":
        return (kind, _cut_pos(s))
    if kind == "up_tail":
        return (kind, 1 + _cut_pos(s), s.pick(("disc", "eof")))
    if kind == "down_tail":
        m = _cut_pos(s)
        return (kind, m, "eof" if s.chance(0.6) else gen_cut_mode(s))
    if kind in ("up_stall", "down_stall"):
        return (kind, _cut_pos(s), None if s.chance(0.5) else s.delay(p.time_scale * 20))
    if kind == "reset_at":
        return (kind, s.delay(p.time_scale * 4), "reset:" + s.pick(RESET_CODES))
    if kind == "crash":
        return (kind, s.delay(p.time_scale * 4))
    if kind == "corrupt":
        return (kind, _cut_pos(s), 1 + s.int(255))
    if kind == "no_trailers":
        return (kind,)
    if kind == "late_reset":  # the whole response arrives, then the stream is reset
        return (kind, "reset:" + s.pick(RESET_CODES))
    if kind == "expire":      # the server gives up on the call around its deadline
        return (kind, s.pick(("eof", "reset:CANCEL")), s.pick((0.0005, 0.005, 0.05, -0.0005, -0.005)))
    raise AssertionError(kind)


def gen_cut_mode(s: Stream) -> str:
    k = s.int(4)
    if k == 0:
        return "read"
    if k == 1:
        return "os"
    return "reset:" + s.pick(RESET_CODES)


def make_exc(mode: str, where: str) -> Exception:
    if mode.startswith("reset:"):
        return StreamError(f"stream reset {mode[6:]}", getattr(StreamErrorCode, mode[6:]))
    if mode == "read":
        return ReadError("connection lost") if where != "up" else WriteError("connection lost")
    if mode == "os":
        return ConnectionResetError("connection reset by peer")
    raise AssertionError(mode)


class Pipe:
    """One direction of a connection: bytes in order, with arrival times, an end, and a cut."""

    def __init__(self, s: Stream, lat: float, jitter: float, chunk: tuple, win: int, on_change) -> None:
        self.s = s
        self.lat = lat
        self.jitter = jitter
        self.chunk = chunk
        self.win = win
        self.on_change = on_change
        self.segs: deque = deque()
        self.last = 0.0
        self.in_bytes = 0
        self.out_bytes = 0
        self.buffered = 0
        self.end: Any = None        # ("eof",) | ("err", mode)
        self.end_time = 0.0
        self.limit: int | None = None
        self.limit_end: Any = None
        self.on_cut = None
        self.on_stall = None
        self.stall: tuple | None = None  # (offset, seconds|None)
        self.corrupt: tuple | None = None
        self.tail: tuple | None = None   # (n, end)
        self.cut_fired = False
        self.stalled = False
        self.dead = False           # nothing more is accepted
        self.arrived: list = []     # (offset, arrival time) of every push

    def push(self, data: bytes, now: float) -> None:
        if self.dead or not data:
            return
        data = bytes(data)
        if self.corrupt is not None and self.in_bytes <= self.corrupt[0] < self.in_bytes + len(data):
            b = bytearray(data)
            b[self.corrupt[0] - self.in_bytes] ^= self.corrupt[1]
            data = bytes(b)
            self.cut_fired = True
        cut = False
        if self.limit is not None and self.in_bytes + len(data) > self.limit:
            data = data[: self.limit - self.in_bytes]
            cut = True
        if data:
            if self.stall is not None and not self.stalled and self.in_bytes + len(data) > self.stall[0]:
                k = max(0, self.stall[0] - self.in_bytes)
                if k:
                    self._append(data[:k], now)
                    data = data[k:]
                self.stalled = True
                if self.on_stall:
                    self.on_stall()
                self.last = float("inf") if self.stall[1] is None else max(self.last, now) + self.stall[1]
            self._append(data, now)
        if cut:
            self.cut_fired = True
            self.dead = True
            self._set_end(self.limit_end, now)
            if self.on_cut:
                self.on_cut()
        self.on_change()

    def _append(self, data: bytes, now: float) -> None:
        t = now + self.lat
        if self.jitter:
            t += self.jitter * self.s.int(101) / 100.0
        t = max(t, self.last)
        self.last = t
        self.in_bytes += len(data)
        self.buffered += len(data)
        self.segs.append((t, data))
        self.arrived.append((self.in_bytes, t))

    def finish(self, now: float, end=("eof",)) -> None:
        """The writer is done (or failed: end=('err', mode))."""
        if self.dead or self.end is not None:
            return
        if self.tail is not None:
            n, tend = self.tail
            # Never more than what has not been read yet.
            n = min(n, self.buffered)
            if n or tend == ("eof_no_trailers",):
                self.cut_fired = True
                left = n
                while left:
                    t, d = self.segs.pop()
                    if len(d) > left:
                        self.segs.append((t, d[: len(d) - left]))
                        left = 0
                    else:
                        left -= len(d)
                self.buffered -= n
                self.in_bytes -= n
                end = tend
                if self.on_cut:
                    self.on_cut()
        self.dead = True
        self._set_end(end, now)
        self.on_change()

    def _set_end(self, end, now: float) -> None:
        if self.end is None:
            self.end = end
            self.end_time = max(self.last, now + self.lat)

    def fail(self, now: float, end) -> None:
        """The connection dies: undelivered data is lost."""
        if self.end is not None and self.end_time <= now and not self.segs:
            return
        self.segs = deque((t, d) for t, d in self.segs if t <= now)
        self.buffered = sum(len(d) for _, d in self.segs)
        self.dead = True
        self.end = end
        self.end_time = now
        self.cut_fired = True
        self.on_change()

    # ---- reader side
    def ready(self, now: float) -> bool:
        if self.segs:
            return self.segs[0][0] <= now
        return self.end is not None and self.end_time <= now

    def next_time(self) -> float | None:
        if self.segs:
            t = self.segs[0][0]
        elif self.end is not None:
            t = self.end_time
        else:
            return None
        return None if t == float("inf") else t

    def take(self, now: float, max_n: int | None = None):
        """bytes, or the end tuple.  Only call when ready()."""
        if not self.segs:
            return self.end
        avail = 0
        for t, d in self.segs:
            if t > now:
                break
            avail += len(d)
        n = self._size(avail)
        if max_n is not None and max_n >= 0:
            n = min(n, max_n)
        out = bytearray()
        while n:
            t, d = self.segs.popleft()
            if len(d) > n:
                out += d[:n]
                self.segs.appendleft((t, d[n:]))
                n = 0
            else:
                out += d
                n -= len(d)
        self.out_bytes += len(out)
        self.buffered -= len(out)
        self.on_change()
        return bytes(out)

    def _size(self, avail: int) -> int:
        m = self.chunk[0]
        if m == "all" or avail <= 1:
            return avail
        if m == "fixed":
            n = self.chunk[1]
            if avail > 2000 and n < 16:
                n = 1000 + n
        elif m == "rand":
            n = 1 + self.s.int(self.chunk[1])
            if avail > 4000:
                n *= 1 + avail // 50 // self.chunk[1]
        elif m == "small":
            n = 1 + self.s.int(8)
            if avail > 1000:
                n = 1 + self.s.int(2000)
                if avail > 20000:
                    n *= 10
        elif m == "edge":
            n = (1, 2, 3, 4, 5, 6, 10, 4091, 4096, 4101)[self.s.int(10)]
            if avail > 4000 and n <= 10 and self.s.int(4):
                n += 4096
            if avail > 50000:
                n *= 4
        else:
            raise AssertionError(m)
        return max(1, min(n, avail))

    def drained(self) -> bool:
        return self.end is not None and not self.segs
