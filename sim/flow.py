"""C25: flow control.  Neither end runs ahead of what its application, or its peer, is ready for."""
from __future__ import annotations

import bisect

from . import wire
from .core import short
from .oracles import EPS, Run, _d, is_stream_wire

SLACK = 8     # messages that may be in hand; an unbounded buffer has no such number


def _ends(data: bytes, proto: str = "") -> list[int]:
    """Offsets at which the messages of a framed body are complete (what ends a response is no message)."""
    end = {"connect": 2, "grpc_web": 0x80}.get(proto, 0)
    return [e for flags, _, e in wire.split_frames(data)[0] if not flags & end]


def _count(ends: list[int], total: int) -> int:
    return bisect.bisect_right(ends, total)


def _at(log: list, t: float) -> int:
    """Bytes logged up to and including t; log is [(t, total)]."""
    n = 0
    for when, total in log:
        if when > t + EPS:
            break
        n = total
    return n


def c25(R: Run):
    for rec in R.w.calls:
        i = rec.spec.i
        c = R.conn(i)
        kind, proto = rec.spec.kind, rec.cfg.protocol
        if c is None or kind in ("unary", "get") or R.corrupt(i) or not is_stream_wire(proto, kind):
            continue
        what = f"call {i} ({_d(R, i)})"
        h = R.handler(i)
        if R.client_real:
            ends = _ends(bytes(c.up_bytes))
            if rec.spec.req_stream:
                for n, (t, _) in enumerate(rec.sent, 1):
                    out = _count(ends, _at(c.up_log, t))
                    if n - out > SLACK and (c.client_close_t is None or t < c.client_close_t):
                        yield "upload", (f"{what}: the application was asked for message {n} at {t:.6f}, when the transport had taken "
                                         f"{out} of its messages")
                        break
            if rec.spec.rep_stream and c.head is not None and c.head[0] == 200:
                ends = _ends(bytes(c.down_delivered), proto)
                for a, b in rec.app_busy:
                    n0, n1 = _count(ends, _at(c.deliver_log, a)), _count(ends, _at(c.deliver_log, b - 2 * EPS))
                    if n1 - n0 > SLACK:
                        yield "download", (f"{what}: {n1 - n0} more messages were taken from the network from {a:.6f} to {b:.6f}, "
                                           "while the application was busy with one")
                        break
        if R.server_real and h is not None and not h.fake:
            if rec.spec.rep_stream and c.down_emitted:
                ends = _ends(bytes(c.down_emitted), proto)
                gone = min([t for t in (c.disconnect_t, c.crash_t, c.app_cancel_t) if t is not None], default=None)
                for n, (t, _) in enumerate(h.sends, 1):
                    if gone is not None and t >= gone - EPS:
                        break
                    out = _count(ends, _at(c.down_log, t))
                    if n - out > SLACK:
                        yield "response", (f"{what}: the service was asked for message {n} at {t:.6f}, when the server had been "
                                           f"given {out} of its messages")
                        break
            if rec.spec.req_stream:
                ends = _ends(bytes(c.up_delivered))
                log, total = [], 0
                for t, ev, n, _ in c.recv_events:
                    total += n
                    log.append((t, total))
                # the service is on its own from each message it got to the next it asked for
                starts = [h.t_start] + [t for t, _ in h.reqs]
                for k, a in enumerate(starts):
                    b = h.asked[k] if k < len(h.asked) else h.end_t
                    if b is None or b - a < 4 * EPS:
                        continue
                    n0, n1 = _count(ends, _at(log, a)), _count(ends, _at(log, b - 2 * EPS))
                    if n1 - n0 > SLACK:
                        yield "request", (f"{what}: {n1 - n0} more messages were taken from the network from {a:.6f} to {b:.6f}, "
                                          f"while the service had asked for none ({short(h.asked)})")
                        break
