"""C11: every call of a busy run is compared with the same call made alone.

The solo run repeats every choice of the busy run that concerns the call (its network, its
script, its client application) and leaves out all other calls.
"""
from __future__ import annotations

import random
import re

from .core import Choices
from .spec import gen_run

EPS = 1e-6


class Echo:
    """The choices of another run, and fresh ones where that made none."""

    def __init__(self, c: Choices, name: str) -> None:
        self.c = c
        self.name = name
        self.seed = c.seed
        self.base = {k: list(v) for k, v in c.rec.items() if k != "sched"}
        self.pos: dict[str, int] = {}
        self.n = 0

    def draw(self, stream: str, n: int) -> int:
        i = self.pos.get(stream, 0)
        self.pos[stream] = i + 1
        tape = self.base.get(stream)
        if tape is not None and i < len(tape):
            return min(tape[i], n - 1)
        return self.c.draw(f"{self.name}/{stream}", n)


def _tokens(evs):
    """Interceptor events of one call, with tokens renamed in order of appearance."""
    names: dict = {}

    def tok(t):
        return names.setdefault(t, len(names)) if isinstance(t, int) and t else t
    out = []
    for t, side, owner, call, idx, ev, info, seq in evs:
        if ev == "start":
            info = (tok(info[0]), info[1])
        elif ev == "end" and info is not None:
            info = ((tok(info[0][0]), info[0][1]), info[1])
        out.append((side, owner, idx, ev, info))
    return out


def observe(w, i: int) -> dict:
    """What a call and its application saw of the library."""
    rec = w.calls[i]
    o = {
        "client outcome": rec.outcome, "client messages": [d for _, d in rec.recv], "client received junk": rec.bad,
        "response headers": rec.md_headers, "response trailers": rec.md_trailers, "message source": (rec.src_state, rec.src_starts),
        "messages taken from the source": [d for _, d in rec.sent],
    }
    hs = [h for h in w.handlers if h.call == i]
    o["service executions"] = len(hs)
    for h in hs[:1]:
        o |= {"service requests": [d for _, d in h.reqs], "service request end": h.req_end, "service junk": h.bad,
              "service sends": [d for _, d in h.sends], "service end": h.end, "service headers": sorted(h.req_headers),
              "service timeouts": [t for _, t in h.ctx], "service clean-up": h.cleanup_done, "service object": h.service,
              "request context": h.ident, "request context at the end": h.ident_end}
    cs = [c for c in w.conns if c.call == i]
    o["HTTP requests"] = len(cs)
    for c in cs[:1]:
        o |= {"request line": (c.method, GZIP_B64.sub("message=H4sI", c.url)), "request headers": sorted(c.headers), "request bytes": bytes(c.up_bytes),
              "request end": c.up_end, "application exception": c.app_exc, "response bytes": bytes(c.down_emitted),
              "response start": next((m for _, m, *_ in c.events if m["type"] == "http.response.start"), None)}
    if w.spec.peer != "fakeclient":
        o["client interceptors"] = _tokens([e for e in w.ilog.ev if e[1] == "client" and e[3] == i])
    if w.spec.peer != "fake":
        o["server interceptors"] = _tokens([e for e in w.ilog.ev if e[1] == "server" and e[3] == i])
    o["duration"] = None if rec.t_end is None else rec.t_end - rec.t_start
    return o


def calm(w, i: int) -> bool:
    rec = w.calls[i]
    if rec.cancel_t is not None or rec.close_t is not None or rec.spec.source_fail is not None or rec.hung:
        return False
    for c in w.conns:
        if c.call == i and (c.faults or c.app_cancel_t is not None or c.crashed or c.disconnect_t is not None):
            return False
    d = rec.deadline
    if d is not None and (rec.t_end is None or rec.t_end >= d - 0.002) or rec.timeout is not None and rec.timeout < 0.002:
        return False
    return rec.t_end is not None


GZIP = re.compile(rb"(\x1f\x8b\x08.)....", re.S)   # a gzip header carries the time of day

GZIP_B64 = re.compile(r"message=H4sI.{8}")


def same(x, y) -> bool:
    if isinstance(x, float) or isinstance(y, float):
        return x == y or isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) <= EPS * (1 + abs(x))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(map(same, x, y))
    return x == y


def differs(a: dict, b: dict, sync: bool):
    """The first difference that matters.  Tasks are scheduled in a fixed order, so a call among
    tasks repeats its lone run exactly; threads are not, so there timing may shift a little, and
    with it how much of a request is still uploaded when the response is complete."""
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, bytes) and isinstance(y, bytes):
            x, y = GZIP.sub(rb"\1", x), GZIP.sub(rb"\1", y)
        if sync:
            if k == "duration":
                if y is not None and x is not None and y > x + 5.0:
                    return k, x, y
                continue
            if k in ("message source", "request end"):
                continue
            if k in ("request bytes", "messages taken from the source"):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return k, x, y
                continue
            if k == "service timeouts":
                if len(x) != len(y) or any((p is None) != (q is None) for p, q in zip(x, y)):
                    return k, x, y
                continue
            if k.endswith("interceptors"):
                x, y = ([(*e[:4], (e[4][0], e[4][1] is None) if e[3] == "start" else e[4]) for e in v] for v in (x, y))
        if not same(x, y):
            return k, x, y
    return None


def addresses(w, rec) -> tuple:
    """The client's and the server's address as the request context must show them."""
    from .sworld import SWorld

    p = rec.cfg.peer_address(rec.spec.i, isinstance(w, SWorld))
    return p and "%s:%d" % p, "%s:%d" % rec.cfg.address


def judge(c: Choices, w, make):
    """Violations: calm calls that behave differently in company than alone."""
    from .aworld import _pairs
    from .core import short

    for h in w.handlers:
        if h.fake or h.ident is None:
            continue
        if h.ident_end is not None and h.ident != h.ident_end:
            yield "context", f"call {h.call}: its request context changed from {short(h.ident)} to {short(h.ident_end)}"
        if h.call < 0:
            continue
        rec = w.calls[h.call]
        want = (rec.spec.method, *addresses(w, rec))
        got = (h.ident[0], h.ident[2], h.ident[3])
        if got != want:
            yield "context", f"call {h.call}: its request context says {got[0]} from {got[1]} at {got[2]}, not {want[0]} from " \
                             f"{want[1]} at {want[2]}"
    for i, (h, before) in sorted(w.app_headers.items()):
        if _pairs(h) != before:
            yield "headers-object", f"call {i}: the application's own headers object now holds {short(_pairs(h))}, not {short(before)}"
    # what a call that waits for others does depends on them
    busy = {r.spec.inside[0] for r in w.calls if r.spec.inside is not None}
    todo = [r.spec.i for r in w.calls if r.outcome is not None and r.spec.i not in busy and calm(w, r.spec.i)]
    if len(w.calls) < 2 or not todo:
        return
    i = todo[c.draw("solo", len(todo))]
    random.seed(f"{c.seed}/global")
    e = Echo(c, f"solo{i}")
    w1 = make(e, gen_run(e, w.profile), w.profile)
    w1.driven = [w1.calls[i]]
    w1.run()
    sync = getattr(w, "sync", False)
    if not calm(w1, i):
        if sync:
            return
        yield "calm", f"call {i} alone is disturbed: {short(w1.calls[i].outcome)} (in company: {short(w.calls[i].outcome)})"
        return
    d = differs(observe(w1, i), observe(w, i), sync)
    if d is not None:
        s = w.calls[i].spec
        yield "isolation", (f"call {i} ({s.kind}, {len(w.calls)} calls in all): {d[0]} is {short(d[2], 300)} in company but "
                            f"{short(d[1], 300)} alone")
