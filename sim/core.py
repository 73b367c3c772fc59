"""Choices, traces and violations: everything a run is made of."""
from __future__ import annotations

import hashlib
import random
from typing import Any


class Choices:
    """All nondeterminism of a run, as named streams of small integers.

    Value 0 is always the simplest choice (no fault, no delay, smallest input), so an empty
    tape is the simplest run and shrinking means deleting and lowering entries.
    """

    def __init__(self, seed: int | None, tapes: dict[str, list[int]] | None = None) -> None:
        self.seed = seed
        self.replay = tapes
        self.rec: dict[str, list[int]] = {}
        self._rng: dict[str, random.Random] = {}
        self.n = 0

    def draw(self, stream: str, n: int) -> int:
        """An integer in [0, n)."""
        self.n += 1
        rec = self.rec.get(stream)
        if rec is None:
            rec = self.rec[stream] = []
        if self.replay is not None:
            tape = self.replay.get(stream)
            i = len(rec)
            v = tape[i] if tape is not None and i < len(tape) else 0
            if v >= n:
                v = n - 1
        else:
            rng = self._rng.get(stream)
            if rng is None:
                rng = self._rng[stream] = random.Random(f"{self.seed}/{stream}")
            v = int(rng.random() * n)
        rec.append(v)
        return v


class Stream:
    """A view on one named stream, with the distributions the generators use."""

    __slots__ = ("c", "name")

    def __init__(self, c: Choices, name: str) -> None:
        self.c = c
        self.name = name

    def int(self, n: int) -> int:
        return self.c.draw(self.name, n) if n > 1 else 0

    def chance(self, p: float) -> bool:
        """True with probability p; the zero tape gives False."""
        if p <= 0:
            return False
        return self.c.draw(self.name, 10000) >= 10000 - p * 10000

    def pick(self, seq):
        return seq[self.int(len(seq))]

    def weighted(self, pairs):
        """pairs: [(value, weight)], the first being the simplest."""
        total = sum(w for _, w in pairs)
        v = self.c.draw(self.name, 10000) * total / 10000.0
        for value, w in pairs:
            v -= w
            if v < 0:
                return value
        return pairs[-1][0] if pairs[-1][1] > 0 else pairs[0][0]

    def range(self, lo: int, hi: int) -> int:
        return lo + self.int(hi - lo + 1)

    def delay(self, scale: float) -> float:
        """A delay in seconds, often zero, otherwise spread over three decades."""
        k = self.c.draw(self.name, 8)
        if k < 3:
            return 0.0
        base = self.c.draw(self.name, 1000) + 1
        return round(scale * base / 1000.0 * (0.01, 0.1, 0.3, 1.0, 1.0)[k - 3], 6)


class Violation(Exception):
    def __init__(self, prop: str, cls: str, msg: str) -> None:
        super().__init__(f"{prop}/{cls}: {msg}")
        self.prop = prop
        self.cls = cls
        self.msg = msg


class Trace:
    """The event log of a run.  Never draws, never reads a real clock."""

    def __init__(self) -> None:
        self.ev: list[tuple[float, str, str, Any]] = []
        self.clock = None

    def __call__(self, who: str, what: str, info: Any = None) -> None:
        self.ev.append((self.clock.now if self.clock else 0.0, who, what, info))

    def digest(self) -> str:
        h = hashlib.blake2b(digest_size=16)
        for e in self.ev:
            h.update(repr(e).encode("utf-8", "backslashreplace"))
        return h.hexdigest()

    def shape(self) -> str:
        """Digest of the order of events without times and values."""
        h = hashlib.blake2b(digest_size=8)
        for _, who, what, _i in self.ev:
            h.update(f"{who}|{what};".encode())
        return h.hexdigest()

    def lines(self, limit: int = 400) -> list[str]:
        out = []
        for t, who, what, info in self.ev[:limit]:
            s = "" if info is None else " " + short(info)
            out.append(f"{t:12.6f} {who:<14} {what}{s}")
        if len(self.ev) > limit:
            out.append(f"... {len(self.ev) - limit} more events")
        return out


def short(v: Any, n: int = 160) -> str:
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[: n - 12] + f"...({len(s)})"
