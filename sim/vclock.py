"""Virtual clocks.  Must be imported before connectrpc, opentelemetry or asyncio users.

The functions of the `time` module are replaced by versions that read the clock of the
active simulation (and the real clock when none is active).  Every simulated node has its own
offset on the monotonic and on the wall clock, and the wall clock can be stepped by a fault.
"""
from __future__ import annotations

import contextvars
import time as _time

real_monotonic = _time.monotonic
real_perf_counter = _time.perf_counter
real_time = _time.time
real_time_ns = _time.time_ns
real_monotonic_ns = _time.monotonic_ns
real_perf_counter_ns = _time.perf_counter_ns
real_sleep = _time.sleep

#: which simulated machine the running code belongs to
node: contextvars.ContextVar[str] = contextvars.ContextVar("sim_node", default="client")

WALL_BASE = 1_750_000_000.0


class Clock:
    """One virtual clock per simulation run."""

    def __init__(self) -> None:
        self.now = 0.0
        self.mono_off: dict[str, float] = {}
        self.wall_off: dict[str, float] = {}
        self.on_sleep = None  # callable(seconds) for blocking sleeps
        self.reads = 0

    def mono(self) -> float:
        self.reads += 1
        return self.now + self.mono_off.get(node.get(), 0.0)

    def wall(self) -> float:
        self.reads += 1
        return WALL_BASE + self.now + self.wall_off.get(node.get(), 0.0)


active: Clock | None = None


def _monotonic() -> float:
    return real_monotonic() if active is None else active.mono()


def _perf_counter() -> float:
    return real_perf_counter() if active is None else active.mono() + 7.0


def _wtime() -> float:
    return real_time() if active is None else active.wall()


def _time_ns() -> int:
    return real_time_ns() if active is None else int(active.wall() * 1e9)


def _monotonic_ns() -> int:
    return real_monotonic_ns() if active is None else int(active.mono() * 1e9)


def _perf_counter_ns() -> int:
    return real_perf_counter_ns() if active is None else int((active.mono() + 7.0) * 1e9)


def _sleep(seconds: float) -> None:
    if active is None or active.on_sleep is None:
        real_sleep(seconds)
    else:
        active.on_sleep(seconds)


def install() -> None:
    _time.monotonic = _monotonic
    _time.perf_counter = _perf_counter
    _time.time = _wtime
    _time.time_ns = _time_ns
    _time.monotonic_ns = _monotonic_ns
    _time.perf_counter_ns = _perf_counter_ns
    _time.sleep = _sleep


def activate(clock: Clock | None) -> None:
    global active
    active = clock
