"""An asyncio event loop on virtual time."""
from __future__ import annotations

import asyncio
import asyncio.base_events as _be
import heapq
import sys

from .vclock import Clock


class SimStuck(BaseException):
    """Nothing can ever happen again although the main task is not done."""


class SimOverrun(BaseException):
    """The run exceeded its step or time budget."""


class _Selector:
    def __init__(self, loop: "SimLoop") -> None:
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        if timeout is None:
            raise SimStuck("no runnable task and no timer")
        if timeout > 0:
            when = loop._scheduled[0]._when
            if when > loop.clock.now:
                loop.clock.now = when
                if when > loop.max_time:
                    raise SimOverrun(f"virtual time beyond {loop.max_time}")
        return ()

    def close(self) -> None:
        pass


class _Timer(asyncio.TimerHandle):
    """Equal deadlines fire in the order they were set, whatever else is in the heap."""

    __slots__ = ("seq",)

    def __lt__(self, other):
        if self._when == other._when:
            return self.seq < other.seq
        return self._when < other._when


class SimLoop(_be.BaseEventLoop):
    def __init__(self, clock: Clock, max_steps: int = 400_000, max_time: float = 1e7) -> None:
        super().__init__()
        self.clock = clock
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.steps = 0
        self._timer_seq = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.agen_finalized: list[str] = []
        self.errors: list[dict] = []
        self.set_exception_handler(self._record_error)

    def time(self) -> float:
        return self.clock.now

    def call_at(self, when, callback, *args, context=None):
        t = _Timer(when, callback, args, self, context)
        self._timer_seq += 1
        t.seq = self._timer_seq
        heapq.heappush(self._scheduled, t)
        t._scheduled = True
        return t

    def _process_events(self, event_list) -> None:
        pass

    def _write_to_self(self) -> None:
        pass

    def _run_once(self) -> None:
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimOverrun(f"more than {self.max_steps} loop steps")
        super()._run_once()

    def _record_error(self, loop, context) -> None:
        self.errors.append(context)

    def _asyncgen_finalizer_hook(self, agen) -> None:
        # An async generator was dropped without being closed.
        self.agen_finalized.append(getattr(agen, "__qualname__", "?"))
        super()._asyncgen_finalizer_hook(agen)

    def all_tasks(self):
        return [t for t in asyncio.all_tasks(self) if not t.done()]


assert sys.version_info >= (3, 10)
