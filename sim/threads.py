"""Threads under a seeded scheduler: exactly one runs at a time, on virtual time.

Real OS threads carry the code (so thread identity, thread-locals and contexts are real), but
they hand a baton around: a thread runs until it blocks, sleeps, yields or is preempted, and
the seeded scheduler decides who is next.  Preemption inside the library happens at line
boundaries (sys.monitoring LINE events on its code objects).
"""
from __future__ import annotations

import _thread
import asyncio
import contextvars
import heapq
import importlib
import pkgutil
import sys
import types

from .aloop import SimOverrun, SimStuck
from .core import Choices, Stream

INF = float("inf")
active: "Sched | None" = None


class SimKilled(asyncio.CancelledError):
    """Ends a thread from outside: its process crashed, or the run is over."""


async def sleep(d: float) -> None:
    """Sleeps in whichever world is running."""
    if active is None:
        await asyncio.sleep(d)
    elif d:
        active.sleep(d)
    else:
        active.yield_()


def run_sync(coro):
    """Runs a coroutine whose awaits all block the thread instead of suspending."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("a coroutine suspended in the threaded world")


class _OSThread:
    """A reusable OS thread."""

    free: list = []

    def __init__(self) -> None:
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.job = None
        _thread.start_new_thread(self._loop, ())

    def _loop(self) -> None:
        while True:
            self.lock.acquire()
            job, self.job = self.job, None
            job()
            del job


class Handle:
    __slots__ = ("fn", "args", "cancelled")

    def __init__(self, fn, args) -> None:
        self.fn, self.args, self.cancelled = fn, args, False

    def cancel(self) -> None:
        self.cancelled = True
        self.fn = self.args = None


class Thr:
    """A simulated thread; also quacks like a task where the world needs it to."""

    def __init__(self, sched: "Sched", fn, name: str, ctx) -> None:
        self.sched, self.fn, self.name, self.ctx = sched, fn, name, ctx
        self.state = "new"
        self.kill = False
        self.exc: BaseException | None = None
        self.os: _OSThread | None = None
        self.lock = None
        self.timer: Handle | None = None

    # task-like
    def done(self) -> bool:
        return self.state == "done"

    def cancelled(self) -> bool:
        return self.done() and isinstance(self.exc, SimKilled)

    def exception(self):
        return None if isinstance(self.exc, SimKilled) else self.exc

    def cancel(self) -> None:
        if self.state != "done":
            self.kill = True
            self.sched.wake(self)

    def get_context(self):
        return self.ctx

    def get_coro(self):
        return types.SimpleNamespace(__qualname__=self.name)


class Sched:
    """The scheduler; also offers the few event loop methods the world model uses."""

    def __init__(self, c: Choices, clock, *, p_preempt: float = 0.0, max_steps: int = 200_000, max_time: float = 1e7) -> None:
        self.s = Stream(c, "sched")
        self.clock = clock
        self.run_q: list[Thr] = []
        self.threads: list[Thr] = []
        self.timers: list = []
        self._seq = 0
        self.steps = 0
        self.preempts = 0
        self.switches = 0
        self.max_steps, self.max_time = max_steps, max_time
        self.abort: BaseException | None = None
        self.p_preempt = p_preempt
        self.lines = 1 << 60
        self.parked: list = []     # preempted threads that wait until nobody else can run
        self.hot: set = set()      # functions of the library preempted at many of their lines
        self.hot_left = 0
        if p_preempt and _library and self.s.chance(0.4):
            self.hot_left = 24
            for _ in range(1 + self.s.int(3)):
                self.hot.add(_library[self.s.int(len(_library))])
        self.errors: list = []
        self.agen_finalized: list = []
        self.main = Thr(self, None, "main", None)
        self.main.lock = _thread.allocate_lock()
        self.main.lock.acquire()
        self.main.state = "running"
        self.cur = self.main
        self.order: list = []      # who ran, for the shape of the schedule
        self.on_switch = None
        self._gap()

    # ---- event-loop look-alikes
    def time(self) -> float:
        return self.clock.now

    def call_at(self, t, fn, *args):
        h = Handle(fn, args)
        self._seq += 1
        heapq.heappush(self.timers, (t, self._seq, h))
        return h

    def call_later(self, d, fn, *args):
        return self.call_at(self.clock.now + d, fn, *args)

    def call_soon(self, fn, *args):
        return self.call_at(self.clock.now, fn, *args)

    def create_task(self, coro, *, context=None, name=None) -> Thr:
        if name is None:
            name = getattr(coro, "__qualname__", "thread")
        return self.spawn(lambda: run_sync(coro), name, context)

    def all_tasks(self):
        return [t for t in self.threads if t.state != "done"]

    # ---- threads
    def spawn(self, fn, name: str, ctx=None) -> Thr:
        t = Thr(self, fn, name, ctx if ctx is not None else contextvars.copy_context())
        self.threads.append(t)
        os_ = _OSThread.free.pop() if _OSThread.free else _OSThread()
        t.os, t.lock = os_, os_.lock
        os_.job = lambda: self._body(t)
        t.state = "ready"
        self.run_q.append(t)
        return t

    def _body(self, t: Thr) -> None:
        t.state = "running"
        try:
            if t.kill:
                raise SimKilled
            t.ctx.run(t.fn)
        except BaseException as e:
            t.exc = e.with_traceback(None)
            t.exc.__context__ = t.exc.__cause__ = None
            del e
        t.fn = None
        t.state = "done"
        nxt = self._pick()
        self.cur = nxt
        nxt.state = "running"
        _OSThread.free.append(t.os)
        nxt.lock.release()

    def _fail(self, e: BaseException) -> Thr:
        self.abort = e
        if self.main in self.run_q:
            self.run_q.remove(self.main)
        return self.main

    def _pick(self) -> Thr:
        self.steps += 1
        if self.steps > self.max_steps and self.abort is None:
            return self._fail(SimOverrun(f"more than {self.max_steps} thread switches"))
        while True:
            while self.timers and (self.timers[0][2].cancelled or self.timers[0][0] <= self.clock.now):
                _, _, h = heapq.heappop(self.timers)
                if not h.cancelled:
                    h.fn(*h.args)
            if self.run_q:
                t = self.run_q.pop(self.s.int(len(self.run_q)))
                if t is not self.cur:
                    self.switches += 1
                return t
            if self.parked:
                self.run_q, self.parked = self.parked, []
                continue
            if not self.timers:
                return self._fail(SimStuck("no runnable thread and no timer"))
            self.clock.now = max(self.clock.now, self.timers[0][0])
            if self.clock.now > self.max_time:
                return self._fail(SimOverrun(f"virtual time beyond {self.max_time}"))

    def _switch(self, me: Thr) -> None:
        nxt = self._pick()
        self._gap()
        if nxt is not me:
            self.cur = nxt
            nxt.state = "running"
            nxt.lock.release()
            me.lock.acquire()
        me.state = "running"
        if me is self.main and self.abort is not None:
            e, self.abort = self.abort, None
            raise e
        if me.kill:
            raise SimKilled

    def _gap(self) -> None:
        if self.p_preempt and self.s.chance(self.p_preempt):
            self.lines = 1 + self.s.int((4, 20, 80, 400)[self.s.int(4)])
        else:
            self.lines = 1 << 60

    def preempt(self) -> None:
        self.preempts += 1
        me = self.cur
        if me.kill:   # killed threads die where they block, not in the middle of a line
            self.lines = 1 << 60
            return
        (self.parked if self.s.chance(0.4) else self.run_q).append(me)
        me.state = "ready"
        try:
            self._switch(me)
        except SimKilled:
            pass      # seen again at the next blocking point

    def yield_(self) -> None:
        me = self.cur
        if not self.run_q:
            self.run_q, self.parked = self.parked, []
        self.run_q.append(me)
        me.state = "ready"
        self._switch(me)

    def block(self, until: float = INF) -> None:
        """Blocks the running thread until wake() or the given time."""
        me = self.cur
        if me.kill:
            raise SimKilled
        me.state = "blocked"
        h = self.call_at(until, self.wake, me) if until < 1e17 else None
        try:
            self._switch(me)
        finally:
            if h is not None:
                h.cancel()

    def wake(self, t: Thr) -> None:
        if t.state == "blocked":
            t.state = "ready"
            self.run_q.append(t)

    def sleep(self, d: float) -> None:
        end = self.clock.now + d
        while self.clock.now < end:
            self.block(end)

    def join(self, ts, timeout: float) -> None:
        end = self.clock.now + timeout
        while any(t.state != "done" for t in ts) and self.clock.now < end:
            # cheap polling: let everybody else run, then let time pass to the next event
            if self.run_q:
                self.yield_()
            else:
                live = [x for x in self.timers if not x[2].cancelled]
                self.block(min(end, min(live)[0]) if live else end)

    def kill_all(self) -> bool:
        """Ends every other thread; True when all of them did."""
        for _ in range(200):
            left = [t for t in self.threads if t.state != "done"]
            if not left:
                return True
            for t in left:
                t.cancel()
            self.run_q += self.parked
            self.parked = []
            self.yield_()
        return False


class SGate:
    """Wakes every thread that waits for something to change."""

    __slots__ = ("sched", "waiters")

    def __init__(self, sched: Sched) -> None:
        self.sched = sched
        self.waiters: list = []

    def notify(self, *_a) -> None:
        if self.waiters:
            ws, self.waiters = self.waiters, []
            for t in ws:
                self.sched.wake(t)

    async def wait(self, until: float | None = None) -> None:
        me = self.sched.cur
        self.waiters.append(me)
        try:
            self.sched.block(INF if until is None else until)
        finally:
            if me in self.waiters:
                self.waiters.remove(me)


# ---- preemption inside the library
TOOL = 3
_installed = False


def _on_line(code, line):
    s = active
    if s is None:
        return
    s.lines -= 1
    if s.lines <= 0:
        s.preempt()
    elif s.hot_left and code in s.hot and s.s.chance(0.25):
        s.hot_left -= 1
        s.preempt()


def _codes(obj, seen, out) -> None:
    if isinstance(obj, types.CodeType):
        if obj not in seen:
            seen.add(obj)
            out.append(obj)
            for c in obj.co_consts:
                _codes(c, seen, out)


_library: list = []    # the functions of connectrpc itself, in a fixed order


def install_preemption() -> None:
    """Line events for all functions of connectrpc."""
    global _installed
    if _installed or not hasattr(sys, "monitoring"):
        return
    _installed = True
    import connectrpc

    for m in pkgutil.walk_packages(connectrpc.__path__, "connectrpc."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    out: list = []
    seen: set = set()
    for name, mod in sorted(sys.modules.items()):
        if not (name == "connectrpc" or name.startswith(("connectrpc.", "connectrpc_otel"))):
            continue
        for v in list(vars(mod).values()):
            if isinstance(v, types.FunctionType):
                _codes(v.__code__, seen, out)
            elif isinstance(v, type):
                for x in list(vars(v).values()):
                    f = x.__func__ if isinstance(x, (classmethod, staticmethod)) else x
                    f = f.fget if isinstance(f, property) else f
                    if isinstance(f, types.FunctionType):
                        _codes(f.__code__, seen, out)
    m = sys.monitoring
    m.use_tool_id(TOOL, "sim-preempt")
    m.register_callback(TOOL, m.events.LINE, _on_line)
    for code in out:
        if "connectrpc" in code.co_filename:
            m.set_local_events(TOOL, code, m.events.LINE)
            if "otel" not in code.co_filename and "/_gen/" not in code.co_filename:
                _library.append(code)
    _library.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def discard() -> None:
    """Lets the idle OS threads end, so that runs share no thread-local state."""
    free, _OSThread.free = _OSThread.free, []
    for t in free:
        t.job = _thread.exit
        t.lock.release()
