"""What each property's check runs: worlds, profiles and judges."""
from __future__ import annotations

import random
from dataclasses import dataclass, field
from typing import Any, Callable

from .core import Choices
from .spec import Profile, gen_run

DOWN = {"down_cut": 3, "down_eof": 3, "down_tail": 4, "reset_at": 1.5, "crash": 1.5, "no_trailers": 1, "late_reset": 2, "proxy": 0.3}
UP = {"up_cut": 3, "up_eof": 3, "up_tail": 4, "reset_at": 1, "crash": 0.5, "up_stall": 0.5}
STALL = {"connect_stall": 1, "head_stall": 2, "up_stall": 2, "down_stall": 3}
ALL = {"refuse": 1, "connect_stall": 1, "head_stall": 1, "proxy": 1, "up_cut": 2, "down_cut": 2, "down_eof": 2, "up_eof": 2,
       "up_tail": 2, "down_tail": 3, "up_stall": 1, "down_stall": 1, "reset_at": 1, "crash": 1, "no_trailers": 1, "late_reset": 1.5}
APP = {"app": 1}
MIX = {"app": 3, "fake": 1}
ANY = {"app": 3, "fake": 1, "fakeclient": 1}
SRV = {"app": 2, "fakeclient": 1}
CLI = {"app": 2, "fake": 1}
STREAMY = {"cs": 2, "ss": 3, "bidi": 3}

QUIET = Profile(peer=ANY, p_slow_icept=0.1, p_chain=0.2, p_nest=0.2, p_odd_timeout=0.15)
CHAOS = QUIET.but(p_fault=0.6, faults=ALL, p_cancel=0.1, p_close=0.1, p_source_fail=0.1, p_app_cancel=0.1, p_swallow=0.1,
                  p_cleanup=0.2, p_timeout=0.3, p_interceptors=0.4, p_slow_icept=0.15, p_stall_handler=0.1)

BUSY = QUIET.but(calls=((2, 1), (3, 3), (5, 2), (8, 1)), p_chain=0.3, p_nest=0.25, p_meta=0.6, p_interceptors=0.5, p_error=0.3, p_timeout=0.3,
                 clients=((1, 3), (2, 1)))
BUSY_CHAOS = CHAOS.but(calls=((2, 1), (3, 3), (5, 2), (8, 1)), p_chain=0.3, p_nest=0.25, p_calm=0.6, p_meta=0.6, p_interceptors=0.5,
                       clients=((1, 3), (2, 1)), p_limit_server=0.2)

MALFORMED = CHAOS.but(peer={"fakeclient": 1}, p_mangle=0.9, p_fault=0.15, faults=UP, p_cancel=0, p_close=0.05, p_limit_server=0.2)

GARBLED = CHAOS.but(peer={"fake": 1}, p_garble=0.85, p_fault=0.15, faults={**DOWN, "corrupt": 0.3}, p_cancel=0.02, p_close=0.02,
                    p_source_fail=0.02, p_timeout=0.05, p_stall_handler=0.0)

#: where the length of a message outgrows its third and fourth byte
HUGE = QUIET.but(calls=((1, 1),), clients=((1, 1),), kinds={"unary": 2, "cs": 1, "ss": 1, "bidi": 1}, max_msgs=2, p_window=0, p_reframe=0, p_nest=0,
                 comps={"identity": 4, "zstd": 1}, p_pingpong=0, flavours={"py": 1}, huge=True,
                 msg_classes={"blob65500": 1, "blob65536": 1, "blob1048570": 1, "text1048600": 1, "blob4194303": 1, "blob16777200": 1.5, "text16777240": 1.5, "tiny": 2})


@dataclass
class Result:
    viol: list                      # [(class, message)]
    shape: str = ""
    digest: str = ""
    lines: Callable[[], list] = list
    sim_time: float = 0.0
    steps: int = 0
    calls: int = 0
    faults: dict = field(default_factory=dict)
    components: dict = field(default_factory=dict)
    relevant: bool = True
    sample: str = ""
    harness: str | None = None


@dataclass
class Job:
    name: str
    run: Callable[[Choices, "Job", str], Result]
    profile: Any = None
    weight: float = 1.0
    note: str = ""
    relevant: Callable | None = None


def call_line(rec) -> str:
    s = rec.spec
    return (f"{s.kind}/{rec.cfg.protocol}/{rec.cfg.codec}/{rec.cfg.send_comp or 'identity'} reqs={len(s.reqs)} reps={len(s.reps)}"
            f" err={s.err[:2] if s.err else None} timeout_ms={s.timeout_ms or rec.cfg.timeout_ms} -> {rec.outcome and rec.outcome[:2]}")


def run_async(c: Choices, job: Job, prop: str) -> Result:
    from . import aworld, oracles
    from .judges import JUDGES

    random.seed(f"{c.seed}/global")
    w = aworld.World(c, gen_run(c, job.profile), job.profile)
    w.run()
    R = oracles.Run(w)
    return finish(w, job, list(JUDGES[prop](R)), R)


def run_sync(c: Choices, job: Job, prop: str) -> Result:
    from . import oracles, sworld
    from .judges import JUDGES

    random.seed(f"{c.seed}/global")
    w = sworld.SWorld(c, gen_run(c, job.profile), job.profile)
    w.run()
    R = oracles.Run(w)
    return finish(w, job, list(JUDGES[prop](R)), R)


def run_life(c: Choices, job: Job, prop: str) -> Result:
    from . import life

    random.seed(f"{c.seed}/global")
    w = life.LifeWorld(c, gen_run(c, job.profile), job.profile)
    w.run()
    r = finish(w, job, list(life.judge(w)))
    r.sample += f" | lifespan { {k: v for k, v in w.life.__dict__.items() if v} } -> {[x[3] for x in w.log if x[2] == 'send']}"
    return r


def run_isolated(c: Choices, job: Job, prop: str) -> Result:
    from . import aworld, isolate, sworld

    random.seed(f"{c.seed}/global")
    make = sworld.SWorld if job.name.startswith("threads") else aworld.World
    w = make(c, gen_run(c, job.profile), job.profile)
    w.run()
    return finish(w, job, list(isolate.judge(c, w, make)))


def run_otel(c: Choices, job: Job, prop: str) -> Result:
    from . import aworld, oracles, otel, sworld

    random.seed(f"{c.seed}/global")
    make = sworld.SWorld if job.name.startswith("threads") else aworld.World
    w = make(c, gen_run(c, job.profile), job.profile)
    otel.instrument(w)
    with otel.installed(w):
        w.run()
    R = oracles.Run(w)
    return finish(w, job, list(otel.judge(R)), R)


def finish(w, job: Job, viol: list, R=None) -> Result:
    for p in w.problems:
        if p.startswith(("SimOverrun", "SimStuck", "teardown")):
            viol.append(("livelock", p))
        elif p.startswith("crash of"):
            viol.append(("crash", p))
    harness = [p for p in w.problems if not p.startswith(("SimOverrun", "SimStuck", "teardown", "crash of"))]
    faults = dict(w.fault_counts)
    rel = any(r.outcome is not None for r in w.calls)
    if rel and job.relevant is not None:
        rel = bool(job.relevant(w))
    return Result(viol=viol, shape=w.trace.shape(), digest=w.trace.digest(), lines=w.trace.lines, sim_time=w.clock.now,
                  steps=len(w.trace.ev), calls=len(w.calls), faults=faults, components=dict(w.components), relevant=rel,
                  sample="; ".join(call_line(r) for r in w.calls) + f" | faults {faults} | peer {w.spec.peer}",
                  harness=harness[0] if harness else None)


# ---- when a run says something about a property
def faulted(w):
    return any(c.faults for c in w.conns) or any(k in w.fault_counts for k in ("source_fail", "cancel", "early_close", "app_cancel"))


def timed(w):
    return any(r.timeout is not None for r in w.calls)


def ends_early(w):
    return any(r.outcome and r.outcome[0] != "ok" for r in w.calls)


def failing(w):
    return any(r.spec.err is not None for r in w.calls)


def meta(w):
    return any(r.md_headers is not None for r in w.calls)


def icepts(w):
    return any(cl.interceptors for cl in w.spec.clients) or bool(w.spec.server.interceptors)


def tricks(w):
    return any(r.spec.trick for r in w.calls)


def retried(w):
    return len(w.conns) > len({c.call for c in w.conns})


def limited(w):
    return w.spec.server.read_max is not None or any(cl.read_max is not None for cl in w.spec.clients)


def busy(w):
    return sum(r.outcome is not None for r in w.calls) > 1


def mangled(w):
    return any(r.spec.mangle for r in w.calls)


def garbled(w):
    return any(r.spec.garble for r in w.calls)


def early_errors(w):
    return any(getattr(c, "body_at_end", None) and c.events and (c.events[0][1].get("status") != 200 or r.outcome != ("ok",))
               for r in w.calls for c in w.conns if c.call == r.spec.i)


def streams(w):
    return any(r.spec.kind in ("cs", "ss", "bidi") for r in w.calls)


def A(name, profile, weight=1.0, relevant=None, note=""):
    return Job(name, run_async, profile, weight, note, relevant)


def S(name, profile, weight=1.0, relevant=None, note=""):
    """The same in the threaded world: synchronous client, WSGI application, pre-emptive scheduling."""
    return Job("threads-" + name, run_sync, profile.but(p_cancel=0.0, p_app_cancel=0.0, p_preempt=0.3), weight, note, relevant)


JOBS: dict[str, list[Job]] = {
    "C01": [A("quiet", QUIET.but(p_interceptors=0.15), 3), A("chaos", CHAOS, 1),
            A("limits", QUIET.but(p_limit_client=0.5, p_limit_server=0.5), 0.5), A("huge", HUGE, 0.06)],
    "C02": [A("cut-responses", CHAOS.but(peer=CLI, faults=DOWN, p_fault=0.85, p_cancel=0.02, p_close=0.02, p_app_cancel=0.05,
                                         p_timeout=0.1), 3, faulted),
            A("chaos", CHAOS, 1, faulted), A("malformed", GARBLED, 0.7, garbled)],
    "C03": [A("cut-requests", CHAOS.but(peer=SRV, faults=UP, p_fault=0.75, p_cancel=0.15, p_source_fail=0.2, p_close=0.05,
                                        kinds={"unary": 2, "get": 0.5, "cs": 3, "ss": 2, "bidi": 2}), 3, faulted),
            A("chaos", CHAOS, 1, faulted)],
    "C04": [A("errors", QUIET.but(p_error=0.75, p_badmsg=0.05, p_interceptors=0.2, p_timeout=0.1), 3, failing),
            A("errors-chaos", CHAOS.but(p_error=0.7, p_fault=0.3), 1, failing)],
    "C05": [A("deadlines", CHAOS.but(p_timeout=0.9, faults=STALL, p_fault=0.4, p_stall_handler=0.3, p_cancel=0.03, p_close=0.03,
                                     p_source_fail=0.03, p_app_cancel=0.03, p_slow_consumer=0.5, p_interceptors=0.3, p_slow_icept=0.4), 3, timed),
            A("chaos", CHAOS.but(p_timeout=0.6, p_slow_icept=0.3), 1, timed),
            A("odd", CHAOS.but(p_timeout=0.8, p_odd_timeout=0.5, p_fault=0.2), 0.4, timed),
            A("expiring", QUIET.but(p_timeout=0.95, faults={"expire": 1}, p_fault=0.9, p_stall_handler=0.5, p_slow_consumer=0.4, p_lax=0.8,
                                    peer=CLI), 1, faulted)],
    "C06": [A("budgets", QUIET.but(p_timeout=0.85, p_odd_timeout=0.25, p_skew=0.8, p_walljump=0.5, p_interceptors=0.4,
                                   p_delay=0.7), 3, timed),
            A("chaos", CHAOS.but(p_timeout=0.8, p_odd_timeout=0.3, p_skew=0.8, p_walljump=0.4, p_slow_icept=0.4), 1, timed)],
    "C07": [A("leavers", CHAOS.but(peer=CLI, p_cancel=0.35, p_close=0.35, p_source_fail=0.15, p_fault=0.5), 3, ends_early),
            A("chaos", CHAOS, 1, ends_early), A("malformed", GARBLED.but(p_close=0.15, p_cancel=0.1), 0.7, garbled)],
    "C08": [A("buffered", QUIET.but(peer=SRV, kinds={"cs": 1, "bidi": 1}, p_app_cancel=0.95, p_split=0.1, p_delay=0.1, p_pingpong=0.0,
                                    p_window=0.1, max_msgs=10, p_error=0.1, p_cleanup=0.2), 0.5, ends_early),
            A("departures", CHAOS.but(peer=SRV, faults={**UP, "down_cut": 2, "down_stall": 1}, p_app_cancel=0.3, p_cancel=0.2,
                                      p_close=0.2, p_swallow=0.15, p_cleanup=0.5), 3, faulted),
            A("chaos", CHAOS.but(p_cleanup=0.4, p_badmsg=0.3, p_error=0.3), 1)],
    "C09": [A("chaos", CHAOS.but(peer=SRV, p_error=0.35, p_badmsg=0.2), 2),
            A("limits", CHAOS.but(peer=SRV, p_limit_server=0.6, p_fault=0.3), 0.7),
            A("malformed", MALFORMED, 1.5, mangled)],
    "C10": [A("malformed", MALFORMED, 0.7, mangled), A("failures", CHAOS.but(peer=SRV, p_error=0.45, p_badmsg=0.15, p_app_cancel=0.25, p_swallow=0.2, p_cleanup=0.4), 3, ends_early),
            A("chaos", CHAOS, 1), A("aborts", QUIET.but(peer=SRV, p_error=0.8, p_abort=0.7, p_app_cancel=0.1, p_cleanup=0.2), 1, ends_early)],
    "C11": [Job("company", run_isolated, BUSY, 2, relevant=busy),
            Job("company-chaos", run_isolated, BUSY_CHAOS, 2, relevant=busy),
            Job("threads", run_isolated, BUSY.but(p_preempt=0.5), 2, relevant=busy),
            Job("threads-chaos", run_isolated, BUSY_CHAOS.but(p_preempt=0.4, p_cancel=0.0, p_app_cancel=0.0), 2, relevant=busy)],
    "C12": [A("metadata", QUIET.but(p_meta=0.97, p_error=0.35, p_interceptors=0.2), 3, meta),
            A("metadata-chaos", CHAOS.but(p_meta=0.97), 1, meta),
            A("touched", QUIET.but(p_meta=0.8, p_error=0.3, p_interceptors=0.9, p_touch=0.7, peer=APP), 1, lambda w: bool(w.touched)),
            A("touched-chaos", CHAOS.but(p_meta=0.8, p_error=0.3, p_interceptors=0.9, p_touch=0.7, peer=APP), 0.5, lambda w: bool(w.touched))],
    "C13": [A("interceptors", CHAOS.but(p_interceptors=0.97, p_error=0.3, p_slow_icept=0.25), 3, icepts),
            A("interceptors-quiet", QUIET.but(p_interceptors=0.97, p_error=0.3, p_timeout=0.2, p_slow_icept=0.25), 1, icepts),
             A("active", QUIET.but(p_interceptors=0.97, p_trick=0.9, p_error=0.2, p_timeout=0.1), 2, tricks),
             A("active-chaos", CHAOS.but(p_interceptors=0.97, p_trick=0.9, p_error=0.2), 1, tricks)],
    "C14": [A("limits", QUIET.but(p_limit_client=0.7, p_limit_server=0.7), 3, limited),
            A("limits-chaos", CHAOS.but(p_limit_client=0.7, p_limit_server=0.7, p_fault=0.4), 1, limited)],
    "C15": [A("conversations", QUIET.but(kinds={"cs": 1, "ss": 2, "bidi": 5}, p_slow_icept=0.0, p_pingpong=0.85, p_delay=0.7, p_error=0.15,
                                         p_interceptors=0.2), 3, streams),
            A("stalls", CHAOS.but(kinds={"cs": 1, "ss": 3, "bidi": 4}, p_slow_icept=0.0, p_pingpong=0.8, p_delay=0.7, p_fault=0.4), 1, streams)],
    "C16": [A("failures", CHAOS.but(peer=CLI, p_fault=0.8, faults={**ALL, "refuse": 3, "reset_at": 3, "proxy": 3}), 3, faulted),
            A("quiet", QUIET, 0.5)],
    "C17": [Job("lifespan", run_life, QUIET.but(peer=APP, calls=((1, 3), (2, 3), (3, 2), (5, 1)), start_spread=0.3, p_error=0.15,
                                                p_timeout=0.05, time_scale=0.1), 3),
            Job("lifespan-chaos", run_life, CHAOS.but(peer=APP, calls=((2, 3), (3, 2), (5, 1)), start_spread=0.3), 1)],
    "C19": [A("transport", CHAOS.but(peer=CLI, p_fault=0.9, faults={**ALL, "refuse": 2, "reset_at": 4, "proxy": 4}, p_cancel=0.02,
                                     p_close=0.02), 3, faulted),
            A("corrupt", CHAOS.but(peer=CLI, p_fault=0.8, faults={"corrupt": 1}, p_cancel=0.02, p_close=0.02), 1.5, faulted),
            A("malformed", GARBLED, 2, garbled)],
}

FLOWING = QUIET.but(kinds=STREAMY, max_msgs=40, msg_classes={"tiny": 4, "empty": 1, "small": 3, "blob300": 1}, p_window=0.9, p_slow_consumer=0.8,
                    p_delay=0.6, p_pingpong=0.15, p_leave_early=0.3, calls=((1, 6), (2, 1)), p_interceptors=0.2)
JOBS["C24"] = [A("encodings", QUIET.but(p_mismatch=0.7), 3), A("encodings-chaos", CHAOS.but(p_mismatch=0.7), 1),
               A("malformed", MALFORMED.but(p_mismatch=0.5), 0.7, mangled)]
JOBS["C25"] = [A("flow", FLOWING, 3, streams),
               A("flow-stalls", FLOWING.but(p_fault=0.6, faults={"up_stall": 2, "down_stall": 2, "reset_at": 0.5}, p_stall_handler=0.1,
                                            p_timeout=0.2), 1, streams)]
JOBS["C26"] = [A("requests", QUIET.but(peer=CLI, p_clash=0.3, p_timeout=0.5, p_odd_timeout=0.3), 3),
               A("requests-chaos", CHAOS.but(peer=CLI, p_clash=0.2, p_source_fail=0.3, p_timeout=0.4, p_odd_timeout=0.3), 1.5)]

JOBS["C27"] = [A("malformed", MALFORMED.but(p_mangle=0.95, p_fault=0.05, p_slow_icept=0.0, p_stall_handler=0.0, p_delay=0.1, p_error=0.1), 3, mangled),
               A("malformed-chaos", MALFORMED, 1, mangled), A("valid", QUIET.but(peer=SRV), 0.5),
               A("cut-requests", CHAOS.but(peer=SRV, faults=UP, p_fault=0.7), 0.5, faulted)]

RETRYING = CHAOS.but(peer=CLI, p_retry=0.9, p_interceptors=0.97, kinds={"unary": 3, "get": 1, "ss": 2}, p_meta=0.8, p_fault=0.3, p_error=0.2,
                     p_timeout=0.3, calls=((1, 6), (2, 2)))
for _p, _prof in (("C02", RETRYING.but(p_fault=0.6, faults=DOWN)), ("C05", RETRYING.but(p_timeout=0.9, p_stall_handler=0.1)), ("C07", RETRYING),
                  ("C08", RETRYING), ("C09", RETRYING), ("C12", RETRYING.but(p_fault=0.2, p_cancel=0.02, p_close=0.02, p_touch=0.3)), ("C26", RETRYING.but(kinds={"unary": 2, "get": 2, "ss": 1}, protocols={"connect": 2, "grpc": 1, "grpc_web": 1}, p_error=0.5,
                                        p_fault=0.25))):
    JOBS[_p].append(A("retries", _prof, 0.5, retried))

# Every property that the synchronous half of the library shares is also decided there.
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C19", "C24", "C25", "C26", "C27"):
    _jobs = JOBS[_p]
    JOBS[_p] = _jobs + [S(j.name, j.profile, j.weight * 0.6, j.relevant) for j in _jobs]

KEEP_ALIVE = QUIET.but(http1=1.0, protocols={"connect": 2, "grpc_web": 1}, peer={"app": 1}, p_error=0.6, p_badmsg=0.1, p_limit_server=0.25,
                       p_interceptors=0.2, kinds={"unary": 2, "get": 0.5, "cs": 3, "ss": 2, "bidi": 3})
JOBS["C20"] = [S("keep-alive", KEEP_ALIVE, 2, early_errors),
               S("keep-alive-malformed", KEEP_ALIVE.but(peer={"fakeclient": 1}, p_mangle=0.8), 2, early_errors)]
TRACED = QUIET.but(p_skew=0.5, p_walljump=0.4, p_delay=0.6, p_error=0.4, p_interceptors=0.3, p_timeout=0.3, p_meta=0.4, p_slow_consumer=0.3, calls=((1, 2), (2, 2), (4, 2)))
TRACED_CHAOS = CHAOS.but(p_skew=0.5, p_walljump=0.4, p_error=0.3, calls=((1, 2), (2, 2), (4, 2)))
JOBS["C18"] = [Job("telemetry", run_otel, TRACED, 2), Job("telemetry-chaos", run_otel, TRACED_CHAOS, 2),
               Job("threads-telemetry", run_otel, TRACED.but(p_preempt=0.3), 1.5),
               Job("threads-telemetry-chaos", run_otel, TRACED_CHAOS.but(p_preempt=0.3, p_cancel=0.0, p_app_cancel=0.0), 1.5),
               Job("telemetry-retries", run_otel, RETRYING.but(p_skew=0.5, p_walljump=0.4), 0.5, relevant=retried),
               Job("threads-telemetry-retries", run_otel, RETRYING.but(p_skew=0.5, p_walljump=0.4, p_preempt=0.3, p_cancel=0.0, p_app_cancel=0.0), 0.4, relevant=retried),
               Job("telemetry-malformed", run_otel, MALFORMED, 0.7, relevant=mangled),
               Job("threads-telemetry-malformed", run_otel, MALFORMED.but(p_preempt=0.3, p_cancel=0.0, p_app_cancel=0.0), 0.4, relevant=mangled)]


# ---- what the evidence says
_WHEN = {"faulted": "a fault or an early end was injected", "timed": "a call had a timeout", "ends_early": "a call ended other than well",
         "failing": "a service method failed on purpose", "meta": "response metadata was recorded", "icepts": "interceptors were installed",
         "tricks": "an interceptor failed, answered itself or replaced messages", "retried": "a call was attempted again",
         "limited": "a read limit was set", "busy": "several calls ran to an outcome", "mangled": "a request was malformed",
         "garbled": "a response was malformed", "early_errors": "an error was answered before the request was read",
         "streams": "a streaming call ran"}


def _rule(jobs: list) -> str:
    by: dict = {}
    for j in jobs:
        by.setdefault(j.relevant and _WHEN.get(j.relevant.__name__, "what the job provokes happened"), []).append(j.name)
    return "at least one call ran to an outcome" + "".join(
        f", and {why} ({', '.join(names)})" for why, names in by.items() if why)


RULES = {p: _rule(js) for p, js in JOBS.items()}
ASSUMPTIONS = [
    "what lies below pyqwest's transport interface and outside the ASGI and WSGI callables is simulated, as described in DESIGN.md",
    "threads are interleaved at lines of the library, at blocking points and at marked functions, not inside a line",
    "CPU time passes in no time: virtual time only advances when every task and thread waits",
    "the independent model of the protocols (sim/wire.py) reads their documents as this version of the library's tests do",
]
