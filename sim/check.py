"""The runner: seeded search, minimisation, replay files, evidence.

    python -m sim.check C05 [--tier quick|thorough] [--seed N] [--workers N] [--time S] [--runs N]
    python -m sim.check --replay FILE
"""
from __future__ import annotations

import argparse
import gc
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time as _t
import traceback

real = _t.monotonic
real_sleep = _t.sleep

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
WATCHDOG = 100

QUICK = (45.0, 1_000_000)
THOROUGH = (600.0, 100_000_000)


class Watchdog(BaseException):
    pass


def _alarm(*_a):
    raise Watchdog


def load():
    """Everything a run needs; imported late so that --help costs nothing."""
    from . import stubs  # noqa: F401
    from . import jobs

    return jobs


def seed_for(base: int, prop: str, n: int) -> str:
    return f"{base}:{prop}:{n}"


def job_of(jobs: list, n: int):
    """Which job the n-th run uses: a fixed weighted round-robin."""
    total = sum(j.weight for j in jobs)
    x = (n * 0.6180339887498949) % 1.0 * total
    for j in jobs:
        x -= j.weight
        if x < 0:
            return j
    return jobs[-1]


def execute(job, prop, c):
    """One run.  Returns a Result; a hang of the code under test is a violation."""
    from .jobs import Result

    signal.setitimer(signal.ITIMER_REAL, WATCHDOG)
    try:
        return job.run(c, job, prop)
    except Watchdog:
        return Result(viol=[("livelock", f"the run did not finish within {WATCHDOG} s of real time")])
    except Exception as e:
        from .common import from_library

        if not from_library(e):
            raise
        return Result(viol=[("crash", f"the library failed outside of any call: {type(e).__name__}: {e}")])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def fixed_gc() -> None:
    """From now on garbage is only collected where a run asks for it."""
    sys.unraisablehook = lambda *_a: None     # service clean-up that fails while a generator is dropped
    gc.collect()
    gc.freeze()
    gc.disable()


def worker(k, n_workers, prop, base, budget, cap, conn, progress):
    from .core import Choices
    jm = load()
    jobs = jm.JOBS[prop]
    signal.signal(signal.SIGALRM, _alarm)
    fixed_gc()
    st = {"runs": 0, "relevant": 0, "sim_time": 0.0, "events": 0, "calls": 0, "faults": {}, "jobs": {}, "components": {},
          "shapes": set(), "rel_shapes": set(), "draws": 0, "samples": [], "found": None, "harness": None}
    end = real() + budget
    n = k
    try:
        while n < cap and real() < end:
            job = job_of(jobs, n)
            progress[k] = n
            c = Choices(seed_for(base, prop, n))
            r = execute(job, prop, c)
            st["runs"] += 1
            st["jobs"][job.name] = st["jobs"].get(job.name, 0) + 1
            st["sim_time"] += r.sim_time
            st["events"] += r.steps
            st["calls"] += r.calls
            st["draws"] += c.n
            for f, m in r.faults.items():
                st["faults"][f] = st["faults"].get(f, 0) + m
            for side, what in r.components.items():
                key = f"{side}:{what}"
                st["components"][key] = st["components"].get(key, 0) + 1
            if len(st["shapes"]) < 400_000:
                st["shapes"].add(r.shape)
            if r.relevant:
                st["relevant"] += 1
                if len(st["rel_shapes"]) < 400_000:
                    st["rel_shapes"].add(r.shape)
                if len(st["samples"]) < 2 and n > 20:
                    st["samples"].append(f"seed {c.seed} job {job.name}: {r.sample}"[:1500])
            if r.harness:
                st["harness"] = f"seed {c.seed} job {job.name}: {r.harness}"
                break
            if r.viol:
                st["found"] = {"n": n, "job": job.name, "seed": c.seed, "cls": r.viol[0][0], "msg": r.viol[0][1],
                               "all": [list(v) for v in r.viol[:10]], "tapes": c.rec}
                break
            if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 3_000_000:
                break
            n += n_workers
    except BaseException:
        st["harness"] = f"run {n}: " + traceback.format_exc()[-3000:]
    conn.send(st)
    conn.close()


def find_job(prop, name):
    for j in load().JOBS[prop]:
        if j.name == name:
            return j
    raise SystemExit(f"no job {name} in {prop}")


def still(job, prop, seed, tapes, cls):
    from .core import Choices

    c = Choices(seed, tapes)
    try:
        r = execute(job, prop, c)
    except Exception:
        return None
    for k, m in r.viol:
        if k == cls:
            return c, r, m
    return None


def shrink(job, prop, found, budget):
    """Lowers and drops entries of the tapes while the same class of violation remains."""
    seed, cls = found["seed"], found["cls"]
    end = real() + budget
    best = {k: list(v) for k, v in found["tapes"].items()}
    got = still(job, prop, seed, best, cls)
    if got is None:
        return None
    tries = 0

    def attempt(t):
        nonlocal best, got, tries
        tries += 1
        g = still(job, prop, seed, t, cls)
        if g is not None:
            # the run records what it really drew: anything beyond is dead weight
            best = {k: _strip(list(v)) for k, v in g[0].rec.items() if any(v)}
            got = g
            return True
        return False

    attempt(best)
    improved = True
    while improved and real() < end:
        improved = False
        for name in sorted(best, key=lambda k: -len(best[k])):
            if real() >= end:
                break
            if name not in best:
                continue
            t = {k: v for k, v in best.items() if k != name}
            if attempt(t):
                improved = True
                continue
            size = len(best.get(name, ()))
            step = max(1, size // 2)
            while step >= 1 and real() < end:
                i = 0
                while i < len(best.get(name, ())) and real() < end:
                    tape = best[name]
                    seg = tape[i:i + step]
                    if any(seg):
                        for repl in ([0] * len(seg), []):
                            t = dict(best)
                            t[name] = tape[:i] + repl + tape[i + step:]
                            if attempt(t):
                                improved = True
                                break
                    i += step
                step //= 2
            for i in range(len(best.get(name, ()))):
                if real() >= end or name not in best or i >= len(best[name]):
                    break
                v = best[name][i]
                for smaller in (1, v // 2, v - 1):
                    if 0 < smaller < v:
                        t = dict(best)
                        t[name] = best[name][:i] + [smaller] + best[name][i + 1:]
                        if attempt(t):
                            improved = True
                            break
    return best, got, tries


def _strip(v):
    while v and v[-1] == 0:
        v.pop()
    return v


def write_replay(prop, job, found, tapes, got, path):
    from .core import Choices  # noqa: F401

    c, r, msg = got
    doc = {"property": prop, "class": found["cls"], "message": msg, "job": job.name, "seed": found["seed"], "tapes": tapes,
           "digest": r.digest, "entries": sum(len(v) for v in tapes.values()), "run": r.sample, "trace": r.lines()}
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return doc


def replay(path, quiet=False):
    from .core import Choices

    with open(path) as f:
        doc = json.load(f)
    signal.signal(signal.SIGALRM, _alarm)
    prop = doc["property"]
    job = find_job(prop, doc["job"])
    fixed_gc()
    c = Choices(doc["seed"], doc["tapes"])
    r = execute(job, prop, c)
    if not quiet:
        print("\n".join(r.lines()))
    for k, m in r.viol:
        print(f"{prop}/{k}: {m}")
    same = any(k == doc["class"] for k, _ in r.viol)
    print(f"REPLAY {'reproduced' if same else 'not reproduced'} class={doc['class']} digest={r.digest}"
          f" same_trace={r.digest == doc['digest']}")
    if same:
        print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
        return 1
    return 0


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, "KNOWN_FINDINGS")) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f"finding: property={prop} "):
                    out.append(line[len(f"finding: property={prop} "):])
    except OSError:
        pass
    return out


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--time", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--shrink", type=float, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--out", default=OUT)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--setup", action="store_true", help="check that everything a run needs is there")
    a = ap.parse_args()
    if a.setup:
        load()
        print("ok")
        return 0
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    budget, cap = QUICK if tier == "quick" else THOROUGH
    budget = a.time or budget
    cap = a.runs or cap
    t0 = real()
    print(f"{prop} tier={tier} VERIF_SEED={a.seed} workers={a.workers} budget={budget:.0f}s", flush=True)
    load()
    ctx = mp.get_context("fork")
    progress = ctx.Array("q", [-1] * a.workers, lock=False)
    procs = []
    for k in range(a.workers):
        rx, tx = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(k, a.workers, prop, a.seed, budget, cap, tx, progress), daemon=True)
        p.start()
        tx.close()
        procs.append((p, rx))
    results, errors = [], []
    stop_at = t0 + budget + 150
    for k, (p, rx) in enumerate(procs):
        st = None
        try:
            while real() < stop_at:
                if rx.poll(0.5):
                    st = rx.recv()
                    break
                if not p.is_alive() and not rx.poll(0):
                    break
                if any(r["found"] for r in results):
                    stop_at = min(stop_at, real() + 2)
        except EOFError:
            pass
        if st is None:
            if not any(r["found"] for r in results):
                errors.append(f"worker {k} gave no result (last run {progress[k]}, exit code {p.exitcode})")
        else:
            results.append(st)
    for p, _ in procs:
        if p.is_alive():
            p.kill()
    wall_search = real() - t0
    found = sorted((r["found"] for r in results if r["found"]), key=lambda f: f["n"])
    errors += [r["harness"] for r in results if r["harness"]]
    code = 0
    violations = 0
    info = {}
    if found:
        signal.signal(signal.SIGALRM, _alarm)
        code, info = report(prop, a, found, tier)
        violations = len(found)
    elif errors:
        for e in errors:
            print("HARNESS-ERROR " + e, file=sys.stderr)
        code = 2
    if code == 0:
        for k in known_findings(prop):
            print(f"KNOWN-FINDING: property={prop} {k}")
    wall = real() - t0
    if not a.no_evidence:
        evidence(prop, a, tier, results, wall, wall_search, violations, info)
    tot = sum(r["runs"] for r in results)
    print(f"{prop}: {tot} runs, {sum(r['relevant'] for r in results)} relevant, {wall:.1f}s, "
          f"{'VIOLATED' if violations else 'error' if code else 'held on everything explored'}")
    return code


def report(prop, a, found, tier):
    f = found[0]
    job = find_job(prop, f["job"])
    print(f"seed {f['seed']} job {f['job']}: {f['cls']}: {f['msg']}", flush=True)
    path = os.path.join(a.out, f"{prop}-{f['cls'].replace('/', '_')}-{f['n']}.json")
    budget = a.shrink if a.shrink is not None else (40.0 if tier == "quick" else 120.0)
    os.makedirs(a.out, exist_ok=True)
    # minimise in a child: the code under test may do anything
    if f["cls"] == "livelock":
        budget = 0
    got = None
    if budget:
        try:
            fixed_gc()
            got = shrink(job, prop, f, budget)
        except BaseException:
            traceback.print_exc()
    if got is not None:
        tapes, g, tries = got
    else:
        tapes, tries = f["tapes"], 0
        g = still(job, prop, f["seed"], tapes, f["cls"])
    if g is None:
        # state that a fresh process does not have: keep the evidence of this one
        doc = {"property": prop, "class": f["cls"], "message": f["msg"], "job": f["job"], "seed": f["seed"],
               "tapes": tapes, "digest": "", "trace": []}
        with open(path, "w") as fh:
            json.dump(doc, fh)
    else:
        write_replay(prop, job, f, tapes, g, path)
    # a fresh process must fail the same way
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "12345"
    ok = False
    try:
        r = subprocess.run([sys.executable, "-m", "sim.check", "--replay", path], cwd=ROOT, env=env, capture_output=True,
                           text=True, timeout=150)
        ok = "REPLAY reproduced" in r.stdout
    except subprocess.TimeoutExpired:
        ok = f["cls"] == "livelock"
    print(f"minimised from {sum(map(len, f['tapes'].values()))} to {sum(map(len, tapes.values()))} recorded choices in {tries} runs;"
          f" fresh-process replay {'reproduces it' if ok else 'DID NOT reproduce it'}")
    if g is not None:
        print(f"{prop}/{f['cls']}: {g[2]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1, {"class": f["cls"], "message": f["msg"], "replay": path, "seed": f["seed"], "fresh_replay": ok}


def evidence(prop, a, tier, results, wall, wall_search, violations, info):
    jm = load()
    runs = sum(r["runs"] for r in results)
    shapes, rel = set(), set()
    faults, comps, jobs = {}, {}, {}
    samples = []
    for r in results:
        shapes |= r["shapes"]
        rel |= r["rel_shapes"]
        samples += r["samples"]
        for src, dst in ((r["faults"], faults), (r["components"], comps), (r["jobs"], jobs)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    doc = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(rel),
            "rule": "one evaluation is one simulated execution decided by one seed (calls, scripts, network timing, faults and "
                    "scheduling all drawn from it); it is non-trivial when " + getattr(jm, "RULES", {}).get(
                        prop, "at least one call ran to an outcome and the situation the property speaks about arose")
                    + "; two are the same when the order and kind of all recorded events is the same (times and values ignored)",
            "samples": samples[:6],
            "nontrivial_runs": sum(r["relevant"] for r in results),
            "distinct_interleavings": len(shapes),
            "runs_per_hour": round(runs / max(wall_search, 1e-9) * 3600),
            "seeds_per_hour": round(runs / max(wall_search, 1e-9) * 3600),
            "simulated_seconds": round(sum(r["sim_time"] for r in results), 3),
            "simulated_calls": sum(r["calls"] for r in results),
            "recorded_events": sum(r["events"] for r in results),
            "scheduler_choices": sum(r["draws"] for r in results),
            "faults_injected": dict(sorted(faults.items())),
            "runs_per_job": jobs,
            "components": comps,
            "workers": a.workers,
        },
        "assumptions": getattr(jm, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if info:
        doc["coverage"]["violation"] = info
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))


if __name__ == "__main__":
    sys.exit(main())
