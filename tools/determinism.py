"""Is one seed one execution?  Runs seeds of every job twice in this process and once in a process
with another hash seed, and compares the digests of the complete traces.

    python tools/determinism.py [N per job]
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def digests(n: int) -> dict:
    from sim import stubs  # noqa: F401
    from sim import jobs
    from sim.core import Choices

    out = {}
    for prop, js in jobs.JOBS.items():
        for j in js:
            for k in range(n):
                out[f"{prop}/{j.name}/{k}"] = j.run(Choices(f"det:{prop}:{k}"), j, prop).digest
    return out


if __name__ == "__main__":
    if sys.argv[1] == "child":
        json.dump(digests(int(sys.argv[2])), sys.stdout)
        raise SystemExit
    n = int(sys.argv[1])

    def child(h):
        return json.loads(subprocess.run([sys.executable, __file__, "child", str(n)], env={**os.environ, "PYTHONHASHSEED": h},
                                         stdout=subprocess.PIPE, check=True).stdout)
    a, b, c = digests(n), digests(n), child("7")
    bad = [k for k in a if not a[k] == b[k] == c[k]]
    print(f"{len(a)} runs, {len(bad)} differ", *bad[:20], sep="\n")
    raise SystemExit(1 if bad else 0)
