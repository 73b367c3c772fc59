"""mutate.py FILE.py [--time S] [--only ID,..] [--tests]: small edits of a scratch copy, each against a property's check.

A mutant is (id, properties, edits); nothing is kept.  A quick way of looking for blind spots; the
ones worth keeping become planted bugs (tools/bugs, seeded/).
"""
import argparse, os, re, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("--time", default="20"); ap.add_argument("--only", default=""); ap.add_argument("--tests", action="store_true")
ap.add_argument("--props", default=""); ap.add_argument("--workers", default="")
a = ap.parse_args()
PY = "/opt/venv/bin/python"
only = set(filter(None, a.only.split(",")))
for mid, props, edits in runpy.run_path(a.file)["M"]:
    if only and mid not in only:
        continue
    wt = f"/tmp/mut-{mid}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), wt], check=True)
    try:
        bad = None
        for f, old, new, *rest in edits:
            p = f"{wt}/{f if f.startswith(('src/', 'connectrpc', 'protoc')) else 'src/connectrpc/' + f}"
            s = open(p).read()
            n = s.count(old)
            if n == 0 or n > 1 and not rest:
                bad = f"{f}: {n} matches of {old[:50]!r}"
                break
            s = s.replace(old, new) if not rest or rest[0] == 0 else new.join([old.join(s.split(old)[:rest[0]]), old.join(s.split(old)[rest[0]:])])
            open(p, "w").write(s)
        if bad:
            print(f"{mid}: BAD EDIT {bad}", flush=True)
            continue
        t = ""
        if a.tests:
            env = {**os.environ, "PYTHONPATH": f"{wt}/src:{wt}/connectrpc-otel:{wt}/protoc-gen-connectrpc"}
            out = [subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=d, env=env,
                                  capture_output=True, text=True, timeout=300).stdout.strip().splitlines()[-1] for d in (wt, f"{wt}/connectrpc-otel")]
            t = "tests FAIL" if any("failed" in o or "error" in o for o in out) else "tests pass"
        res = []
        for prop in (a.props.split(",") if a.props else props.split()):
            r = subprocess.run([f"{ROOT}/check", prop, "--time", a.time, *(["--workers", a.workers] if a.workers else []), "--shrink", "0", "--no-evidence", "--out", f"/tmp/mut-out-{mid}"],
                               env={**os.environ, "VERIF_REPO": wt}, capture_output=True, text=True)
            m = re.search(rf"^{prop}/.*$", r.stdout, re.M) or re.search(r"^seed.*$", r.stdout, re.M)
            runs = re.search(r"(\d+) runs", r.stdout)
            res.append(f"{prop}:{'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'rc%d' % r.returncode}"
                       f"({runs and runs[1]}) {m[0][:150] if m and r.returncode == 1 else (r.stdout + r.stderr)[-200:] if r.returncode > 1 else ''}")
            shutil.rmtree(f"/tmp/mut-out-{mid}", ignore_errors=True)
        print(f"{mid} [{t}]: " + " | ".join(res), flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
