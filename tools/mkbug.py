"""mkbug.py SPEC.py: writes seeded/<id>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)."""
import json, os, subprocess, sys, runpy, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sys.argv[1:]:
    d = runpy.run_path(path)
    for bug in d["BUGS"]:
        out = f"{ROOT}/seeded/{bug['id']}"
        wt = f"/tmp/mkbug-{bug['id']}"
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        for f, old, new in bug["edits"]:
            s = open(f"{wt}/{f}").read()
            assert s.count(old) >= 1, (bug["id"], f, "not found")
            assert s.count(old) == 1 or bug.get("all"), (bug["id"], f, s.count(old))
            open(f"{wt}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\n# Run with cwd at the repository. 0: behaves, nonzero: broken.\n'
            'export PYTHONPATH="$PWD/src:$PWD:$PWD/connectrpc-otel" PYTHONDONTWRITEBYTECODE=1\n'
            'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        shutil.rmtree(wt)
        print(bug["id"], "written")
