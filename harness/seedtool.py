"""Development helper (no check uses it): turn a bug definition into seeded/<id>/ after confirming, in a scratch copy
of /repo, that it builds, passes the tests, and that its demonstration tells it from the unchanged tree.

A definition file is a Python file with BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with the repository as working directory
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
PYTHONPATH="$PWD/src" exec timeout 120 python3 "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(wt):
    env = dict(os.environ, PYTHONPATH=wt + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -5", wt, env=env)
    return r.stdout


def main(path, only):
    bugs = runpy.run_path(path)["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        wt = "/tmp/seedwt"
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt)
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip())
        clean = sh("bash %s/demo.sh" % d, wt)
        why = []
        if clean.returncode != 0:
            why.append("demo fails on the clean tree: " + clean.stdout[-600:])
        for f, old, new in b["edits"]:
            p = os.path.join(wt, "src/openspace", f)
            s = open(p).read()
            if s.count(old) != 1:
                why.append("%s: %d matches of %r" % (f, s.count(old), old))
            s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh("git diff", wt).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bug = sh("bash %s/demo.sh" % d, wt)
        if bug.returncode == 0:
            why.append("demo passes with the bug")
        t = tests(wt)
        if "61 passed" not in t:
            why.append("tests: " + t[-400:])
        print(b["id"], "OK" if not why else "BAD\n  " + "\n  ".join(why))
        if why:
            shutil.rmtree(d)
        shutil.rmtree(wt, ignore_errors=True)


main(sys.argv[1], sys.argv[2:])
