"""Makes and validates planted bugs: plant.py DEFS.py [ID...]

DEFS.py defines SEEDS: a list of dicts with id, property, edits [(file, old, new)...], needs, breaks, demo (Python text).
Each bug is applied to a scratch copy /tmp/seed/<id> of /repo; kept in /verif/seeded/<id> if the copy builds, passes the
stable tests, touches only lines of the original repository, and the demonstration fails there and passes on a clean copy.
"""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
BASE = "594670d"
HEAD = """import os, sys, tempfile, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from pipit.trace import Trace


def T(rows, **extra):
    \"\"\"rows: (time, kind, name, process[, thread])\"\"\"
    kinds = {"E": "Enter", "L": "Leave", "I": "Instant"}
    d = {"Timestamp (ns)": [r[0] for r in rows], "Event Type": [kinds[r[1]] for r in rows],
         "Name": [r[2] for r in rows], "Process": [r[3] for r in rows]}
    if len(rows[0]) > 4:
        d["Thread"] = [r[4] for r in rows]
    d.update(extra)
    df = pd.DataFrame(d)
    return Trace(None, df.astype({"Event Type": "category", "Name": "category", "Process": "category"}))


"""
SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(s):
    i = s["id"]
    c = "/tmp/seed/" + i
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", i)
    shutil.rmtree(c, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", c])
    sh(["git", "checkout", "-q", "--", "."], c)
    for f, old, new in s["edits"]:
        p = os.path.join(c, f)
        t = open(p).read()
        if t.count(old) != s.get("count", 1):
            return "%s: old text occurs %d times in %s: %r" % (i, t.count(old), f, old[:80])
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], c).stdout
    # only original lines removed
    for f in {e[0] for e in s["edits"]}:
        blame = sh(["git", "blame", "-s", "HEAD", "--", f], c).stdout.splitlines()
        d = sh(["git", "diff", "-U0", "--", f], c).stdout
        orig = 0
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for l in blame[a - 1:a - 1 + n] if n else []:
                if BASE[:7] not in l.split()[0]:
                    return "%s: changes a line of a fix: %s" % (i, l)
                orig += 1
        if not orig and not s.get("addonly"):
            return "%s: no original line is changed in %s" % (i, f)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(HEAD + s["demo"].strip() + "\n")
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    for k, v in s.get("files", {}).items():
        open(out + "/" + k, "w").write(v)
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": c}
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "-rA", "--basetemp=/tmp/seed/t_" + i], c, env)
    passed = set(re.findall(r"^PASSED \S*?([\w-]+)\.py::(\w+)", r.stdout, re.M))
    want = {(x.split("::")[0].split(".")[-1], x.split("::")[1]) for x in STABLE}
    shutil.rmtree("/tmp/seed/t_" + i, ignore_errors=True)
    bad = want - passed
    if bad:
        shutil.rmtree(out)
        return "%s: tests notice it: %s" % (i, sorted(bad))
    good = sh(["bash", out + "/demo.sh"], "/repo")
    if good.returncode != 0:
        return "%s: demo fails on the clean tree: %s" % (i, (good.stdout + good.stderr)[-600:])
    r = sh(["bash", out + "/demo.sh"], c)
    if r.returncode == 0:
        return "%s: demo passes with the patch" % i
    return "%s: ok (%s)" % (i, (r.stdout + r.stderr).strip().splitlines()[-1][:150])


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:]
    seeds = [s for s in seeds if not ids or s["id"] in ids]
    with ThreadPoolExecutor(6) as ex:
        for line in ex.map(one, seeds):
            print(line, flush=True)
