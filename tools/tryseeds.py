#!/usr/bin/env python3
"""tryseeds.py [ID|PROPERTY ...]: applies each planted bug to a scratch copy of /repo,
runs the check of its property on it; reports which are caught.  JOBS (3) at a time."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

S = "/verif/seeded"
want = sys.argv[1:]


def one(i):
    m = json.load(open(S + "/%s/meta.json" % i))
    d = tempfile.mkdtemp(prefix="tryseed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        a = subprocess.run(["git", "-C", d + "/repo", "apply", S + "/%s/patch.diff" % i], capture_output=True, text=True)
        if a.returncode:
            print(i, "does not apply", a.stderr); return
        t = time.time()
        c = subprocess.run(["python3", "/verif/check.py", m["property"]], capture_output=True, text=True,
                           env=dict(os.environ, REPO=d + "/repo", VERIF_TIER="quick",
                                    VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_EVIDENCE=d + "/evidence"))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = c.returncode == 1 and v
        print("%-28s %s %s exit=%d %.0fs %s" % (i, m["property"], "caught" if ok else "MISSED", c.returncode, time.time() - t,
              "" if ok else (c.stdout + c.stderr)[-600:]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = []
for i in sorted(os.listdir(S)):
    if os.path.isfile(S + "/%s/meta.json" % i):
        p = json.load(open(S + "/%s/meta.json" % i))["property"]
        if not want or i in want or p in want:
            ids.append(i)
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as x:
    list(x.map(one, ids))
