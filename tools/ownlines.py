#!/usr/bin/env python3
"""Which planted bugs change only lines that commits after the pinned one added (they would not count)."""
import os, subprocess
root = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
for i in sorted(os.listdir("/verif/seeded")):
    f, any_old, n = None, False, 0
    cur = []
    for l in open("/verif/seeded/%s/patch.diff" % i):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            old = subprocess.run(["git", "-C", "/repo", "show", root + ":" + f], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("-") and l[1:].strip() and l[1:] in old:
            any_old = True
        n += l.startswith("-") and not l.startswith("---")
    if n and not any_old:
        print(i)
