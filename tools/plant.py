#!/usr/bin/env python3
"""Plants bugs: plant(id, property, edits, demo, needs, what, pkg=".") applies the
edits to a scratch copy of /repo, builds, runs its tests, runs the demonstration
on both trees and, when all is as it should be, writes /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys

SC = "/tmp/plantrepo"

DEMO_SH = """#!/bin/sh
# runs demo_test.go (beside this file) as part of package %(pkg)s of the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(dir)szz_seed_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test %(flags)s-count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' %(pkg)s
"""


def sh(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True)


def fresh():
    if not os.path.isdir(SC):
        sh(["git", "clone", "-q", "/repo", SC])
    sh("git fetch -q && git reset -q --hard origin/main && git clean -fdq", SC)


def plant(id, prop, edits, demo, needs, what, pkg=".", flags=""):
    out = "/verif/seeded/" + id
    fresh()
    for f, old, new in edits:
        p = os.path.join(SC, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("%s: %s: %d matches of %r" % (id, f, s.count(old), old)); return False
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", SC).stdout
    tmp = "/tmp/plants/" + id
    os.makedirs(tmp, exist_ok=True)
    open(tmp + "/demo_test.go", "w").write(demo)
    d = "" if pkg == "." else pkg[2:] + "/"
    open(tmp + "/demo.sh", "w").write(DEMO_SH % {"pkg": pkg, "dir": d, "flags": flags})
    b = sh("gofmt -l *.go internal cmd; go vet ./... && go test -count=1 ./...", SC)
    if b.returncode or "FAIL" in b.stdout:
        print("%s: tests notice it:\n%s%s" % (id, b.stdout[-1500:], b.stderr[-800:])); return False
    bad = sh(["sh", tmp + "/demo.sh"], SC)
    good = sh(["sh", tmp + "/demo.sh"], "/repo")
    if good.returncode != 0 or bad.returncode == 0:
        print("%s: demo unchanged=%d changed=%d\n%s\n%s" % (id, good.returncode, bad.returncode,
              (good.stdout + good.stderr)[-1200:], (bad.stdout + bad.stderr)[-600:])); return False
    if "build failed" in bad.stdout:
        print("%s: demo does not build: %s" % (id, bad.stdout)); return False
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
    print("%s: planted" % id)
    return True
