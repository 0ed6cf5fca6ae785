#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in tools/bugdefs/*.py, in a scratch copy
of /repo: bugs.py [-k] [ID...]. Verifies that each change compiles, passes the stable tests
and that the demonstration tells the two trees apart. Not used by any check.

A definition calls bug(id, prop, pkg, edits, needs, breaks, demo) with edits a list of
(file, old, new) and demo the Go source of a test TestZZDemo in package directory pkg."""
import glob, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []


def bug(id, prop, pkg, edits, needs, breaks, demo, race=False):
    B.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race))


for f in sorted(glob.glob(os.path.join(V, "tools", "bugdefs", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))

DEMO = '''#!/bin/bash
# Runs the test beside this file inside the package it is about; exits 0 when it passes.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(mktemp -d)"
trap 'rm -rf -- "$d"' EXIT
printf '{"Replace": {"%%s/%s": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$d/overlay.json"
export TMPDIR="$d"
go test -vet=off -count=1 -timeout 120s %s-overlay "$d/overlay.json" -run '^TestZZDemo$' %s
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(b):
    tmp = tempfile.mkdtemp(prefix="bug.")
    try:
        rp = os.path.join(tmp, "repo")
        sh("git clone -q /repo %s" % rp, "/")
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        pkg = b["pkg"]
        tgt = "zz_demo_test.go" if pkg == "." else pkg + "/zz_demo_test.go"
        open(d + "/demo.sh", "w").write(DEMO % (tgt, "-race " if b["race"] else "", "./" + pkg if pkg != "." else "."))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go.txt", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, rp)
        if r.returncode != 0:
            return "demo fails on the unchanged tree\n" + r.stdout[-3000:]
        for f, old, new in b["edits"]:
            p = os.path.join(rp, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: text occurs %d times: %s" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        r = sh("gofmt -l $(git diff --name-only)", rp)
        if r.stdout.strip():
            return "not formatted: " + r.stdout
        diff = sh("git diff", rp).stdout
        open(d + "/patch.diff", "w").write(diff)
        ts = os.path.join(tmp, "test.sh")
        s = open("/opt/vp/test.sh").read().replace("/opt/vp/logs", tmp + "/logs").replace("cd /repo", "cd " + rp)
        open(ts, "w").write(s)
        r = sh(". /opt/vp/env.sh; go build ./... && bash %s %s/o.json" % (ts, tmp), rp)
        if r.returncode != 0:
            return "build/test: " + r.stdout[-2000:]
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ok = set(json.load(open(tmp + "/o.json"))["passed"])
        miss = [x for x in st if x not in ok]
        if miss:
            return "tests fail: %s" % miss[:5]
        r = sh("bash %s/demo.sh" % d, rp)
        if r.returncode == 0:
            return "demo passes with the change"
        if "[build failed]" in r.stdout:
            return "demo does not build with the change\n" + r.stdout[-2000:]
        return "ok"
    finally:
        shutil.rmtree(tmp)


ids = sys.argv[1:]
from concurrent.futures import ThreadPoolExecutor
todo = [b for b in B if not ids or any(b["id"].startswith(i) for i in ids)]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for b, r in zip(todo, ex.map(one, todo)):
        print(b["id"], b["prop"], r, flush=True)
        bad += r != "ok"
sys.exit(1 if bad else 0)
