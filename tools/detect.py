#!/usr/bin/env python3
"""detect.py [-a] [ID...]: runs the check of each planted bug's property (with -a every
check) on a copy of /repo with the bug and prints whether it is reported. Not a check."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c["quick_cmd"].split("check.sh ")[1].split()[1:] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", VERIF_DIR=V, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
args = sys.argv[1:]
all_ = "-a" in args
ids = [a for a in args if a != "-a"]
b = tempfile.mkdtemp(prefix="det.")
subprocess.check_call(["go", "build", "-o", b + "/gosym", "."], cwd=V + "/gosym", env=env)
try:
    for d in sorted(glob.glob(V + "/seeded/*/")):
        n = os.path.basename(d[:-1])
        if ids and n not in ids:
            continue
        m = json.load(open(d + "meta.json"))
        rp = b + "/repo"
        shutil.rmtree(rp, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", rp])
        subprocess.check_call(["git", "apply", d + "patch.diff"], cwd=rp)
        res = []
        for p in (sorted(man) if all_ else [m["property"]]):
            if p not in man:
                res.append(p + " no check")
                continue
            t = time.time()
            r = subprocess.run([b + "/gosym", "-tier", "quick", "-prop", p, "-out", b + "/ev.json"] + man[p], env=dict(env, VERIF_REPO=rp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            if hit or not all_:
                res.append("%s %s %.0fs" % (p, "CAUGHT" if hit else "missed rc=%d" % r.returncode, time.time() - t))
            if not hit and r.returncode != 0:
                res.append(r.stdout[-500:])
        print(n, "[" + m["property"] + "]", "; ".join(res) or "MISSED", flush=True)
finally:
    shutil.rmtree(b)
