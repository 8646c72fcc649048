#!/usr/bin/env python3
"""Confirm planted bugs: patch applies, builds, passes the stable tests, and its demonstration tells them apart.

usage: seeded.py WORKDIR [ID ...]    WORKDIR: a scratch copy of /repo (made when missing)
"""
import json, os, subprocess, sys, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work = os.path.abspath(sys.argv[1])
ids = sys.argv[2:] or sorted(os.listdir(here + "/seeded"))
if not os.path.exists(work):
    subprocess.check_call(["cp", "-a", "/repo", work])
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def script(name):
    t = open("/opt/vp/" + name).read().replace("/repo", work)
    p = f"{work}.{name}"
    open(p, "w").write(t)
    return p
build, test = script("build.sh"), script("test.sh")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
sh(f"git -C {work} fetch -q /repo HEAD; git -C {work} checkout -q -f {head}; git -C {work} clean -fdq -e target")
def demo(i):
    try:
        return subprocess.run(["bash", f"{here}/seeded/{i}/demo.sh"], cwd=work, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None
bad = 0
for i in ids:
    d = f"{here}/seeded/{i}"
    out = []
    r = sh(f"bash {build}")
    c = demo(i)
    out.append("clean demo rc=%s" % (c and c.returncode))
    ok = bool(c) and c.returncode == 0
    if not ok and c: out.append(c.stdout[-600:] + c.stderr[-1500:])
    r = sh(f"git -C {work} apply {d}/patch.diff")
    if r.returncode: out.append("APPLY " + r.stderr); ok = False
    r = sh(f"bash {build}")
    if r.returncode: out.append("BUILD " + r.stderr[-1500:]); ok = False
    else:
        c = demo(i)
        out.append("patched demo rc=%s %s" % (c and c.returncode, c and c.stderr.strip()[-200:]))
        if not c or c.returncode == 0: ok = False
        sh(f"bash {test} {work}.out.json")
        res = json.load(open(f"{work}.out.json"))
        passed = set(res.get("passed", []))
        miss = sorted(stable - passed)
        if miss: out.append("FAILS " + str(miss)); ok = False
    sh(f"git -C {work} checkout -q -f {head}")
    print("%-28s %s\n    %s" % (i, "ok" if ok else "BAD", "\n    ".join(out)), flush=True)
    bad += not ok
sys.exit(bad)
