#!/usr/bin/env python3
"""Plant bugs from a definition file (BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo, libs, sh)}).
usage: plant.py DEFS [id ...]   writes /verif/seeded/<id>/ for every bug which is confirmed, and says whether its check catches it.
Edits are applied to /repo one at a time and always undone."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).split()[0]


def sh(cmd, t=900):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return p.returncode, p.stdout


def undo():
    sh("git -C /repo checkout -- .")


DEMO = """#!/bin/sh
# exit 0: the promised behaviour was seen
d=$(cd "$(dirname "$0")" && pwd)
out=/tmp/edsp-demo-%s-$$
g++ -std=c++17 -O1 -w -include cstdint -DUSE_LIBFFTW -DUSE_LIBSNDFILE -DUSE_LIBSAMPLERATE -DUSE_TAGLIB -DNDEBUG -I/repo/include "$d/demo.cpp" -o "$out" %s || exit 2
timeout 120 "$out"
"""


def plant(id, b):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    if "demo" in b:
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(b.get("sh") or DEMO % (id, b.get("libs", "")))
    os.chmod(d + "/demo.sh", 0o755)
    for f, t in b.get("files", {}).items():
        open(os.path.join(d, f), "w").write(t.lstrip("\n"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    undo()
    rebuilds = b.get("rebuild", False)
    rc, o = sh("cd /repo && sh %s/demo.sh" % d)
    if rc:
        return "demo fails on the unchanged tree (%d): %s" % (rc, o[-400:])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(R, f if f.startswith("bindings") else "include/edsp/" + f)
            s = open(p).read()
            if s.count(old) < 1:
                return "text not found in " + f + ": " + old[:60]
            n = b.get("nth", {}).get(f, 0)
            i = -1
            for _ in range(n + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        rc, diff = sh("git -C /repo diff")
        open(d + "/patch.diff", "w").write(diff)
        # original lines touched?
        orig = 0
        for f in subprocess.check_output("git -C /repo diff --name-only", shell=True, text=True).split():
            bl = subprocess.check_output(["git", "-C", R, "blame", "-l", "-s", "HEAD", "--", f], text=True).splitlines()
            for m in re.finditer(r"^@@ -(\d+),?(\d*) ", subprocess.check_output(["git", "-C", R, "diff", "-U0", "--", f], text=True), re.M):
                a, n = int(m[1]), int(m[2] or 1)
                orig += sum(bl[k - 1].lstrip("^").startswith(BASE[:30]) for k in range(a, a + n))
        if not orig:
            return "touches no original line"
        rc, o = sh("bash /opt/vp/build.sh")
        if rc:
            return "does not build: " + o[-300:]
        rc, o = sh("bash /opt/vp/test.sh /tmp/plant/o.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base["stable"] if isinstance(base, dict) else base if isinstance(base, list) else  base.get("passed") or base.get("tests")
        res = json.load(open("/tmp/plant/o.json"))
        lost = [t for t in base if t not in res["passed"]]
        if lost:
            return "tests fail: %s" % lost[:3]
        rc, o = sh("cd /repo && sh %s/demo.sh" % d)
        if rc == 0:
            return "demo passes with the change"
        rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/run.py check %s --tier quick" % (V, b["prop"]), 1500)
        last = o.strip().splitlines()[-1] if o.strip() else ""
        return ("caught" if rc == 1 and "VIOLATION property=%s " % b["prop"] in o else "MISSED rc=%d" % rc) + "  (%d original lines) %s" % (orig, last[:100])
    finally:
        undo()


ns = {}
exec(open(sys.argv[1]).read(), ns)
for id in sys.argv[2:] or ns["BUGS"]:
    print(id, plant(id, ns["BUGS"][id]), flush=True)
sh("bash /opt/vp/build.sh")
