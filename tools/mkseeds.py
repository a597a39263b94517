#!/usr/bin/env python3
"""Planted changes, defined as edits of /repo's HEAD; writes /verif/seeded/<id>/ and (with 'test') tries them.
mkseeds.py write [ids]   regenerate seeded/<id>/
mkseeds.py test [ids]    apply in /repo, build, tests, demo, the property's quick check, undo"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools"
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, flags=None, files=()):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, files=files)
exec(open(T + "/seeds.py").read())

def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(i):
    s = SEEDS[i]; t = tempfile.mkdtemp(prefix="seed-")
    try:
        sh("git", "clone", "-q", "/repo", t + "/r")
        for f, old, new in s["edits"]:
            p = f"{t}/r/{f}"; x = open(p).read()
            assert x.count(old) == 1, (i, f, x.count(old), old)
            open(p, "w").write(x.replace(old, new))
        d = sh("git", "-C", t + "/r", "diff").stdout
        o = f"{V}/seeded/{i}"; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(d)
        shutil.copy(T + "/demo.sh", o); os.chmod(o + "/demo.sh", 0o755); shutil.copy(T + "/demo.h", o)
        open(o + "/demo.c", "w").write('#include "demo.h"\n' + s["demo"].strip() + "\n")
        if s["flags"]: open(o + "/flags", "w").write(s["flags"] + "\n")
        for f in s["files"]: shutil.copy(f, o)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(t)
def demo(i): return sh("bash", f"{V}/seeded/{i}/demo.sh", cwd="/repo")
def test(i, checks=True):
    s = SEEDS[i]; assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    out = {}
    b = sh("bash", "/opt/vp/build.sh"); d = demo(i); out["clean demo"] = d.returncode
    if d.returncode: print(d.stdout[-500:])
    try:
        a = sh("git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"); assert a.returncode == 0, a.stdout
        t = sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json"); out["failed tests"] = json.load(open("/tmp/seedtest.json"))["failed"]; out["passed"] = len(json.load(open("/tmp/seedtest.json"))["passed"])
        d = demo(i); out["patched demo"] = d.returncode; out["demo says"] = d.stdout.strip()[-120:]
        if checks:
            c = sh("python3", "check.py", s["prop"], cwd=V)
            out["check"] = c.returncode; out["msg"] = [l for l in c.stdout.splitlines() if "FAILURE" in l or "held" in l or "violated" in l or "rror" in l][:3]
    finally:
        sh("git", "-C", "/repo", "checkout", "--", "."); os.path.exists("/tmp/seedtest.json") and os.unlink("/tmp/seedtest.json")
        sh("bash", "/opt/vp/build.sh")
    ok = out["clean demo"] == 0 and not out["failed tests"] and out["passed"] == 5 and out["patched demo"] != 0
    print(i, s["prop"], "VALID" if ok else "INVALID", "CAUGHT" if out.get("check") == 1 else "MISSED" if checks else "", json.dumps(out)[:900], flush=True)
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(SEEDS)
    for i in ids:
        write(i)
        if sys.argv[1] != "write": test(i, sys.argv[1] == "test")
