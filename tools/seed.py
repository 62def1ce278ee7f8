#!/usr/bin/env python3
"""seed.py new ID PROPERTY NEEDS BREAKS   - takes /repo's uncommitted diff as planted bug ID (demo.cpp or demo.sh must be in seeded/ID)
seed.py verify ID...                    - builds, tests, runs the demo and the property's check with and without the change"""
import json, os, re, subprocess, sys, time
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = r'''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d) || exit 2
trap 'rm -rf "$O"' EXIT
g++ -std=c++17 -O1 -w -DBOOST_ALL_DYN_LINK=1 -I"$D" -Iinclude -Isrc -Itests "$D/demo.cpp" -o "$O/demo" \
  _build/output/relwithdebinfo/lib/libcosim.a -lboost_log -lboost_date_time -lboost_chrono -lboost_filesystem -lboost_thread \
  -lzip -lxerces-c -lyaml-cpp -latomic -lpthread || exit 2
cd "$O" && TMPDIR="$O" timeout 120 ./demo "$O"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(i, prop, needs, breaks):
    d = "seeded/" + i
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff.strip(), "no diff"
    open(d + "/patch.diff", "w").write(diff)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C /repo checkout -- .")
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])
def build_test():
    r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    try: j = json.load(open("/tmp/seedtest.json"))
    except Exception: return r.stdout[-2000:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests") or []
    miss = [t for t in stable if t not in j["passed"]]
    return "" if not miss and stable else "tests: missing %s of %d" % (miss, len(stable))
def verify(i, check=True):
    m = json.load(open("seeded/%s/meta.json" % i))
    res = {}
    try:
        r = sh("git -C /repo apply /verif/seeded/%s/patch.diff" % i)
        if r.returncode: return {"apply": r.stdout}
        b = build_test()
        if b: res["build/test"] = b[-1500:]
        r = sh("/verif/seeded/%s/demo.sh" % i, cwd="/repo")
        res["demo with"] = (r.returncode, r.stdout[-200:])
        if check:
            t = time.time()
            r = sh("./check %s --tier quick" % m["property"])
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res["check"] = ("CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, int(time.time() - t), (v or [r.stdout[-300:]])[0][:200])
            ml = [l for l in r.stdout.split("\n") if "violat" in l.lower() or "failed" in l.lower()]
            res["msg"] = ml[:2]
    finally:
        sh("git -C /repo checkout -- .")
    return res
if sys.argv[1] == "new": new(*sys.argv[2:6])
else:
    nochk = "--nocheck" in sys.argv
    ids = [a for a in sys.argv[2:] if a[0] != "-"] or sorted(os.listdir("seeded"))
    out = {}
    for i in ids:
        out[i] = verify(i, not nochk)
        print(i, json.dumps(out[i]), flush=True)
    print(sh("bash /opt/vp/build.sh").stdout[-200:])
    for i in ids:
        r = sh("/verif/seeded/%s/demo.sh" % i, cwd="/repo")
        print(i, "demo without:", r.returncode, r.stdout[-200:])
