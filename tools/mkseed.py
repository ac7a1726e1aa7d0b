#!/usr/bin/env python3
"""Library for planting bugs: writes seeded/<id>/ from a list of edits and a demonstration program and tries it out in a
scratch copy (applies, builds, the repository's stable tests pass, the demonstration passes without and fails with it),
then runs the property's check against the scratch copy.
  seedfile.py: from mkseed import *;  seed(id, prop, [(file, old, new), ...], sources, demo_cpp, needs, breaks)
  mkseed.py --retest [id ...]: tries the existing ones again"""
import os, sys, json, subprocess, shutil, tarfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscratch"
SETS = {
 "none": [],
 "avoid": ["avoidance/src/*.cpp"],
 "local": ["avoidance/src/*.cpp", "local_planner/src/nodes/*.cpp", "local_planner/src/utils/*.cpp"],
 "slp": ["avoidance/src/*.cpp", "safe_landing_planner/src/nodes/safe_landing_planner*.cpp"],
 "slpwp": ["avoidance/src/*.cpp", "safe_landing_planner/src/nodes/*.cpp"],
 "global": ["avoidance/src/*.cpp", "global_planner/src/library/*.cpp", "global_planner/src/nodes/global_planner_node.cpp"],
}
DEMO = r'''#!/bin/bash
# builds demo.cpp with the current tree's sources against the stand-in libraries beside it and runs it
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
tar xzf "$H/shim.tgz" -C "$T" && python3 "$T/shim/gen/genmsgs.py" "$R" "$T/gen" >/dev/null || exit 99
I="-I$T/shim/include -I$T/gen -isystem /usr/include/eigen3"
for p in avoidance local_planner safe_landing_planner global_planner; do I="$I -I$R/$p/include"; done
I="$I -I$R/local_planner/include/local_planner"
F="-std=c++14 -w -O1 -pthread -fno-strict-aliasing -D_GLIBCXX_ASSERTIONS @FLAGS@ -include shim/prelude.h"
S=""; for f in @SRCS@; do case $f in *_main.cpp|*/main.cpp) ;; *) S="$S $f";; esac; done
cc() { n=$(echo "$1" | tr / _); case $1 in */demo.cpp) X="-include shim/open.h";; */waypoint_generator_node.cpp) X="-Dmain=repo_main";; *) X=""; esac; g++ $F $X $I -c -o "$T/$n.o" "$1" || echo "$1" >> "$T/failed"; }
export -f cc; export F I T
printf '%s\n' $S "$T/shim/shim.cpp" "$H/demo.cpp" | xargs -P 8 -I{} bash -c 'cc {}'
[ -e "$T/failed" ] && { echo "does not compile"; exit 98; }
g++ @FLAGS@ -o "$T/demo" "$T"/*.o -pthread -lyaml-cpp -lboost_thread -lboost_system || exit 97
cd "$T" && timeout 120 ./demo; rc=$?; echo "demo exit $rc"; exit $rc
'''
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def scratch():
    if os.path.exists(SCR): subprocess.check_call(["rm", "-rf", "/tmp/seedscratch"])
    subprocess.check_call(["cp", "-a", "/repo", SCR])
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
    # the build directory names /repo: rebuild with a copy of the build description
    subprocess.check_call(["rm", "-rf", "/tmp/seedscratch/_build"])
def stable(d):
    """builds the ROS-free part from d and runs the stable tests"""
    sh = open("/opt/vp/build.sh").read().replace("/repo", d); ts = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/build.sh", "/tmp/seedwork/build.sh")
    os.makedirs("/tmp/seedwork", exist_ok=True)
    open("/tmp/seedwork/build.sh", "w").write(sh); open("/tmp/seedwork/test.sh", "w").write(ts)
    r = run(["bash", "/tmp/seedwork/test.sh", "/tmp/seedwork/out.json"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try: got = set(json.load(open("/tmp/seedwork/out.json"))["passed"])
    except Exception: got = set()
    return want - got, r.stdout
def trial(sid, check=True, verbose=True):
    d = V + "/seeded/" + sid; meta = json.load(open(d + "/meta.json")); res = dict(id=sid, prop=meta["property"])
    if not os.path.exists(SCR): scratch()
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
    subprocess.check_call(["git", "fetch", "-q", "/repo", "HEAD"], cwd=SCR); subprocess.check_call(["git", "reset", "-q", "--hard", "FETCH_HEAD"], cwd=SCR)
    r = run(["bash", d + "/demo.sh"], cwd=SCR); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-2500:])
    r = run(["git", "apply", d + "/patch.diff"], cwd=SCR); res["applies"] = r.returncode == 0
    if r.returncode: print(r.stdout); return res
    miss, log = stable(SCR); res["stable_missing"] = sorted(miss)
    if miss: print(log[-1500:])
    r = run(["bash", d + "/demo.sh"], cwd=SCR); res["demo_patched"] = r.returncode; res["demo_out"] = r.stdout[-300:]
    if check:
        r = run(["python3", V + "/check.py", meta["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=SCR)); res["check"] = r.returncode
        res["check_out"] = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "key" in l][:2] or r.stdout[-600:]
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
    res["ok"] = res["demo_clean"] == 0 and res["demo_patched"] not in (0, 97, 98, 99) and not miss
    res["caught"] = res.get("check") == 1
    if verbose: print(json.dumps(res, indent=1))
    return res
def seed(sid, prop, edits, sources, demo, needs, breaks, flags="", check=True):
    d = V + "/seeded/" + sid; os.makedirs(d, exist_ok=True)
    if not os.path.exists(SCR): scratch()
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
    subprocess.check_call(["git", "fetch", "-q", "/repo", "HEAD"], cwd=SCR); subprocess.check_call(["git", "reset", "-q", "--hard", "FETCH_HEAD"], cwd=SCR)
    for f, old, new in edits:
        p = SCR + "/" + f; s = open(p).read(); assert s.count(old) == 1, (sid, f, s.count(old), old); open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(run(["git", "diff"], cwd=SCR).stdout)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
    open(d + "/demo.sh", "w").write(DEMO.replace("@SRCS@", " ".join(SETS[sources])).replace("@FLAGS@", flags)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    def filt(t):
        t.mtime = 0; t.uid = t.gid = 0; t.uname = t.gname = "root"
        return None if "__pycache__" in t.name else t
    import gzip, io
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w") as t: t.add(V + "/shim", "shim", filter=filt)
    with open(d + "/shim.tgz", "wb") as f:
        with gzip.GzipFile(fileobj=f, mode="wb", mtime=0, filename="") as g: g.write(b.getvalue())
    return trial(sid, check)
if __name__ == "__main__" and len(sys.argv) > 1 and sys.argv[1] == "--retest":
    scratch(); rs = [trial(s, verbose=False) for s in (sys.argv[2:] or sorted(os.listdir(V + "/seeded"))) if os.path.isdir(V + "/seeded/" + s)]
    for r in rs: print(r["id"], r["prop"], "counts" if r.get("ok") else "DOES NOT COUNT " + str(r), "caught" if r.get("caught") else "MISSED check exit %s" % r.get("check"))
    subprocess.check_call(["rm", "-rf", "/tmp/seedscratch"])
