#!/usr/bin/env python3
"""Validates the stand-in environment: builds the repository's own ROS-dependent unit tests against it and runs them."""
import os, sys, glob, subprocess, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get("REPO", "/repo")
T = tempfile.mkdtemp(prefix="shimtest-"); bad = 0
try:
    subprocess.check_call(["python3", V + "/shim/gen/genmsgs.py", R, T + "/gen"])
    inc = ["-I" + V + "/shim/include", "-I" + T + "/gen", "-I/usr/include/eigen3", "-I" + R + "/local_planner/include/local_planner"] + ["-I%s/%s/include" % (R, p) for p in ("avoidance", "local_planner", "safe_landing_planner", "global_planner")]
    g = lambda *ps: [f for p in ps for f in sorted(glob.glob(R + "/" + p)) if "main" not in os.path.basename(f) or "/test/" in f]
    A = [f for f in g("avoidance/src/*.cpp") if os.path.basename(f) in ("common.cpp", "histogram.cpp", "transform_buffer.cpp", "avoidance_node.cpp", "rviz_world_loader.cpp")]
    S = [R + "/safe_landing_planner/src/nodes/" + f for f in ("safe_landing_planner.cpp", "waypoint_generator.cpp", "safe_landing_planner_visualization.cpp")]
    sets = {"avoidance": A + g("avoidance/test/*.cpp"), "local_planner": A + g("local_planner/src/nodes/*.cpp", "local_planner/src/utils/*.cpp", "local_planner/test/*.cpp"),
            "safe_landing_planner": A + S + g("safe_landing_planner/test/*.cpp"), "global_planner": A + g("global_planner/src/library/*.cpp", "global_planner/test/*.cpp")}
    def comp(f):
        o = T + "/" + f.strip("/").replace("/", "_") + ".o"
        if not os.path.exists(o):
            op = ["-include", "shim/open.h"] if "/test/" in f and "local_planner" in f else []
            subprocess.check_call(["g++", "-include", "shim/prelude.h"] + op + ["-std=c++14", "-w", "-O1", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"] + inc + ["-c", "-o", o, f])
        return o
    with cf.ThreadPoolExecutor(8) as ex: objs = dict(zip(sum(sets.values(), [V + "/shim/shim.cpp"]), ex.map(comp, dict.fromkeys(sum(sets.values(), [V + "/shim/shim.cpp"])))))
    objs = {f: comp(f) for f in sum(sets.values(), [V + "/shim/shim.cpp"])}
    for n, fs in sets.items():
        subprocess.check_call(["g++", "-o", T + "/" + n] + [objs[f] for f in fs] + [objs[V + "/shim/shim.cpp"], "-lgtest", "-lpthread", "-lyaml-cpp", "-lboost_thread", "-lboost_system"])
        r = subprocess.run([T + "/" + n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=T, timeout=600)
        print("==", n, "exit", r.returncode); bad |= r.returncode
        print("\n".join(l for l in r.stdout.decode(errors="replace").split("\n") if l.startswith("[  PASSED") or l.startswith("[  FAILED") or "Failure" in l))
finally: shutil.rmtree(T, ignore_errors=True)
sys.exit(1 if bad else 0)
