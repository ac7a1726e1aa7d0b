#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]
Builds the property's harness from /repo's working tree, runs it (sharded), merges the results, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines."""
import threading, sys, os, json, time, hashlib, subprocess, glob, re, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
NCPU = os.cpu_count() or 4
T0 = time.time()

AV = ["avoidance/src/common.cpp", "avoidance/src/histogram.cpp", "avoidance/src/transform_buffer.cpp", "avoidance/src/avoidance_node.cpp", "avoidance/src/rviz_world_loader.cpp"]
def srcs(*pats, exclude=()):
    r = []
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            rel = os.path.relpath(f, REPO)
            if not any(re.search(x, rel) for x in exclude): r.append(rel)
    return r
# Source sets are globbed so that files added to a component are linked too.
SETS = {
 "none": lambda: [],
 "avoid": lambda: srcs("avoidance/src/*.cpp"),
 "local": lambda: srcs("avoidance/src/*.cpp", "local_planner/src/nodes/*.cpp", "local_planner/src/utils/*.cpp", exclude=[r"_main\.cpp$"]),
 "slp": lambda: srcs("avoidance/src/*.cpp", "safe_landing_planner/src/nodes/*.cpp", exclude=[r"_main\.cpp$", r"waypoint_generator_node\.cpp$"]),
 "slplocal": lambda: SETS["local"]() + [x for x in SETS["slp"]() if x.startswith("safe_")],
 "slpwp": lambda: srcs("avoidance/src/*.cpp", "safe_landing_planner/src/nodes/*.cpp", exclude=[r"_main\.cpp$"]),
 "global": lambda: srcs("avoidance/src/*.cpp", "global_planner/src/library/*.cpp", "global_planner/src/nodes/global_planner_node.cpp"),
}
VAR = {
 "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
 "opt": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
 "fast": ["-O2", "-g0", "-DNDEBUG"],
 "sched": ["-O1", "-g1", "-fsanitize=thread"],  # instrumented for harness/sched.cpp, linked without libtsan
}
BASE = ["-std=c++14", "-w", "-pthread", "-fno-strict-aliasing"]

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def hsh(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("_build", ".git", "build"))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f); h.update(os.path.relpath(p, root).encode() + b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()
class BuildError(Exception): pass

def incs(gen):
    r = ["-I" + V + "/shim/include", "-I" + gen, "-isystem", "/usr/include/eigen3"]
    for p in ("avoidance", "local_planner", "safe_landing_planner", "global_planner"): r.append("-I%s/%s/include" % (REPO, p))
    r += ["-I%s/local_planner/include/local_planner" % REPO, "-I%s/harness" % V, "-idirafter" + REPO]
    return r

def prepare(variants):
    """message headers and precompiled preludes; returns (gen dir, header hash)"""
    os.makedirs(BUILD, exist_ok=True)
    gk = hsh(open(V + "/shim/gen/genmsgs.py", "rb").read(), tree_hash(REPO, (".msg", ".cfg", ".srv")))
    gen = BUILD + "/gen-" + gk
    if not os.path.exists(gen + "/.ok"):
        tmp = gen + ".%d" % os.getpid()
        r = sh(["python3", V + "/shim/gen/genmsgs.py", REPO, tmp])
        if r.returncode: raise BuildError("message generation failed:\n" + r.stdout.decode())
        open(tmp + "/.ok", "w").close()
        try: os.rename(tmp, gen)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    sk = hsh(gk, tree_hash(V + "/shim/include", (".h",)), BASE)
    def pch(var):
        flags = BASE + VAR[var]
        d = "%s/pch-%s-%s" % (BUILD, var, hsh(sk, flags))
        if not os.path.exists(d + "/.ok"):
            tmp = d + ".%d" % os.getpid()
            os.makedirs(tmp + "/shim", exist_ok=True)
            # gcc picks up shim/prelude.h.gch from the first include directory when the flags agree
            r = sh(["g++"] + flags + ["-x", "c++-header"] + incs(gen) + ["-o", tmp + "/shim/prelude.h.gch", V + "/shim/include/shim/prelude.h"])
            if r.returncode: raise BuildError("prelude failed:\n" + r.stdout.decode())
            open(tmp + "/.ok", "w").close()
            try: os.rename(tmp, d)
            except OSError: shutil.rmtree(tmp, ignore_errors=True)
        return d
    with cf.ThreadPoolExecutor(4) as ex: pchs = dict(zip(variants, ex.map(pch, variants)))
    return gen, sk, pchs

def build(name, cfg):
    var = cfg.get("variant", "asan")
    gen, sk, pchs = prepare([var])
    flags = BASE + VAR[var] + cfg.get("flags", [])
    usepch = not cfg.get("flags")
    hh = hsh(sk, tree_hash(REPO, (".h", ".hpp")), tree_hash(V + "/harness", (".h",)))
    jobs = []
    for s in SETS[cfg["sources"]](): jobs.append((os.path.join(REPO, s), ["-include", "shim/prelude.h"] + cfg.get("srcflags", [])))
    for s in cfg.get("extra_repo", []): jobs.append((os.path.join(REPO, s), ["-include", "shim/prelude.h"] + cfg.get("srcflags", [])))
    for s in [V + "/shim/shim.cpp"] + [V + "/harness/" + x for x in cfg.get("extra", [])]: jobs.append((s, ["-include", "shim/prelude.h"]))
    plain = {V + "/harness/vc.cpp", V + "/harness/sched.cpp"} if var == "sched" else set()
    jobs.append((V + "/harness/" + cfg["main"], ["-include", "shim/prelude.h"] + (["-include", "shim/open.h"] if cfg.get("open", True) else [])))
    jobs.append((V + "/harness/vc.cpp", ["-include", "shim/prelude.h"]))  # after the instrumented ones: the linker keeps the first copy of a template
    if var == "sched": jobs.append((V + "/harness/sched.cpp", []))
    os.makedirs(BUILD + "/obj", exist_ok=True); os.makedirs(BUILD + "/bin", exist_ok=True)
    rename_main = cfg.get("rename_main", True)
    def comp(j):
        src, inc = j
        extra = []
        if src.startswith(REPO) and rename_main: extra = ["-Dmain=repo_main_" + re.sub(r"\W", "_", os.path.basename(src))]
        fl = BASE + ["-O2", "-g1"] if src in plain else flags
        o = "%s/obj/%s.o" % (BUILD, hsh(hh, fl, inc, extra, src, open(src, "rb").read(), sorted(SETS) and cfg.get("objsalt", "")))
        if not os.path.exists(o):
            t = o + ".%d-%d.o" % (os.getpid(), threading.get_ident())
            r = sh(["g++", "-c"] + fl + (["-I" + pchs[var]] if usepch and src not in plain else []) + inc + extra + incs(gen) + ["-o", t, src])
            if r.returncode: raise BuildError("compiling %s:\n%s" % (src, r.stdout.decode()[:6000]))
            os.replace(t, o)
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(comp, jobs))
    exe = "%s/bin/%s-%s" % (BUILD, name, hsh(objs, flags, cfg.get("libs", [])))
    if not os.path.exists(exe):
        t = exe + ".%d-%d" % (os.getpid(), threading.get_ident())
        r = sh(["g++"] + (BASE + ["-rdynamic"] if var == "sched" else flags) + ["-o", t] + objs + ["-lyaml-cpp", "-lboost_thread", "-lboost_system"] + cfg.get("libs", []))
        if r.returncode: raise BuildError("linking %s:\n%s" % (name, r.stdout.decode()[:6000]))
        os.replace(t, exe)
    return exe

def known():
    k = {}
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m: k[(m.group(1), m.group(2))] = m.group(3)
    return k

def unesc(s): return s.replace("\\n", "\n").replace("\\\\", "\\")

def run_harness(pid, name, cfg, tier, seed, res):
    exe = build(pid + "-" + name, cfg)
    n = cfg.get("shards", 1)
    tmpd = "%s/run-%s-%d" % (BUILD, pid, os.getpid()); os.makedirs(tmpd, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    limit = cfg.get("timeout", {}).get(tier, 400 if tier == "quick" else 6 * 3600)
    if tier == "quick": limit = max(30, min(limit, 800 - (time.time() - T0)))  # a check that hangs is reported in time
    def one(i):
        out, log = "%s/%s-%d.out" % (tmpd, name, i), "%s/%s-%d.log" % (tmpd, name, i)
        cmd = [exe, "--out", out, "--shard", "%d/%d" % (i, n), "--seed", str(seed)] + (["--thorough"] if tier == "thorough" else []) + cfg.get("args", [])
        with open(log, "wb") as lf:
            try: rc = subprocess.run(cmd, stdout=lf, stderr=lf, env=env, timeout=limit, cwd=tmpd).returncode
            except subprocess.TimeoutExpired: rc = "timeout"
        return out, log, rc
    with cf.ThreadPoolExecutor(min(n, NCPU)) as ex: rs = list(ex.map(one, range(n)))
    for out, log, rc in rs:
        lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
        fin, crash = False, None
        for l in lines:
            f = l.split("\t")
            if f[0] == "FAIL": res["fails"].setdefault(f[1], []).append(unesc("\t".join(f[2:])))
            elif f[0] == "SAMPLE": res["samples"].append(unesc(f[1]))
            elif f[0] == "INFO": res["info"][f[1]] = res["info"].get(f[1], 0) + int(f[2])
            elif f[0] == "COUNTS":
                for k, v in zip(("states", "transitions", "evals", "traces", "outcomes"), f[1:6]): res[k] += int(v)
                if f[6] != "1": res["exhaustive"] = False
            elif f[0] == "CRASH": crash = unesc(f[1]) if len(f) > 1 else ""
            elif f[0] == "DONE": fin = True
        if not fin:
            tail = open(log, errors="replace").read()
            cut = tail if len(tail) < 6000 else tail[:4000] + "\n...\n" + tail[-2000:]
            m = re.search(r"(?:ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)|Assertion [`'](.*)' failed|what\(\):\s*(.*)|WARNING: ThreadSanitizer: (.*?) \(|terminate called (.*))", tail)
            if rc == "timeout": key = "hang"
            else: key = "crash:" + re.sub(r"[^A-Za-z0-9_-]+", "_", (next((g for g in m.groups() if g), "") if m else str(rc)))[:60]
            res["fails"].setdefault(key, []).append("the code under test %s (exit %s) while checking: %s\n%s" % ("did not finish" if rc == "timeout" else "crashed", rc, crash, cut))
            res["exhaustive"] = False
    shutil.rmtree(tmpd, ignore_errors=True)

def main():
    from registry import REG
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    res = {"fails": {}, "samples": [], "info": {}, "states": 0, "transitions": 0, "evals": 0, "traces": 0, "outcomes": 0, "exhaustive": True}
    reg = REG[pid]
    for hname, cfg in reg["harnesses"]:
        if cfg.get("tiers") and tier not in cfg["tiers"]: continue
        try:
            if "py" in cfg:
                import importlib
                importlib.import_module(cfg["py"]).run(REPO, V, tier, seed, res, sys.modules[__name__])
            else: run_harness(pid, hname, cfg, tier, seed, res)
        except BuildError as e:
            print("BUILD ERROR for %s: %s" % (pid, e)); return 3
    kn = known()
    viol = []
    os.makedirs(V + "/replays", exist_ok=True)
    for f in glob.glob(V + "/replays/%s-*" % pid): os.unlink(f)
    for key, ds in res["fails"].items():
        if (pid, key) in kn: print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[(pid, key)], key)); continue
        viol.append((key, ds))
    lvl = reg["level"]
    cov = {"exhaustive": bool(res["exhaustive"]), "samples": (list(dict.fromkeys(res["samples"])) or ["(none)"])[:6], "distinct_outcomes": res["outcomes"]}
    if lvl == "model_checking": cov.update(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["traces"])
    else: cov.update(evaluations=res["evals"], distinct_nontrivial=res["outcomes"], rule=reg.get("rule", ""))
    if res["evals"]: cov["evaluations"] = res["evals"]
    cov["bounds"] = reg.get("bounds", {}).get(tier, "")
    if res["info"]: cov["details"] = res["info"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": reg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    for i, (key, ds) in enumerate(viol[:30]):
        path = "replays/%s-%d.txt" % (pid, i)
        with open(os.path.join(V, path), "w") as f: f.write("property %s\nkey %s\n\n%s\n" % (pid, key, "\n---\n".join(ds)))
        print("VIOLATION property=%s replay=%s key=%s :: %s" % (pid, path, key, ds[0].split("\n")[0][:300]))
    print("%s %s: states=%d transitions=%d evals=%d traces=%d outcomes=%d exhaustive=%s violations=%d wall=%.1fs" % (pid, tier, res["states"], res["transitions"], res["evals"], res["traces"], res["outcomes"], res["exhaustive"], len(viol), time.time() - t0))
    return 1 if viol else 0

if __name__ == "__main__": sys.exit(main())
