"""C33: transition tables in the table form of usm.h are enumerated as source texts; each text is given to the diagram tool and compiled;
the diagram's edges are compared with the relation obtained by driving the compiled transition function through every (state, result).
The machines of the repository are driven the same way."""
import itertools, os, re, runpy, subprocess, sys, io, contextlib
RES = ["NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"]
ST = ["A", "B", "C"]
EN = {"A": "ALPHA", "B": "BETA_2", "C": "ALPHA_BETA"}

def tables(thorough):
    """(listed states, error state, {state: {result: next}})"""
    opt = [None, "A", "B", "C"]
    out = []
    for err in ST:  # two listed states, the third appears only as a target
        for m in itertools.product(opt, repeat=4): out.append((["A", "B"], err, {"A": {"NEXT1": m[0], "ERROR": m[1]}, "B": {"NEXT1": m[2], "ERROR": m[3]}}))
    for err in ("A", "B"):  # one state, every result
        for m in itertools.product([None, "A", "B"], repeat=5): out.append((["A"], err, {"A": dict(zip(RES, m))}))
    for err in ST:  # three listed states
        for m in itertools.product(opt if thorough else [None, "A", "C"], repeat=3): out.append((["C", "A", "B"], err, {"A": {"NEXT1": m[0], "NEXT2": m[2]}, "B": {"NEXT2": m[1]}, "C": {"NEXT1": m[2], "NEXT3": m[0], "ERROR": m[1]}}))
    if thorough:
        for err in ("A", "C"):
            for m in itertools.product(opt, repeat=6): out.append((["A", "B"], err, {"A": dict(zip(("NEXT1", "NEXT2", "ERROR"), m[:3])), "B": dict(zip(("NEXT1", "NEXT3", "ERROR"), m[3:]))}))
    return out

STYLES = 10
def text(t, style):
    listed, err, m = t
    s = lambda x: {0: EN[x], 1: "S::" + EN[x], 2: "ns::S::" + EN[x]}[style % 3]
    r = lambda x: {0: "usm::Transition::" + x, 1: "Transition::" + x, 2: "::usm::Transition::" + x}[(style // 2) % 3]
    nl, ind = (("\n", "      ") if style % 2 == 0 else (" ", "")) if style != 7 else ("\n\n", "\t")
    def maps(x):
        ms = ["USM_MAP(%s, %s)" % (r(k), s(v)) for k, v in m[x].items() if v]
        if style == 6: ms = [q.replace("(", "( ").replace(")", " )").replace(", ", ",") for q in ms]
        sep = ";" + nl + ind
        if style == 8 and ms: ms[0] = "/* the first, (most important) */ " + ms[0]
        if style == 9: return "// not used: USM_MAP(%s, %s);\n" % (r("NEXT4"), s("C")) + sep.join(ms)
        return sep.join(ms)
    sts = ["USM_STATE(tr, %s, %s)" % (s(x), maps(x)) for x in listed]
    if style == 4: sts = [q.replace("tr, ", "tr,\n   ") for q in sts]
    body = "USM_TABLE(%scur, %s,%s%s%s)" % (nl if style % 2 else "", s(err), nl, ind, (";" + nl + ind).join(sts))
    if style == 5: body = body.replace("cur, ", "cur,\t  ")
    if style == 9: body = "// the USM_TABLE below, like USM_TABLE(cur, X, y), lists the states\n" + body
    if style == 8: body = body.replace(s(err) + ",", s(err) + ",  // the error state, taken (always) when nothing else fits\n", 1)
    return body
def function(i, t, style): return "ns::S f%d(ns::S cur, usm::Transition tr) {\n  using namespace usm; using ns::S; using namespace ns_open;\n  // clang-format off\n  %s;\n  // clang-format on\n}\n" % (i, text(t, style))

def edges(dot):
    """{(start, result, end)} and the states of a diagram"""
    e, states = set(), set()
    body = dot[dot.index("{") + 1:dot.rindex("}")]
    for m in re.finditer(r'"([^"]*)"\s*->\s*"([^"]*)"\s*\[([^\]]*)\]', body):
        lab = re.search(r'label="([^"]*)"', m.group(3)); states |= {m.group(1), m.group(2)}
        for l in lab.group(1).replace("\\n", "\n").split("\n"): e.add((m.group(1), l, m.group(2)))
    return e, states

def run(REPO, V, tier, seed, res, ck):
    fails = res["fails"]
    def fail(key, msg): fails.setdefault(key, []).append(msg) if len(fails.get(key, [])) < 5 else None
    d = "%s/build/c33-%d" % (V, os.getpid()); os.makedirs(d, exist_ok=True)
    tool = REPO + "/tools/generate_flow_diagram.py"
    def diagram(src, how=0):
        """runs the tool on a file, in this process, as from the command line"""
        out = d + "/out.dot" if how == 0 else src + ".dot"
        if os.path.exists(out): os.unlink(out)
        argv = sys.argv; sys.argv = [tool, src] + ([out] if how == 0 else [])
        try:
            with contextlib.redirect_stdout(io.StringIO()): runpy.run_path(tool, run_name="__main__")
        except SystemExit as x:
            if x.code: return None, "exit %s" % x.code
        except Exception as x: return None, "%s: %s" % (type(x).__name__, x)
        finally: sys.argv = argv
        return (open(out).read(), None) if os.path.exists(out) else (None, "no file")
    ts = []
    for i, t in enumerate(tables(tier == "thorough")):
        ts.append((t, i % STYLES))
        if i % (5 if tier == "thorough" else 37) == 0: ts += [(t, s) for s in range(STYLES) if s != i % STYLES]
    pre = "#include \"avoidance/usm.h\"\n#include <cstdio>\nnamespace ns { enum class S { %s }; }\nnamespace ns_open { const auto %s; }\n" % (", ".join(EN[x] for x in ST), ", ".join("%s = ns::S::%s" % (EN[x], EN[x]) for x in ST))
    K = 8; dots = []; objs = []
    for k in range(K):
        with open("%s/t%d.cpp" % (d, k), "w") as f:
            f.write(pre); own = [(i, t, s) for i, (t, s) in enumerate(ts) if i % K == k]
            for i, t, s in own: f.write(function(i, t, s))
            f.write("void run%d() {\n static const struct { int id; ns::S (*f)(ns::S, usm::Transition); } T[] = {%s};\n for (auto& t : T) for (int s = 0; s < 3; s++) for (int r = 1; r <= 5; r++) printf(\"%%d %%d %%d %%d\\n\", t.id, s, r - 1, (int)t.f((ns::S)s, (usm::Transition)r));\n}\n" % (k, ",".join("{%d, f%d}" % (i, i) for i, _, _ in own)))
    with open(d + "/main.cpp", "w") as f: f.write("".join("void run%d();" % k for k in range(K)) + "int main() {" + "".join("run%d();" % k for k in range(K)) + "}")
    ps = [subprocess.Popen(["g++", "-std=c++14", "-w", "-O0", "-I%s/avoidance/include" % REPO, "-c", "%s/%s.cpp" % (d, n), "-o", "%s/%s.o" % (d, n)], stderr=subprocess.PIPE) for n in ["t%d" % k for k in range(K)] + ["main"]]
    # the diagrams meanwhile; each table in a file of its own, among other code
    for i, (t, s) in enumerate(ts):
        src = "%s/m%d.cpp" % (d, i % 3)
        with open(src, "w") as f: f.write("#include <map>\nint before(int a, int b) { return (a + b) * 2; }  // something (else, before\n" + function(i, t, s) + ("void after(int x, int y) {}\n" if i % 2 else ""))
        dots.append(diagram(src, 0 if i % 50 else 1))
    for p in ps:
        e = p.communicate()[1]
        if p.returncode: raise ck.BuildError("compiling the tables:\n" + e.decode()[:3000])
    r = ck.sh(["g++", "-o", d + "/tables"] + ["%s/t%d.o" % (d, k) for k in range(K)] + [d + "/main.o"])
    if r.returncode: raise ck.BuildError("linking the tables:\n" + r.stdout.decode()[:3000])
    rel = {}
    for l in subprocess.run([d + "/tables"], stdout=subprocess.PIPE).stdout.decode().split("\n"):
        if l: i, s, q, n = map(int, l.split()); rel.setdefault(i, {})[(EN[ST[s]], RES[q])] = EN[ST[n]]
    seen = set()
    for i, (t, s) in enumerate(ts):
        res["states"] += 1; listed, err, m = t; src = text(t, s)
        if i % 400 == 7: res["samples"].append(" ".join(src.split()))
        dot, e = dots[i]
        if dot is None: fail("tool_fails", "the tool fails (%s) on the table\n%s" % (e, src)); continue
        try: ed, st = edges(dot)
        except Exception as x: fail("no_diagram", "diagram of\n%s\nis\n%s" % (src, dot)); continue
        want = set()
        for x in listed:
            for q in RES:
                res["transitions"] += 1
                # listed results, and the error result always
                if m[x].get(q) or q == "ERROR": want.add((EN[x], q, rel[i][(EN[x], q)]))
                nxt = m[x].get(q) or err
                if rel[i][(EN[x], q)] != EN[nxt]: fail("engine", "the compiled table\n%s\nleads from %s with %s to %s" % (src, EN[x], q, rel[i][(EN[x], q)]))
        res["evals"] += 1 + len(want); seen.add(frozenset(want))
        if ed - want: fail("edge_without_transition", "the diagram of\n%s\nshows %s" % (src, sorted(ed - want)))
        if want - ed: fail("transition_without_edge", "the diagram of\n%s\nlacks %s" % (src, sorted(want - ed)))
        if not {EN[x] for x in listed} <= st: fail("state_missing", "the diagram of\n%s\nlacks a state" % src)
        res["traces"] += 1
    res["outcomes"] += len(seen)
    # the machines of the repository
    def machine(name, src, lines):
        dot, e = diagram_of(src)
        if dot is None: fail("tool_fails", "the tool fails (%s) on %s" % (e, src)); return
        ed, st = edges(dot); by = {}
        f = {}
        for l in lines:
            if l.count("\t") == 2: a, q, b = [x.replace(" ", "_") for x in l.split("\t")]; f[(a, q)] = b
        states = {a for a, _ in f}
        for a, q, b in ed:
            res["evals"] += 1
            if f.get((a, q)) != b: fail("edge_without_transition:" + name, "%s: the diagram leads from %s with %s to %s, the machine to %s" % (src, a, q, b, f.get((a, q))))
            by.setdefault(a, set()).add(q)
        out = {a for a, _, _ in ed}; errs = {f[k] for k in f if k[1] == "ERROR" and k[0] not in out}
        for (a, q), b in f.items():
            res["transitions"] += 1
            if a in out and q not in by[a]:
                # a result the table does not list leads where the error of an unlisted state leads
                dflt = f[(a, "NEXT4")] if "NEXT4" not in by[a] else None
                if q == "ERROR" or (dflt is not None and b != dflt): fail("transition_without_edge:" + name, "%s: the machine leads from %s with %s to %s, the diagram does not" % (src, a, q, b))
        for a in states:
            if a not in st: fail("state_missing:" + name, "%s: state %s is not in the diagram" % (src, a))
            if a not in out and any(f[(a, q)] != f[(a, "ERROR")] for q in RES): fail("transition_without_edge:" + name, "%s: state %s has transitions the diagram lacks" % (src, a))
        res["states"] += len(states); res["traces"] += 1
    def diagram_of(src):
        p = d + "/machine.cpp"; open(p, "w").write(open(src).read()); return diagram(p)
    for name, cfg, src in (("local", dict(main="c33_local.cpp", sources="local", variant="opt"), "local_planner/src/nodes/waypoint_generator.cpp"), ("slp", dict(main="c33_slp.cpp", sources="slpwp", variant="opt"), "safe_landing_planner/src/nodes/waypoint_generator.cpp")):
        exe = ck.build("C33-" + name, cfg); machine(name, REPO + "/" + src, subprocess.run([exe], stdout=subprocess.PIPE).stdout.decode().split("\n"))
    tst = REPO + "/avoidance/test/test_usm.cpp"; code = open(tst).read(); en = re.search(r"enum\s+TestStates\s*\{([^}]*)\}", code)
    if en:
        names = [x.strip() for x in en.group(1).split(",") if x.strip()]
        with open(d + "/test.cpp", "w") as f: f.write("#include <gtest/gtest.h>\n#include <cstdio>\n#define private public\n#define protected public\n#include \"%s\"\nint main() { static const char* N[] = {%s}; static const char* R[] = {%s}; TestStateMachine m; for (int s = 0; s < %d; s++) for (int r = 1; r <= 5; r++) printf(\"%%s\\t%%s\\t%%s\\n\", N[s], R[r - 1], N[(int)m.chooseNextState((TestStates)s, (Transition)r)]); }\n" % (tst, ",".join('"%s"' % x for x in names), ",".join('"%s"' % x for x in RES), len(names)))
        r = ck.sh(["g++", "-std=c++14", "-w", "-I%s/avoidance/include" % REPO, d + "/test.cpp", "-o", d + "/test", "-lgtest", "-lpthread"])
        if r.returncode: raise ck.BuildError("compiling the test machine:\n" + r.stdout.decode()[:3000])
        machine("test", tst, subprocess.run([d + "/test"], stdout=subprocess.PIPE).stdout.decode().split("\n"))
    import shutil; shutil.rmtree(d, ignore_errors=True)
