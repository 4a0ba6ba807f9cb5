#!/usr/bin/env python3
"""Mutation testing of the checks.
automut.py gen            writes /tmp/am/mutants.json: one-line changes of /repo/src
automut.py tests          stage 1: which of them build and pass the repository's stable tests (-> /tmp/am/alive.json)
automut.py checks         stage 2: runs the checks of CHECKS_OF on each until one catches it (-> /tmp/am/outcome.json)
automut.py show           lists the survivors"""
import json, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AM, WT = "/tmp/am", "/tmp/am/wt"
CHECKS_OF = {
    "Bank": "C03 C01", "Bins": "C05 C04 C23 C24", "CSGSurface": "C07 C08 C06 C23", "Cell": "C08 C19 C15 C09 C23", "Constants": "C06 C20 C07",
    "Continuous.": "C17 C19 C11 C16 C12 C20", "ContinuousEvaluation": "C19 C17", "ContinuousMap": "C17 C18 C21", "ContinuousReaction": "C17 C19 C20 C12 C16 C21 C11",
    "Driver": "C23 C02 C24 C01", "Estimator": "C06 C04 C05 C01 C24 C22 C23", "FixedSource": "C03 C01 C02 C04 C24", "HDF5DataSet": "C18 C21", "Interaction": "C15 C23 C17",
    "Material": "C15 C02 C16 C23", "Multigroup": "C15 C11 C12 C03 C23", "Nuclide": "C15 C17 C23", "Particle": "C09 C03 C13 C11 C10 C06 C22 C02", "Perturbation": "C22 C23",
    "Point": "C13 C07 C20 C14", "ScalarField": "C19 C16 C23", "Scorable": "C04 C05 C24", "Sensitivity": "C22 C24 C23", "Source": "C14 C02 C23", "ThermalScattering": "C21 C16 C23 C18",
    "TransportMethod": "C09 C10 C16 C06 C03 C22", "World": "C08 C19 C23 C09", "XMLDocument": "C23", "minimc": "C24 C23"}
ALL = ["C%02d" % i for i in range(1, 25)]

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w\)\]] )\+(?= )", ["-"]), (r"(?<=[\w\)\]] )-(?= )", ["+"]), (r"(?<=[\w\)\]] )\*(?= )", ["/"]), (r"(?<=[\w\)\]] )/(?= )", ["*"]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"/=", ["*="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"(?<![\w.\[\"])(\d+)(?![\w.\"])", ["PLUS1"]), (r"(?<![\w.\"])(\d+\.\d*)(?![\w\"])", ["TIMES"]), (r"\bupper_bound\b", ["lower_bound"]), (r"\blower_bound\b", ["upper_bound"]),
       (r"\bfloor\b", ["ceil"]), (r"\bsqrt\b", ["cbrt"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\bbegin\(\)", []), (r"\bstd::max\b", ["std::min"]), (r"\bstd::min\b", ["std::max"]),
       (r"std::next\(", ["std::prev("]), (r"std::prev\(", ["std::next("]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"])]
SKIP = re.compile(r"^\s*(//|///|\*|/\*|#|@)|static_assert|^\s*template|^\s*assert\(|operator|<<")
def gen():
    src, out = "/repo/src", []
    for f in sorted(os.listdir(src)):
        if not f.endswith((".cpp", ".hpp")) or f.startswith("KEigen"): continue
        lines = open(os.path.join(src, f)).read().split("\n")
        depth_comment = False
        for n, l in enumerate(lines):
            if "/*" in l: depth_comment = True
            if depth_comment:
                if "*/" in l: depth_comment = False
                continue
            if SKIP.search(l) or not l.strip(): continue
            code = l.split("//")[0]
            seen = set()
            def add(new, what):
                if new != l and new not in seen:
                    seen.add(new); out.append(dict(file=f, line=n, old=l, new=new, what=what))
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if pat.startswith("(?<![<>=") or pat.startswith("(?<![->])>"):
                        # templates
                        if not (re.search(r"\s$", code[:m.start()]) and re.match(r"\s|$", code[m.end():])): continue
                    for r in reps:
                        if r == "PLUS1": rep = str(int(m.group(1)) + 1)
                        elif r == "TIMES": rep = repr(float(m.group(1)) * 1.5 + (0.5 if float(m.group(1)) == 0 else 0))
                        else: rep = r
                        add(l[:m.start()] + rep + l[m.end():], "%s -> %s" % (m.group(0), rep))
            # drop a statement
            if re.match(r"^\s+[^\s].*;\s*$", code) and not re.match(r"^\s*(return|const |auto |using |std::\w+ \w+;|Real |case |break|continue|throw|}|public|private|virtual|static)", code) and \
               "(" in code and f.endswith(".cpp"):
                add(re.match(r"^\s*", l).group(0) + ";", "dropped")
            # conditions
            m = re.match(r"^(\s*(?:} else )?if \()(.*)(\) \{\s*)$", code)
            if m and ";" not in m.group(2):
                add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "if true")
                add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "if false")
            m = re.match(r"^(\s*)throw .*;\s*$", code)
            if m: pass
            # swapped arguments of a two-argument call with simple names
            for m in re.finditer(r"\((\w+), (\w+)\)", code):
                add(l[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + l[m.end():], "swapped")
    json.dump(out, open(AM + "/mutants.json", "w"), indent=0)
    print(len(out))
def dump(x, p):
    json.dump(x, open(p + ".new", "w"), indent=0)
    os.replace(p + ".new", p)
def build(target_jobs=8):
    if not os.path.exists(WT + "/_build/build.ninja"):
        r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS_DEBUG='-O0' -DCMAKE_PROJECT_minimc_INCLUDE=/opt/vp/cmake/offline.cmake "
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -Dcatch_download_DIR=/opt/vp/cmake/pkg -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON", cwd=WT)
        if r.returncode: print(r.stdout); sys.exit(1)
    return sh("timeout 300 nice ninja -C _build -j%d" % target_jobs, cwd=WT)
def tests():
    rep = WT + "/_build/reports"
    shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    sh("timeout 60 python3 /opt/vp/run_catch.py %s/_build/test/all_tests %s; python3 /opt/vp/results.py %s/out.json 'junit:%s/*.xml'" % (WT, rep, rep, rep))
    try: got = set(json.load(open(rep + "/out.json"))["passed"])
    except Exception: got = set()
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)
def put(m):
    p = WT + "/src/" + m["file"]
    t = open("/repo/src/" + m["file"]).read().split("\n")
    assert t[m["line"]] == m["old"]
    t[m["line"]] = m["new"]
    open(p, "w").write("\n".join(t))
def undo(m): shutil.copyfile("/repo/src/" + m["file"], WT + "/src/" + m["file"])
def stage1():
    if not os.path.exists(WT): sh("GIT_LFS_SKIP_SMUDGE=1 git clone -q /repo " + WT)
    b = build()
    if b.returncode: print(b.stdout[-2000:]); sys.exit(1)
    print("clean:", tests())
    res = json.load(open(AM + "/alive.json")) if os.path.exists(AM + "/alive.json") else {}
    for i, m in enumerate(json.load(open(AM + "/mutants.json"))):
        key = "%s:%d:%s" % (m["file"], m["line"], m["new"])
        if key in res: continue
        put(m)
        b = build()
        r = "nobuild" if b.returncode else ("killed" if tests() else "alive")
        res[key] = dict(m, state=r)
        undo(m)
        if i % 20 == 0 or r == "alive": dump(res, AM + "/alive.json")
    dump(res, AM + "/alive.json")
def checks_of(f):
    for k, v in CHECKS_OF.items():
        if (f + ".").startswith(k) or f.startswith(k): return v.split()
    return ALL
def stage2():
    out = json.load(open(AM + "/outcome.json")) if os.path.exists(AM + "/outcome.json") else {}
    d = AM + "/src2"
    while True:
        alive = [(k, v) for k, v in json.load(open(AM + "/alive.json")).items() if v["state"] == "alive" and k not in out]
        if len(sys.argv) > 2: alive = [x for x in alive if x[1]["file"].startswith(sys.argv[2])]
        if not alive: break
        random.Random(len(out)).shuffle(alive)
        left, done = [v["file"] for _, v in alive], [v["file"] for v in out.values()]
        k, m = min(alive, key=lambda x: done.count(x[1]["file"]) / (done.count(x[1]["file"]) + left.count(x[1]["file"])))  # all files alike
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree("/repo/src", d + "/src"); shutil.copytree("/repo/test", d + "/test")
        t = open(d + "/src/" + m["file"]).read().split("\n")
        t[m["line"]] = m["new"]
        open(d + "/src/" + m["file"], "w").write("\n".join(t))
        got, tried = None, []
        for c in checks_of(m["file"]):
            r = subprocess.run([sys.executable, HERE + "/run.py", c], env=dict(os.environ, MINIMC_REPO=d, MINIMC_VERIF_BUILD=AM + "/build"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            tried.append((c, r.returncode))
            if r.returncode:
                got = c; break
        out[k] = dict(m, caught=got, tried=tried, text=r.stdout[:600] if got else "")
        dump(out, AM + "/outcome.json")
        print(k, "->", tried, flush=True)
def show():
    out = json.load(open(AM + "/outcome.json"))
    print(len(out), "run;", sum(1 for v in out.values() if v["caught"]), "caught;", sum(1 for v in out.values() if v["tried"][-1][1] not in (0, 1)), "no answer")
    for k, v in sorted(out.items()):
        if not v["caught"] or v["tried"][-1][1] not in (0, 1):
            print("%s:%d [%s] %s" % (v["file"], v["line"] + 1, v["what"], v["tried"][-1]), "\n    ", v["old"].strip(), "\n  =>", v["new"].strip())
if __name__ == "__main__": {"gen": gen, "tests": stage1, "checks": stage2, "show": show}[sys.argv[1]]()
