#!/usr/bin/env python3
"""Runs one check:  run.py Cxx [--tier quick|thorough] [--replay FILE]

Builds the repository's sources (from REPO, default /repo, current working tree) in the variant the harness needs,
compiles the harness, runs it in a scratch directory, writes evidence/Cxx.json and prints KNOWN-FINDING / VIOLATION
lines.  Exit 0: held.  Exit 1: violation.  Anything else: the check itself failed."""
import argparse, concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MINIMC_REPO", "/repo")
BUILD = os.environ.get("MINIMC_VERIF_BUILD", os.path.join(HERE, "build"))
OUT = os.path.join(HERE, "out")

SYSLIBS = ["/usr/lib/x86_64-linux-gnu/libxerces-c.so", "/usr/lib/x86_64-linux-gnu/libpugixml.so",
           "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so",
           "-ldl", "-pthread"]
BASE = ["-std=c++17", "-g1", "-pthread", "-w", "-isystem", "/usr/include/hdf5/serial"]
VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O1"]),
    "fast": dict(cxx="g++", flags=["-O2"]),
    "choice": dict(cxx="g++", flags=["-O1", "-include", os.path.join(HERE, "mc", "choice_rng.hpp")]),
    "asan": dict(cxx="g++", flags=["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow",
                                    "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
                 link=["-fsanitize=address,undefined"]),
    "sched": dict(cxx="clang++", flags=["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
                  extra_flags=["-O2"], link=["-rdynamic"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-fsanitize=thread"], link=["-fsanitize=thread"]),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sources():
    src = os.path.join(REPO, "src")
    names = []
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith((".cpp", ".hpp", ".h", ".cc", ".cxx", ".hxx", ".ipp", ".inl")):
                names.append(os.path.relpath(os.path.join(d, f), src))
    return src, sorted(names)

def tree_hash(extra):
    h = hashlib.sha256()
    src, names = sources()
    for n in names:
        h.update(n.encode()); h.update(open(os.path.join(src, n), "rb").read())
    for e in extra:
        h.update(e.encode() if isinstance(e, str) else e)
    return h.hexdigest()[:16]

def file_bytes(*paths):
    return [open(p, "rb").read() for p in paths]

def headers_hash():
    """Everything a translation unit may include; a unit's object is reused while this and the unit itself are unchanged."""
    src, names = sources()
    h = hashlib.sha256()
    data = {n: open(os.path.join(src, n), "rb").read() for n in names}
    units = (".cpp", ".cc", ".cxx")
    whole = any(re.search(rb'#\s*include\s*["<][^">]*\.(cpp|cc|cxx)[">]', b) for b in data.values())
    for n in names:
        if whole or not n.endswith(units):
            h.update(n.encode()); h.update(hashlib.sha256(data[n]).digest())
    return h.digest()

def compile_one(args):
    """Compiles cmd's source into the object cache unless it is there; args: (command without -o, key). Returns (rc, log, object)."""
    cmd, key = args
    d = os.path.join(BUILD, "objs")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, key + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
            return 0, "", obj
        except OSError:
            pass
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode == 0:
        os.rename(tmp, obj)
    return r.returncode, " ".join(cmd) + "\n" + r.stdout, obj

def object_key(headers, *parts):
    h = hashlib.sha256(headers)
    for x in parts:
        x = x if isinstance(x, bytes) else x.encode()
        h.update(str(len(x)).encode()); h.update(x)
    return h.hexdigest()[:32]

def prune(keep_libs=40, keep_objs=6000):
    try:
        d = os.path.join(BUILD, "objs")
        objs = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
        for old in objs[:-keep_objs]:
            os.remove(old)
    except OSError:
        pass

def build_lib(variant):
    """All sources except main() as one static library; returns (lib path, main object)."""
    v = VARIANTS[variant]
    src, names = sources()
    mcs = [os.path.join(HERE, "mc", "choice_rng.hpp")] if variant == "choice" else []
    key = tree_hash([variant, json.dumps(v, sort_keys=True), json.dumps(BASE)] + file_bytes(*mcs))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    lib, mainobj = os.path.join(d, "libminimc.a"), os.path.join(d, "minimc.main.o")
    if os.path.exists(os.path.join(d, "ok")):
        return lib, mainobj, None
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(os.path.join(d, "ok")):
        return lib, mainobj, None
    jobs, objs = [], []
    headers, mcb = headers_hash(), file_bytes(*mcs)
    units = [n for n in names if n.endswith((".cpp", ".cc", ".cxx"))]
    for n in units:
        key = object_key(headers, "lib", n, open(os.path.join(src, n), "rb").read(), json.dumps(v, sort_keys=True), json.dumps(BASE), *mcb)
        jobs.append(([v["cxx"]] + BASE + v["flags"] + ["-I" + src, "-c", os.path.join(src, n)], key))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for n, (rc, log, obj) in zip(units, ex.map(compile_one, jobs)):
            if rc:
                return None, None, log
            if n == "minimc.cpp":
                shutil.copyfile(obj, mainobj)
            else:
                objs.append(obj)
    if os.path.exists(lib):
        os.remove(lib)
    with tempfile.TemporaryDirectory(dir=d) as t:  # members by the names of their sources
        named = []
        for n, o in zip([n for n in units if n != "minimc.cpp"], objs):
            named.append(os.path.join(t, n.replace("/", "_") + ".o"))
            os.symlink(o, named[-1])
        r = sh(["ar", "rcs", lib] + named)
    if r.returncode:
        return None, None, r.stdout
    open(os.path.join(d, "ok"), "w").close()
    # keep the cache small
    dirs = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("lib-")), key=os.path.getmtime)
    for old in dirs[:-40]:
        if old != d:
            shutil.rmtree(old, ignore_errors=True)
    prune()
    return lib, mainobj, None

def build_harness(name, variant, extra_sources=()):
    v = VARIANTS[variant]
    lib, mainobj, err = build_lib(variant)
    if err:
        return None, None, err
    mc = os.path.join(HERE, "mc")
    hsrc = os.path.join(HERE, "harness", name + ".cpp")
    srcs = [hsrc] + [os.path.join(HERE, "mc", e) for e in extra_sources]
    deps = sorted(os.path.join(mc, f) for f in os.listdir(mc)) + srcs
    h = hashlib.sha256()
    for p in deps:
        h.update(open(p, "rb").read())
    h.update(json.dumps([v, BASE]).encode())
    key = h.hexdigest()[:16]
    exe = os.path.join(os.path.dirname(lib), name + "-" + key)
    if os.path.exists(exe):
        return exe, mainobj, None
    objs = []
    jobs = []
    headers = headers_hash()
    for s in srcs:
        flags = v["flags"] if s == hsrc else v.get("extra_flags", v["flags"])
        cmd = [v["cxx"]] + BASE + flags + ["-I" + os.path.join(REPO, "src"), "-I" + mc, "-c", s]
        jobs.append((cmd, object_key(headers, "harness", key, os.path.basename(s), open(s, "rb").read(), json.dumps([v, BASE, flags]))))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, log, obj in ex.map(compile_one, jobs):
            if rc:
                return None, None, log
            objs.append(obj)
    tmp = exe + ".tmp%d" % os.getpid()
    r = sh([v["cxx"], "-pthread"] + v.get("link", []) + ["-rdynamic", "-o", tmp] + objs + [lib] + SYSLIBS)
    if r.returncode:
        return None, None, r.stdout
    os.rename(tmp, exe)
    return exe, mainobj, None

def build_main(variant="plain"):
    v = VARIANTS[variant]
    lib, mainobj, err = build_lib(variant)
    if err:
        return None, err
    exe = os.path.join(os.path.dirname(lib), "runminimc")
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([v["cxx"], "-pthread"] + v.get("link", []) + ["-o", tmp, mainobj, lib] + SYSLIBS)
        if r.returncode:
            return None, r.stdout
        os.rename(tmp, exe)
    return exe, None

def known_findings():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                body = l[len("finding: "):]
                prop, rest = body.split(" ", 1)
                key, what = rest.split(" | ", 1)
                res.append((prop.split("=")[1], key.strip()[4:] if key.strip().startswith("key=") else key.strip(), what.strip()))
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build every library and harness in advance")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", default="8")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from checks import CHECKS
    if a.setup:
        os.makedirs(BUILD, exist_ok=True)
        parts = {(p["harness"], p["variant"], tuple(p.get("extra", ()))) for c in CHECKS.values() for p in c["parts"]}
        for v in sorted({p[1] for p in parts}):
            build_lib(v)
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for (n, v, e), (exe, _, err) in zip(sorted(parts), ex.map(lambda p: build_harness(*p), sorted(parts))):
                print(n, v, "ok" if not err else "FAILED\n" + err[-3000:])
        for v in sorted({p["main"] for c in CHECKS.values() for p in c["parts"] if p.get("main")}):
            print("runminimc", v, build_main(v)[1] or "ok")
        return 0
    c = CHECKS[a.property]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = json.load(open(a.replay)) if a.replay else None
    viols, stats, cases, samples, notes, exhaustive = [], {}, {}, [], [], True
    for part in c["parts"]:
        if replay and (replay["part"] != part["harness"] or replay.get("args", part.get("args", [])) != part.get("args", [])):
            continue
        exe, _, err = build_harness(part["harness"], part["variant"], part.get("extra", ()))
        if err:
            print("BUILD FAILED\n" + err[:5000]); return 2
        env = dict(os.environ)
        env["MINIMC_REPO"] = REPO
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
        if part.get("main"):
            m, err = build_main(part["main"])
            if err:
                print("BUILD FAILED\n" + err[:5000]); return 2
            env["MINIMC_MAIN"] = m
        scratch = tempfile.mkdtemp(prefix="minimc-verif-")
        try:
            cmd = [exe, "--tier", replay["tier"] if replay else a.tier, "--seed", a.seed, "--scratch", scratch, "--workers", a.workers] + part.get("args", [])
            if replay:
                cmd += ["--phase", replay["phase"], "--case", str(replay["case"])]
            limit = max(60, 850 - (time.time() - t0)) if a.tier == "quick" else 24 * 3600
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch, env=env, timeout=limit)
            except subprocess.TimeoutExpired:
                if viols:
                    break  # of an earlier part
                print("CHECK TIMED OUT"); return 3
            out = r.stdout.decode("utf-8", "replace")
            if r.returncode or "\nDONE\n" not in "\n" + out:
                print("HARNESS FAILED rc=%d\n%s\n%s" % (r.returncode, out[-3000:], r.stderr.decode("utf-8", "replace")[-3000:])); return 4
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        for l in out.splitlines():
            f = l.split("\t")
            if f[0] == "VIOL":
                viols.append(dict(part=part["harness"], args=part.get("args", []), phase=f[1], case=int(f[2]), key=f[3], detail=f[4]))
            elif f[0] == "STAT":
                stats[f[1]] = stats.get(f[1], 0) + int(f[2])
            elif f[0] == "CASES":
                cases[part["harness"] + ":" + f[1]] = int(f[2])
            elif f[0] == "SAMPLE":
                samples.append(f[1])
            elif f[0] == "NOTE":
                notes.append(f[1])
            elif f[0] == "EXHAUSTIVE":
                exhaustive = exhaustive and f[1] == "1"
    # findings
    known = [k for k in known_findings() if k[0] == a.property]
    seen_known, fresh = {}, []
    for v in viols:
        m = [k for k in known if k[1] == v["key"]]
        if m:
            seen_known[m[0][1]] = (m[0], v)
        else:
            fresh.append(v)
    for _, key, what in known:
        if key in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (a.property, what))
    rc = 0
    keys = set()
    for v in fresh:
        if v["key"] in keys:
            continue
        keys.add(v["key"])
        if len(keys) > 8:
            break
        path = os.path.join(OUT, "%s-%s.json" % (a.property, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
        json.dump(dict(property=a.property, tier=a.tier, **v,
                       how="python3 /verif/run.py %s --replay %s" % (a.property, path)), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        print("  %s: %s" % (v["key"], v["detail"].replace("\\n", "\n    ")[:700]))
        rc = 1
    wall = time.time() - t0
    if not replay:
        cov = dict(stats)
        lvl = c["level"]
        if lvl == "model_checking":
            cov.setdefault("states", 0); cov.setdefault("transitions", 0)
            cov.setdefault("traces_validated_against_impl", 0)
        else:
            cov.setdefault("evaluations", 0); cov.setdefault("distinct_nontrivial", 0)
            cov["rule"] = c["rule"]
        cov["samples"] = samples[:12] or ["none"]
        cov["cases_per_phase"] = cases
        cov["exhaustive"] = bool(exhaustive)
        cov["explanation"] = c["explanation"]
        if notes:
            cov["notes"] = notes
        ev = dict(property=a.property, tier=a.tier, seed=int(a.seed), level=lvl, coverage=cov,
                  assumptions=c.get("assumptions", []), wall_s=round(wall, 3), violations=len(keys))
        json.dump(ev, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1)
    print("%s %s: %s in %.1f s; %s" % (a.property, a.tier, "VIOLATED" if rc else "held", wall,
                                       ", ".join("%s=%d" % kv for kv in sorted(stats.items()))))
    return rc

if __name__ == "__main__":
    sys.exit(main())
