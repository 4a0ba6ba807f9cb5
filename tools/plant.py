#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: plant.py [ID...]   (builds, passes the stable tests, demo quiet without and failing with)."""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/minimc-plant"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    if not os.path.exists(WT + "/_build/build.ninja"):
        r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS_DEBUG='-g -O1' -DCMAKE_PROJECT_minimc_INCLUDE=/opt/vp/cmake/offline.cmake "
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -Dcatch_download_DIR=/opt/vp/cmake/pkg -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON", cwd=WT)
        if r.returncode: return r
    return sh("ninja -C _build -j8", cwd=WT)
def tests():
    rep = WT + "/_build/reports"
    shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    sh("python3 /opt/vp/run_catch.py %s/_build/test/all_tests %s; python3 /opt/vp/results.py %s/out.json 'junit:%s/*.xml'" % (WT, rep, rep, rep))
    got = set(json.load(open(rep + "/out.json"))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)
if not os.path.exists(WT): sh("GIT_LFS_SKIP_SMUDGE=1 git clone -q /repo " + WT)
sh("export GIT_LFS_SKIP_SMUDGE=1; git fetch -q && git reset -q --hard origin/HEAD && git checkout -q -- .", cwd=WT)
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    d = HERE + "/seeded/" + i
    sh("git checkout -q -- .", cwd=WT)
    b = build()
    if b.returncode: print(b.stdout[-2000:]); sys.exit("clean build failed")
    c = sh("bash %s/demo.sh" % d, cwd=WT)
    a = sh("git apply %s/patch.diff" % d, cwd=WT)
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
    b = build()
    if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-1500:]); continue
    t = tests()
    e = sh("bash %s/demo.sh" % d, cwd=WT)
    ok = c.returncode == 0 and e.returncode not in (0, 2) and not t
    print(i, "ok" if ok else "BAD", "clean", c.returncode, c.stdout[-400:].strip(), "| planted", e.returncode, e.stdout[-300:].strip(), "| tests lost:", t, flush=True)
sh("git checkout -q -- .", cwd=WT)
