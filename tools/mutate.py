#!/usr/bin/env python3
"""mutate.py CHECK[,CHECK] FILE OLD NEW [FILE OLD NEW ...]: runs checks against a scratch copy of the sources with the text
replaced (once).  Prints the outcome of each check.  The copy lives in a scratch directory and is removed."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, rest = sys.argv[1].split(","), sys.argv[2:]
d = tempfile.mkdtemp(prefix="minimc-mut-")
try:
    shutil.copytree("/repo/src", d + "/src")
    if os.path.isdir("/repo/test"): shutil.copytree("/repo/test", d + "/test")
    for f, old, new in zip(rest[::3], rest[1::3], rest[2::3]):
        p = d + "/src/" + f
        t = open(p).read()
        if old not in t:
            print("NOT FOUND in", f, ":", old); sys.exit(2)
        open(p, "w").write(t.replace(old, new, 1))
    for c in checks:
        r = subprocess.run([sys.executable, HERE + "/run.py", c], env=dict(os.environ, MINIMC_REPO=d, MINIMC_VERIF_BUILD="/tmp/mutbuild"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print({0: "quiet  ", 1: "CAUGHT "}.get(r.returncode, "rc=%d " % r.returncode), c, "|", "\n".join(r.stdout.splitlines()[:4] if r.returncode else r.stdout.splitlines()[-1:])[:900])
finally:
    shutil.rmtree(d, ignore_errors=True)
