#!/usr/bin/env python3
"""seeded.py [-a] [ID...]: runs the check of the property of each planted bug (with -a: every check) against a scratch copy
of the sources with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(HERE + "/seeded"))
every_id = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]] if every else []
for i in ids:
    d = tempfile.mkdtemp(prefix="minimc-mut-")
    try:
        for s in ("src", "test"): shutil.copytree("/repo/" + s, d + "/" + s)
        subprocess.run(["git", "init", "-q"], cwd=d); subprocess.run(["git", "apply", HERE + "/seeded/" + i + "/patch.diff"], cwd=d, check=True)
        for c in every_id or [json.load(open(HERE + "/seeded/" + i + "/meta.json"))["property"]]:
            t = time.time()
            r = subprocess.run([sys.executable, HERE + "/run.py", c], env=dict(os.environ, MINIMC_REPO=d, MINIMC_VERIF_BUILD="/tmp/mutbuild"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if every and r.returncode == 0: continue
            print(i, {0: "quiet  ", 1: "CAUGHT "}.get(r.returncode, "rc=%d " % r.returncode), c, "%.0fs" % (time.time() - t), "|", r.stdout.strip()[:260].replace("\n", " "), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
