#!/usr/bin/env python3
"""runseeds.py [prefix...] : runs the quick check of each seeded change's property against a scratch clone with the patch."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for sid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    if want and not any(sid.startswith(w) for w in want):
        continue
    d = os.path.join(ROOT, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seedrun_")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        v = os.path.join(tmp, "verif")
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns("seeded", ".git", "out", "evidence"))
        t = time.time()
        p = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "quick"], cwd=v,
                           env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True)
        caught = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
        cl = [x for x in p.stdout.splitlines() if x.startswith("clauses")]
        print("%-40s %s rc=%d %.0fs %s" % (sid, "CAUGHT" if caught else "MISSED", p.returncode, time.time() - t, cl[:1]), flush=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-1500:], p.stderr[-500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
