#!/usr/bin/env python3
"""mkseed.py [id...] : (re)generates seeded/<id>/ from tools/seeds_*.py and confirms each in a scratch copy of /repo:
builds, stable tests pass, demonstration passes without the change and fails with it."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
REPO = os.environ.get("VERIF_REPO", "/repo")


def seed(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


for fn in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds_*.py"))):
    exec(open(fn).read())

HEAD = '''import os, sys, tempfile, shutil, threading, time, atexit
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import logging; logging.disable(logging.CRITICAL)
TMP = tempfile.mkdtemp(prefix="demo_"); atexit.register(shutil.rmtree, TMP, True)
'''


def main():
    want = sys.argv[1:] or sorted(SEEDS)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for sid in want:
        s = SEEDS[sid]
        tmp = tempfile.mkdtemp(prefix="seedwork_")
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.check_call(["git", "clone", "-q", REPO, repo])
            for f, a, b in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                assert t.count(a) == 1, (sid, f, t.count(a), a)
                open(p, "w").write(t.replace(a, b))
            diff = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
            d = os.path.join(ROOT, "seeded", sid)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            # confirm
            good = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=REPO, capture_output=True, text=True)
            bad = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True)
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1", MPLBACKEND="Agg", PYTHONPATH=repo)
            os.makedirs(os.path.join(repo, "unittests", "temp"), exist_ok=True)
            rep = os.path.join(tmp, "junit.xml")
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                            "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + rep,
                            "-o", "python_files=test_*.py *_unittest.py", "--ignore=unittests/test_montecarlo.py",
                            "unittests"], cwd=repo, env=e, capture_output=True, text=True)
            import xml.etree.ElementTree as ET
            passed = set()
            for tc in ET.parse(rep).getroot().iter("testcase"):
                if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                    passed.add(tc.get("classname") + "::" + tc.get("name"))
            missing = sorted(base - passed)
            ok = good.returncode == 0 and bad.returncode != 0
            print(sid, "demo clean=%d patched=%d" % (good.returncode, bad.returncode), "tests missing=%d" % len(missing),
                  "OK" if ok and not missing else "PROBLEM")
            if not ok:
                print(good.stdout[-800:], good.stderr[-800:], "----", bad.stdout[-800:], bad.stderr[-800:])
            if missing:
                print(missing[:10])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
