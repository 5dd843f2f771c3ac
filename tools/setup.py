#!/usr/bin/env python3
"""Setup: nothing is compiled; verifies that the tools are there and that every specification module parses."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import tlc  # noqa: E402

tmp = tempfile.mkdtemp(prefix="verif_setup_")
bad = 0
try:
    for f in glob.glob(os.path.join(ROOT, "specs", "*.tla")):
        shutil.copy(f, tmp)
    mods = sorted(glob.glob(os.path.join(tmp, "*.tla")))
    p = subprocess.run(["java", "-Djava.io.tmpdir=" + tmp, "-cp", tlc._classpath(), "tla2sany.SANY", *mods], cwd=tmp,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode("utf8", "replace")
    if p.returncode != 0 or "*** Errors" in out or "Fatal" in out:
        print(out[-4000:])
        bad = 1
    else:
        print("%d specification modules parsed" % len(mods))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
sys.exit(bad)
