#!/usr/bin/env python3
"""Lists planted bugs whose removed lines are not lines of the original repository (base commit 0781b1b)."""
import glob, os, re, subprocess
REPO = os.environ.get("VERIF_REPO", "/repo")
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", "*"))):
    f, miss, n = None, [], 0
    for ln in open(os.path.join(d, "patch.diff"), encoding="utf-8"):
        if ln.startswith("--- a/"):
            f = ln[6:].strip()
            base = subprocess.run(["git", "-C", REPO, "show", "0781b1b:" + f], capture_output=True, text=True).stdout.splitlines()
        elif ln.startswith("-") and f:
            n += 1
            if ln[1:].rstrip("\n") not in base:
                miss.append(ln.strip())
    if miss or not n:
        print(os.path.basename(d), "removed", n, "not original:", miss)
