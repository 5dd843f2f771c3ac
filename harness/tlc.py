"""Thin wrapper around TLC: exhaustive model runs, behaviour generation and batch trace validation.

All output goes to a private scratch directory that is removed afterwards."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(Exception):
    """The check itself could not run (never a verdict about spicelib)."""


def _classpath():
    jars = [JAR] + sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    seen, out = set(), []
    for j in jars:
        if j not in seen:
            seen.add(j)
            out.append(j)
    return ":".join(out)


def run_tlc(module, cfg_text, *, files=None, args=(), workers=4, timeout=600, heap="3g"):
    """Runs TLC on specs/<module>.tla with the given cfg. Returns (exit code, output text)."""
    tmp = tempfile.mkdtemp(prefix="verif_tlc_")
    try:
        for f in glob.glob(os.path.join(SPECS, "*.tla")):
            shutil.copy(f, tmp)
        for name, text in (files or {}).items():
            with open(os.path.join(tmp, name), "w") as fh:
                fh.write(text)
        with open(os.path.join(tmp, "run.cfg"), "w") as fh:
            fh.write(cfg_text)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp,
               "-cp", _classpath(), "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(tmp, "meta"),
               "-workers", str(workers), "-deadlock", *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            return -999, (e.stdout or b"").decode("utf8", "replace")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_states = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_cov = re.compile(r"^<(\w+) line .*?>: (\d+):(\d+)", re.M)


def model_check(module, cfg_text, *, expect_actions=(), timeout=600, workers=4, heap="3g", extra=(), coverage=True):
    """Exhaustive run. Raises MachineryError if TLC fails, if an invariant of the *specification* is violated,
    or if an expected action is never taken. Returns dict(states, distinct, actions)."""
    rc, out = run_tlc(module, cfg_text, args=(*(("-coverage", "60") if coverage else ()), *extra), timeout=timeout, workers=workers, heap=heap)
    m = _states.findall(out)
    if rc != 0 or not m or "Model checking completed. No error has been found" not in out:
        raise MachineryError("TLC on %s failed (rc=%s):\n%s" % (module, rc, out[-3000:]))
    actions = {}
    for name, a, b in _cov.findall(out):
        actions[name] = max(actions.get(name, 0), int(b))
    for name in re.findall(r'<<"OP", "(\w+)">>', out):   # modules too recursive for TLC's coverage report what they did
        actions[name] = actions.get(name, 0) + 1
    for a in expect_actions:
        if not actions.get(a):
            raise MachineryError("TLC on %s: action %s never taken: %s" % (module, a, actions))
    return {"states": int(m[-1][1]), "transitions": int(m[-1][0]), "actions": actions}


def tla_unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            out.append({"n": "\n", "t": "\t", "r": "\r"}.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def simulate(module, cfg_text, *, num, depth, seed, timeout=300, marker="BEH", files=None, workers=1):
    """Random behaviours of the specification. The module prints <<"BEH", json>>; returns the decoded values."""
    rc, out = run_tlc(module, cfg_text, args=("-simulate", "num=%d" % num, "-depth", str(depth),
                                              "-seed", str(seed)), timeout=timeout, workers=workers, files=files)
    res = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % marker, out):
        res.append(json.loads(tla_unescape(m.group(1))))
    if not res or rc == -999 or "is violated" in out:
        raise MachineryError("TLC simulation of %s produced nothing (rc=%s):\n%s" % (module, rc, out[-3000:]))
    return res


def validate(module, cfg_text, traces, *, timeout=800, workers=6, heap="6g", chunk=None, extra_files=None):
    """Batch trace validation. Traces: list of lists of events. The module reads traces.json and prints for every
    trace either <<"DONE", tid>> or <<"FAIL", tid, line, {clauses}>>. Returns (fails, states) where fails maps
    tid -> list of (line, [clauses])."""
    fails, states = {}, 0
    chunk = chunk or len(traces) or 1
    for lo in range(0, len(traces), chunk):
        part = traces[lo:lo + chunk]
        files = {"traces.json": json.dumps(part)}
        files.update(extra_files or {})
        rc, out = run_tlc(module, cfg_text, files=files, timeout=timeout, workers=workers, heap=heap)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("trace validation with %s failed (rc=%s):\n%s" % (module, rc, out[-4000:]))
        m = _states.findall(out)
        states += int(m[-1][1])
        done = set()
        for a in re.finditer(r'<<"DONE", (\d+)>>', out):
            done.add(int(a.group(1)))
        # TLC may wrap long tuples over several lines
        for a in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
            cl = re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(3))
            fails.setdefault(lo + int(a.group(1)) - 1, []).append((int(a.group(2)), sorted(cl)))
        for i in range(len(part)):
            if (i + 1) not in done and (lo + i) not in fails:
                raise MachineryError("trace %d of %s got no verdict:\n%s" % (lo + i, module, out[-3000:]))
    return fails, states
