"""Common machinery of all checks: parallel execution of scenarios on the real code, verdicts, findings, evidence."""
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc  # noqa: E402
from tlc import MachineryError  # noqa: E402

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1", MPLBACKEND="Agg", VERIF_REPO=REPO)
    e.setdefault("HOME", "/root")
    return e


def run_driver(driver, scenarios, *, procs=8, timeout=600, args=()):
    """Runs harness/<driver> on the scenarios (split over processes); returns one recorded result per scenario."""
    if not scenarios:
        return []
    tmp = tempfile.mkdtemp(prefix="verif_drv_")
    try:
        n = max(1, min(procs, len(scenarios)))
        parts = [list(range(i, len(scenarios), n)) for i in range(n)]

        def one(i):
            a, b = os.path.join(tmp, "in%d.json" % i), os.path.join(tmp, "out%d.json" % i)
            with open(a, "w") as f:
                json.dump([scenarios[j] for j in parts[i]], f)
            p = subprocess.Popen([PY, os.path.join(HERE, driver), a, b, *args], env=env(), cwd=tmp,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    p.kill()
                out, _ = p.communicate()
                return None, "timeout\n" + out.decode("utf8", "replace")[-2000:]
            if not os.path.exists(b):
                return None, "rc=%s\n" % p.returncode + out.decode("utf8", "replace")[-3000:]
            with open(b) as f:
                return json.load(f), ""
        res = [None] * len(scenarios)
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            for i, (r, msg) in enumerate(ex.map(one, range(n))):
                if r is None:
                    raise MachineryError("driver %s failed: %s" % (driver, msg))
                for j, x in zip(parts[i], r):
                    res[j] = x
        for x in res:
            if x is None or (isinstance(x, dict) and "error" in x):
                raise MachineryError("driver %s: %s" % (driver, (x or {}).get("error")))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tset(xs):
    return "{" + ",".join(json.dumps(x) if isinstance(x, str) else str(x) for x in sorted(xs, key=str)) + "}"


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.notes, self.assumptions = [], [], {}, []
        self.violations, self.known = [], []
        self.rng = random.Random("%s/%s" % (prop, seed))
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            self.findings = [x for x in json.load(f)["findings"] if x["property"] == prop]

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # -------------------------------------------------------------- specification side
    def model(self, module, cfg, expect=(), timeout=400, **kw):
        r = tlc.model_check(module, cfg, expect_actions=expect, timeout=timeout, **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.models.append({"module": module, "distinct_states": r["states"], "transitions": r["transitions"],
                            "actions": {k: v for k, v in r["actions"].items() if v}})
        return r

    def behaviours(self, module, cfg, num, depth, timeout=300, files=None):
        """Distinct behaviours of a generator module (at most one per explored prefix)."""
        out, seen = [], set()
        for b in tlc.simulate(module, cfg, num=num, depth=depth, seed=self.seed, timeout=timeout, files=files):
            key = json.dumps([b.get("meta"), b["ops"][:-1]], sort_keys=True)
            if key not in seen:
                seen.add(key)
                out.append(b)
        return out

    # -------------------------------------------------------------- implementation side
    def validate(self, module, traces, focus, *, consts="", scenarios=None, chunk=None, driver=None, timeout=800,
                 probe=None, describe=None):
        """Validates recorded traces; registers violations (minus known findings); runs the binding probe."""
        cfg = "INIT Init\nNEXT Next\nCONSTANT Focus=%s\n%s" % (tset(focus), consts)
        fails, st = tlc.validate(module, cfg, traces, chunk=chunk, timeout=timeout)
        self.states += st
        self.transitions += st
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        for tid in sorted(fails):
            for line, clauses in fails[tid]:
                ev = traces[tid]["ev"][line - 1] if line <= len(traces[tid]["ev"]) else {}
                self.report(clauses, ev, {"module": module, "driver": driver,
                                          "scenario": scenarios[tid] if scenarios else None,
                                          "line": line, "trace": traces[tid]})
        if probe:
            good = [t for i, t in enumerate(traces) if i not in fails]
            muts = []
            for t in good[:40]:
                m = probe(json.loads(json.dumps(t)), self.rng)
                if m is not None:
                    muts.append(m)
            if muts:
                bad, st = tlc.validate(module, cfg, muts, timeout=timeout)
                self.notes.setdefault("binding_probe", []).append(
                    {"module": module, "corrupted_traces": len(muts), "rejected": len(bad)})
                if len(bad) * 4 < len(muts) and not self.violations:
                    raise MachineryError("binding probe: only %d of %d corrupted traces rejected" % (len(bad), len(muts)))
        if traces and len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append({"module": module, "events": [describe(e) if describe else e for e in t["ev"][:6]]})
        return fails

    def match_finding(self, clauses, ev, ctx):
        for f in self.findings:
            m = f["match"]
            if set(clauses) <= set(m.get("clauses", [])) and \
                    all(_get(ev, k) == v for k, v in m.get("event", {}).items()) and \
                    all(_get(ctx.get("trace") or {}, k) == v for k, v in m.get("trace", {}).items()):
                return f
        return None

    def report(self, clauses, ev, ctx):
        f = self.match_finding(clauses, ev, ctx)
        if f:
            self.known.append(f)
        else:
            self.violations.append({"clauses": clauses, "event": ev, **ctx})

    # -------------------------------------------------------------- result
    def finish(self, level="model_checking"):
        wall = round(time.time() - self.t0, 2)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples or [{"note": "none"}], "models": self.models, **self.notes}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": wall, "violations": len(self.violations), "assumptions": self.assumptions}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t in sorted({f["what"] for f in self.known}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        if self.violations:
            os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
            path = os.path.join(ROOT, "out", "replay-%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump(self.violations[:60], f, indent=1)
            seen = {}
            for v in self.violations:
                for c in v["clauses"]:
                    seen[c] = seen.get(c, 0) + 1
            print("clauses violated: %s" % seen)
            v = self.violations[0]
            print("first: clauses=%s event=%s" % (v["clauses"], json.dumps(v["event"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" %
              (self.prop, self.tier, self.states, self.traces, self.events, wall))
        return 0


def _get(d, path):
    for p in path.split("."):
        if not isinstance(d, dict) or p not in d:
            return None
        d = d[p]
    return d
