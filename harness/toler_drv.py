"""Runs scenarios of tolerance analyses with a stand-in simulator that evaluates the circuits it is given."""
import json
import logging
import math
import os
import re
import shutil
import sys
import tempfile
import threading
import time
import traceback
from pathlib import Path

_sleep = time.sleep
time.sleep = lambda s: _sleep(min(s, 0.002))   # polling loops of the code under test only
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
logging.disable(logging.CRITICAL)
from spicelib import SpiceEditor, SimRunner  # noqa: E402
from spicelib.sim.simulator import Simulator  # noqa: E402
from spicelib.sim.tookit.worst_case import WorstCaseAnalysis  # noqa: E402
from spicelib.sim.tookit.fast_worst_case import FastWorstCaseAnalysis  # noqa: E402
from spicelib.sim.tookit.quick_sensitivity_analysis import QuickSensitivityAnalysis  # noqa: E402
from spicelib.sim.tookit.montecarlo import Montecarlo  # noqa: E402

BAD = -99999
UNITS = {1: 1.0, 2: 1e3, 3: 1e-9, 4: 1e-3, 5: 1e6}
SUFFIX = {"meg": 1e6, "k": 1e3, "m": 1e-3, "u": 1e-6, "µ": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "g": 1e9, "t": 1e12}
DRAWS = [(0, 0), (-1, 0), (1, 0), (0, -1), (0, 1)]   # of uniform and normal random functions


# ---------------------------------------------------------------- circuits: an evaluator of netlists
class Bad(Exception):
    pass


TOKEN = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)([a-zA-Zµ]*)|([a-zA-Z_]\w*)|(\*\*|<=|>=|==|!=|&&|\|\||[-+*/^()<>,?:&|!{}]))")


def tokens(text):
    out, i = [], 0
    text = text.strip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            raise Bad("cannot read %r" % text[i:])
        i = m.end()
        if m[1]:
            x, s = float(m[1]), (m[2] or "").lower()
            for k, f in SUFFIX.items():
                if s.startswith(k):
                    x *= f
                    break
            out.append(x)
        elif m[3]:
            out.append(m[3].lower())
        else:
            out.append(m[4])
    return out


class Circuit:
    def __init__(self, path):
        with open(path, encoding="utf-8", errors="replace") as f:
            text = f.read()
        lines = re.sub(r"\r?\n\+", " ", text).splitlines()
        self.title = lines[0]
        self.comp, self.par, self.func, self.steps, self.meas, self.ins = {}, {}, {}, [], set(), set()
        self.rest, sub, self.problem = [], False, None
        for ln in lines[1:]:
            w = ln.split()
            if not w or ln.startswith("*"):
                continue
            lo = w[0].lower()
            if lo == ".subckt":
                sub = True
            if sub or lo[0] in "dx":
                self.rest.append(" ".join(w))
                if lo == ".ends":
                    sub = False
            elif lo in (".param", ".params"):
                for m in re.finditer(r"(\w+)\s*=\s*(\{[^}]*\}|\S+)", ln[len(lo):]):
                    if m[1].lower() in self.par:
                        self.problem = "parameter %s twice" % m[1]
                    self.par[m[1].lower()] = m[2]
            elif lo == ".func":
                m = re.fullmatch(r"\.func\s+(\w+)\s*\(([^)]*)\)\s*=?\s*(.*)", ln.strip(), re.I)
                if not m:
                    self.problem = "function " + ln
                else:
                    body = m[3].strip()
                    self.func[m[1].lower()] = ([a.strip().lower() for a in m[2].split(",")], body)
            elif lo == ".step":
                m = re.fullmatch(r"\.step\s+param\s+(\w+)\s+(\S+)\s+(\S+)\s+(\S+)", ln.strip(), re.I)
                self.steps.append(m and (m[1].lower(), float(m[2]), float(m[3]), float(m[4])))
            elif lo in (".meas", ".measure"):
                self.meas.add(" ".join(w[1:]).lower())
            elif lo == ".options":
                m = re.fullmatch(r"opt(\d)=1", w[1])
                self.ins.add(int(m[1]) if m else -1)
            elif lo[0] in "rclvi":
                self.comp[w[0].upper()] = ln.split(None, 3)[3].strip() if len(w) > 3 else ""
            elif lo in (".end", ".backanno", ".tran", ".model"):
                if lo in (".tran", ".model"):
                    self.rest.append(" ".join(w))
            else:
                self.problem = "line " + ln
        if len(self.steps) > 1 or None in self.steps:
            self.problem = "several or unknown steps"

    def runs(self):
        if not self.steps:
            return [None]
        n, a, b, c = self.steps[0]
        if n != "run" or c != 1 or a != int(a) or b != int(b):
            raise Bad("step")
        return list(range(int(a), int(b) + 1))

    def number(self, text, env, draw, depth=0):
        text = text.strip()
        toks = tokens(text)
        if not toks:
            raise Bad("empty expression")
        x, i = self.expr(toks, 0, env, draw, depth)
        if i != len(toks):
            raise Bad("rest of expression %r" % text)
        return x

    def name(self, n, env, draw, depth):
        if depth > 30:
            raise Bad("recursion")
        if n in env:
            return env[n]
        if n in self.par:
            return self.number(self.par[n], env, draw, depth + 1)
        raise Bad("unknown name " + n)

    def expr(self, t, i, env, draw, d):
        x, i = self.sum(t, i, env, draw, d)
        while i < len(t) and t[i] in ("<", ">", "<=", ">=", "==", "!="):
            o = t[i]
            y, i = self.sum(t, i + 1, env, draw, d)
            x = float({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[o])
        if i < len(t) and t[i] == "?":
            y, i = self.expr(t, i + 1, env, draw, d)
            if i >= len(t) or t[i] != ":":
                raise Bad("conditional")
            z, i = self.expr(t, i + 1, env, draw, d)
            x = y if x else z
        return x, i

    def sum(self, t, i, env, draw, d):
        x, i = self.prod(t, i, env, draw, d)
        while i < len(t) and t[i] in ("+", "-"):
            o = t[i]
            y, i = self.prod(t, i + 1, env, draw, d)
            x = x + y if o == "+" else x - y
        return x, i

    def prod(self, t, i, env, draw, d):
        x, i = self.unary(t, i, env, draw, d)
        while i < len(t) and t[i] in ("*", "/"):
            o = t[i]
            y, i = self.unary(t, i + 1, env, draw, d)
            if o == "/" and y == 0:
                raise Bad("division by zero")
            x = x * y if o == "*" else x / y
        return x, i

    def unary(self, t, i, env, draw, d):
        if i < len(t) and t[i] in ("-", "+"):
            x, j = self.unary(t, i + 1, env, draw, d)
            return (-x if t[i] == "-" else x), j
        x, i = self.atom(t, i, env, draw, d)
        if i < len(t) and t[i] == "**":
            y, i = self.unary(t, i + 1, env, draw, d)
            x = x ** y
        return x, i

    def atom(self, t, i, env, draw, d):
        if i >= len(t):
            raise Bad("unexpected end")
        a = t[i]
        if isinstance(a, float):
            return a, i + 1
        if a in ("(", "{"):
            x, i = self.expr(t, i + 1, env, draw, d)
            if i >= len(t) or t[i] != {"(": ")", "{": "}"}[a]:
                raise Bad("parentheses")
            return x, i + 1
        if not re.match(r"[a-z_]", a):
            raise Bad("unexpected " + a)
        if i + 1 < len(t) and t[i + 1] == "(":
            args, j = [], i + 2
            while True:
                x, j = self.expr(t, j, env, draw, d)
                args.append(x)
                if j >= len(t) or t[j] not in (",", ")"):
                    raise Bad("arguments of " + a)
                j += 1
                if t[j - 1] == ")":
                    break
            return self.call(a, args, draw, d, env), j
        if a + "(" == "random(":
            raise Bad("random without ()")
        return self.name(a, env, draw, d), i + 1

    def call(self, f, args, draw, d, env):
        u, g = draw
        if f in self.func:
            names, body = self.func[f]
            if len(names) != len(args):
                raise Bad("number of arguments of " + f)
            if d > 30:
                raise Bad("recursion")
            outer = {k: env[k] for k in ("run", "random_value") if k in env}
            return self.number(body, {**outer, **dict(zip(names, args))}, draw, d + 1)
        fs = {("if", 3): lambda c, a, b: a if c else b, ("floor", 1): lambda x: float(math.floor(x)), ("int", 1): lambda x: float(int(x)),
              ("abs", 1): abs, ("min", 2): min, ("max", 2): max, ("pow", 2): lambda a, b: a ** b, ("round", 1): lambda x: float(math.floor(x + 0.5)),
              ("ceil", 1): lambda x: float(math.ceil(x)), ("mc", 2): lambda x, t: x * (1 + u * t), ("gauss", 1): lambda s: 3 * s * g,
              ("flat", 1): lambda x: x * u, ("exp", 1): math.exp, ("ln", 1): math.log, ("sqrt", 1): math.sqrt,
              ("sgn", 1): lambda x: float((x > 0) - (x < 0)), ("limit", 3): lambda x, a, b: max(min(a, b), min(x, max(a, b)))}
        if (f, len(args)) not in fs:
            raise Bad("unknown function %s/%d" % (f, len(args)))
        return fs[f, len(args)](*args)


def random_call(text):
    """random() of Qspice has no argument"""
    return re.sub(r"random\(\)", "random_value", text, flags=re.I)


class Eval:
    """Values of a circuit as integers of the specification."""
    def __init__(self, cfg, path):
        self.cfg = cfg
        self.c = Circuit(path)
        for k, (a, b) in list(self.c.func.items()):
            self.c.func[k] = (a, random_call(b))

    def real(self, run, draw):
        env = {} if run is None else {"run": float(run)}
        env["random_value"] = (draw[0] + 1) / 2
        out = {}
        c = self.c
        for x in self.cfg["comps"]:
            u = UNITS[x["u"]]
            out[x["ref"]] = c.number(random_call(c.comp[x["ref"]]), env, draw) / u
        for p in self.cfg["pars"]:
            out[p["n"]] = c.number(random_call(c.par[p["n"]]), env, draw)
        return out

    def ints(self, run, draw=(0, 0), scale=1):
        try:
            return {k: self.whole(v) if scale == 1 else round(v * scale) for k, v in self.real(run, draw).items()}
        except (Bad, KeyError, ZeroDivisionError, OverflowError) as x:
            return {k["ref"] if "ref" in k else k["n"]: BAD for k in self.cfg["comps"] + self.cfg["pars"]}

    @staticmethod
    def whole(v):
        return round(v) if abs(v - round(v)) <= 1e-4 * max(1, abs(v)) / 10 and abs(v) < 1e8 else BAD

    def f(self, vals):
        y = lambda n: vals[n] / 10  # noqa: E731
        s = sum(t["a"] * y(t["n"]) for t in self.cfg["f"]) + sum(
            t["w"] * (y(t["p"]) - t["d"] / 10) * (y(t["q"]) - t["d"] / 10) for t in self.cfg["x"])
        return round(s, 6) % self.cfg["m"] if self.cfg["m"] else s

    def measures(self, n):
        return any(n in m.split()[:2] for m in self.c.meas)

    def info(self, rest):
        return {"ins": sorted(self.c.ins), "rest": self.c.rest == rest and self.c.problem is None, "meas": self.measures("m1")}


class LTspice(Simulator):
    state = None     # of the operation: cfg, rest, fail, miss, mc, records, lock

    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        s = cls.state
        p = Path(netlist_file)
        k = int(re.search(r"_(\d+)$", p.stem)[1])     # the runner numbers the files
        with s["lock"]:
            if s["first"] is None or k < s["first"]:
                s["first"] = k
        k -= s["base"]
        ev = Eval(s["cfg"], p)
        rec = {"k": k, "info": ev.info(s["rest"]), "runs": []}
        runs = ev.c.runs()
        stepped = runs != [None]
        for r in runs:
            if stepped:
                vals = ev.ints(r)
                x = {"run": r, "vals": vals}
                if s["mc"]:
                    x["draws"] = [ev.ints(r, d) for d in DRAWS] if r in (runs[0], runs[-1], -1, 0) else None
            else:
                vals = ev.ints(None, scale=10 if s["mc"] else 1)
                if not s["mc"]:
                    x = {"run": ev.whole(ev.c.number(ev.c.par["run"], {}, (0, 0))) if "run" in ev.c.par else BAD, "vals": vals}
                    if x["run"] != BAD and not ev.measures("runm") and not s["fwc"]:
                        x["run"] = BAD
                    if s["fwc"]:
                        x["run"] = 0
                else:
                    x = {"run": k - 1, "vals": vals}
            m = 1000 + 37 * k + 5 * (r or 0) if s["mc"] else ev.f(vals)
            x["m"] = round(m)
            x["state"] = "ok"
            rec["runs"].append(x)
        if s["fail"] == k:
            for x in rec["runs"]:
                x["state"] = "fail"
        elif s["miss"] == k:
            for x in rec["runs"]:
                x["state"] = "miss"
        with s["lock"]:
            s["records"][k] = rec
            if len(s["records"]) > s["limit"]:
                raise RuntimeError("does not end")
        if s["fail"] == k:
            return 1
        p.with_suffix(".raw").write_text(str(k))
        has = rec["info"]["meas"]
        out = ["Circuit: %s" % ev.c.title, ""]
        if stepped:
            out += [".step run=%d" % r for r in runs] + ["", ""]
            if has:
                out += ["Measurement: m1", "  step\tv(out)"] + ["     %d\t%s" % (i + 1, float(x["m"])) for i, x in enumerate(rec["runs"])] + ["", ""]
        else:
            if has:
                out += ["Measurement \"m1\" FAIL'ed" if s["miss"] == k else "m1: v(out)=%s" % float(rec["runs"][0]["m"])]
            if ev.measures("runm"):
                out += ["runm: run=%g" % rec["runs"][0]["run"]]
            out += ["", ""]
        out += ["Date: Thu Jan 01 00:00:00 2026", "Total elapsed time: 0.011 seconds.", ""]
        p.with_suffix(".log").write_text("\n".join(out))
        return 0

    @classmethod
    def valid_switch(cls, switch, switch_param):
        return []

    @classmethod
    def is_available(cls):
        return True


class Qspice(LTspice):
    pass


Qspice.__name__ = "Qspice"


# ---------------------------------------------------------------- scenarios
def text(v, unit, style):
    """a value in one of the styles that people write"""
    x = v * UNITS[unit]
    if style == 1:
        return repr(x) if x != int(x) or abs(x) > 1e6 else str(int(x))
    if style == 2:
        return "%ge%d" % (v / 100, {1: 2, 2: 5, 3: -7, 4: -1, 5: 8}[unit])
    if style == 3:
        return {1: "%gk" % (v / 1000), 2: "%gMeg" % (v / 1000), 3: "%gu" % (v / 1000), 4: "%g" % (v / 1000), 5: "%gG" % (v / 1000)}[unit]
    if style == 4:
        return {1: "%d", 2: "%dk", 3: "%dn", 4: "%dm", 5: "%dMeg"}[unit] % v
    return "%.1f" % v if unit == 1 else {2: "%d.0K", 3: "%d.0n", 4: "%d.0m", 5: "%d.0MEG"}[unit] % v


def expr(unit):
    return "{2*p1}" if unit == 1 else "{2*p1*%g}" % UNITS[unit]


NODES = ["in 0", "in out", "out 0", "a out", "a b", "b 0", "in a"]


def netlist(cfg):
    out = ["* circuit"]
    for i, c in enumerate(cfg["comps"]):
        out.append("%s %s %s" % (c["ref"], NODES[i], text(c["val"], c["u"], c["s"]) if c["val"] else expr(c["u"])))
        if i == 1:
            out += ["D1 out 0 DA", "X1 in out SUBA"]
    out += [".subckt SUBA 1 2", "R1 1 2 777", "C1 1 2 1n", ".param p1=5", ".ends", ".model DA D(Is=1n)"]
    out += [".param " + " ".join("%s=%s" % (p["n"], text(p["val"], 1, 1 + i)) for i, p in enumerate(cfg["pars"]))] if cfg["x"] else \
        [".param %s=%s" % (p["n"], text(p["val"], 1, 1)) for p in cfg["pars"]]
    out += [".tran 1m", ".options opt0=1"]
    if cfg["builtin"]:
        out.append(".meas tran m1 FIND V(out) AT 1m")
    return "\n".join(out + [".backanno", ".end", ""])


def scenario(sc, d):
    cfg = sc["meta"]
    base = os.path.join(d, "x.net")
    with open(base, "w") as f:
        f.write(netlist(cfg))
    rest = Circuit(base).rest
    cls = cfg["cls"]
    sim = Qspice if cls == "mc" and not any(o["op"] in ("bench", "analysis") for o in sc["ops"]) else LTspice
    runner = SimRunner(simulator=sim, parallel_sims=8, output_folder=os.path.join(d, "out"))
    made = {"wc": WorstCaseAnalysis, "fwc": FastWorstCaseAnalysis, "qs": QuickSensitivityAnalysis, "mc": Montecarlo}[cls]
    an = made(SpiceEditor(base) if len(cfg["comps"]) % 2 else base, runner)
    unit = {c["ref"]: c["u"] for c in cfg["comps"]}
    st = LTspice.state = {"cfg": cfg, "rest": rest, "fail": 0, "miss": 0, "mc": cls == "mc", "fwc": cls == "fwc", "records": {}, "lock": threading.Lock(),
                          "limit": 700, "first": None, "base": 0}
    ev = []
    count = 0

    def cb(raw, log):
        return int(Path(raw).read_text())

    def results(m):
        return round(m) if m == m and abs(m) < 1e9 and abs(m - round(m)) < 1e-6 else "nan" if m != m else BAD

    for op in sc["ops"]:
        e = dict(op)
        n = op.get("n")
        u = UNITS[unit.get(n, 1)]
        r = {"k": "ok"}
        st.update(fail=0, miss=0, base=count, records={})
        try:
            k = op["op"]
            if k == "settol":
                a = (n, op["t"] / 100) if op["dist"] == "uniform" and op["t"] % 20 else (n, op["t"] / 100, op["dist"])
                if op["many"]:
                    an.set_tolerances({n: a[1]}, *a[2:])
                else:
                    an.set_tolerance(*a)
            elif k in ("setdev", "setpar"):
                (an.set_deviation if k == "setdev" else an.set_parameter_deviation)(n, op["lo"] * u, op["hi"] * u, op["dist"])
            elif k == "resettol":
                an.reset_tolerances()
            elif k in ("setval", "setparam"):
                v = op["v"]
                x = expr(unit[n]) if v == 0 else v * u if op["s"] == 1 else text(v, unit.get(n, 1), op["s"])
                (an.set_component_value if k == "setval" else an.set_parameter)(n, x)
            elif k == "addins":
                an.add_instruction(".options opt%d=1" % op["i"])
            elif k == "remins":
                if op["i"] == 3:
                    an.remove_Xinstruction(r"\.options opt3")
                else:
                    an.remove_instruction(".options opt%d=1" % op["i"])
            elif k == "meas":
                an.configure_measurement("m1", "FIND V(out) AT 1m")
            elif k == "reset":
                an.reset_netlist()
            elif k == "prep":
                an.prepare_testbench(**({"num_runs": n} if cls == "mc" else {"use_min": op["min"]} if cls == "qs" else {}))
            elif k == "save":
                f = os.path.join(d, "saved.net")
                an.save_netlist(f)
                ce = Eval(cfg, f)
                runs = ce.c.runs()
                r = {"k": "bench", "info": ce.info(rest), "runs": [
                    {"run": i, "vals": ce.ints(i), **({"draws": [ce.ints(i, q) for q in DRAWS]} if cls == "mc" else {})} for i in runs if i is not None][:140]}
                os.remove(f)
            elif k == "bench":
                st.update(fail=op["fail"])
                out = an.run_testbench(runs_per_sim=op["rps"], **({"callback": cb} if op["cb"] else {}))
                out = list(out) if out is not None else []
                recs = [st["records"][i] for i in sorted(st["records"])]
                count = runner.runno
                r = {"k": "sims", "sims": [x["runs"] for x in recs], "info": [x["info"] for x in recs], "cb": [BAD if x is None else x for x in out]}
                if cls == "mc":   # the random functions, where they were evaluated
                    for x in r["sims"]:
                        for y in x:
                            if y["draws"] is None:
                                del y["draws"]
            elif k == "nobench":
                an.run_testbench()
            elif k == "analysis":
                st.update(fail=op["fail"], miss=op["miss"])
                kw = {"callback": cb} if op["cb"] else {}
                if cls == "mc":
                    kw["num_runs"] = n
                if cls == "fwc":
                    kw["measure"] = "m1"
                out = an.run_analysis(**kw)
                recs = [st["records"][i] for i in sorted(st["records"])]
                count = runner.runno
                r = {"k": "sims", "sims": [x["runs"] for x in recs], "info": [x["info"] for x in recs],
                     "cb": [BAD if x is None else x for x in (an.simulation_results.get("callback_returns", []) if op["cb"] and cls != "fwc" else [])]}
                if cls == "fwc":
                    nom, lo, at_hi, hi, at_lo = out
                    c = lambda q: {a: Eval.whole(b / UNITS[unit.get(a, 1)]) for a, b in q.items()}  # noqa: E731
                    num = lambda q: float(q)  # noqa: E731
                    r["found"] = {"nom": results(nom), "min": results(lo), "max": results(hi), "atmax": c(at_hi), "atmin": c(at_lo)}
            elif k == "value":
                r = {"k": "num", "v": results(an.read_logfiles().get_measure_value("m1", run=op["k"]))}
            elif k == "minmax":
                v = an.get_min_max_measure_value("m1")
                r = {"k": "none"} if v is None else {"k": "seq", "v": [results(x) for x in v]}
            elif k == "all":
                r = {"k": "seq", "v": [-77777 if x != x else results(x) for x in an.analyse_measurement("m1")]}
            elif k == "sens":
                v = an.make_sensitivity_analysis("m1", n) if cls == "wc" else an.get_sensitivity_data(n, "m1")
                pair = lambda q: [round(q[0] * 10), round(q[1] * 10)] if cls == "wc" else [round(q * 10), 0]  # noqa: E731
                if v is None:
                    r = {"k": "none"}
                else:
                    r = {"k": "share", "v": {a: pair(b) for a, b in v.items()} if n == "*" else {n: pair(v)}}
            else:
                raise AssertionError(k)
        except Exception as x:   # noqa: BLE001
            count = runner.runno
            r = {"k": "err", "e": type(x).__name__, "m": str(x)[:200], "at": traceback.format_exc()[-300:]}
        if r.get("v") == "nan":
            r = {"k": "nan"}
        e["r"] = r
        ev.append(e)
    return {"cfg": cfg, "ev": ev}


class Quiet:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def one(sc):
    d = tempfile.mkdtemp(prefix="tol")
    cwd, out = os.getcwd(), sys.stdout
    try:
        os.chdir(d)
        sys.stdout = Quiet()
        return scenario(sc, d)
    except Exception:   # noqa: BLE001
        return {"error": traceback.format_exc()}
    finally:
        sys.stdout = out
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def main():
    scs = json.load(open(sys.argv[1]))
    json.dump([one(s) for s in scs], open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
