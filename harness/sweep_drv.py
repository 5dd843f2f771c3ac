"""Runs sweep scenarios: the sweep iterators, and SimStepper on a real SimRunner with a stand-in simulator."""
import csv
import json
import math
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

_sleep = time.sleep
time.sleep = lambda s: _sleep(min(s, 0.002))   # polling loops of the code under test only
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from fractions import Fraction  # noqa: E402
from spicelib import SpiceEditor, SimRunner  # noqa: E402
from spicelib.sim.simulator import Simulator  # noqa: E402
from spicelib.sim.sim_stepping import SimStepper  # noqa: E402
from spicelib.utils.sweep_iterators import sweep, sweep_n, sweep_log, sweep_log_n  # noqa: E402

BAD = -99999
RATIOS = [Fraction(2), Fraction(3), Fraction(10), Fraction(3, 2), Fraction(11, 10), Fraction(5, 4), Fraction(6, 5)]
STARTS = [Fraction(1), Fraction(1, 10), Fraction(1000), Fraction(3), Fraction(7, 1000), Fraction(22, 10), Fraction(10**6), Fraction(1, 10**9)]


def num(q):
    q = Fraction(q)
    return int(q) if q.denominator == 1 else float(q)


class Points:
    """One sweep object; `at` turns its values into positions of the specification."""
    def __init__(self, o):
        self.o = o
        k = o["k"]
        if k == "lin":
            f = lambda x: num(Fraction(x, o["d"]))  # noqa: E731
            self.obj = sweep(f(o["b"])) if o["one"] else sweep(f(o["a"]), f(o["b"]), f(o["c"]))
            if not o["one"] and o["c"] == o["d"] and o["a"] % 2:
                self.obj = sweep(f(o["a"]), stop=f(o["b"]))
            self.unit, self.exact = Fraction(1, o["d"]), o["d"] == 1
        elif k == "num":
            self.obj = sweep_n(num(Fraction(o["a"], o["d"])), num(Fraction(o["b"], o["d"])), o["n"])
            self.unit, self.exact = Fraction(1, o["d"] * max(1, o["n"] - 1)), False
        elif k == "log":
            self.r = RATIOS[o["r"] - 1]
            self.start = Fraction(1) if o["one"] else STARTS[o["s"] - 1]
            x = self.r ** o["m"]
            stop = self.start * (x if o["up"] else 1 / x)
            stop = num(stop) if o["h"] == 0 else float(stop) * math.sqrt(self.r) ** (1 if o["up"] else -1)
            r = num(1 / self.r if o["inv"] else self.r)
            self.obj = sweep_log(stop, step=r) if o["one"] else sweep_log(num(self.start), stop, r)
        else:
            a, b = STARTS[o["a"] - 1 if o["a"] < 9 else 3], STARTS[o["b"] - 1 if o["b"] < 9 else 3]
            if o["a"] == 9:
                a = Fraction(10)
            if o["b"] == 9:
                b = Fraction(10)
            self.a, self.b = a, b
            self.obj = sweep_log_n(num(a), num(b), o["n"])

    def at(self, v):
        o = self.o
        try:
            if o["k"] in ("lin", "num"):
                q = Fraction(v) / self.unit
                p = round(q)
                return p if abs(q - p) * self.unit <= (0 if self.exact else 1e-9 * max(1, abs(v))) else BAD
            if o["k"] == "log":
                x = 2 * (math.log(v) - math.log(self.start)) / math.log(self.r)
            else:
                if self.a == self.b:
                    return 0 if abs(v / float(self.a) - 1) < 1e-9 else BAD
                x = 0 if o["n"] == 1 else (o["n"] - 1) * (math.log(v) - math.log(self.a)) / (math.log(self.b) - math.log(self.a))
                if o["n"] == 1 and abs(v / float(self.a) - 1) > 1e-9:
                    return BAD
            return round(x) if abs(x - round(x)) < 1e-6 else BAD
        except (TypeError, ValueError, OverflowError):
            return BAD


LIMIT = 400   # an iteration that does not end


def take(it, n=LIMIT):
    out = []
    for v in it:
        out.append(v)
        if len(out) >= n:
            break
    return out


def iterate(sc):
    objs, its, ev = [], [], []
    for o in sc["meta"]["objs"]:
        try:
            objs.append(Points(o))
            ev.append({"op": "new", "r": {"k": "seq", "v": []}})
        except Exception as x:   # noqa: BLE001
            objs.append(None)
            ev.append({"op": "new", "o": o, "r": {"k": "err", "e": type(x).__name__, "m": str(x)[:200]}})
    for op in sc["ops"]:
        e = dict(op)
        try:
            if op["op"] == "list":
                p = objs[op["o"] - 1]
                if op["how"] == "list":
                    v = take(p.obj)
                elif op["how"] == "tuple":
                    v = tuple(take(p.obj))
                elif op["how"] == "star":
                    v = [*(x for x in take(p.obj))]
                else:
                    v = [x for x, _ in zip(p.obj, range(LIMIT))]
                v = [p.at(x) for x in v]
            elif op["op"] == "open":
                its.append((objs[op["o"] - 1], iter(objs[op["o"] - 1].obj)))
                v = []
            elif op["op"] == "next":
                p, it = its[op["i"] - 1]
                v = []
                for _ in range(op["n"]):
                    try:
                        v.append(p.at(next(it)))
                    except StopIteration:
                        break
            else:
                p, q = objs[op["o"] - 1], objs[op["p"] - 1]
                v = []
                for x in p.obj:
                    for y in q.obj:
                        v.append([p.at(x), q.at(y)])
                        if len(v) > LIMIT:
                            break
                    if len(v) > LIMIT:
                        break
            e["r"] = {"k": "seq", "v": v}
        except Exception as x:   # noqa: BLE001
            e["r"] = {"k": "err", "e": type(x).__name__, "m": str(x)[:200]}
        ev.append(e)
    return {"ev": ev, "objs": sc["meta"]["objs"], "init": {"R1": 0}}


# ---------------------------------------------------------------- stepped simulations
NET = """* circuit
V1 in 0 12
R1 in a 4700
R2 a out 5600
C1 out 0 33n
D1 out 0 DA
D2 a 0 DB
X1 a out 0 SUBA
X2 in out 0 SUBB
.subckt SUBA 1 2 3
R3 1 2 910
.ends
.subckt SUBB 1 2 3
R3 1 2 820
C3 2 3 1p
.ends
.subckt SUBC 1 2 3
R3 1 2 7
.ends
.model DA D(Is=1n)
.model DB D(Is=2n)
.param p=68 q_2=91
.tran 1m
.backanno
.end
"""
VALS = {1: 1500, 2: "2k2", 3: "{p*2}", 4: 0.25, 5: 1e-7, 6: "47n", 7: 33.5, 8: "1Meg"}
MODELS = {50: "DA", 51: "MODX", 52: "SUBC", 53: "AD820_ALT"}
SUFFIX = {"k": 1e3, "n": 1e-9, "meg": 1e6, "u": 1e-6, "p": 1e-12, "m": 1e-3, "g": 1e9, "f": 1e-15, "µ": 1e-6}


def number(t):
    m = re.fullmatch(r"([-+]?\d*\.?\d+(?:e[-+]?\d+)?)(meg|[kmunpgfµ])?(\d*)", t.strip().lower())
    if not m:
        return None
    if m[3]:
        return float(m[1] + "." + m[3]) * SUFFIX[m[2]]
    return float(m[1]) * SUFFIX.get(m[2], 1)


def code(t):
    """the number of the specification for a value in a circuit or in a record"""
    if t is None:
        return 0
    s = str(t).strip()
    for k, v in list(MODELS.items()):
        if s == v:
            return k
    for k, v in VALS.items():
        if s.replace(" ", "").lower() == str(v).lower():
            return k
    x = number(s)
    if x is None:
        return {"SUBA": 60, "SUBB": 61, "DB": 62}.get(s, BAD)
    for k, v in VALS.items():
        y = number(str(v))
        if y is not None and math.isclose(x, y, rel_tol=1e-9):
            return k
    for k, y in ((70, 12), (71, 4700), (72, 5600), (73, 33e-9), (74, 68), (75, 91), (76, 820)):
        if math.isclose(x, y, rel_tol=1e-9):
            return k
    k = 100 + 2 * x
    return round(k) if abs(k - round(k)) < 1e-6 else BAD


def value(k):
    return VALS.get(k) or MODELS.get(k) or (k - 100) / 2


def circuit(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        text = f.read()
    lines = re.sub(r"\n\+", " ", text).splitlines()
    top, sub, cur = {}, {}, None
    par = {}
    for ln in lines[1:]:
        w = ln.split()
        if not w:
            continue
        lo = w[0].lower()
        if lo == ".subckt":
            cur = sub.setdefault(w[1].upper(), {})
        elif lo == ".ends":
            cur = None
        elif lo == ".param" and cur is None:
            for m in re.finditer(r"(\w+)\s*=\s*(\{[^}]*\}|\S+)", ln[6:]):
                par[m[1].lower()] = m[2]
        elif lo[0] in "rcvdx":
            (top if cur is None else cur)[w[0].upper()] = w[-1]
    x2 = sub.get(top.get("X2", "").upper(), {})
    out = {n: code(par.get(n)) for n in ("p", "temp", "q_2")}
    out.update({n: code(top.get(n)) for n in ("R1", "R2", "C1", "V1", "D1", "D2", "X1")})
    out["X2:R3"] = code(x2.get("R3"))
    return out


class Stub(Simulator):
    bad = 0

    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        from pathlib import Path
        p = Path(netlist_file)
        if cls.bad and circuit(p)["R1"] == cls.bad:
            return 1
        for x in (".raw", ".log"):
            p.with_suffix(x).write_text("x" * 10)
        return 0

    @classmethod
    def valid_switch(cls, switch, switch_param):
        return []

    @classmethod
    def is_available(cls):
        return True


class Runner(SimRunner):
    left = 100

    def run(self, *a, **k):
        self.left -= 1
        if self.left < 0:
            raise RuntimeError("the sweep does not end")
        return super().run(*a, **k)


def iterable(form, vals, last):
    if form == "again":
        return last
    if form == "tuple":
        return tuple(vals)
    if form == "gen":
        return (v for v in vals)
    if form == "dict":
        return list(vals) if len(set(vals)) < len(vals) else {v: 1 for v in vals}.keys()
    if form == "map":
        return map(lambda x: x, vals)
    if form == "sweep":
        return sweep(vals[0], vals[-1], 0.5)
    if form == "sweepn":
        return sweep_n(vals[0], vals[-1], len(vals))
    return list(vals)


def stepping(sc, d):
    base = os.path.join(d, "x.net")
    with open(base, "w") as f:
        f.write(NET)
    out = os.path.join(d, "out")
    runner = Runner(simulator=Stub, parallel_sims=500, output_folder=out)
    st = SimStepper(SpiceEditor(base), runner)
    ev, last, seen = [], None, 0
    for op in sc["ops"]:
        e = dict(op)
        v = []
        try:
            if op["op"] == "set":
                k, n, val = op["kind"], op["e"], value(op["v"])
                if k == "param":
                    st.set_parameters(**{n: val}) if op["many"] else st.set_parameter(n, val)
                elif k == "component":
                    st.set_component_values(**{n: val}) if op["many"] else st.set_component_value(n, val)
                else:
                    st.set_element_model(n, val)
            elif op["op"] == "dim":
                vals = [value(x) for x in op["vals"]]
                it = iterable(op["form"], vals, last)
                last = it if op["form"] not in ("gen", "map") else vals
                {"param": st.add_param_sweep, "component": st.add_value_sweep, "model": st.add_model_sweep}[op["kind"]](op["e"], it)
            elif op["op"] == "bad":
                (st.add_value_sweep if op["kind"] == "component" else st.add_model_sweep)(op["e"], [1, 2])
            elif op["op"] == "total":
                v = [st.total_number_of_simulations()]
            elif op["op"] == "run":
                names, called, files = [], [], []
                Stub.bad, runner.left = op["bad"], 100

                def namer(**kw):
                    names.append({k: code(x) for k, x in kw.items()})
                    files.append("my_%d_%d.net" % (seen, len(files)))
                    return files[-1]

                def cb(raw, log):
                    called.append(os.path.basename(str(raw)).rsplit(".", 1)[0])
                kw = {"filenamer": namer} if op["named"] else {}
                if op["cb"]:
                    kw["callback"] = cb
                st.run_all(wait_completion=op["wait"], **kw)
                if not op["wait"]:
                    runner.wait_completion()
                info = sorted(st.sim_info.items())[seen:]
                fs = [i["netlist"] for _, i in info]
                e["r"] = {"k": "runs", "circuits": [circuit(os.path.join(out, f)) for f in fs], "names": names,
                          "files": files == fs, "runno": st.runno, "ok": st.okSim, "fail": st.failSim,
                          "called": [[f.rsplit(".", 1)[0] for f in fs].index(c) + 1 for c in called]}
                seen = len(st.sim_info)
                ev.append(e)
                continue
            elif op["op"] == "info":
                v = [{k: code(x) for k, x in i.items() if k != "netlist"} for _, i in sorted(st.sim_info.items())]
            else:
                f = os.path.join(d, "e.csv")
                dl = ";" if len(ev) % 2 else ","
                st.export_step_info(f, delimiter=dl) if dl == "," else st.export_step_info(f)
                with open(f, newline="") as fh:
                    rows = list(csv.reader(fh, delimiter=dl, quotechar='"'))
                cols = [c for c in rows[0] if c not in ("runno", "netlist")]
                v = [{c: code(x) for c, x in zip(rows[0], r) if c in cols and x != ""} for r in rows[1:]]
                names = {str(n): i["netlist"] for n, i in st.sim_info.items()}
                same = all(dict(zip(rows[0], r))["netlist"] == names.get(dict(zip(rows[0], r))["runno"]) for r in rows[1:])
                e["r"] = {"k": "table" if same else "other", "cols": cols, "v": v,
                          "runnos": [int(dict(zip(rows[0], r))["runno"]) for r in rows[1:]]}
                ev.append(e)
                continue
            e["r"] = {"k": "seq", "v": v}
        except Exception as x:   # noqa: BLE001
            e["r"] = {"k": "err", "e": type(x).__name__, "m": str(x)[:200]}
        ev.append(e)
    return {"ev": ev, "objs": [], "init": circuit(base)}


def one(sc):
    d = tempfile.mkdtemp(prefix="swp")
    cwd = os.getcwd()
    try:
        return iterate(sc) if "objs" in sc["meta"] else stepping(sc, d)
    except Exception:   # noqa: BLE001
        return {"error": traceback.format_exc()}
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def main():
    scs = json.load(open(sys.argv[1]))
    json.dump([one(s) for s in scs], open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
