"""Runs log scenarios: writes the log files of the scenario and asks the real readers."""
import cmath
import json
import math
import os
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from spicelib.log.ltsteps import LTSpiceLogReader  # noqa: E402
from spicelib.log.qspice_log_reader import QspiceLogReader  # noqa: E402

UNITS = [1.0, 1e3, 1e-3, 1e6]
BAD = [-99999, 0]


def case(s, k):
    return [s, s.upper(), s.capitalize()][k % 3]


class World:
    def __init__(self, f):
        self.f = f
        self.unit, self.form, self.vunit = {}, {}, {}
        j = 0
        for c, m in enumerate(f["meas"]):
            for i in range(m["w"]):
                col = f["cols"][j]
                self.form[col["name"]] = col["form"]
                self.unit[col["name"]] = 0.125 * (UNITS[(f["unit"] + c + i) % 4] if col["form"] == "real" else 1)
                j += 1
        for k, v in enumerate(f["vars"]):
            self.unit[v["name"]] = [1, 0.125, 1000][(f["how"] + k) % 3]
            self.form[v["name"]] = "real"

    def number(self, name, x, k=0):
        """the number as the simulator prints it"""
        y = x * self.unit[name]
        s = "%.6g" % y
        if "e" in s and (self.f["how"] + k) % 2:     # the older simulators print three digits
            m, e = s.split("e")
            s = "%se%s%03d" % (m, e[0], int(e[1:]))
        elif (self.f["how"] + k) % 5 == 4 and y != 0:
            s = "%.5e" % y
        return s

    def text(self, name, v, k=0):
        form = self.form[name]
        if form == "real":
            return self.number(name, v[0], k)
        return {"cart": "(%s,%s)", "polar": "(%s,%s\u00b0)", "db": "(%sdB,%s\u00b0)"}[form] % (self.number(name, v[0], k), self.number(name, v[1], k))

    def near(self, x, unit):
        q = x / unit
        r = round(q)
        return r if abs(q - r) < 1e-4 * max(1, abs(q)) and abs(q - r) < 0.2 else None

    def dec(self, name, x):
        """a value given by the reader -> a value of the specification"""
        if x is None or (isinstance(x, float) and math.isnan(x)) or (isinstance(x, str) and x.strip().lower() in ("", "nan", "none")):
            return []
        if isinstance(x, complex) and self.form[name] == "real" and x.imag == 0:
            x = x.real
        if self.form[name] == "real":
            if isinstance(x, (str, complex, list)):
                return BAD
            r = self.near(float(x), self.unit[name])
            return BAD if r is None else [r, 0]
        if not isinstance(x, complex):
            return BAD
        if self.form[name] == "cart":
            p = (x.real, x.imag)
        elif hasattr(x, "mag"):
            p = (x.mag if self.form[name] == "polar" else x.mag_db(), x.ph)
            q = (abs(x), math.degrees(x.ph_rad()))
            if abs(q[1] - p[1]) > 1e-6 or abs(x.mag - q[0]) > 1e-6 * q[0]:
                return BAD
        else:
            p = (abs(x) if self.form[name] == "polar" else 20 * math.log10(abs(x)), math.degrees(cmath.phase(x)))
        r = [self.near(y, 0.125) for y in p]
        return BAD if None in r else r

    def num(self, s):
        return float(s) if s.strip().lower() not in ("", "none") else float("nan")

    # ------------------------------------------------------------------ files
    def noise(self):
        a = ["Circuit: * C:\\sim\\x.asc", "", ".OP point found by inspection."]
        if self.f["head"] == 1:
            a = ["LTspice 24.1.9 for Windows", "Circuit: C:\\sim\\x.net", "Start Time: Sun Mar  8 21:28:04 2026",
                 "Options: plotwinsize=0 numdgt=15 measdgt=15" + ("  logopinfo" if self.f["how"] % 2 else ""),
                 "solver = Normal", "tnom = 27", "temp = 27"]
        elif self.f["head"] == 2:
            a = ["Circuit: * C:\\sim\\x.asc", "", "Direct Newton iteration failed to find .op point.  (Use \".option noopiter\" to skip.)",
                 "Starting Gmin stepping", "Gmin = 10", "vernier = 0.5", "Gmin = 0", "Gmin stepping succeeded in finding the operating point."]
        elif self.f["head"] == 3:
            a = ["      --- Expanded Netlist ---", "* c:\\sim\\x.asc", "v1 in 0 5", "r1 in out 1k", ".tran 1m", ".end", "", "Circuit: * C:\\sim\\x.asc"]
        b = ["", "Date: Sat Sep 30 11:00:38 2023", "Total elapsed time: 0.115 seconds.", "", "tnom = 27", "method = modified trap",
             "totiter = 2162", "Avg thread counts: 3.7/6.4/6.4/3.7", "Matrix Compiler1:       3 opcodes  0.1/[0.1]/0.2", ""]
        return a, b

    def measures(self):
        j = 0
        for c, m in enumerate(self.f["meas"]):
            yield c, m, self.f["cols"][j:j + m["w"]]
            j += m["w"]

    def tables(self):
        out, f = [], self.f
        for c, m, cols in self.measures():
            out += ["", "Measurement: " + case(m["name"], f["how"] + c)]
            head = "  step\tv(out%d)" % c
            if m["kind"] == "at":
                head += "\tat"
            elif m["kind"] == "ft":
                head += "\tFROM\tTO"
            out.append(head)
            for s in range(f["n"]):
                if cols[0]["vals"][s]:
                    out.append("     %d\t" % (s + 1) + "\t".join(self.text(x["name"], x["vals"][s], s) for x in cols))
        return out

    def steps(self):
        f = self.f
        return [".step " + " ".join("%s=%s" % (case(v["name"], f["how"]), self.number(v["name"], v["vals"][s], s)) for v in f["vars"])
                for s in range(f["n"])]

    def write(self, d):
        f = self.f
        a, b = self.noise()
        self.log = os.path.join(d, "x.log")
        if f["dia"] == "qspice":
            lines = ["C:\\sim\\x.net", ""]
            for s in range(f["n"]):
                lines.append("%d of %d steps:  .step %s" % (s + 1, f["n"], " ".join(
                    "%s=%s" % (v["name"], self.number(v["name"], v["vals"][s], s)) for v in f["vars"])))
            lines += ["", "Total elapsed time: 0.0031084 seconds."]
            meas = []
            for c, m, cols in self.measures():
                nm = case(m["name"], f["how"] + c)
                meas.append([".meas tran %s rms v(in):", ".meas %s find v(out) at 1m:", ".meas ac %s param a/b:", ".meas op %s v(out):",
                              ".meas dc %s max v(out):"][(f["how"] + c) % 5] % nm)
                for s in range(max(f["n"], 1)):
                    if cols[0]["vals"][s]:
                        meas.append(("%4d" % s if f["n"] else "") + "".join(" %11s" % self.text(x["name"], x["vals"][s], s) for x in cols))
            self.put(self.log, lines)
            self.meas = os.path.join(d, "x.meas")
            self.put(self.meas, meas)
            return
        if f["n"] == 0:
            body = [""]
            for c, m, cols in self.measures():
                nm = case(m["name"], f["how"] + c)
                t = [self.text(x["name"], x["vals"][0], c) for x in cols]
                expr = ["RMS(v(out))", "v(out)/v(in)", "v(out)"][c % 3]
                if m["kind"] == "ft":
                    body.append("%s: %s=%s FROM %s TO %s" % (nm, expr, t[0], t[1], t[2]))
                elif m["kind"] == "at":
                    body.append("%s: %s=%s %s %s" % (nm, expr, t[0], "AT" if f["how"] % 3 == 1 else "at", t[1]))
                elif f["how"] % 4 == 3:
                    body.append("%s=%s" % (nm, t[0]))
                else:
                    body.append("%s: %s=%s" % (nm, expr, t[0]))
                if f["how"] == 5 and c == 0:
                    body.append("Measurement \"x9\" FAIL'ed")
            self.put(self.log, a + body + b)
        elif f["dia"] == "mout":
            self.put(self.log, a + self.steps() + b)
            self.mout = os.path.join(d, "x.mout")
            self.put(self.mout, self.tables()[1:] + [""])
        else:
            self.put(self.log, a + self.steps() + [""] + self.tables() + b)

    def put(self, path, lines):
        with open(path, "wb") as fh:
            fh.write((("\r\n" if self.f["crlf"] else "\n").join(lines) + "\n").encode(self.f["enc"]))

    def read(self):
        f = self.f
        if f["dia"] == "qspice":
            r = QspiceLogReader(self.log, read_measures=False)
            r.parse_meas_file(self.meas)
            return r
        if f["dia"] == "mout":
            steps = LTSpiceLogReader(self.log, read_measures=False)
            return LTSpiceLogReader(self.mout, step_set=steps.stepset)
        return LTSpiceLogReader(self.log)

    # ------------------------------------------------------------------ questions
    def name(self, c):
        n = len(self.f["cols"])
        return self.f["cols"][c - 1]["name"] if c <= n else self.f["vars"][c - 1 - n]["name"]

    def do(self, o, ix):
        op, r, f = o["op"], self.r, self.f
        skip = {"step"} if f["dia"] == "qspice" else set()
        if op == "names":
            return {"k": "names", "v": [x for x in r.get_measure_names() if x not in skip], "n": 0}
        if op == "steps":
            ok = r.has_steps() == (f["n"] > 0)
            return {"k": "names", "v": r.get_step_vars(), "n": r.step_count if ok else -1}
        if op == "unknown":
            x = ["nosuch", "gain9", "", "vout", "step0"][o["k"]]
            if ix % 4 == 0:
                v = r[x]
            elif ix % 4 == 1:
                v = r.get_measure_value(x, 0)
            elif ix % 4 == 2:
                v = r.steps_with_parameter_equal_to(x, 1)
            else:
                v = r.steps_with_conditions(**{x or "none": 1})
            return {"k": "seq", "v": [BAD], "why": repr(v)}
        if op in ("cond", "vcond"):
            kw = {}
            for k in o["cs"]:
                n = self.name(k["c"])
                v = k["v"] * self.unit[n]
                t = self.number(n, k["v"], ix)
                kw[case(n, ix)] = t if ix % 3 else (int(v) if v == int(v) and ix % 2 else float(t))
            if op == "cond":
                if len(kw) == 1 and ix % 2:
                    n, v = list(kw.items())[0]
                    return {"k": "steps", "v": list(r.steps_with_parameter_equal_to(n, v))}
                return {"k": "steps", "v": list(r.steps_with_conditions(**kw))}
            n = self.name(o["c"])
            return {"k": "seq", "v": [self.dec(n, r.get_measure_value(case(n, ix), **kw))]}
        if op == "split":
            if ix % 2:
                r.obtain_amplitude_and_phase_from_complex_values()
            else:
                r.split_complex_values_on_datasets()
            return {"k": "seq", "v": []}
        if op == "export":
            sep = {"tab": "\t", "semi": ";", "bar": "|"}[o["sep"]]
            term = {"lf": "\n", "crlf": "\r\n"}[o["term"]]
            kw = {}
            enc = getattr(r, "encoding", "utf-8")
            if o["x"] == 2:
                kw["encoding"] = enc = "utf-8"
            if o["p"]:
                kw["append_with_line_prefix"] = "run%d" % o["p"]
            if sep != "\t":
                kw["value_separator"] = sep
            path = os.path.join(self.d, "out%d.tsv" % o["x"])
            if term != "\n":
                kw["line_terminator"] = term
            r.export_data(path, **kw)
            self.style.setdefault(o["x"], [])
            if not o["p"]:
                self.style[o["x"]] = []
            self.style[o["x"]].append((sep, term))
            return {"k": "tables", "t": self.parse(path, enc, self.style[o["x"]])}
        if op == "script":
            from spicelib.scripts import ltsteps
            d = tempfile.mkdtemp(dir=self.d)
            for x in ("x.log", "x.mout"):
                p = os.path.join(self.d, x)
                if os.path.exists(p):
                    shutil.copy(p, d)
            main = "x.mout" if f["dia"] == "mout" else "x.log"
            argv, cwd, so = sys.argv, os.getcwd(), sys.stdout
            try:
                sys.stdout = open(os.devnull, "w")
                if ix % 2:
                    os.chdir(d)
                    sys.argv = ["ltsteps", main]
                else:
                    sys.argv = ["ltsteps", os.path.join(d, main)]
                ltsteps.main()
            finally:
                sys.stdout.close()
                sys.argv, sys.stdout = argv, so
                os.chdir(cwd)
            new = [x for x in os.listdir(d) if x not in ("x.log", "x.mout")]
            if len(new) != 1:
                return {"k": "tables", "t": [], "why": repr(new)}
            enc = LTSpiceLogReader(os.path.join(d, main)).encoding
            return {"k": "tables", "t": self.parse(os.path.join(d, new[0]), enc, [("\t", "\n")])}
        n = self.name(o["c"])
        ask = case(n, ix)
        if op == "col":
            v = r[ask] if o["c"] > len(f["cols"]) or ix % 2 else r.get_measure_values_at_steps(ask, None)
            return {"k": "seq", "v": [self.dec(n, x) for x in v]}
        if op == "value":
            s = o["s"]
            v = r.get_measure_value(ask) if s == -1 else r.get_measure_value(ask, s) if ix % 2 else r.get_measure_value(ask, step=s)
            return {"k": "seq", "v": [self.dec(n, v)]}
        if op == "at":
            ss = None if o["all"] else o["ss"]
            if ss and len(ss) == 1 and ix % 2:
                return {"k": "seq", "v": [self.dec(n, r.get_measure_values_at_steps(ask, ss[0]))]}
            return {"k": "seq", "v": [self.dec(n, x) for x in r.get_measure_values_at_steps(ask, ss)]}
        if op == "stat":
            ss = None if o["all"] else o["ss"][0] if len(o["ss"]) == 1 and ix % 2 else o["ss"]
            if any(x == [] for i, x in enumerate(f["cols"][o["c"] - 1]["vals"]) if o["all"] or i in o["ss"]):
                return {"k": "seq", "v": []}
            x = {"max": r.max_measure_value, "min": r.min_measure_value, "avg": r.avg_measure_value}[o["w"]](ask, ss)
            k = len(o["ss"])
            return {"k": "seq", "v": [[(self.dec(n, x * k) or BAD)[0], k] if o["w"] == "avg" else self.dec(n, x)]}
        raise RuntimeError(op)

    def parse(self, path, enc, styles):
        """the tables of an exported file, column by column"""
        with open(path, "rb") as fh:
            text = fh.read().decode(enc)
        tables, k = [], -1
        while text:
            head = text.lstrip("\r\n")
            if k + 1 < len(styles) and (k < 0 or head.startswith(("user info", "step"))):
                k += 1
            sep, term = styles[k]
            if term not in text:
                return []
            line, text = text.split(term, 1)
            cells = line.split(sep)
            if cells[0] in ("user info", "step"):
                tables.append([cells])
            elif not tables:
                return []
            else:
                tables[-1].append(cells)
        return [self.columns(t) for t in tables]

    def columns(self, t):
        head, rows = t[0], t[1:]
        if any(len(x) != len(head) for x in rows):
            return []
        raw = {}
        for j, n in enumerate(head):
            raw.setdefault(n, []).append([x[j] for x in rows])
        out = []
        for n, several in raw.items():
            for cells in several:
                out.append({"name": n, "vals": [self.cell(n, c, raw, i) for i, c in enumerate(cells)]})
        if self.f["dia"] == "qspice":   # the column "step" of the measurement file appears too
            extra = [c for c in out if c["name"] == "step"]
            if self.f["n"] and len(extra) == 2:
                out.remove(extra[1])
        return out

    def cell(self, n, c, raw, i):
        try:
            if n == "step":
                return [int(c), 0]
            if n == "user info":
                return [int(c[3:]), 0] if c.startswith("run") else BAD
            for suffix, k in (("_mag", 0), ("_ph", 1)):
                base = n[:-len(suffix)]
                if n.endswith(suffix) and n not in self.form and base in self.form:
                    if c.strip().lower() in ("", "nan", "none"):
                        return []
                    m, p = self.num(raw[base + "_mag"][0][i]), self.num(raw[base + "_ph"][0][i])
                    v = self.dec(base, complex(cmath.rect(m, math.radians(p))))
                    return [v[k], 0] if v else []
            if c.strip().lower() in ("", "nan", "none"):
                return []
            if self.form.get(n) == "real":
                return self.dec(n, float(c))
            z = c.strip().strip("()").split(",")
            if not (c.strip().startswith("(") and c.strip().endswith(")")) or len(z) != 2:
                return BAD
            deg, db = z[1].endswith("\u00b0"), z[0].endswith("dB")
            a, b = float(z[0].replace("dB", "")), float(z[1].rstrip("\u00b0"))
            return self.dec(n, complex(a, b) if not deg else cmath.rect(10 ** (a / 20) if db else a, math.radians(b)))
        except (ValueError, KeyError, IndexError):
            return BAD


def run(sc):
    w = World(sc["meta"])
    w.d = tempfile.mkdtemp(prefix="log_")
    w.style = {}
    ev, fail = [], None
    try:
        w.write(w.d)
        try:
            w.r = w.read()
        except Exception as e:
            fail = e
        for i, o in enumerate(sc["ops"]):
            e = dict(o)
            try:
                if fail is not None:
                    e["r"] = {"k": "err", "e": "read:" + type(fail).__name__, "v": [], "t": []}
                    e["why"] = str(fail)[:200]
                else:
                    e["r"] = w.do(o, sc.get("variant", 0) + i)
            except (Exception, SystemExit) as x:
                e["r"] = {"k": "err", "e": type(x).__name__, "v": [], "t": []}
                e["why"] = str(x)[:200]
            e["r"] = {"e": "", "v": [], "t": [], "n": 0, **e["r"]}
            ev.append(e)
        return {"f": sc["meta"], "ev": ev}
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


def main():
    with open(sys.argv[1]) as fh:
        scs = json.load(fh)
    out = []
    for sc in scs:
        try:
            out.append(run(sc))
        except BaseException:
            out.append({"error": traceback.format_exc()})
    with open(sys.argv[2], "w") as fh:
        json.dump(out, fh)


if __name__ == "__main__":
    main()
