"""Executes scenarios (behaviours of RawGen.tla) on the real RawRead: a file is written, then asked about."""
import contextlib
import csv
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import rawfile  # noqa: E402
from spicelib import RawRead  # noqa: E402
from spicelib.scripts import raw_convert  # noqa: E402


HANGS = []


class Hang(Exception):
    pass


def _alarm(*_):
    HANGS.append(1)
    raise Hang()


def seq(v):
    return {"k": "seq", "e": "", "v": [int(x) for x in v], "t": []}


def err(e):
    return {"k": "err", "e": type(e).__name__, "v": [], "t": []}


class Reader:
    def __init__(self, f, tmp):
        self.f = f
        self.path = os.path.join(tmp, "x.qraw" if f["dia"] == "qspice" else "x.raw")
        rawfile.write(f, self.path)
        pre = {"none": None, "all": "*", "some": rawfile.names(f["plots"][0], f)[:2],
               "one": rawfile.names(f["plots"][0], f)[-1]}[f["pre"]]
        self.held = {}
        self.csv = os.path.join(tmp, "x.csv")
        self.rr = self.fail = None
        try:
            self.rr = RawRead(self.path, pre, dialect=f["dia"] if not f["cmd"] or f["seed"] % 3 == 0 else None,
                              verbose=False)
        except Hang:
            raise
        except Exception as e:
            self.fail = e

    def name(self, q, v):
        return rawfile.names(self.f["plots"][q - 1], self.f)[v - 1]

    def plot(self, q, how):
        if q == 1 and how % 2:
            return self.rr
        return self.rr.plots[q - 1]

    def dec(self, q, v, xs, **kw):
        p = self.f["plots"][q - 1]
        t = rawfile.types(p, self.f)
        t = t[v - 1] if v <= len(t) else t[1]
        return [rawfile.dec(x, t, v == 1, **kw) for x in xs]

    def trace(self, q, v, how):
        o, n = self.plot(q, how), self.name(q, v)
        if how in (0, 1):
            return o.get_trace(n)
        if how == 2:
            return o[n]
        if how == 3 and v <= len(self.f["plots"][q - 1]["vals"]):
            return o.get_trace(v - 1)
        if how == 4:
            return o.get_trace(n.swapcase())
        return o.get_trace(n)

    def table(self, q, d, **kw):
        ns = rawfile.names(self.f["plots"][q - 1], self.f)
        out = []
        for col, data in d.items():
            c = ns.index(col) + 1 if col in ns else 0
            out.append({"c": c, "v": self.dec(q, c, data, **kw) if c else []})
        return {"k": "table", "e": "", "v": [], "t": out}

    def convert(self, o, ix):
        """runs the command-line tool"""
        ns = rawfile.names(self.f["plots"][0], self.f)
        ask = []
        for a in o["ask"]:
            n = ns[a["v"] - 1]
            if a["form"] == "unknown":
                n = ["nosuch", "V(nosuch)", "V(" + n + ")", "I(n2)"][a["v"] % 4]
            elif a["form"] == "bare" and n[:2] in ("V(", "I("):
                n = n[2:-1]
            ask.append(n)
        out = {"csv": self.csv, "other": self.csv[:-3] + "txt"}.get(o["out"])
        sep = {1: ";", 2: ",", 3: " | "}.get(o["sep"], None)
        argv = ["raw_convert"] + (["-o" if ix % 2 else "--output", out] if out else []) + (["-s", sep] if sep else []) + (["-v"] if o["sep"] == 4 else [])
        if not self.f["cmd"] or self.f["seed"] % 3 == 0:
            argv += ["-D", self.f["dia"]]
        with open(self.path, "rb") as fh:
            before = fh.read()
        for p in (self.csv, self.csv[:-3] + "txt"):
            if os.path.exists(p):
                os.remove(p)
        old, sys.argv = sys.argv, argv + [self.path] + ask
        text = io.StringIO()
        code = 0
        try:
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
                raw_convert.main()
        except SystemExit as x:
            code = x.code or 0
        finally:
            sys.argv = old
        with open(self.path, "rb") as fh:
            kept = fh.read() == before
        extra = {"kept": kept, "file": os.path.exists(self.csv) or os.path.exists(self.csv[:-3] + "txt")}
        if code:
            return dict({"k": "err", "e": "exit", "v": [], "t": []}, **extra)
        lines = (open(self.csv).read() if o["out"] == "csv" and extra["file"] else text.getvalue()).splitlines()
        sep = sep or "\t"
        while lines and not all(x in ns for x in lines[0].split(sep)):
            lines.pop(0)
        rows = [x.split(sep) for x in lines if x.strip()]
        if not rows:
            return dict({"k": "table", "e": "", "v": [], "t": []}, **extra)
        t = []
        for k, c in enumerate(rows[0]):
            v = ns.index(c) + 1
            t.append({"c": v, "v": self.dec(1, v, [(complex if "j" in row[k] else float)(row[k]) for row in rows[1:]], single=True)})
        return dict({"k": "table", "e": "", "v": [], "t": t}, **extra)

    def do(self, o, ix, i):
        op, q = o["op"], o["q"]
        p = self.f["plots"][q - 1]
        n = self.name
        if op == "wave":
            if o["how"] == 0:
                return seq(self.dec(q, o["v"], self.plot(q, 1).get_wave(n(q, o["v"]), o["s"])))
            if o["how"] == 6 and o["v"] == 1 and p["axis"]:
                t = self.trace(q, 1, 3)
                return seq(self.dec(q, 1, [t.get_point(i, o["s"]) for i in range(t.get_len(o["s"]))]))
            if o["how"] == 5 and p["axis"]:
                t = self.trace(q, o["v"], 0)
                return seq(self.dec(q, o["v"], [t.get_point(i, o["s"]) for i in range(t.get_len(o["s"]))]))
            return seq(self.dec(q, o["v"], self.trace(q, o["v"], o["how"]).get_wave(o["s"]) if p["axis"] or o["v"] != 1
                                or True else []))
        if op == "axis":
            pl = self.plot(q, ix)
            if ix % 3 == 0 and rawfile.axis_name(p["kind"], self.f["dia"]) == "time":
                return seq(self.dec(q, 1, pl.get_time_axis(o["s"])))
            if ix % 3 == 1 and p["axis"]:
                return seq(self.dec(q, 1, pl.axis.get_wave(o["s"])))
            return seq(self.dec(q, 1, pl.get_axis(o["s"])))
        if op == "len":
            return seq([self.plot(q, ix).get_len(o["s"])])
        if op == "tlen":
            t = self.trace(q, o["v"], ix % 5)
            return seq([len(t) if ix % 3 == 0 and not p["stepped"] else t.get_len(o["s"])])
        if op == "point":
            t = self.trace(q, o["v"], ix % 5)
            x = t[o["n"]] if ix % 3 == 0 and not p["stepped"] else t.get_point(o["n"], o["s"])
            return seq(self.dec(q, o["v"], [x]))
        if op == "at":
            t = self.trace(q, o["v"], ix % 5)
            ts = rawfile.types(p, self.f)[0]
            return seq(self.dec(q, o["v"], [t.get_point_at(o["t"] * rawfile.S64, o["s"])]))
        if op == "read":
            self.rr.plots[q - 1].read_trace_data([n(q, v) for v in o["vs"]])
            return seq([])
        if op in ("export", "csv"):
            cols = [n(q, v) for v in sorted(o["cs"], key=lambda v: (v * 7 + ix) % 11)] or None
            step = -1 if not o["ss"] else o["ss"][0] if len(o["ss"]) == 1 and ix % 2 else list(o["ss"])
            if cols and ix % 5 == 0:
                cols = cols + cols[:1]   # a trace that is named twice is there once
            given = list(cols) if cols else None
            pl = self.plot(q, ix)
            if op == "export":
                r = self.table(q, pl.export(cols, step))
            else:
                if os.path.exists(self.csv):
                    os.remove(self.csv)
                pl.to_csv(self.csv, columns=cols, step=step, separator=";")
                with open(self.csv, newline="") as fh:
                    rows = list(csv.reader(fh, delimiter=";"))
                conv = lambda s: complex(s) if "j" in s else float(s)  # noqa: E731
                r = self.table(q, {c: [conv(row[k]) for row in rows[1:] if row] for k, c in enumerate(rows[0])}, single=True)
            r["kept"] = cols == given
            return r
        if op == "convert":
            return self.convert(o, ix)
        if op == "steps":
            kw = {}
            if o["a"] != -1:
                kw["run" if p["log"] == "no" else "a"] = o["a"]
            if o["b"] != -1:
                kw["b"] = o["b"]
            if o["z"]:
                kw["nosuch"] = 1
            return seq(self.plot(q, ix).get_steps(**kw))
        if op == "hold":
            self.held[i + 1] = self.trace(q, o["v"], ix % 5)
            return seq([])
        if op == "hwave":
            return seq(self.dec(q, o["v"], self.held[o["at"]].get_wave(o["s"])))
        if op == "missing":
            ref = ["V(nosuch)", len(p["vals"]), -1][o["how"]]
            pl = self.plot(q, ix)
            return seq(self.dec(q, 2, (pl.get_wave(ref, 0) if ix % 2 else pl.get_trace(ref).get_wave(0))))
        if op == "names":
            pl = self.plot(q, ix)
            ns = rawfile.names(p, self.f)
            return seq([ns.index(x) + 1 if x in ns else 0 for x in pl.get_trace_names()]
                       + [pl.nVariables, pl.nPoints, self.rr.get_nr_plots()])
        raise RuntimeError(op)


def run(sc):
    f = sc["meta"]
    tmp = tempfile.mkdtemp(prefix="raw_")
    ev = []
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 20, 20)
        rd = None
        try:
            rd = Reader(f, tmp)
        except Hang as e:
            fail = e
        for i, o in enumerate(sc["ops"]):
            ix = sc.get("variant", 0) + i
            e = dict(o)
            e["kept"], e["file"] = True, False
            if rd is None or rd.fail is not None:
                e["r"] = err(fail if rd is None else rd.fail)
            elif len(rd.rr.plots) < o["q"]:
                e["r"] = {"k": "noplot", "e": "", "v": [], "t": []}
            elif o["op"] == "hwave" and o["at"] not in rd.held:
                e["r"] = err(KeyError()) if not f["cut"] and f["plots"][0]["log"] != "short" else \
                    {"k": "noplot", "e": "", "v": [], "t": []}
            else:
                try:
                    e["r"] = rd.do(o, ix, i)
                    e["kept"] = e["r"].pop("kept", True)
                    if o["op"] == "convert":
                        e["file"] = e["r"].pop("file")
                except Exception as x:
                    e["r"] = err(x)
                    e["why"] = str(x)[:200]
            ev.append(e)
        return {"f": f, "ev": ev}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    with open(sys.argv[1]) as fh:
        scs = json.load(fh)
    out = []
    for sc in scs:
        try:
            out.append(run(sc) if len(HANGS) < 3 else {"f": sc["meta"], "ev": []})   # the rest is left out after several hangs
        except BaseException:
            out.append({"error": traceback.format_exc()})
    with open(sys.argv[2], "w") as fh:
        json.dump(out, fh)


if __name__ == "__main__":
    main()
