"""Executes scenarios (behaviours of RawWriteGen.tla) on the real RawWrite; every saved file is read back."""
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import numpy as np  # noqa: E402
import rawfile  # noqa: E402
from spicelib import RawRead, RawWrite, Trace  # noqa: E402

KIND = {v: k for k, v in rawfile.PLOTNAME.items()}
AXIS = {"tran": ("time", "time"), "ac": ("frequency", "frequency"), "noise": ("frequency", "frequency"), "dc": ("V1", "voltage"),
        "op": ("R1", "param")}


HANGS = []


class Hang(Exception):
    pass


def _alarm(*_):
    HANGS.append(1)
    raise Hang()


def val(k, kind, single=False):
    return complex(k * rawfile.S64, 3 * k * rawfile.S64) if kind == "ac" else k * (rawfile.S32 if single else rawfile.S64)


def dec(x, single, cplx):
    """the integer a value stands for, -99999 if it is not what was stored (single: stored with single precision)"""
    try:
        scale, tol = (rawfile.S32, 3e-6) if single else (rawfile.S64, 1e-14)
        x = complex(x)
        k = round(x.real)
        w = complex(k, 3 * k if cplx else 0) * scale
        return k if abs(x - w) <= tol + abs(k) * 5e-13 * (not single) else -99999
    except (TypeError, ValueError, OverflowError):
        return -99999


class Composer:
    def __init__(self, f, tmp, ix):
        self.f, self.tmp, self.ix = f, tmp, ix
        self.kind = ""
        self.readers = []
        for i, s in enumerate(f["src"]):
            d = os.path.join(tmp, "s%d" % i)
            os.mkdir(d)
            p = os.path.join(d, "x.qraw" if s["dia"] == "qspice" else "x.raw")
            rawfile.write(s, p)
            try:
                self.readers.append(RawRead(p, None if (ix + i) % 2 else "*", verbose=False))
            except Exception as x:   # told by each operation that needs it
                self.readers.append(x)
        kw = {}
        k = f["kind"]
        if ix % 3 == 0:
            kw["plot_name"] = rawfile.PLOTNAME[k]
        if ix % 4 == 0:
            kw["numtype"] = "complex" if k == "ac" else "real"
        try:
            self.w = RawWrite(fastacces=f["fast"], encoding=f["enc"], **kw)
        except Exception as x:
            self.w, self.broken = None, x
        self.names = {}     # name in the file -> (origin, tag)
        self.single = {}    # origins stored with single precision
        self.plain = False

    def reader(self, i):
        if isinstance(self.readers[i], Exception):
            raise self.readers[i]
        return self.readers[i]

    def name(self, n, tag):
        base = "V(u%d)" % n if n >= 1000 else rawfile.names(self.f["src"][n // 100 - 1]["plots"][0], self.f["src"][n // 100 - 1])[n % 100 - 1]
        if not tag:
            return base
        if base[:2] in ("V(", "I("):
            return "%s(%s_t%d)" % (base[0], base[2:-1], tag)
        return "%s_t%d" % (base, tag)

    def add(self, o, ix):
        kind = o["kind"]
        first = self.kind == ""
        if first and kind != "op":
            n, what = AXIS[kind]
            data = [complex(k * rawfile.S64, 0) if kind == "ac" else k * rawfile.S64 for k in o["y"]]
            num = "complex" if kind == "ac" else "double"
            if kind in ("tran", "dc") and ix % 2:
                num = ""
                if kind == "dc":   # by default a trace of single precision
                    if self.f["src"]:
                        num = "double"
                    else:
                        data = [float(k) for k in o["y"]]
                        self.plain = True
        else:
            n, what = ("R1", "param") if first else ("V(u%d)" % o["n"], "voltage")
            num = "complex" if kind == "ac" else o["num"]
            data = [val(k, kind, num == "real") for k in o["y"]]
            self.single[o["n"]] = num == "real"
            if num != "double" and ix % 2:
                num = ""
        t = Trace(n, np.array(data) if ix % 3 else data, whattype=what, numerical_type=num)
        self.w.add_trace(t)
        self.kind = kind
        if not (first and kind != "op"):
            self.names.setdefault(n, []).append((o["n"], 0))

    def imp(self, o, ix):
        s = self.f["src"][o["src"] - 1]
        p = s["plots"][0]
        ns = [rawfile.names(p, s)[v - 1] for v in o["vs"]]
        kw = {}
        if o["s"] or ix % 2:
            kw["step"] = o["s"]
        if o["align"]:
            kw["force_axis_alignment"] = True
        tag = o["tag"]
        if tag == 1:
            kw["add_tag"] = "t1"
        elif tag == 2:
            kw["rename_format"] = "{}_t{num}"
            kw["num"] = 2
        self.w.add_traces_from_raw(self.reader(o["src"] - 1), ns[0] if len(ns) == 1 and ix % 2 else tuple(ns), **kw)
        if self.kind == "":
            self.kind = p["kind"]
        for v in o["vs"]:
            n = 100 * o["src"] + v
            self.single[n] = s["dia"] == "ltspice" and not s["dbl"] and p["kind"] != "ac"
            self.names.setdefault(self.name(n, tag), []).append((n, tag))

    def save(self, o, ix):
        path = os.path.join(self.tmp, "out%d.raw" % ix)
        self.w.flag_fastaccess = o["fast"]
        self.w.save(path)
        rr = RawRead(path, verbose=False)
        out = []
        seen = {}
        for i, n in enumerate(rr.get_trace_names()):
            data = rr.get_wave(i)
            if i == 0 and self.kind != "op":
                good = n.lower() == AXIS[self.kind][0].lower() and rr.has_axis
                n_, tag = 0 if good else -1, 0
                y = [round(float(x)) if self.plain and x == round(float(x)) else dec(x, False, False) for x in data]
            else:
                c = self.names.get(n, [])
                k = seen.get(n, 0)
                seen[n] = k + 1
                n_, tag = c[k] if k < len(c) else (-1, 0)
                y = [dec(x, self.single.get(n_, False), self.kind == "ac") for x in data]
            out.append({"n": n_, "tag": tag, "y": y})
        kind = KIND.get(rr.get_plot_name(), "noise" if "Noise" in rr.get_plot_name() else "?")
        return out, kind

    def do(self, o, ix):
        e = {"r": "ok"}
        try:
            if self.w is None:
                raise self.broken
            if o["op"] == "add":
                self.add(o, ix)
            elif o["op"] == "import":
                self.imp(o, ix)
            elif o["op"] == "save":
                e["t"], e["kind"] = self.save(o, ix)
            elif o["op"] == "source":
                rr, s = self.reader(o["src"] - 1), self.f["src"][o["src"] - 1]
                p = s["plots"][0]
                n = rawfile.names(p, s)[o["v"] - 1]
                t = rr.get_trace(n)
                ty = rawfile.types(p, s)
                e["y"] = [rawfile.dec(x, ty[o["v"] - 1] if o["v"] <= len(ty) else ty[1], o["v"] == 1) for x in t.get_wave(o["s"])]
                e["name"] = t.name == n
        except Exception as x:
            e["r"] = type(x).__name__
            e["why"] = str(x)[:200]
            if o["op"] == "save":
                e["t"], e["kind"] = [], ""
            if o["op"] == "source":
                e["y"], e["name"] = [], False
        return e


def run(sc):
    tmp = tempfile.mkdtemp(prefix="raww_")
    ev = []
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 20, 20)
        c = Composer(sc["meta"], tmp, sc.get("variant", 0))
        for i, o in enumerate(sc["ops"]):
            e = dict(o)
            e.update(c.do(o, sc.get("variant", 0) + i))
            ev.append(e)
        return {"f": sc["meta"], "ev": ev}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    with open(sys.argv[1]) as fh:
        scs = json.load(fh)
    out = []
    for sc in scs:
        try:
            out.append(run(sc) if len(HANGS) < 3 else {"f": sc["meta"], "ev": []})   # the rest is left out after several hangs
        except BaseException:
            out.append({"error": traceback.format_exc()})
    with open(sys.argv[2], "w") as fh:
        json.dump(out, fh)


if __name__ == "__main__":
    main()
