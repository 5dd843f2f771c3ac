"""Runs report scenarios: writes Fourier logs, exported waveforms and operating point logs, and asks the real readers."""
import json
import math
import os
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from spicelib.log.ltsteps import LTSpiceLogReader, LTSpiceExport, reformat_LTSpice_export  # noqa: E402
from spicelib.log.semi_dev_op_reader import opLogReader  # noqa: E402

BAD = -99999


def near(x, unit):
    try:
        q = float(x) / unit
    except (TypeError, ValueError):
        return BAD
    return round(q) if abs(q - round(q)) < 0.05 else BAD


def put(path, lines, f):
    with open(path, "wb") as fh:
        fh.write((("\r\n" if f["crlf"] else "\n").join(lines) + "\n").encode(f["enc"]))


def tool(path, d, ix):
    """the command line tool; returns the file that it makes"""
    from spicelib.scripts import ltsteps
    before = set(os.listdir(d))
    argv, cwd, so = sys.argv, os.getcwd(), sys.stdout
    try:
        sys.stdout = open(os.devnull, "w")
        if ix % 2:
            os.chdir(d)
            sys.argv = ["ltsteps", os.path.basename(path)]
        else:
            sys.argv = ["ltsteps", path]
        ltsteps.main()
    finally:
        sys.stdout.close()
        sys.argv, sys.stdout = argv, so
        os.chdir(cwd)
    new = set(os.listdir(d)) - before
    return os.path.join(d, new.pop()) if len(new) == 1 else None


class Four:
    def __init__(self, f, d):
        self.f, self.d = f, d
        lines = ["Circuit: * C:\\x.asc", "", ".OP point found by inspection."]
        if f["head"]:
            lines = ["LTspice 24.1.9 for Windows", "Circuit: C:\\x.net", "Start Time: Sun Mar  8 21:28:04 2026", "solver = Normal"]
        last = None
        for a in f["ana"]:
            if a["step"] >= 0 and a["step"] != last:
                lines.append(".step " + " ".join("%s=%g" % (v["name"], v["vals"][a["step"]]) for v in f["vars"]))
            last = a["step"]
            lines.append("N-Period=" + ("all" if a["nper"] == -1 else "%g" % (a["nper"] * 0.5 + 1)))
            lines += ["Fourier components of " + a["signal"], "DC component:%g" % (a["dc"] / 8), "",
                      "Harmonic\tFrequency\t Fourier \tNormalized\t Phase  \tNormalized",
                      " Number \t  [Hz]   \tComponent\t Component\t[degree]\tPhase [deg]"]
            deg = "\u00b0" if f["seed"] % 2 else ""
            for k, fr, c, nc, ph, nph in a["harm"]:
                lines.append("    %d   \t %.3e\t %.3e\t %.3e\t  %7.2f%s\t  %7.2f%s" % (k, fr * 1e6, c / 8, nc / 8e3, ph * 3.25, deg, nph * 3.25, deg))
            if a["phd"] != -1:
                lines.append("Partial Harmonic Distortion: %.6f%%" % (a["phd"] / 8))
            lines += ["Total Harmonic Distortion:   %.6f%%" % (a["thd"] / 8), "", ""]
        lines += ["Date: Sun Dec  3 19:24:03 2023", "Total elapsed time: 0.095 seconds.", "", "tnom = 27", "temp = 27"]
        self.path = os.path.join(d, "x.log")
        put(self.path, lines, f)
        self.r = LTSpiceLogReader(self.path)

    def nper(self, x):
        return -1 if x in ("all", "-1", "-1.0", -1) else near(float(x) - 1, 0.5)

    def harm(self, k, fr, c, nc, ph, nph):
        return [int(k), near(fr, 1e6), near(c, 1 / 8), near(nc, 1 / 8e3), near(ph, 3.25), near(nph, 3.25)]

    def do(self, o, ix):
        r = self.r
        if o["op"] == "signals":
            return {"k": "seq", "v": list(r.fourier)}
        if o["op"] == "analyses":
            out = []
            for a in r.fourier.get(o["s"], []):
                hs = [a[i] for i in range(len(a))] if ix % 2 else list(a)
                if a.fundamental != hs[0].frequency:
                    return {"k": "bad", "v": []}
                out.append({"step": a.step, "signal": a.signal, "nper": self.nper(a.n_periods), "dc": near(a.dc_component, 1 / 8),
                            "phd": -1 if a.phd is None else near(a.phd, 1 / 8), "thd": near(a.thd, 1 / 8),
                            "harm": [self.harm(h.harmonic_number, h.frequency, h.fourier_component, h.normalized_component,
                                               h.phase, h.normalized_phase) for h in hs]})
            return {"k": "seq", "v": out}
        # the exported tables; the log needs a measurement for export_data to write anything of its own
        out = os.path.join(self.d, "out.tsv")
        r.export_data(out)
        with open(os.path.join(self.d, "out_fourier.txt"), encoding="utf-8") as fh:
            text = fh.read()
        a, b = text.split("Harmonic Analysis\n")
        nv = len(self.f["vars"])
        ta = [x.split("\t") for x in a.strip("\n").split("\n")]
        tb = [x.split("\t") for x in b.strip("\n").split("\n")]
        names = [v["name"] for v in self.f["vars"]]
        if ta[0] != names + ["Signal", "N-Periods", "DC Component", "Fundamental", "N-Harmonics", "PHD", "THD"] or \
                tb[0] != names + ["Signal", "N-Periods", "Harmonic", "Frequency", "Fourier", "Normalized", "Phase", "Normalized"]:
            return {"k": "tables", "a": [], "b": [], "why": "%s %s" % (ta[0], tb[0])}
        ra = [{"vs": [near(z, 1) for z in x[:nv]], "signal": x[nv], "nper": self.nper(x[nv + 1]), "dc": near(x[nv + 2], 1 / 8), "fund": near(x[nv + 3], 1e6),
               "n": int(x[nv + 4]), "phd": -1 if x[nv + 5] == "None" else near(x[nv + 5], 1 / 8), "thd": near(x[nv + 6], 1 / 8)} for x in ta[1:]]
        rb = [{"vs": [near(z, 1) for z in x[:nv]], "signal": x[nv], "nper": self.nper(x[nv + 1]), "h": self.harm(*x[nv + 2:])} for x in tb[1:]]
        return {"k": "tables", "a": ra, "b": rb}


class Text:
    def __init__(self, f, d):
        self.f, self.d = f, d
        lines = ["\t".join(f["heads"])]
        for r in range(max(f["n"], 1)):
            if f["n"]:
                lines.append("Step Information: %s  (%s: %d/%d)" % (" ".join("%s=%s" % (v["name"].capitalize() if f["seed"] % 2 else v["name"], self.var(v["vals"][r])) for v in f["vars"]),
                                                                   f["word"], r + 1, f["n"]))
            for row in f["rows"][r]:
                lines.append("\t".join(self.cell(c, v) for c, v in enumerate(row)))
        self.path = os.path.join(d, "x.txt")
        put(self.path, lines, f)
        self.r = None

    def var(self, v):
        u = self.f["unit"]
        return "%de+06" % v if u == "e" else "%d%s" % (v, u)

    def cell(self, c, v):
        if self.f["forms"][c] == "real":
            return "%.15e" % (v[0] / 8)
        return "(%.15e" % (v[0] / 8) + "dB,%.15e\u00b0)" % (v[1] / 8)

    def val(self, c, x):
        """a number of the reader, or a cell of the table -> a value"""
        if self.f["forms"][c] == "real":
            return [near(x, 1 / 8), 0]
        if isinstance(x, str):
            z = x.strip().strip("()").split(",")
            if len(z) != 2 or not z[0].endswith("dB") or not z[1].endswith("\u00b0"):
                return [BAD, 0]
            return [near(z[0][:-2], 1 / 8), near(z[1][:-1], 1 / 8)]
        if not isinstance(x, complex):
            return [BAD, 0]
        return [near(20 * math.log10(abs(x)), 1 / 8), near(math.degrees(math.atan2(x.imag, x.real)), 1 / 8)]

    def unvar(self, x):
        u = self.f["unit"]
        if u == "e":
            return near(x, 1e6)
        if u:
            return near(str(x)[:-1], 1) if str(x).endswith(u) else BAD
        return near(x, 1)

    def do(self, o, ix):
        op, f = o["op"], self.f
        if op in ("data", "run", "var"):
            if self.r is None:
                self.r = LTSpiceExport(self.path)
            if [x.strip() for x in self.r.headers] != f["heads"]:
                return {"k": "bad", "v": []}
            ds = self.r.dataset
            if op == "data":
                return {"k": "seq", "v": [self.val(o["c"] - 1, x) for x in ds[f["heads"][o["c"] - 1].lower()]]}
            if op == "run":
                return {"k": "seq", "v": [int(x) for x in ds["runno"]]}
            return {"k": "seq", "v": [self.unvar(x) for x in ds[f["vars"][o["c"] - 1]["name"]]]}
        if op == "reformat":
            out = os.path.join(self.d, "r%d.tsv" % ix)
            reformat_LTSpice_export(self.path, out)
        else:
            if os.path.exists(self.path[:-3] + "tsv"):
                os.remove(self.path[:-3] + "tsv")
            out = tool(self.path, self.d, ix)
        with open(out, "rb") as fh:
            raw = fh.read()
        enc = f["enc"] if f["enc"] != "cp1252" or b"\xb0" in raw else "utf-8"
        text = raw.decode(enc).lstrip("\ufeff")
        rows = [x.split("\t") for x in text.replace("\r\n", "\n").rstrip("\n").split("\n")]
        low = [x.lower() for x in rows[0]]
        at = {n: [i for i, x in enumerate(low) if x == n.lower()] for n in f["heads"] + [v["name"] for v in f["vars"]] + ["run"]}
        if any(len(at[n]) != 1 for n in at if n != "run" or f["n"]) or any(len(x) != len(low) for x in rows):
            return {"k": "bad", "v": [], "why": repr(rows[:2])}
        return {"k": "seq", "v": [{"run": int(x[at["run"][0]]) if f["n"] else 0, "vs": [self.unvar(x[at[v["name"]][0]]) for v in f["vars"]],
                                   "row": [self.val(c, x[at[n][0]]) for c, n in enumerate(f["heads"])]} for x in rows[1:]]}


class Ops:
    def __init__(self, f, d):
        lines = ["Circuit: * C:\\x.asc", "", "Direct Newton iteration for .op point succeeded.", "Semiconductor Device Operating Points:", ""]
        for s in f["secs"]:
            for b, bl in enumerate(s["blocks"]):
                if b == 0 or f["again"]:
                    lines.append("                        --- %s ---" % s["title"])
                end = "  " if f["trail"] else ""
                lines.append("Name:    " + " ".join("%20s" % x for x in bl["devs"]) + end)
                for p in bl["params"]:
                    lines.append("%-9s" % (p["name"] + ("" if p["name"] == "Gmb" else ":")) + " ".join(
                        "%20s" % (("dmod%d" % v) if p["name"] == "Model" else "%.2e" % (v / 8)) for v in p["vals"]) + end)
                lines.append("")
        if f["tail"]:
            lines += ["", "Date: Sat Sep 30 11:00:38 2023", "Total elapsed time: 0.115 seconds.", "", "tnom = 27", "temp = 27", "method = modified trap",
                      "Avg thread counts: 3.7/6.4/6.4/3.7", "Matrix Compiler1:       3 opcodes  0.1/[0.1]/0.2"]
        self.path = os.path.join(d, "x.log")
        put(self.path, lines, f)

    def do(self, o, ix):
        out = []
        ds = opLogReader(self.path)
        titles = {"diodes": "Diodes", "bipolar transistors": "Bipolar Transistors", "mosfet transistors": "MOSFET Transistors"}
        for t, devs in ds.items():
            for d, ps in devs.items():
                for p, v in ps.items():
                    if p == "Model":
                        w = int(v[4:]) if isinstance(v, str) and v[:4] == "dmod" else BAD
                    else:
                        w = BAD if isinstance(v, str) else next((k for k in range(-40, 41) if float("%.2e" % (k / 8)) == v), BAD)
                    out.append({"t": titles.get(t.lower(), t), "d": d, "p": p, "v": w})
        return {"k": "seq", "v": out}


def run(sc):
    f = sc["meta"]
    d = tempfile.mkdtemp(prefix="rep_")
    ev, fail, w = [], None, None
    try:
        try:
            w = {"four": Four, "text": Text, "op": Ops}[sc["kind"]](f, d)
        except Exception as e:
            fail = e
        for i, o in enumerate(sc["ops"]):
            e = dict(o)
            try:
                if fail is not None:
                    raise fail
                e["r"] = w.do(o, sc.get("variant", 0) + i)
            except (Exception, SystemExit) as x:
                e["r"] = {"k": "err", "e": type(x).__name__}
                e["why"] = str(x)[:200]
            e["r"] = {"e": "", "v": [], "a": [], "b": [], **e["r"]}
            ev.append(e)
        return {"f": f, "ev": ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    with open(sys.argv[1]) as fh:
        scs = json.load(fh)
    out = []
    for sc in scs:
        try:
            out.append(run(sc))
        except BaseException:
            out.append({"error": traceback.format_exc()})
    with open(sys.argv[2], "w") as fh:
        json.dump(out, fh)


if __name__ == "__main__":
    main()
