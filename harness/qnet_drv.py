"""Writes netlists of QSPICE schematics with the real editor; the driver reads them."""
import io
import json
import os
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from spicelib import QschEditor  # noqa: E402

BOM = "\u00ef\u00bb\u00bf"
KIND = {"res": ("R", "R"), "res1": ("R", "R1"), "cap": ("C", "C2"), "src": ("V", "V"), "dio": ("D", "Zener"), "vcvs": ("E", "E"), "npn": ("QN", "NPN"), "npns": ("QN", "NPNS"),
        "lpnp": ("QP", "LPNP"), "nmos": ("MN", "NMOS"), "pmosb": ("MP", "PMOSB"), "njf": ("JN", "PwrNJF"), "pjf": ("JP", "PJF"), "nmf": ("ZN", "NMF"), "trafo": ("\u00d7", "Transformer"),
        "tline": ("T", "T"), "gate": ("\u00a5", "AND2"), "box": ("", "")}
TWO, THREE = [(0, 2), (0, -2)], [(1, 2), (-1, 0), (1, -2)]
PINS = {2: TWO, 3: THREE, 4: THREE + [(2, 0)]}
COUNT = {"res": 2, "res1": 2, "cap": 2, "src": 2, "dio": 2, "npn": 3, "nmos": 3, "njf": 3, "pjf": 3, "nmf": 3, "box": 3}
LIB = {"model": r"|.model %s D(Is=1e-14)", "subckt": r"|.subckt %s a b\nR1 a b 1k\n.ends %s"}


def coded(s):
    return s.replace("yen", "\u00a5").replace("~", "\u00b5") if not s.startswith("x") else "\u00d7" + s[1:]


def plain(s):
    for a, b in (("\u00a5", "yen"), ("\u00d7", "x"), ("\u00b4", "'"), ("\u2022", "~"), ("\u0095", "~"), ("\u00b5", "~")):
        s = s.replace(a, b)
    return s


def sheet_text(s, z, edited):
    o = "\u00ff\u00d8\u00ff\u00db«schematic\n"
    for i, c in enumerate(s["c"]):
        typ, sym = KIND[c["k"]]
        o += "  «component (%d,%d) %d %d\n    «symbol%s\n      «type: %s»\n" % (100 * c["x"], 100 * c["y"], c["rot"], 0 if c["on"] else 1, " " + sym if sym else "", typ)
        o += "      «description: a part: %s»\n      «shorted pins: false»\n" % c["k"]
        v = " ".join(c["v"])
        if c["lib"]:
            o += "      «library file: %s»\n" % (LIB[c["lib"]].replace("%s", v) if c["lib"] in LIB else c["lib"])
        o += "      «line (0,200) (0,180) 0 0 0x1000000 -1 -1»\n"
        tx = '      «text (%d,%d) 1 7 0 0x1000000 -1 -1 "%s"»\n'
        o += tx % (100, 150, coded(c["r"])) + tx % (100, -150, v.replace("~", "\u00b5"))
        ps = [p["v"] if not p["n"] else "%s=%s" % (p["n"], "<%s>" % p["v"] if (z % 4 == 1 or (z + j) % 3 == 0) and (c["r"], p["n"]) not in edited else p["v"]) for j, p in enumerate(c["par"])]
        if z % 2 and len(ps) == 2:
            ps = [" ".join(ps)]
        for j, p in enumerate(ps):
            o += tx % (100, -250 - 100 * j, p)
        for j, (x, y) in enumerate(PINS[COUNT.get(c["k"], 4)]):
            o += '      «pin (%d,%d) (0,0) 1 0 0 0x0 -1 "%s"%s»\n' % (100 * x, 100 * y, "ABCD"[j], " \u00a5" if j + 1 in c["nc"] else "")
        o += "    »\n  »\n"
    wires = ['  «wire (%d,%d) (%d,%d) "%s"»\n' % (100 * w["p"][0], 100 * w["p"][1], 100 * w["q"][0], 100 * w["q"][1], w["net"]) for w in s["w"]]
    nets = ['  «net (%d,%d) 1 14 0 "%s"»\n' % (100 * n["p"][0], 100 * n["p"][1], n["net"]) for n in s["n"]]
    o += "".join(nets + wires if z % 2 else wires + nets)
    for i, t in enumerate(s["t"]):
        o += '  «text (%d,-2000) 1 13 %d 0x1000000 -1 -1 "%s%s"»\n' % (100 * i, t["k"] == "C", BOM if t["k"] == "D" and (z + i) % 4 else "", "\\n".join(t["l"]))
    return o + "»\n"


def read(lines, name=None):
    """a netlist, or one of its sub-circuits"""
    f = {"c": [], "t": [], "lib": [], "emb": [], "sub": [], "ends": 0}
    while lines:
        ln = plain(lines.pop(0).strip())
        if not ln or ln.startswith("*"):
            continue
        low = ln.lower()
        if low.startswith(".ends"):
            if name is not None and ln.split()[1:] in ([name], []):
                return f
            f["t"].append(ln)
        elif low == ".end":
            f["ends"] += 1
            if any(x.strip() for x in lines):
                f["t"].append("lines after the end")
        elif low.startswith(".subckt"):
            w = ln.split()
            if "~" in w[1]:
                raw = [ln]
                while lines and not raw[-1].startswith(".ends"):
                    raw.append(lines.pop(0).strip())
                f["emb"].append("|".join(raw))
            else:
                f["sub"].append({"name": w[1], "ports": w[2:], "f": read(lines, w[1])})
        elif low.startswith(".model"):
            f["emb"].append(ln)
        elif low.startswith(".lib"):
            p = ln[4:].strip()
            f["lib"].append(os.path.basename(p) if os.path.exists(p) or not os.path.isabs(p) else "?" + p)
        elif ln[0] in ".+":
            f["t"].append(ln)
        else:
            for a, b in (("«", "<< "), ("»", " >>"), ("[", "[ "), ("]", " ]")):
                ln = ln.replace(a, b)
            f["c"].append(ln.split())
    if name is not None:
        f["t"].append("no .ends of " + name)
    return f


class Run:
    def __init__(self, meta, ops, folder, z):
        self.folder, self.z, self.n = folder, z, 0
        for k, s in meta["sheets"].items():
            edited = {(o["r"], o["n"]) for o in ops if o["op"] == "par" and o["k"] == k}
            with open(self.name(k), "w", encoding="cp1252") as f:
                f.write(sheet_text(s, z, edited))
        for n in ("Diode.txt", "NPN.txt"):
            with open(os.path.join(folder, n), "w") as f:
                f.write("* models\n")
        self.path = self.name("main")

    def name(self, n):
        return os.path.join(self.folder, n + ".qsch")

    def netlist(self):
        self.n += 1
        how = (self.z + self.n) % 3
        if how == 0:
            b = io.StringIO()
            self.e.save_netlist(b)
            s = b.getvalue()
        else:
            p = os.path.join(self.folder, "out%d.%s" % (self.n, "net" if how == 1 else "cir"))
            self.e.save_netlist(p)
            with open(p, encoding="cp1252") as f:
                s = f.read()
        f = read(s.split("\n"))
        if not s.startswith("*"):
            f["t"].insert(0, "no title")
        return {"k": "net", "f": f}

    def step(self, o):
        e, k = self.e, o["op"]
        if k == "set":
            v = " ".join(o["v"]).replace("~", "\u00b5")
            r = self.ref(o["ref"])
            if self.z % 2:
                e[r].value = v
            else:
                e.set_component_value(r, v)
        elif k == "par":
            e.set_component_parameters(self.ref(o["ref"]), **{o["n"]: o["v"]})
        elif k == "drop":
            e.remove_component(self.ref(o["ref"]))
        elif k == "add":
            e.add_instruction(o["l"])
        elif k == "again":
            self.netlist()
        else:
            if k == "saveload" and self.z % 2:
                self.path = self.name("new%d" % self.n)
            e.save_as(self.path)
            if k == "saveload":
                self.e = QschEditor(self.path)

    @staticmethod
    def ref(r):
        return ":".join(coded(x) for x in r.split(":"))


def run(sc, folder, z):
    r = Run(sc["meta"], sc["ops"], folder, z)
    ev = []
    for o in [{"op": "load"}] + sc["ops"]:
        try:
            if o["op"] == "load":
                r.e = QschEditor(r.path)
            else:
                r.step(o)
            a = r.netlist()
        except Exception as x:
            a = {"k": "exc", "x": "%s: %s" % (type(x).__name__, x)}
        ev.append(dict(o, a=a))
        if a["k"] == "exc":
            break
    return {"meta": sc["meta"], "ev": ev}


def main(a, b):
    out = []
    for i, sc in enumerate(json.load(open(a))):
        folder = tempfile.mkdtemp(prefix="verif_qnet_")
        cwd = os.getcwd()
        try:
            os.chdir(folder)
            out.append(run(sc, folder, i))
        except Exception:
            out.append({"error": traceback.format_exc()[-700:]})
        finally:
            os.chdir(cwd)
            shutil.rmtree(folder, ignore_errors=True)
    json.dump(out, open(b, "w"))


main(sys.argv[1], sys.argv[2])
