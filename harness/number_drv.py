"""Reads, compares and writes numbers with the real code: the functions of float_unit and the three editors."""
import json
import os
import re
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from decimal import Decimal  # noqa: E402
import numpy as np  # noqa: E402
from spicelib import AscEditor, QschEditor, SpiceEditor  # noqa: E402
from spicelib.editor.primitives import try_value  # noqa: E402
from spicelib.utils.float_unit import UnitError, float_unit, format_eng, scan_eng, to_float  # noqa: E402

STRS = {1: "{2*p}", 2: "{q+1}", 3: "{Vx}", 4: "2*q", 5: "a+1", 6: "{p}", 7: "sqrt(2*(q+1))", 11: "1N4148", 12: "2N2222", 13: "BC547", 14: "1N4001", 15: "MMBT_1",
        21: "SINE(0 1 1k)", 22: "PULSE(0 1 1n 2n 3n 1u 2u)"}
BADS = ["", " ", "abc", "{R}", "-", "+", ".", "1.2.3", "1-2", "1e", "2E+", "--1", "1.5k7", "1 5", "- 5", "k1", "R10", "q1", "V 10", "1 000", "2*q", "3*(1+2)", "7/2", "2k*3", "4{q}", "5+p"]
MUS = {"mu1": "\u00b5", "mu2": "\u03bc"}
UNS = {"ohm1": "\u03a9", "ohm2": "\u2126", "degC": "\u00b0C"}
SIGNS = {"\u2126": "ohm", "\u03a9": "ohm", "\u00b0C": "degC"}


def render(t):
    d = lambda ds: "".join(map(str, ds))  # noqa: E731
    mu, un, sp = MUS.get(t["mu"], t["mu"]), UNS.get(t["un"], t["un"]), " " * t["sp"]
    point = "." + d(t["fp"]) if t["fp"] or (t["sp"] == 2 and t["ip"]) else ""
    if t["k"] == "plain":
        s = d(t["ip"]) + point + sp
    elif t["k"] == "exp":
        s = d(t["ip"]) + point + "eE"[len(t["ip"]) % 2] + ("+" if t["e"] >= 0 and len(t["fp"]) == 1 else "") + str(t["e"]) + sp
    elif t["k"] == "mult":
        s = d(t["ip"]) + point + sp + mu
    elif t["k"] == "infix":
        s = d(t["ip"]) + mu + d(t["fp"]) + sp
    else:
        s = d(t["ip"]) + "Rr"[len(t["fp"]) % 2] + d(t["fp"]) + sp
    return t["sg"] + s + un


PARSE = re.compile(r"^([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+)|[ \t]*((?i:meg)|[fpPnNuU\u00b5\u03bcmkKMgGtT%])(\d*))?[ \t]*([a-zA-Z\u2126\u03a9\u00b0]*)$")


def parse(s):
    """the parts of a text, as the specification writes them"""
    m = PARSE.match(s.strip())
    if not m or not (m[2] or m[3]) or (m[6] and m[3] is not None):
        return {"k": "none"}
    if not m[5] and len(m[2] + (m[3] or "")) > 9:  # all the digits of a float: as an exact decimal
        d = Decimal("%.12e" % Decimal(m[2] + "." + (m[3] or "") + "e" + (m[4] or "0"))).normalize().as_tuple()
        return {"k": "none"} if len(d.digits) > 9 else {"sg": m[1], "ip": list(d.digits), "fp": [], "k": "exp", "e": d.exponent, "mu": "k", "un": "", "sp": 0}
    ip, fp = m[2].lstrip("0"), (m[3] or "").rstrip("0")
    if len(ip) + len(fp) > 9 and not m[6] or m[6] and len(m[2] + m[6]) > 9:
        return {"k": "none"}
    mu = m[5]
    if mu and mu.lower() == "meg":
        mu = "Meg"
    mu = {"\u00b5": "mu1", "\u03bc": "mu2"}.get(mu, mu)
    k = "exp" if m[4] else "infix" if m[6] else "mult" if mu else "plain"
    ds = lambda x: [int(c) for c in x]  # noqa: E731
    return {"sg": m[1], "ip": ds(m[2] if m[6] else ip), "fp": ds(m[6] or fp), "k": k, "e": int(m[4] or 0), "mu": mu or "k", "un": "", "sp": 0}


def dec(x):
    """a float as an exact decimal, if it is within rounding errors of one with few digits"""
    x = float(str(x)) if isinstance(x, np.float32) else float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return {"k": "num", "m": 77777777, "e": 99}
    d = Decimal(repr(x))
    r = Decimal("%.12e" % d).normalize()
    sign, digits, e = r.as_tuple()
    if len(digits) > 9:
        return {"k": "num", "m": 77777777, "e": 98}
    m = int("".join(map(str, digits))) * (-1 if sign else 1)
    while m and m % 10 == 0:
        m, e = m // 10, e + 1
    return {"k": "num", "m": m, "e": e if m else 0}


def val(v):
    """what kind of number a value is"""
    if isinstance(v, (bool, np.bool_)) or v is None:
        return {"k": "text"}
    if isinstance(v, complex):
        return {"k": "cx", "re": dec(v.real), "im": dec(v.imag)}
    if isinstance(v, (int, float, np.integer, np.floating)):
        return dec(v)
    return {"k": "text"}


def cx(s):
    try:
        v = complex(s.replace("i", "j"))
    except ValueError:
        return {"k": "text"}
    return {"k": "cx", "re": dec(v.real), "im": dec(v.imag)}


def text(v):
    t = str(v).strip()
    return {"t": t, "p": parse(t), "x": cx(t)}


def number(n, kind):
    m, e = n
    x = float("%de%d" % (m, e))
    if kind in ("int", "np64") and e >= 0 and abs(m * 10 ** e) < 2 ** 60:
        return m * 10 ** e if kind == "int" else np.int64(m * 10 ** e)
    if kind == "npf32" and abs(m) < 10 ** 6:
        return np.float32(x)
    if kind == "npf":
        return np.float64(x)
    if kind == "fu":
        return float_unit(x)
    if kind == "fuv":
        return float_unit(x, "V")
    return x


def quiet(f):
    try:
        return f(), None
    except (ValueError, UnitError) as x:
        return None, x


QSYM = '''  «component (%d,300) 0 0
    «symbol R
      «type: R»
      «description: Resistor(USA Style Symbol)»
      «shorted pins: false»
      «line (0,200) (0,180) 0 0 0x1000000 -1 -1»
      «text (100,150) 1 7 0 0x1000000 -1 -1 "%s"»
      «text (100,-150) 1 7 0 0x1000000 -1 -1 "%s"»
      «pin (0,200) (0,0) 1 0 0 0x0 -1 "1"»
      «pin (0,-200) (0,0) 1 0 0 0x0 -1 "2"»
    »
  »
'''


class Circuit:
    def __init__(self, folder, meta, variant):
        self.ed, self.folder, self.n = meta["ed"], folder, 0
        c = {x["p"]: self.show(x["c"]) for x in meta["init"]}
        self.path = os.path.join(folder, "c" + {"spice": ".net", "asc": ".asc", "qsch": ".qsch"}[self.ed])
        sep = [" ", "\n"][variant % 2]
        if self.ed == "spice":
            par = ".param p=%s q=%s" % (c["p"], c["q"]) if sep == " " else ".param p = %s ; p=1 q=2 z=3\n.PARAM q=%s" % (c["p"], c["q"])
            t = "* c\nV1 in 0 %s\nR1 in a %s\nC1 a 0 %s\nD1 a 0 %s\nD2 a b %s\nX1 a b SUBA k=%s m=%s\n%s\n.tran 1m\n.subckt SUBA 1 2\nR1 1 2 1\n.ends\n.end\n" % (
                c["V1"], c["R1"], c["C1"], c["D1"], c["D2"], c["X1:k"], c["X1:m"], par)
        elif self.ed == "asc":
            for n, pre in (("res", "R"), ("cap", "C"), ("voltage", "V"), ("diode", "D")):
                with open(os.path.join(folder, n + ".asy"), "w") as f:
                    f.write("Version 4\nSymbolType CELL\nLINE Normal 16 16 16 96\nWINDOW 0 36 40 Left 2\nWINDOW 3 36 76 Left 2\nSYMATTR Value X\nSYMATTR Prefix %s\n"
                            "PIN 16 16 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\nPIN 16 96 NONE 0\nPINATTR PinName B\nPINATTR SpiceOrder 2\n" % pre)
            t = "Version 4\nSHEET 1 880 680\n"
            for i, (r, s) in enumerate((("R1", "res"), ("C1", "cap"), ("V1", "voltage"), ("D1", "diode"), ("D2", "diode"))):
                t += "SYMBOL %s %d 100 R0\nSYMATTR InstName %s\nSYMATTR Value %s\n" % (s, 96 + 64 * i, r, c[r])
            t += "TEXT 100 400 Left 2 !.tran 1m\n"
            t += "TEXT 100 440 Left 2 !.param p=%s q=%s\n" % (c["p"], c["q"]) if sep == " " else "TEXT 100 440 Left 2 !.param p=%s\nTEXT 100 480 Left 2 !.PARAM q = %s\n" % (c["p"], c["q"])
        else:
            t = "ÿØÿÛ«schematic\n" + "".join(QSYM % (400 * i, r, c[r]) for i, r in enumerate(("R1", "C1", "V1", "D1", "D2")))
            tx = '  «text (0,%d) 1 7 0 0x1000000 -1 -1 "ï»¿%s"»\n'
            t += tx % (0, ".tran 1m")
            t += tx % (100, ".param p=%s q=%s" % (c["p"], c["q"])) if sep == " " else tx % (100, ".param p=%s" % c["p"]) + tx % (200, ".PARAM q = %s" % c["q"])
            t += "»\n"
        with open(self.path, "w", encoding="cp1252" if self.ed == "qsch" else "utf-8", newline="\n") as f:
            f.write(t)
        self.load()

    def load(self):
        self.e = {"spice": SpiceEditor, "asc": AscEditor, "qsch": QschEditor}[self.ed](self.path)

    @staticmethod
    def show(c):
        return render(c["t"]) if c["k"] == "txt" else STRS[c["i"]] if c["k"] == "str" else ""

    def put(self, p, v, via):
        e = self.e
        if p in ("p", "q"):
            e.set_parameter(p, v) if via % 2 else e.set_parameters(**{p: v})
        elif p[0] == "X":
            x, k = p.split(":")
            if via == 1:
                e.set_component_parameters(x, **{k: v})
            elif via == 2:
                e[x].set_parameter(k, v)
            elif via == 3:
                e[x].set_parameters(**{k: v})
            else:
                e[x].params = {k: v}
        elif via == 1:
            e.set_component_value(p, v)
        elif via == 2:
            e[p].value = v
        elif via == 3:
            e.set_component_values(**{p: v})
        elif self.ed == "spice":
            e.set_component_parameters(p, value=v)
        else:
            e.set_component_value(p, v)

    def raw(self, p, via):
        """what the editor answers"""
        e = self.e
        if p in ("p", "q"):
            return e.get_parameter(p)
        if p[0] == "X":
            x, k = p.split(":")
            return e.get_component_parameters(x)[k] if via % 2 else e[x].params[k]
        if via == 1:
            return e.get_component_value(p)
        if via == 2:
            return e[p].value
        if via == 3:
            return e[p].value_str
        return e[p]["value"]

    def file(self):
        """the places in the file that is saved, read by the driver"""
        self.n += 1
        out = os.path.join(self.folder, "s%d%s" % (self.n, os.path.splitext(self.path)[1]))
        self.e.save_netlist(out)
        with open(out, "rb") as f:
            b = f.read()
        s = b.decode("cp1252") if self.ed == "qsch" else b.decode("utf-8", "strict") if b"\xc2" in b or b"\xce" in b else b.decode("latin-1")
        r, pars = {}, []
        if self.ed == "spice":
            for ln in s.split("\n"):
                w = ln.split()
                if w and w[0] in ("R1", "C1", "V1", "D1", "D2") and w[0] not in r:
                    r[w[0]] = ln.split(None, 3)[3].strip()
                elif w and w[0] == "X1":
                    for x in w[4:]:
                        k, _, v = x.partition("=")
                        r.setdefault("X1:" + k, v)
                        if k not in ("k", "m") or w[3] != "SUBA":
                            r["bad"] = ln
                elif ln[:6].lower() == ".param":
                    pars.append(ln[6:].split(";")[0])
        elif self.ed == "asc":
            ref = None
            for ln in s.split("\n"):
                m = re.match(r"SYMATTR (\w+) (.*)$", ln)
                if m and m[1] == "InstName":
                    ref = m[2].strip()
                elif m and m[1] == "Value":
                    r[ref] = m[2].strip()
                elif m:
                    r["bad"] = ln
                m = re.match(r"TEXT .*?!\.param(.*)$", ln, re.I)
                if m:
                    pars.append(m[1])
        else:
            for c in s.split("«component ")[1:]:
                tx = re.findall(r'«text [^"]*"([^"]*)"»', c.split("\n  »")[0])
                r[tx[0]] = tx[1]
                if len(tx) > 2:
                    r["bad"] = tx[2]
            for x in re.findall(r'"ï»¿\.param([^"]*)"', s, re.I):
                pars.append(x)
        for x in pars:
            for k, v in re.findall(r"(\w+)\s*=\s*(\{[^}]*\}|(?:\([^ ]*\)|[^\s])+)", x):
                if k in r:
                    r["bad"] = "twice " + k
                r[k] = v
        return r


def run(sc, folder, variant):
    meta, out = sc["meta"], []
    for x in meta["init"]:
        x["c"]["s"] = Circuit.show(x["c"])
    try:
        c = Circuit(folder, meta, variant) if meta["kind"] == "write" else None
    except Exception as x:  # a circuit that can't be read
        return {"meta": meta, "ev": [{"op": "load", "r": {"k": "exc", "e": type(x).__name__, "msg": str(x)[:200]}}]}
    for o in sc["ops"]:
        e = dict(o)
        if "c" in e:
            e["c"] = dict(e["c"], s=Circuit.show(e["c"]))
        k = o["op"]
        try:
            e["r"] = step(c, o, e, variant)
        except Exception as x:  # whatever the code raises is its answer
            e["r"] = {"k": "exc", "e": type(x).__name__, "msg": str(x)[:200]}
        out.append(e)
        if k in ("set", "copy", "scale", "load") and e["r"]["k"] == "exc":
            break
    return {"meta": meta, "ev": out}


def reading(via, s):
    if via == "scan":
        v, x = quiet(lambda: scan_eng(s))
    elif via == "unit":
        v, x = quiet(lambda: float_unit(s))
    elif via == "tofloat":
        v, x = quiet(lambda: to_float(s))
    elif via == "strict":
        v, x = quiet(lambda: to_float(s, accept_invalid=False))
    else:
        v, x = quiet(lambda: try_value(s))
    return v, x


def step(c, o, e, variant):
    k = o["op"]
    if k in ("read", "bad"):
        s = render(o["t"]) if k == "read" else BADS[o["i"]]
        e["s"] = s.strip()
        v, x = reading(o["via"], s)
        if x is not None:
            return {"k": "refused"}
        if isinstance(v, str):
            return {"k": "same" if v == s else "other", "t": v}
        r = dict(dec(v), un="", t=str(v))
        if o["via"] != "scan":
            r["un"] = SIGNS.get(v.unit, v.unit)
        return r
    if k == "cmp":
        a = float_unit(render(o["a"]))
        b = {"unit": float_unit, "str": str, "float": scan_eng}[o["via"]](render(o["b"]))
        r = {"k": "cmp", "eq": bool(a == b), "ne": bool(a != b)}
        if o["via"] != "str":
            r.update(lt=bool(a < b), gt=bool(a > b), hash=hash(a) == hash(b), set=len({a, b}))
        return r
    if k == "calc":
        a = float_unit(render(o["a"]))
        return dec({"mul": lambda: a * o["k"], "rmul": lambda: o["k"] * a, "neg": lambda: -a, "abs": lambda: abs(a), "twice": lambda: a + a, "less": lambda: a - a}[o["via"]]())
    if k == "fmt":
        x = number(o["n"], ["int", "float", "npf", "fu", "fuv"][variant % 5])
        return dict(text(format_eng(x) if o["via"] == "eng" else str(float_unit(x))), k="fmt")
    if k == "clean":
        return dict(text(str(float_unit(render(o["t"])).clean())), k="fmt")
    if k == "set":
        d = o["c"]
        v = Circuit.show(d) if d["k"] in ("txt", "str") else complex(d["re"], d["im"]) if d["k"] == "cx" else number(d["n"], o["nk"])
        c.put(o["p"], v, o["via"])
        return {"k": "ok"}
    if k == "copy":
        c.put(o["p"], c.raw(o["a"], o["via"]), 1 + (o["via"] + variant) % 4)
        return {"k": "ok"}
    if k == "scale":
        v = c.raw(o["a"], 2)
        c.put(o["p"], (float_unit(v) if isinstance(v, str) else float(str(v)) if isinstance(v, np.float32) else v) * o["k"], 1 + variant % 4)
        return {"k": "ok"}
    if k == "get":
        p, via = o["p"], o["via"]
        if via == "text":
            return dict(text(c.raw(p, [1, 3][variant % 2])), k="got")
        v = c.e.get_component_floatvalue(p) if via == "float" and p in ("R1", "C1", "V1") else c.raw(p, [2, 4][variant % 2])
        return dict(text(v), v=val(v), k="got")
    if k == "save":
        f = c.file()
        r = {"k": "file" if "bad" not in f else "bad", "f": {n: text(v) for n, v in f.items()}}
        return r
    if k == "load":
        c.n += 1
        c.path = os.path.join(c.folder, "l%d%s" % (c.n, os.path.splitext(c.path)[1]))
        c.e.save_netlist(c.path)
        c.load()
        return {"k": "ok"}
    raise KeyError(k)


def main(a, b):
    scs = json.load(open(a))
    out = []
    class Null:
        def write(self, s): return len(s)
        def flush(self): pass
    sys.stdout = Null()
    for i, sc in enumerate(scs):
        folder = tempfile.mkdtemp(prefix="verif_num_")
        try:
            out.append(run(sc, folder, i))
        except Exception:
            out.append({"error": traceback.format_exc()[-700:].replace("^","")})
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    json.dump(out, open(b, "w"))


main(sys.argv[1], sys.argv[2])
