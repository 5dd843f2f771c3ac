"""Edits schematics of LTspice and QSPICE with the real editors; what is in their files is read by the driver."""
import io
import json
import os
import re
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from spicelib import AscEditor, QschEditor  # noqa: E402
from spicelib.editor.base_schematic import ERotation, Point  # noqa: E402

GIVEN = [None, "1k", 330, 4700.0, 1e-6, "{x*2}", 2.5, "2N2222", "BC547", 10, "{a+b}"]
CMDS = ["", ".tran 1m", ".tran 0 5m 0 1u", ".ac dec 10 1 1Meg", ".noise V(out) V1 dec 10 1 1k", ".meas TRAN vmax MAX V(out)", ".save I(R1)", ".save I(R1) V(c)", ".ic V(c)=1",
        ".options reltol=1e-4", ".lib my.lib", "K1 L1 L2 0.9", ".meas AC bw PARAM vmax-1", ".step param a 1 5 1", ".TRAN 2m", ".dc V1 0 5 1", ".save V(c) I(V1)"]
FRAGS = ["vmax", "MAX V(out)", "V(c)", ".ic", "reltol", "nosuch", "step param", "L1 L2", "my.lib", ".tran 1m"]
PATS = [r"\.save", r"\.TRAN", r".*MAX V", "k1", r"\.nosuch", "save", r"\.meas", r"\.Step", r"\.(ac|noise)\s", r"\.param"]
COMS = ["", "note: see .tran 1m", ".tran 9m", ".param a=99 zz=5", ".save I(R1)", r".meas first\n.param b=7"]
FRAG_ON = {8: None}
SYMS = {"R": ("res", "R"), "C": ("cap", "C"), "V": ("voltage", "V"), "Q": ("npn", "QN")}
BOX = {"X1": "box", "X1:X2": "box2"}
ALIGN = ["Left", "VRight", "Bottom", "VTop", "Center", "Right"]
PN = ("tol", "temp", "Rser", "ic", "m")
LIB = [".SUBCKT AMP in out\nR5 in out 7k\nC5 out 0 1n tol=2\n.ENDS AMP\n", "* parts\n.subckt ampx a b\nR5 a b 9k\n.ends\n.subckt amp in out\nR5 in out 7k\nC5 out 0 1n tol=2\n.ends\n",
       ".SUBCKT AMP2 a b\nR5 a b 9k\n.ENDS AMP2\n\n.SUBCKT AMP in out\nC5 out 0 1n tol=2\nR5 in out 7k\n.ENDS AMP\n.END\n"]
BOM = "\u00ef\u00bb\u00bf"


def check_tables(meta):
    for i, f in enumerate(FRAGS):
        assert sorted(meta["frag"][i]) == [n for n in range(1, len(CMDS)) if f in CMDS[n]], (f, [n for n in range(1, len(CMDS)) if f in CMDS[n]])
    for i, p in enumerate(PATS):
        assert sorted(meta["pat"][i]) == [n for n in range(1, len(CMDS)) if re.match(p, CMDS[n], re.I)], (p, [n for n in range(1, len(CMDS)) if re.match(p, CMDS[n], re.I)])


def local(r):
    return r.rpartition(":")[2]


def alias(r, z):
    """the reference of the block of a sub-sheet does not have to start with X"""
    return r.replace("X1", "U1") if z % 5 == 0 else r


def sheet(r):
    return r.rpartition(":")[0]


class Asc:
    ext, enc = ".asc", "utf-8"
    editor = AscEditor

    def setup(self, folder):
        for n, pre in SYMS.values():
            with open(os.path.join(folder, n + ".asy"), "w") as f:
                f.write("Version 4\nSymbolType CELL\nLINE Normal 16 16 16 96\nWINDOW 0 36 40 Left 2\nSYMATTR Value X\nSYMATTR Prefix %s\n"
                        "PIN 16 16 NONE 0\nPINATTR PinName A\nPINATTR SpiceOrder 1\nPIN 16 96 NONE 0\nPINATTR PinName B\nPINATTR SpiceOrder 2\n" % pre)
        for n in BOX.values():
            with open(os.path.join(folder, n + ".asy"), "w") as f:
                f.write("Version 4\nSymbolType BLOCK\nRECTANGLE Normal 16 16 96 96\nWINDOW 0 36 40 Left 2\nPIN 16 16 LEFT 8\nPINATTR PinName in\nPINATTR SpiceOrder 1\n")
        with open(os.path.join(folder, "amp.asy"), "w") as f:
            f.write("Version 4\nSymbolType CELL\nRECTANGLE Normal 16 16 96 96\nWINDOW 0 36 40 Left 2\nSYMATTR Value AMP\nSYMATTR Prefix X\nSYMATTR SpiceModel amp.lib\n"
                    "PIN 16 16 LEFT 8\nPINATTR PinName in\nPINATTR SpiceOrder 1\nPIN 96 16 LEFT 8\nPINATTR PinName out\nPINATTR SpiceOrder 2\n")
        with open(os.path.join(folder, "amp.lib"), "w") as f:
            f.write(LIB[self.z % 3])

    def write(self, comps, texts, z):
        s = ["Version 4", "SHEET 1 %d 680" % (880 + z)]
        s += ["FLAG 16 320 in_µ"] if z % 2 else []
        s += ["WIRE 96 80 16 80", "WIRE 16 %d 16 80" % (112 + 16 * (z % 5)), "WIRE 96 -32 96 80", "FLAG 16 192 0", "FLAG 96 -32 in"]
        s += ["IOPIN 96 -32 In"] * (z % 2) + ["FLAG 96 80 out_%d" % z, "IOPIN 96 80 Out"]
        s += [] if z % 3 else ["FLAG 320 16 a,b", "IOPIN 320 16 BiDir"]
        for i, (r, c) in enumerate(comps):
            box = r in BOX
            s.append("SYMBOL %s %d %d %s" % (BOX[r] if box else SYMS[local(r)[0]][0], c["x"], c["y"], ("R" if c["rot"] < 360 else "M") + str(c["rot"] % 360)))
            s += ["WINDOW 0 0 %d VBottom 2" % (56 + i), "WINDOW 3 32 56 VTop 2"][:(z + i) % 3]
            at = ["SYMATTR InstName " + alias(local(r), self.z)]
            if not box:
                at.append("SYMATTR Value " + c["val"])
            at += ["SYMATTR Value2 " + c["val2"]] * (c["val2"] != "") + ["SYMATTR SpiceModel " + c["mod"]] * (c["mod"] != "")
            p = ["%s=%s" % x for x in c["par"].items()]
            k = (z + i) % 4
            one, two = (p, []) if k < 2 else (p[:1], p[1:])
            if k in (1, 3) and p:
                one = (["noiseless"] + one) if z % 2 else one + ["noiseless"]
            at += ["SYMATTR SpiceLine " + " ".join(one)] * bool(one) + ["SYMATTR SpiceLine2 " + " ".join(two)] * bool(two)
            s += at[:1] + (at[1:] if z % 2 else at[:0:-1])
        if self.top:
            s += ["SYMBOL amp 640 %d R90" % (16 * z), "WINDOW 0 8 8 Left 2", "SYMATTR InstName X9"]
        for t in texts:
            s.append("TEXT %s %s%s" % (self.at(t["at"]), "!" if t["k"] == "D" else ";", t["s"]))
        s += ["LINE Normal 8 8 %d 8" % (80 + z), "LINE Normal 8 8 8 48 2", "RECTANGLE Normal 200 200 300 %d 1" % (300 + z), "CIRCLE Normal 8 8 48 48"]
        s += ["ARC Normal 48 48 8 8 8 28 48 28"] if z % 2 else []
        return "\n".join(s) + "\n"

    @staticmethod
    def at(i):
        return "%d %d %s %d" % (40 * i, 400 + 16 * i, ALIGN[i % 6], 1 + i % 3)

    def read(self, text):
        """components (by their local reference), texts as (at, kind, text), and the other lines"""
        comps, texts, rest, cur = [], [], [], None
        for ln in text.split("\n"):
            w = ln.split()
            if not w:
                continue
            if w[0] == "SYMBOL":
                cur = {"sym": " ".join(w[1:-3]), "x": int(w[-3]), "y": int(w[-2]), "rot": int(w[-1][1:]) + (360 if w[-1][0] == "M" else 0), "val": "", "val2": "", "mod": "", "par": {},
                       "own": []}
                comps.append(cur)
            elif w[0] == "WINDOW":
                cur["own"].append(" ".join(w))
            elif w[0] == "SYMATTR":
                v = ln.split(None, 2)[2].strip() if len(w) > 2 else ""
                if w[1] == "InstName":
                    cur["ref"] = v
                elif w[1] in ("Value", "Value2", "SpiceModel"):
                    cur[{"Value": "val", "Value2": "val2", "SpiceModel": "mod"}[w[1]]] = v
                elif w[1] in ("SpiceLine", "SpiceLine2"):
                    for x in v.split():
                        n, eq, a = x.partition("=")
                        if eq and n not in cur["par"]:
                            cur["par"][n] = a
                        else:
                            cur["own"].append(x)
                else:
                    cur["own"].append(ln)
            elif w[0] == "TEXT":
                m = re.match(r"TEXT\s+(\S+ \S+ \S+ \S+) ([!;])(.*)$", ln)
                texts.append((m[1], "D" if m[2] == "!" else "C", m[3]) if m else ("", "?", ln))
            elif w[0] == "IOPIN" and rest and rest[-1].split()[1:3] == w[1:3]:
                rest[-1] += " | " + ln
            else:
                rest.append(" ".join(w))
        for c in comps:
            c["own"] = [c.pop("sym")] + sorted(c["own"])
        return comps, texts, sorted(rest)


SYM = '''    «symbol %s
      «type: %s»
      «description: a part, the %s»
      «shorted pins: false»
      «line (0,200) (0,180) 0 0 0x1000000 -1 -1»
      «rect (-25,150) (25,-150) 0 0 0 0x4000000 0x1000000 -1 0 -1»
'''


class Qsch:
    ext, enc = ".qsch", "cp1252"
    editor = QschEditor

    def setup(self, folder):
        pass

    def write(self, comps, texts, z):
        s = "\u00ff\u00d8\u00ff\u00db«schematic\n"
        for i, (r, c) in enumerate(comps):
            box = r in BOX
            s += "  «component (%d,%d) %d %d\n" % (c["x"], c["y"], c["rot"] // 45, 0)
            k = local(r)[0]
            s += SYM % ("SYM" + k, k, k)
            tx = '      «text (%d,%d) 1 7 0 0x1000000 -1 -1 "%s"»\n'
            s += tx % (100, 150 + i, alias(local(r), self.z)) + tx % (100, -150, BOX[r] if box else c["val"])
            p = ["%s=%s" % x for x in c["par"].items()]
            if (z + i) % 3 == 0 and len(p) > 1:
                p = [" ".join(p[:2])] + p[2:]
            if (z + i) % 4 == 1:
                p = (["noiseless"] + p) if z % 2 else p + ["noiseless"]
            for j, x in enumerate(p):
                s += tx % (100, -250 - 100 * j, x)
            s += '      «pin (0,200) (0,0) 1 0 0 0x0 -1 "1"»\n      «pin (0,-200) (0,0) 1 0 0 0x0 -1 "2"»\n    »\n  »\n'
        s += '  «wire (100,%d) (300,200) "N0%d"»\n  «wire (300,200) (300,400) "out"»\n' % (200 + z, 1 + z % 5)
        s += '  «net (300,400) 1 14 0 "out"»\n  «net (0,-800) 1 13 0 "GND"»\n'
        for t in texts:
            s += '  «text %s %d 0x1000000 -1 -1 "%s%s"»\n' % (self.at(t["at"]), t["k"] == "C", BOM if t["k"] == "D" else "", t["s"])
        s += "  «line (%d,50) (600,50) 0 2 0xff0000 -1 -1»\n  «rect (-25,50) (25,-5) 0 0 0 0x4000000 0x1000000 -1 0 -1»\n" % z
        return s + "»\n"

    @staticmethod
    def at(i):
        return "(%d,%d) %s %d" % (100 * i, -1000 - 50 * i, ["1", "0.681", "2"][i % 3], [13, 45, 77][i % 3])

    def read(self, text):
        assert text[:4] == "\u00ff\u00d8\u00ff\u00db", "header"
        top, _ = tag(text, text.index("«"))
        comps, texts, rest = [], [], []
        for it in top[1]:
            w = it[0].split()
            if w[0] == "component":
                sym = [x for x in it[1] if x[0].split()[0] == "symbol"]
                x, y = map(int, w[1].strip("()").split(","))
                tx = [x for x in sym[0][1] if x[0].startswith("text ")]
                ss = [quoted(x[0]) for x in tx]
                c = {"x": x, "y": y, "rot": int(w[2]) * 45, "ref": ss[0], "val": ss[1], "val2": "", "mod": "", "par": {}}
                own = [" ".join(w[3:]), sym[0][0]] + [x[0] for x in sym[0][1] if not x[0].startswith("text ")] + [x[0].rpartition(' "')[0] for x in tx[:2]]
                for v in ss[2:]:
                    for q in v.split():
                        n, eq, a = q.partition("=")
                        if eq and n not in c["par"]:
                            c["par"][n] = a
                        else:
                            own.append(q)
                c["own"] = sorted(own)
                comps.append(c)
            elif w[0] == "text":
                m = re.match(r'text (\(\S+\) \S+ \S+) (\S+) .*?"(.*)"$', it[0], re.S)
                com = m and m[2] == "1"
                v = m[3] if m else it[0]
                texts.append((m[1] if m else "", "C" if com else "D", v[len(BOM):] if v.startswith(BOM) and not com else v))
            else:
                rest.append(" ".join(w) + str(it[1]))
        return comps, texts, sorted(rest)


def quoted(s):
    m = re.search(r'"([^"]*)"$', s)
    return m[1] if m else "?" + s


def tag(s, i):
    """a tag as (text, tags in it) and the position after it"""
    i += 1
    out, items, inq = "", [], False
    while inq or s[i] != "»":
        if s[i] == "«" and not inq:
            x, i = tag(s, i)
            items.append(x)
            continue
        if s[i] == '"':
            inq = not inq
        out += s[i]
        i += 1
    return (out.strip(), items), i + 1


def instrs(s):
    """the instructions of a text, as the specification writes them"""
    out = []
    for ln in s.split("\\n"):
        if ln.lstrip().startswith("+") and out:
            out[-1] += " " + ln.lstrip()[1:]
        else:
            out.append(ln)
    ans = []
    for x in out:
        if x.strip().lower().startswith(".param"):
            body = x.strip()[6:]
            a = [{"n": n.lower(), "v": v} for n, v in re.findall(r"(\w+)\s*=\s*(\{[^}]*\}|[^\s,]+)", body)]
            left = re.sub(r"(\w+)\s*=\s*(\{[^}]*\}|[^\s,]+)", "", body).strip()
            ans.append({"k": "par", "a": a} if not left else {"k": "cmd", "i": 0})
        else:
            ans.append({"k": "cmd", "i": CMDS.index(x.strip()) if x.strip() in CMDS[1:] else 0})
    return ans


def show(i, lay):
    if i["k"] == "com":
        return COMS[i["i"]]
    if i["k"] == "cmd":
        return CMDS[i["i"]]
    eq = " = " if lay == 3 else "="
    p = [x["n"] + eq + x["v"] for x in i["a"]]
    return ".PARAM " * (lay == 1) + ".param " * (lay != 1) + (r"\n+ " if lay == 2 else " ").join(p)


class Run:
    def __init__(self, meta, folder, z):
        self.f = Asc() if meta["ed"] == "asc" else Qsch()
        self.folder, self.z, self.n = folder, z, 0
        self.f.z = z
        if meta["ed"] == "asc":
            self.f.enc = ["utf-8", "cp1252", "utf-16-le", "utf-8"][z % 4]
        self.f.setup(folder)
        comps = {r: dict(c, par=c["par"] or {}) for r, c in meta["c"].items()}
        texts = [{"k": t["k"], "at": t["at"], "s": "\\n".join(show(i, meta["lay"][t["at"] - 1]) for i in t["ins"])} for t in meta["t"]]
        self.ats = {self.f.at(t["at"]): t["at"] for t in meta["t"]}
        self.path = self.name("main")
        sheets = {"": self.path}
        for r in BOX:
            if r in comps:
                sheets[r] = self.name(BOX[r])
        for k, p in sheets.items():
            self.f.top = not k
            cs = [(r, c) for r, c in comps.items() if sheet(r) == k]
            self.put(p, self.f.write(cs, [] if k else texts, z + len(k)))
        start = self.file(self.path)
        self.own = {r: c["own"] for r, c in start["c"].items()}
        self.rest = start["rest"]

    def name(self, n):
        return os.path.join(self.folder, n + self.f.ext)

    def put(self, p, s):
        with open(p, "w", encoding=self.f.enc, newline="\n") as f:
            f.write(s)

    def get(self, p):
        with open(p, "rb") as f:
            return f.read()

    def load(self):
        self.e = self.f.editor(self.path)

    def file(self, path, text=None):
        """what is in a file, and those of the sheets below"""
        cs, texts, rest = self.f.read(self.get(path).decode(self.f.enc) if text is None else text)
        comps = {}
        rests = ["main: " + x for x in rest] + ["X9: %s" % c for c in cs if c.get("ref") == "X9"]
        cs = [c for c in cs if c.get("ref") != "X9"]

        def add(cs, under):
            for c in cs:
                r = under + c.pop("ref", "?").replace("U1", "X1")
                comps[r] = c
                if r in BOX:
                    if self.f.ext == ".qsch":
                        c["own"].append(c["val"])
                        c["val"] = ""
                    sub, _, rr = self.f.read(self.get(self.name(BOX[r])).decode(self.f.enc))
                    rests.extend(BOX[r] + ": " + x for x in rr)
                    add(sub, r + ":")
        add(cs, "")
        t = [{"k": k, "at": self.ats.get(at, 0), "ins": instrs(s) if k == "D" else [{"k": "com", "i": COMS.index(s) if s in COMS else 0}]} for at, k, s in texts]
        return {"c": comps, "t": t, "rest": rests}

    def observe(self):
        """the answers of the editor"""
        e, o = self.e, {"k": "ok", "c": {}}
        try:
            def walk(ed, under):
                for x in ed.get_components():
                    r = under + x.replace("U1", "X1")
                    y = alias(r, self.z)
                    if r == "X9":
                        continue
                    v = "" if r in BOX else e.get_component_value(y)
                    p = e.get_component_parameters(y) if self.z % 2 else dict(e[y].params)
                    pos, rot = e.get_component_position(y)
                    o["c"][r] = {"v": str(v), "par": {n: str(p[n]) for n in PN if n in p}, "x": pos.X, "y": pos.Y, "rot": int(rot.value)}
                    if r in BOX:
                        walk(ed.get_subcircuit(x), r + ":")
            walk(e, "")
            o["rc"] = sorted(e.get_components("RC"))
            names = e.get_all_parameter_names()
            o["p"] = {n.lower(): str(e.get_parameter(n)) for n in names}
            o["n"] = len(names)
            o["upd"] = bool(e.updated())
        except Exception as x:
            o = {"k": "bad", "s": "%s: %s" % (type(x).__name__, x)}
        return o

    def step(self, o):
        e, k, z = self.e, o["op"], self.z
        r = alias(o.get("r", ""), z)
        if k == "set":
            v, via = GIVEN[o["v"]], o["via"]
            if via == 2:
                e[r].value = v
            elif via == 3:
                e[r] = v
            elif via == 4 and ":" not in r:
                e.set_component_values(**{r: v})
            elif via == 5:
                e.set_element_model(r, v) if isinstance(v, str) else e[r].set_value(v)
            else:
                e.set_component_value(r, v)
        elif k == "par":
            kw, via = {p["n"]: GIVEN[p["v"]] for p in o["ps"]}, o["via"]
            if via == 1:
                e.set_component_parameters(r, **kw)
            elif via == 2:
                e[r].set_parameters(**kw)
            elif via == 5:
                e[r].params = kw
            else:
                for n, v in kw.items():
                    if v is None and via == 4:
                        e[r].clear_parameter(n)
                    elif via == 4:
                        e[r][n] = v
                    else:
                        e[r].set_parameter(n, v)
        elif k == "attr":
            e.set_component_parameters(r, **{o["n"]: GIVEN[o["v"]]})
        elif k == "move":
            rot = ERotation(o["rot"])
            if self.f.ext == ".qsch" and o["via"] == 3:
                e.set_component_position(r, Point(o["x"], o["y"]), o["rot"] % 360, o["rot"] >= 360)
            elif self.f.ext == ".qsch" and o["via"] == 2:
                e.set_component_position(r, (o["x"], o["y"]), rot)
            else:
                e.set_component_position(r, Point(o["x"], o["y"]), rot)
        elif k == "drop":
            e.remove_component(r)
        elif k == "define":
            n = self.case(o)
            if o["via"] == 1 or o["v"] == 0:
                e.set_parameter(n, GIVEN[o["v"]])
            else:
                e.set_parameters(**{n: GIVEN[o["v"]]})
        elif k == "ask":
            return {"k": "got", "t": str(e.get_parameter(self.case(o)))}
        elif k == "add":
            s = CMDS[o["i"]]
            e.add_instruction(s + "\n" if z % 3 == 0 else s) if z % 2 else e.add_instructions(s)
        elif k == "library":
            return self.library(o["via"])
        elif k == "addpar":
            e.add_instruction(".param a=5")
        elif k in ("rem", "remf", "remx"):
            a = e.remove_instruction(CMDS[o["i"]]) if k == "rem" else e.remove_instruction(FRAGS[o["f"] - 1]) if k == "remf" else e.remove_Xinstruction(PATS[o["q"] - 1])
            return {"k": "ok", "a": bool(a)}
        elif k == "save":
            return self.save(o["how"])
        elif k == "reset":
            e.reset_netlist()
        elif k == "load":
            self.load()
        else:
            raise KeyError(k)
        return {"k": "ok"}

    def library(self, via):
        """an edit inside a sub-circuit of a library, that is refused; what is in it after that"""
        e, x = self.e, ""
        try:
            if via == 1:
                e.set_component_value("X9:R5", 5)
            elif via == 2:
                e["X9:R5"].value = "5"
            elif via == 3:
                e.set_component_parameters("X9:C5", tol=3)
            elif via == 4:
                e.remove_component("X9:R5")
        except Exception as ex:
            x = type(ex).__name__
        return {"k": "lib", "x": x, "v": str(e.get_component_value("X9:R5")), "p": str(e.get_component_parameters("X9:C5").get("tol")),
                "c": sorted(e.get_subcircuit("X9").get_components()), "kept": self.get(os.path.join(self.folder, "amp.lib")).decode() == LIB[self.z % 3]}

    @staticmethod
    def case(o):
        return [o["n"], o["n"].upper(), o["n"].capitalize()][o["up"]]

    def save(self, how):
        self.n += 1
        old, was = self.path, self.get(self.path)
        text = None
        if how == "new":
            self.path = self.name("new%d" % self.n)
            self.e.save_as(self.path if self.z % 2 or self.f.ext == ".qsch" else self.path[:-4])
        elif how == "same":
            self.e.save_as(self.path) if self.z % 3 else self.e.save_netlist(self.path)
        else:
            p = self.name("else%d" % self.n)
            if self.z % 3 == 0:
                buf = io.StringIO()
                self.e.save_netlist(buf)
                text = buf.getvalue()
            else:
                self.e.save_netlist(p)
        f = self.file(p if how == "else" and text is None else self.path, text)
        f["own"] = {r: c.pop("own") for r, c in f["c"].items()}
        return {"k": "file", "f": f, "kept": how == "same" or self.get(old) == was}


def run(sc, folder, z):
    check_tables(sc["meta"])
    r = Run(sc["meta"], folder, z)
    try:
        r.load()
        ev = [{"op": "start", "r": {"k": "ok"}, "o": r.observe()}]
    except Exception as x:
        ev = [{"op": "start", "r": {"k": "exc", "x": type(x).__name__, "s": str(x)[:200]}, "o": {"k": "bad", "s": ""}}]
    for o in sc["ops"] if ev[0]["r"]["k"] == "ok" else []:
        try:
            a = r.step(o)
        except Exception as x:
            a = {"k": "exc", "x": type(x).__name__, "s": str(x)[:200]}
        e = dict(o, r=a)
        if "r" in o:
            e["ref"] = o["r"]
        e["o"] = r.observe()
        ev.append(e)
    m = sc["meta"]
    meta = {"ed": m["ed"], "c": {k: dict(c, par=c["par"] or {}) for k, c in m["c"].items()}, "t": m["t"], "own": r.own, "rest": r.rest}
    return {"meta": meta, "ev": ev}


def main(a, b):
    scs = json.load(open(a))
    out = []
    class Null:
        def write(self, s): return len(s)
        def flush(self): pass
    sys.stdout = Null()
    for i, sc in enumerate(scs):
        folder = tempfile.mkdtemp(prefix="verif_sch_")
        cwd = os.getcwd()
        try:
            os.chdir(folder)
            out.append(run(sc, folder, i))
        except Exception:
            out.append({"error": traceback.format_exc()[-700:]})
        finally:
            os.chdir(cwd)
            shutil.rmtree(folder, ignore_errors=True)
    json.dump(out, open(b, "w"))


main(sys.argv[1], sys.argv[2])
