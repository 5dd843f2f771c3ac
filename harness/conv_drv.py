"""Converts LTspice schematics to QSPICE with the real converter; a reader of its own reads what was written."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from spicelib.scripts import asc_to_qsch  # noqa: E402

ROT = ["R0", "R90", "R180", "R270", "M0", "M90", "M180", "M270"]
ALIGN = ["Left", "Right", "VBottom", "Center", "VTop"]
BOM = ("\u00ef\u00bb\u00bf", "\ufeff")


def symbol(y, z):
    o = ["Version 4", "SymbolType CELL"]
    o += ["LINE Normal %d %d %d %d" % (*a, *b) for a, b in y["lines"]]
    o += ["%s Normal %d %d %d %d" % ({"R": "RECTANGLE", "C": "CIRCLE"}[b["k"]], *b["p"], *b["q"]) for b in y["boxes"]]
    w = [(0, y["w0"]), (3, y["w3"])]
    for i, (k, p) in enumerate(w[::-1] if y["flip"] == 2 else w):
        if p != [0, 0] or z % 2:
            o.append("WINDOW %d %d %d %s 2" % (k, *p, ALIGN[(z + i) % 5]))
    o += ["SYMATTR Value %s" % y["typ"], "SYMATTR Prefix %s" % (y["typ"].lower() if z % 3 == 0 else y["typ"])]
    if y["desc"] or z % 2:
        o.append("SYMATTR Description %s" % y["desc"])
    for p in y["pins"]:
        a = ["PINATTR PinName %s" % p["n"], "PINATTR SpiceOrder %d" % p["o"]]
        o += ["PIN %d %d %s 8" % (*p["p"], ["NONE", "LEFT", "VTOP", "BOTTOM"][(z + p["o"]) % 4])] + (a if z % 2 else a[::-1])
    return "\n".join(o) + "\n"


def schematic(s, z):
    o = ["Version 4", "SHEET 1 880 680"]
    o += ["WIRE %d %d %d %d" % (*a, *b) for a, b in s["wires"]]
    for i, f in enumerate(s["flags"]):
        o.append("FLAG %d %d %s" % (*f["p"], f["n"]))
        if f["n"] in ("in", "out") and (z + i) % 2:
            o.append("IOPIN %d %d %s" % (*f["p"], {"in": "In", "out": "Out"}[f["n"]]))
    for i, c in enumerate(s["comps"]):
        o.append("SYMBOL %s %d %d %s" % (c["s"], *c["p"], ROT[c["rot"]]))
        if (z + i) % 3 == 0:
            o.append("WINDOW 0 %d 56 VBottom 2" % (z % 50))
        o += ["SYMATTR InstName %s" % c["r"], "SYMATTR Value %s" % c["v"]]
    for i, t in enumerate(s["texts"]):
        o.append("TEXT %d %d %s 2 %s%s" % (*t["p"], ALIGN[(z + i) % 5], ";" if t["note"] else "!", "\\n".join(t["l"])))
    o += ["LINE Normal %d %d %d %d" % (*a, *b) for a, b in s["lines"]]
    o += ["%s Normal %d %d %d %d" % ({"R": "RECTANGLE", "C": "CIRCLE"}[b["k"]], *b["p"], *b["q"]) for b in s["boxes"]]
    return "\n".join(o) + "\n"


class Tag:
    def __init__(self):
        self.text, self.items = "", []


def tags(s):
    """the tree of the tags of a file"""
    root = Tag()
    stack, quoted = [root], False
    for ch in s:
        if ch == '"':
            quoted = not quoted
        if ch == "«" and not quoted:
            t = Tag()
            stack[-1].items.append(t)
            stack.append(t)
        elif ch == "»" and not quoted:
            stack.pop()
        else:
            stack[-1].text += ch
    if len(stack) != 1 or len(root.items) != 1:
        raise ValueError("not one balanced tag")
    return root.items[0]


def words(t):
    """name, points, numbers, strings"""
    out, cur, q = [], "", False
    for ch in t.text.strip().replace("\n", " "):
        if ch == '"':
            q = not q
            cur += ch
        elif ch == " " and not q:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return [x for x in out if x]


def point(w):
    a, b = w.strip("()").split(",")
    return [int(a), int(b)]


def bare(w):
    if w[0] != '"' or w[-1] != '"':
        raise ValueError("no string: %s" % w)
    return w[1:-1]


def read(path):
    with open(path, encoding="cp1252") as f:
        s = f.read()
    if not s.startswith("\u00ff\u00d8\u00ff\u00db"):
        raise ValueError("no mark of a schematic")
    root = tags(s[4:].rstrip())
    if words(root) != ["schematic"]:
        raise ValueError("no schematic")
    comps, wires, nets, texts, draw = [], [], [], [], {"lines": [], "rects": [], "ellipses": []}
    for t in root.items:
        w = words(t)
        if w[0] == "component":
            if len(t.items) != 1:
                raise ValueError("a component with %d symbols" % len(t.items))
            y = {"typ": "", "name": words(t.items[0])[1], "desc": "", "lines": [], "rects": [], "ellipses": [], "pins": [], "texts": []}
            tx = []
            for i in t.items[0].items:
                v = words(i)
                if v[0] == "type:":
                    y["typ"] = v[1]
                elif v[0] == "description:":
                    y["desc"] = " ".join(v[1:])
                elif v[0] in ("line", "rect", "ellipse"):
                    y[{"line": "lines", "rect": "rects", "ellipse": "ellipses"}[v[0]]].append([point(v[1]), point(v[2])])
                elif v[0] == "text":
                    y["texts"].append(point(v[1]))
                    tx.append(bare(v[-1]))
                elif v[0] == "pin":
                    y["pins"].append([bare(v[-1]), point(v[1])])
            if len(tx) != 2:
                raise ValueError("%d texts of a component" % len(tx))
            comps.append({"p": point(w[1]), "rot": int(w[2]), "r": tx[0], "v": tx[1], "sym": y})
        elif w[0] == "wire":
            wires.append({"p": point(w[1]), "q": point(w[2]), "n": bare(w[3])})
        elif w[0] == "net":
            nets.append([bare(w[-1]), point(w[1])])
        elif w[0] == "text":
            x = bare(w[-1])
            mark = x.startswith(BOM)
            for b in BOM:
                x = x[len(b):] if x.startswith(b) else x
            texts.append({"p": point(w[1]), "l": x.split("\\n"), "note": w[4] == "1" or not mark})
        else:
            draw[{"line": "lines", "rect": "rects", "ellipse": "ellipses"}[w[0]]].append([point(w[1]), point(w[2])])
    return {"comps": comps, "wires": wires, "nets": nets, "texts": texts, "drawing": draw}


def run(sc, folder, z):
    src, how = sc["meta"], sc["ops"][0]
    dirs = {k: os.path.join(folder, k) for k in ("one", "two", "here")}
    for k in dirs:
        os.makedirs(dirs[k])
    for n, w in src["syms"].items():
        for k, y in w.items():
            d = os.path.join(dirs[k], "sub") if k != "here" and (z + len(n)) % 3 == 0 else dirs[k]
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, n + ".asy"), "w") as f:
                f.write(symbol(y, z))
    asc = os.path.join(dirs["here"], "sheet.asc")
    with open(asc, "w") as f:
        f.write(schematic(src, z))
    out = os.path.join(folder, "result.qsch" if how in ("func", "main out") else "here/sheet.qsch")
    before = {os.path.join(a, x): open(os.path.join(a, x), "rb").read() for a, _, c in os.walk(folder) for x in c}
    ev = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            paths = [dirs["one"], dirs["two"]]
            if how == "func":
                asc_to_qsch.convert_asc_to_qsch(asc, out, paths)
            elif how == "relative":
                os.chdir(dirs["here"])
                asc_to_qsch.convert_asc_to_qsch("sheet.asc", "sheet.qsch", [os.path.join("..", "one"), os.path.join("..", "two")])
            else:
                sys.argv = ["asc_to_qsch", "-a", paths[0], "--add", paths[1], asc] + ([out] if how == "main out" else [])
                asc_to_qsch.main()
        got = read(out)
    except (Exception, SystemExit) as x:
        return {"meta": src, "ev": [{"k": "comps", "got": {"k": "exc", "x": "%s: %s" % (type(x).__name__, x)}}]}
    for k in ("comps", "wires", "nets", "texts", "drawing"):
        ev.append({"k": k, "got": {"k": k, "x": got[k]}})
    after = {os.path.join(a, x): open(os.path.join(a, x), "rb").read() for a, _, c in os.walk(folder) for x in c}
    ev.append({"k": "files", "got": {"k": "files", "x": {"source": all(after.get(p) == b for p, b in before.items()), "only": set(after) - set(before) == {out}}}})
    return {"meta": src, "ev": ev}


def main(a, b):
    res = []
    for i, sc in enumerate(json.load(open(a))):
        folder = os.path.realpath(tempfile.mkdtemp(prefix="verif_conv_"))
        cwd = os.getcwd()
        try:
            os.chdir(folder)
            res.append(run(sc, folder, i))
        except Exception:
            res.append({"error": traceback.format_exc()[-700:]})
        finally:
            os.chdir(cwd)
            shutil.rmtree(folder, ignore_errors=True)
    json.dump(res, open(b, "w"))


main(sys.argv[1], sys.argv[2])
