"""Performs editing sessions on the real SpiceEditor and records what it shows after every operation."""
import io
import json
import logging
import os
import shutil
import sys
import tempfile
import traceback
from decimal import Decimal

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import netlist as nl  # noqa: E402
from netlist import canon  # noqa: E402

from spicelib import SpiceEditor  # noqa: E402
from spicelib.editor.editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError  # noqa: E402
from spicelib.editor.primitives import Net  # noqa: E402
from spicelib.editor.spice_components import SpiceComponent  # noqa: E402

logging.disable(logging.CRITICAL)

RAW = {}
for _t in (nl.VALS,):
    for _k, _v in _t.items():
        for src, raws in _v:
            RAW.setdefault((_k, canon(src)), raws)
PRAW = {canon(a): b for a, b in nl.PVALS}
KRAW = {canon(a): b for a, b in nl.KVALS}
PATTERN = {".MEAS": r"\.meas.*", ".SAVE": r"\.SAVE", ".OPTIONS": r"\.opt[a-z]*\s", ".IC": r"\.ic"}


class Session:
    def __init__(self, sc, folder):
        self.sc, self.folder = sc, folder
        for fn, t in sc["files"].items():
            with open(os.path.join(folder, fn), "w", newline="") as f:
                f.write(t)
        self.file = os.path.join(folder, "main.net")
        self.orig = sc["files"]["main.net"]
        self.n = sc.get("variant", 0) * 7919
        self.e = SpiceEditor(self.file)
        self.reop = 0
        self.up = sc.get("variant", 0) % 2

    def pick(self, xs):
        self.n = (self.n * 1103515245 + 12345) % (1 << 31)
        return xs[(self.n >> 8) % len(xs)]

    # ------------------------------------------------------------------ observation
    def text(self):
        s = io.StringIO()
        self.e.save_netlist(s)
        return s.getvalue()

    def filetext(self):
        p = os.path.join(self.folder, "saved.net")
        self.e.save_netlist(self.pick([p, __import__("pathlib").Path(p)]))
        with open(p, encoding=self.e.encoding) as f:
            return f.read()

    def api(self):
        out, misc = [], True
        e = self.e

        def num(c, f, v):
            try:
                d = Decimal(v)
            except Exception:
                return True
            try:
                x = f()
            except Exception:
                return False
            return abs(Decimal(repr(float(x))) - d) <= abs(d) * Decimal("1e-9")

        def visit(path):
            nonlocal misc
            pre = "".join(x + ":" for x in path)
            style = self.pick([0, 1, 2]) if path else 0
            c, p = {}, {}
            if style == 0:
                o = e if not path else e.get_subcircuit(pre[:-1])
            elif style == 1:
                o = e.get_subcircuit(path[0])
                for x in path[1:]:
                    o = o.get_subcircuit(x)
            else:
                o = e[path[0]]
                for x in path[1:]:
                    o = o.get_component(x)
            refs = list(o.get_components())
            if len(set(refs)) != len(refs):
                misc = False
            if style != 2 and not set(refs) <= {x.reference for x in o} or refs and refs[-1] not in (e if not path else o.get_components()):
                misc = False
            for ref in refs:
                if style == 0 and path:
                    full, src = pre + ref, e
                    full = full.lower() if self.pick([0, 1]) else full
                else:
                    full, src = ref, o
                try:
                    v = canon(src.get_component_value(full) or None)
                except ValueNotFoundError:
                    v = "None"
                k = {a: canon(b) for a, b in src.get_component_parameters(full).items() if a != "Value"}
                n = list(src.get_component_nodes(full))
                t = ref[0].upper()
                comp = o.get_component(ref)
                if comp.reference.upper() != ref.upper() or canon(comp.value_str or None) != v:
                    misc = False
                if t not in "X" and not num(comp, lambda: src.get_component_floatvalue(full), v):
                    misc = False
                c[ref.upper()] = {"t": t, "n": n, "v": v.upper() if t == "X" else v, "k": k}
            q = o if style != 2 else o.subcircuit if path else e
            for name in q.get_all_parameter_names():
                if name.upper() in p:
                    misc = False
                p[name.upper()] = canon(q.get_parameter(name if self.pick([0, 1]) else name.lower()))
            if not path:
                try:
                    e.get_parameter("surely_missing")
                    misc = False
                except ParameterNotFoundError:
                    pass
                if sorted(set(n for x in c.values() for n in x["n"])) != sorted(e.get_all_nodes()):
                    misc = False
                for t in "RCX":
                    if sorted(r.upper() for r in e.get_components(t)) != sorted(r for r in c if r[0] == t):
                        misc = False
            out.append({"path": path, "c": c, "p": p})
            if len(path) < 4:
                for ref in sorted(c):
                    if c[ref]["t"] == "X":
                        visit(path + [ref])
        visit([])
        return out, misc

    def journal(self):
        out = []
        for u in self.e.netlist_updates:
            n, t, v = u.name, u.updates.name, u.value
            segs = n.split(":")
            if t in ("AddParameter", "UpdateParameter", "DeleteParameter"):
                segs[-1] = segs[-1].upper()
            if t.endswith("ComponentParameter"):
                segs[:-1] = [x.upper() for x in segs[:-1]]
            else:
                segs = [x.upper() for x in segs]
            v = canon(v)
            if t in ("AddInstruction", "UpdateInstruction", "DeleteInstruction"):
                v = " ".join(str(u.value).split())
            if t == "CloneSubcircuit" or t == "UpdateComponentValue" and segs[-1][0] == "X":
                v = v.upper()
            rec = {"n": ":".join(segs), "v": v, "t": t}
            if t != "CloneSubcircuit" or rec not in out:    # the same definition can be spelled in several ways
                out.append(rec)
        # by name, index and slice, and by counting, it is the same list
        ups = self.e.netlist_updates
        us, first = list(ups), {}
        for u in us:
            first.setdefault(u.name, u)
        same = len(us) == len(ups) and us == list(ups[:]) and all(ups[i] is u for i, u in enumerate(us)) and all(ups[n] is u for n, u in first.items())
        try:
            ups["no such name"]
            same = False
        except IndexError:
            pass
        if not same:
            out.append({"n": "?", "v": "the list differs from its entries by name or index", "t": "?"})
        return out

    def observe(self, ev):
        t1 = self.text()
        try:
            m = nl.parse(t1)
            ev["wf"] = True
        except nl.BadNetlist as x:
            m = {"": nl.blank()}
            ev["wf"] = False
            ev["why"] = str(x)
        ev["text"] = [dict(v, key=k.split("/") if k else []) for k, v in m.items()]
        ev["j"] = self.journal()
        try:
            ev["api"], ev["misc"] = self.api()
        except Exception as x:
            ev["api"], ev["misc"] = [], False
            ev["why"] = "api: " + traceback.format_exc()[-400:]
        t2 = self.filetext() if self.pick([0, 1]) else self.text()
        ev["stable"] = t1 == t2 and self.journal() == ev["j"]
        with open(self.file, newline="") as f:
            ev["orig"] = f.read() == self.orig
        return ev

    # ------------------------------------------------------------------ operations
    def rawval(self, ref, v):
        return self.pick(RAW.get((ref[0], v), [v]))

    def ref(self, r):
        return r.lower() if self.pick([0, 0, 1]) else r

    def sub(self, path):
        return self.e if not path else self.e.get_subcircuit(":".join(path))

    def inst(self, path):
        o = self.e
        for x in path:
            o = o.get_component(x)
        return o

    def do(self, op):
        e, k, path = self.e, op["op"], op.get("path", [])
        pre = "".join(x + ":" for x in path)
        if k == "val":
            r, v = op["ref"], self.rawval(op["ref"], op["v"])
            styles = [0, 0, 1, 2, 3, 4, 5, 6]
            if r[0] == "X" or r == "R99":
                styles = [0, 1, 5]
            st = self.pick(styles)
            full = pre + r
            if st == 0:
                e.set_component_value(self.ref(full), v)
            elif st == 1:
                e.set_element_model(self.ref(full), v if isinstance(v, str) else nl.canon(v))
            elif st == 2:
                e[full].value = v
            elif st == 3:
                if path:
                    self.inst(path)[r] = v
                else:
                    e[r] = v
            elif st == 4:
                e.set_component_values(**{full: v})
            elif st == 5:
                self.sub(path).set_component_value(r, v)
            else:
                self.inst(path + [r]).set_value(v)
        elif k == "vals":
            kw = {x["ref"]: self.rawval(x["ref"], x["v"]) for x in op["kv"]}
            st = self.pick([0, 1])
            if st == 0:
                e.set_component_values(**{pre + a: b for a, b in kw.items()})
            else:
                self.sub(path).set_component_values(**kw)
        elif k == "prm":
            v = None if op["v"] == "None" else self.pick(KRAW.get(op["v"], [op["v"]]))
            r, full = op["ref"], pre + op["ref"]
            st = self.pick([0, 0, 1, 2, 3])
            if st == 0:
                e.set_component_parameters(self.ref(full), **{op["k"]: v})
            elif st == 1:
                e[full].set_parameter(op["k"], v)
            elif st == 2:
                self.sub(path).set_component_parameters(r, **{op["k"]: v})
            else:
                self.inst(path + [r]).set_params(**{op["k"]: v})
        elif k == "par":
            v = None if op["v"] == "None" else self.pick(PRAW.get(op["v"], [op["v"]]))
            o, n = self.sub(path), op["k"] if self.up else op["k"].lower()
            if self.pick([0, 1]):
                o.set_parameter(n, v)
            else:
                o.set_parameters(**{n: v})
        elif k == "nodes":
            c = e.get_component(self.ref(op["ref"]))
            if self.pick([0, 1]):
                c.ports = list(op["nodes"])
            else:
                e[op["ref"]].ports = [Net(x) for x in op["nodes"]]
        elif k == "addi":
            t = op["ins"]["t"]
            self.sub(path).add_instruction(t + self.pick(["", "\n"]))
        elif k == "remi":
            return "true" if self.sub(path).remove_instruction(op["v"]) else "false"
        elif k == "remx":
            cm = op["cmds"]
            pat = r"\.(tran|AC)\b.*" if len(cm) > 1 else PATTERN[cm[0]]
            return "true" if self.sub(path).remove_Xinstruction(pat) else "false"
        elif k == "addc":
            c = op["comp"]
            o = self.sub(path)
            line = "%s %s %s%s\n" % (op["ref"], " ".join(c["n"]), c["v"], "".join(" %s=%s" % kv for kv in sorted(c["k"].items())))
            kw = {"insert_before": op["other"]} if op["where"] == "before" else {"insert_after": op["other"]} if op["where"] == "after" else {}
            comp = SpiceComponent(netlist=o, obj=line)
            if path and self.pick([0, 1]):
                self.inst(path).add_component(comp, **kw)
            else:
                o.add_component(comp, **kw)
        elif k == "remc":
            if path and self.pick([0, 1]):
                self.inst(path).remove_component(op["ref"])
            elif not path and self.pick([0, 1]):
                del e[op["ref"]]
            else:
                self.sub(path).remove_component(op["ref"])
        elif k == "reset":
            e.reset_netlist()
        elif k == "reopen":
            self.reop += 1
            self.file = os.path.join(self.folder, "re%d.net" % self.reop)
            if self.pick([0, 1]):
                e.save_netlist(self.file)
            else:
                e.save_as(self.file)
            with open(self.file, newline="") as f:
                self.orig = f.read()
            self.e = SpiceEditor(self.file)
        elif k == "save":
            self.filetext()
        elif k == "read":
            full = self.ref(pre + op["ref"])
            self.pick([e.get_component_value, e.get_component_parameters, e.get_component_nodes, e.get_component,
                       lambda r: e[r].value])(full)
        return "ok"

    def run(self):
        evs = [self.observe({"op": "load", "r": "ok"})]
        for op in self.sc["ops"]:
            ev = dict(op)
            try:
                ev["r"] = self.do(op)
            except ComponentNotFoundError:
                ev["r"] = "notfound"
            except RuntimeError:
                ev["r"] = "runtime"
            except Exception as x:
                ev["r"] = "exc:" + type(x).__name__
                ev["why2"] = traceback.format_exc()[-500:]
            try:
                self.observe(ev)
            except Exception as x:
                ev.update(wf=False, text=[], api=[], misc=False, stable=False, orig=True, j=[], why=traceback.format_exc()[-500:])
                evs.append(ev)
                break
            evs.append(ev)
        return {"init": self.sc["init"], "ev": evs}


def main():
    with open(sys.argv[1]) as f:
        scs = json.load(f)
    out = []
    for sc in scs:
        folder = tempfile.mkdtemp(prefix="verif_ed_")
        cwd = os.getcwd()
        try:
            os.chdir(folder)
            try:
                out.append(Session(sc, folder).run())
            except Exception:
                b = {"op": "load", "r": "exc", "wf": False, "text": [], "api": [], "misc": False, "stable": True, "orig": True,
                     "j": [], "why": traceback.format_exc()[-600:]}
                out.append({"init": sc["init"], "ev": [b]})
        finally:
            os.chdir(cwd)
            shutil.rmtree(folder, ignore_errors=True)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
