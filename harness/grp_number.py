"""Checks N01..: numbers in engineering notation, read and written."""
import core

FOCUS = {"N01": ["read", "bad", "cmp", "calc", "text", "value"], "N02": ["fmt", "give", "text", "value", "file", "load"]}
# kind, quick, thorough, depth
GEN = {"N01": [("read", 1500, 20000, 12), ("write", 400, 3000, 14)], "N02": [("write", 1100, 12000, 18), ("read", 300, 3000, 12)]}


def probe(t, rng):
    """corrupts one recorded answer"""
    ix = [i for i, e in enumerate(t["ev"]) if e["r"].get("k") in ("num", "cmp", "got", "fmt", "file")]
    if not ix:
        return None
    e = t["ev"][rng.choice(ix)]
    r = e["r"]
    if r["k"] == "num":
        r["e"] += 1 if r["m"] else 0
        r["m"] += 1
    elif r["k"] == "cmp":
        r["eq"] = not r["eq"]
    else:
        x = r if r["k"] != "file" else r["f"][rng.choice(sorted(r["f"]))]
        x["t"], x["p"], x["x"] = x["t"] + "1", {"k": "none"}, {"k": "text"}
        if "v" in x:
            x["v"] = {"k": "num", "m": 77777777, "e": 97}
    return t


def run(ck):
    ck.model("NumberMC", """SPECIFICATION Spec
CONSTANTS MaxI=%d MaxF=%d Ds={0,7}
INVARIANTS InvRead InvUnit InvOne InvWrite
PROPERTY Reads
CHECK_DEADLOCK FALSE
""" % ck.scale((2, 1), (3, 2)), expect=["Sign", "Digit", "Dot", "Exponent", "Space", "Mult", "Unit", "End"], timeout=800)
    for kind, quick, thorough, depth in GEN[ck.prop]:
        scs = ck.behaviours("NumberGen", """INIT Init
NEXT Next
CONSTANTS Depth=%d Kind="%s"
INVARIANT Emit
""" % (depth, kind), ck.scale(quick, thorough), depth + 12, timeout=600)
        traces = core.run_driver("number_drv.py", scs, timeout=ck.scale(300, 1500))
        ck.validate("NumberTrace", traces, FOCUS[ck.prop], scenarios=scs, driver="number_drv.py", chunk=500, probe=probe)
