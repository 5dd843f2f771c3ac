"""Checks A01..: schematics of LTspice and QSPICE, edited and saved."""
import core

FOCUS = {"A01": ["query", "list", "value", "params", "place", "filelist", "filevalue", "fileparams", "fileplace", "rest", "saved", "notfound", "done", "library", "updated"],
         "A02": ["query", "defined", "undefined", "texts", "saved", "refused", "removed", "instructed", "updated"]}
GEN = {"A01": [("comps", 550, 6000, 14)], "A02": [("texts", 550, 6000, 14)]}


def probe(t, rng):
    """corrupts one recorded answer"""
    ix = [i for i, e in enumerate(t["ev"]) if e["o"]["k"] == "ok" and e["o"]["c"]]
    if not ix:
        return None
    o = t["ev"][rng.choice(ix)]["o"]
    r = rng.choice(sorted(o["c"]))
    o["c"][r]["x"] += 1
    o["p"]["nosuch"] = "1"
    return t


NET = ["written", "lines", "nets", "instructions", "libraries", "embedded", "sheets", "end"]


def probe_net(t, rng):
    ix = [i for i, e in enumerate(t["ev"]) if e["a"]["k"] == "net" and e["a"]["f"]["c"]]
    if not ix:
        return None
    c = rng.choice(t["ev"][rng.choice(ix)]["a"]["f"]["c"])
    c[1] += "x"
    c.append("y=1")
    return t


def run_net(ck):
    ck.model("QschNetMC", """SPECIFICATION Spec
CONSTANTS Side=%d Rots={%s}
INVARIANTS InvRight InvOne InvTurn
CHECK_DEADLOCK FALSE
""" % (ck.scale(1, 2), "0, 3, 10"), expect=["Label", "Place", "Begin", "Name"], timeout=ck.scale(300, 850))
    scs = ck.behaviours("QschNetGen", """INIT Init
NEXT Next
CONSTANTS Depth=6
INVARIANT Emit
""", ck.scale(700, 6000), 90, timeout=900)
    traces = core.run_driver("qnet_drv.py", scs, timeout=ck.scale(300, 1500))
    ck.validate("QschNetTrace", traces, NET, scenarios=scs, driver="qnet_drv.py", chunk=100, probe=probe_net)


CONV = ["converted", "components", "place", "rotation", "pins", "symbol", "texts of the component", "twin", "wires", "wire0", "wire net", "labels", "texts", "note", "instruction",
        "drawing", "source", "files"]


def probe_conv(t, rng):
    c = t["ev"][0]["got"]["x"]
    if not isinstance(c, list) or not c:
        return None
    c = rng.choice(c)
    k = rng.randrange(4)
    if k == 0:
        c["p"][0] += 25
    elif k == 1:
        c["rot"] = (c["rot"] + 2) % 16
    elif k == 2:
        c["v"] += "x"
    else:
        c["sym"]["pins"][0][1][0] += 25
    return t


def run_conv(ck):
    ck.model("AscQschMC", """SPECIFICATION Spec
CONSTANTS Side=%d
INVARIANTS InvJoined InvOrder InvFirst
CHECK_DEADLOCK FALSE
""" % ck.scale(1, 3), expect=["AddPin", "Place"], timeout=ck.scale(300, 850))
    scs = ck.behaviours("AscQschGen", """INIT Init
NEXT Next
CONSTANTS Depth=16
INVARIANT Emit
""", ck.scale(600, 6000), 20, timeout=900)
    traces = core.run_driver("conv_drv.py", scs, timeout=ck.scale(300, 1500))
    ck.validate("AscQschTrace", traces, CONV, scenarios=scs, driver="conv_drv.py", chunk=200, probe=probe_conv)


def run(ck):
    if ck.prop == "A03":
        return run_net(ck)
    if ck.prop == "A04":
        return run_conv(ck)
    ck.model("SchematicMC", """SPECIFICATION Spec
CONSTANTS Vals={"1k","2k"} MaxT=3 MaxN=%d
INVARIANTS InvForm InvComment InvTree InvUndo InvSet InvFile
PROPERTY Frame
CHECK_DEADLOCK FALSE
""" % ck.scale(3, 5), expect=["SetValue", "SetParam", "Move", "Remove", "Define", "Add", "RemoveInstr", "RemovePat", "Write", "Copy", "Reset"], timeout=ck.scale(300, 850))
    for kind, quick, thorough, depth in GEN[ck.prop]:
        scs = ck.behaviours("SchematicGen", """INIT Init
NEXT Next
CONSTANTS Depth=%d Kind="%s"
INVARIANT Emit
""" % (depth, kind), ck.scale(quick, thorough), depth + 25, timeout=600)
        traces = core.run_driver("sch_drv.py", scs, timeout=ck.scale(300, 1500))
        ck.validate("SchematicTrace", traces, FOCUS[ck.prop], scenarios=scs, driver="sch_drv.py", chunk=100, probe=probe)
