"""Checks D01..: reading and writing of waveform (RAW) files."""
import core

READ = "wave axis len tlen point at read export csv steps hold hwave missing names".split()
FOCUS = {
    "D01": READ,
    "D02": READ,
    "D06": ["convert"],
    "D04": ["outcome.add", "save.data", "save.kind", "outcome.save"],
    "D05": ["outcome.add", "outcome.import", "outcome.save", "outcome.source", "save.data", "save.kind", "source.kept"],
    "D03": READ + ["cut." + x for x in READ] + ["spoilt." + x for x in READ],
}
ALLK, ALLD, ALLS = '"tran","ac","noise","dc","op"', '"ltspice","qspice","ngspice","xyce"', '"normal","fast","ascii"'
# acts, kinds, dialects, storages, plots, steps, logs, cuts, number quick/thorough, depth
GEN = {
    "D01": [("wave axis len point at read export hold missing names", ALLK, ALLD, ALLS, 1, 2, '"yes"', "0", 500, 5000, 8),
            ("wave axis read hold export", ALLK, ALLD, ALLS, 2, 1, '"yes"', "0", 250, 3000, 12)],
    "D02": [("wave axis len point at export steps hold", ALLK, '"ltspice","qspice"', ALLS, 1, 3, '"yes","yes","no"', "0", 600, 6000, 8)],
    "D06": [("convert", ALLK, ALLD, ALLS, 2, 3, '"yes","yes","no"', "0", 500, 5000, 3)],
    "D03": [("wave axis export names len", ALLK, ALLD, ALLS, 3, 1, '"yes"', "0", 400, 4000, 6),
            ("wave axis export names read", ALLK, ALLD, ALLS, 2, 2, '"yes"', "1,2,4,9,20,50,100,170,300,500", 350, 4000, 7),
            ("wave axis len point export hold", ALLK, '"ltspice","qspice"', ALLS, 1, 3, '"short"', "0", 120, 1000, 6)],
}
WGEN = {
    "D04": [("add", ALLK, '"ltspice"', 0, 400, 4000, 7)],
    "D05": [("add import", '"tran","ac","noise","dc"', '"ltspice","qspice","ngspice"', 3, 250, 3000, 9),
            ("add import align", '"tran","ac"', '"ltspice","qspice","ngspice"', 3, 350, 4000, 10)],
}


def wprobe(t, rng):
    """corrupts one saved table"""
    ix = [i for i, e in enumerate(t["ev"]) if e["op"] == "save" and e["t"]]
    if not ix:
        return None
    tab = t["ev"][rng.choice(ix)]["t"]
    y = tab[rng.randrange(len(tab))]["y"]
    y[rng.randrange(len(y))] += 1
    return t


def run_write(ck):
    p = ck.prop
    ck.model("RawWriteMC", """SPECIFICATION Spec
CONSTANTS MaxT=%d MaxOps=%d
INVARIANTS InvSorted InvOwn InvUnion InvValues InvAgain
""" % (ck.scale(3, 4), ck.scale(3, 4)), expect=["DoAdd", "DoImport", "DoSave"], timeout=1200)
    scs = []
    for acts, kinds, dias, srcs, quick, thorough, depth in WGEN[p]:
        cfg = """INIT Init
NEXT Next
CONSTANTS Depth=%d Acts={%s} Kinds={%s} Dialects={%s} MaxSources=%d
INVARIANT Emit
""" % (depth, ",".join('"%s"' % a for a in acts.split()), kinds, dias, srcs)
        scs += ck.behaviours("RawWriteGen", cfg, ck.scale(quick, thorough), depth + 2)
    for i, s in enumerate(scs):
        s["variant"] = i
    traces = core.run_driver("rawwrite_drv.py", scs, timeout=ck.scale(300, 1500))
    ck.validate("RawWriteTrace", traces, FOCUS[p], scenarios=scs, driver="rawwrite_drv.py", chunk=1000, probe=wprobe)
    ck.assumptions += ["saved files are read back with spicelib's own reader (whose answers D01..D03 decide)"]


def probe(t, rng):
    """corrupts one recorded answer"""
    if t["f"]["cut"]:
        return None
    ix = [i for i, e in enumerate(t["ev"]) if e["r"]["k"] == "seq" and e["r"]["v"]]
    if not ix:
        return None
    v = t["ev"][rng.choice(ix)]["r"]["v"]
    j = rng.randrange(len(v))
    v[j] += 2
    return t


def run(ck):
    p = ck.prop
    if p in WGEN:
        return run_write(ck)
    if p == "D06":
        ck.model("RawConvertMC", """SPECIFICATION Spec
CONSTANTS MaxAsk=%d MaxVars=4
INVARIANTS InvOnce InvAxis InvAsked InvAll InvRefused
PROPERTY Stable
CHECK_DEADLOCK FALSE
""" % ck.scale(3, 5), expect=["Ask"], timeout=800)
    ck.model("RawMC", """SPECIFICATION Spec
CONSTANTS MaxVars=%d MaxPoints=2 MaxPlots=2 Header=1
INVARIANTS InvHeld InvOnce InvAxis InvWith
PROPERTIES Grows
""" % ck.scale(2, 3), expect=["DoAsk"], timeout=800)
    scs = []
    for acts, kinds, dias, stos, plots, steps, logs, cuts, quick, thorough, depth in GEN[p]:
        cfg = """INIT Init
NEXT Next
CONSTANTS Depth=%d Acts={%s} Kinds={%s} Dialects={%s} Storages={%s} MaxPlots=%d MaxSteps=%d Logs={%s} Cuts={%s}
INVARIANT Emit
""" % (depth, ",".join('"%s"' % a for a in acts.split()), kinds, dias, stos, plots, steps, logs, cuts)
        scs += ck.behaviours("RawGen", cfg, ck.scale(quick, thorough), depth + 2)
    for i, s in enumerate(scs):
        s["variant"] = i
    traces = core.run_driver("raw_drv.py", scs, timeout=ck.scale(300, 1500))
    ck.validate("RawTrace", traces, FOCUS[p], scenarios=scs, driver="raw_drv.py", chunk=1000, probe=probe)
    ck.assumptions += ["files are written by the harness in the forms documented for the four simulators; no simulator runs"]
