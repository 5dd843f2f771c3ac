"""Checks L01..: reading of simulation logs and exported data."""
import core

ASK = "names steps col value cond vcond at stat split unknown export script".split()
FOCUS = {"L01": ASK, "L02": ["export", "script", "split", "col"], "L03": ASK}
LT, ALLF = '"ltlog","mout"', '"real","cart","polar","db"'
# acts, dialects, forms, steps, gaps, quick, thorough, depth
GEN = {
    "L01": [("names steps col value cond at stat unknown split", LT, ALLF, 5, "TRUE,FALSE", 600, 7000, 9),
            ("names steps col value cond", LT, ALLF, 14, "TRUE,FALSE", 150, 1500, 9)],
    "L02": [("export split script col", LT + ',"qspice"', ALLF, 4, "TRUE,FALSE", 500, 5000, 6)],
    "L03": [("names steps col value cond at stat unknown", '"qspice"', '"real"', 5, "TRUE,FALSE", 400, 4000, 9),
            ("names steps col value cond", '"qspice"', '"real"', 14, "TRUE,FALSE", 150, 1500, 9)],
}


REPORT = {"L04": ("four", 4, 400, 4000, 3), "L05": ("text", 4, 600, 6000, 4), "L06": ("op", 1, 400, 3000, 1)}


def rprobe(t, rng):
    """corrupts one recorded answer"""
    ix = [i for i, e in enumerate(t["ev"]) if e["r"]["k"] == "seq" and e["r"]["v"]]
    if not ix:
        return None
    v = t["ev"][rng.choice(ix)]["r"]["v"]
    j = rng.randrange(len(v))
    if isinstance(v[j], dict):
        k = rng.choice([k for k in v[j] if isinstance(v[j][k], int)])
        v[j][k] += 1
    else:
        v[j] = [v[j][0] + 1, v[j][1]] if isinstance(v[j], list) else v[j] + 1 if isinstance(v[j], int) else v[j] + "x"
    return t


def run_report(ck):
    kind, n, quick, thorough, depth = REPORT[ck.prop]
    ck.model("ReportMC", """SPECIFICATION Spec
CONSTANTS MaxRuns=%d MaxRows=2 Val=2 MaxDevs=2
INVARIANTS InvPart InvAll InvLines
""" % ck.scale(2, 3), expect=["ReadInfo", "ReadRow", "ReadTitle", "ReadName", "ReadParam"], timeout=800)
    scs = ck.behaviours("ReportGen", """INIT Init
NEXT Next
CONSTANTS Depth=%d Kind="%s" MaxN=%d
INVARIANT Emit
""" % (depth, kind, n), ck.scale(quick, thorough), depth + 2)
    for i, s in enumerate(scs):
        s["variant"], s["kind"] = i, kind
    traces = core.run_driver("report_drv.py", scs, timeout=ck.scale(300, 1500))
    ck.validate("ReportTrace", traces, ["signals", "analyses", "fexport", "data", "run", "var", "reformat", "tool", "points"],
                scenarios=scs, driver="report_drv.py", chunk=1000, probe=rprobe)
    ck.assumptions += ["files are written by the harness in the forms LTspice uses; no simulator runs"]


def probe(t, rng):
    """corrupts one recorded answer"""
    ix = [i for i, e in enumerate(t["ev"]) if e["r"]["k"] in ("seq", "steps") and e["r"]["v"]
          or e["r"]["k"] == "tables" and e["r"]["t"] and e["r"]["t"][-1]]
    if not ix:
        return None
    r = t["ev"][rng.choice(ix)]["r"]
    if r["k"] == "tables":
        c = rng.choice(r["t"][-1])
        c["name"] += "x"
    elif r["k"] == "steps":
        r["v"][rng.randrange(len(r["v"]))] += 7
    else:
        v = rng.choice(r["v"])
        v[:] = [v[0] + 1, v[1]] if v else [3, 0]
    return t


def run(ck):
    p = ck.prop
    if p in REPORT:
        return run_report(ck)
    ck.model("LogMC", """SPECIFICATION Spec
CONSTANTS MaxN=%d MaxMeas=2 MaxVars=%d Val=2
INVARIANTS InvPart InvAll InvQuery InvStats InvTable
""" % (ck.scale(2, 3), ck.scale(1, 2)), expect=["ReadStep", "ReadMeas", "ReadRow"], timeout=800)
    scs = []
    for acts, dias, forms, n, gaps, quick, thorough, depth in GEN[p]:
        cfg = """INIT Init
NEXT Next
CONSTANTS Depth=%d Acts={%s} Dialects={%s} Forms={%s} MaxN=%d Gaps={%s}
INVARIANT Emit
""" % (depth, ",".join('"%s"' % a for a in acts.split()), dias, forms, n, gaps)
        scs += ck.behaviours("LogGen", cfg, ck.scale(quick, thorough), depth + 2)
    for i, s in enumerate(scs):
        s["variant"] = i
    traces = core.run_driver("log_drv.py", scs, timeout=ck.scale(300, 1500))
    ck.validate("LogTrace", traces, FOCUS[p], scenarios=scs, driver="log_drv.py", chunk=1000, probe=probe)
    ck.assumptions += ["files are written by the harness in the forms the simulators use; no simulator runs"]
