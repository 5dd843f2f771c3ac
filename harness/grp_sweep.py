"""Checks W01..: sweeps, stepped simulations and tolerance analyses."""
import core

FOCUS = {"W01": ["set", "dim", "bad", "total", "run", "info", "export"], "W02": ["new", "list", "open", "next", "nested"],
         "W03": ["bench.wc", "analysis.wc", "split", "keep", "give"], "W04": ["bench.fwc", "analysis.fwc", "found", "keep", "give"],
         "W05": ["bench.qs", "analysis.qs", "share.qs", "share.wc", "keep", "give"], "W06": ["bench.mc", "analysis.mc", "keep", "give"],
         "W07": ["value", "minmax", "keep", "callback", "split", "give"]}
GEN = {"W01": ("step", 500, 5000, 9), "W02": ("iter", 2500, 30000, 6)}


# kinds of analyses, with numbers of behaviours (quick, thorough)
TOLER = {"W03": [("wc", False, 1500, 12000)], "W04": [("fwc", False, 1000, 8000)], "W05": [("qs", False, 1200, 10000), ("wc", False, 700, 6000)],
         "W06": [("mc", False, 1000, 8000), ("mc", True, 90, 400)], "W07": [("wc", False, 500, 6000), ("qs", False, 350, 4000), ("mc", False, 450, 5000), ("fwc", False, 150, 1500)]}


def probe_tol(t, rng, kinds=("sims", "bench")):
    """corrupts one recorded circuit or answer"""
    ix = [i for i, e in enumerate(t["ev"]) if e["r"]["k"] in kinds]
    if not ix:
        return None
    r = t["ev"][rng.choice(ix)]["r"]
    if r["k"] == "num":
        r["v"] = r["v"] + 1 if isinstance(r["v"], int) else 0
    elif r["k"] == "share":
        if not r["v"]:
            return None
        r["v"][rng.choice(sorted(r["v"]))][0] += 30
    else:
        infos = r["info"] if isinstance(r["info"], list) else [r["info"]]
        if not infos:
            return None
        i = rng.choice(infos)
        i["ins"] = sorted(set(i["ins"]) ^ {rng.randint(0, 9)})
    return t


def tolerance(ck):
    ck.model("ToleranceMC", """SPECIFICATION Spec
CONSTANTS N=3 MaxF=%d MaxJ=%d
INVARIANTS InvCount InvSearch InvBook
PROPERTIES Found SimulatesAll
""" % (ck.scale(1, 2), ck.scale(3, 5)), expect=["Count", "Try", "Turn", "End", "Give", "Prepare", "Simulate", "Analyse", "Reset"], timeout=800)
    kinds = ("sims", "bench") + {"W05": ("share",), "W07": ("num",)}.get(ck.prop, ())
    for cls, big, quick, thorough in TOLER[ck.prop]:
        depth = 10 if big else 20
        cfg = """INIT Init
NEXT Next
CONSTANTS Depth=%d Class="%s" Big=%s
INVARIANT Emit
""" % (depth, cls, "TRUE" if big else "FALSE")
        scs = ck.behaviours("ToleranceGen", cfg, ck.scale(quick, thorough), depth + 14, timeout=600)
        traces = core.run_driver("toler_drv.py", scs, timeout=ck.scale(300, 1500))
        ck.validate("ToleranceTrace", traces, FOCUS[ck.prop], scenarios=scs, driver="toler_drv.py", chunk=100 if big else 500, probe=None if big else lambda t, rng: probe_tol(t, rng, kinds))


def probe(t, rng):
    """corrupts one recorded answer"""
    ix = [i for i, e in enumerate(t["ev"]) if (e["r"]["k"] == "seq" and e["r"]["v"]) or (e["r"]["k"] == "runs" and e["r"]["circuits"])]
    if not ix:
        return None
    r = t["ev"][rng.choice(ix)]["r"]
    if r["k"] == "runs":
        c = rng.choice(r["circuits"])
        c[rng.choice(sorted(c))] += 1
    else:
        j = rng.randrange(len(r["v"]))
        if isinstance(r["v"][j], dict):
            k = rng.choice(sorted(r["v"][j]) or [None])
            if k is None:
                return None
            r["v"][j][k] += 1
        else:
            r["v"][j] = [r["v"][j][0] + 1, r["v"][j][1]] if isinstance(r["v"][j], list) else r["v"][j] + 1
    return t


def run(ck):
    p = ck.prop
    if p in TOLER:
        return tolerance(ck)
    ck.model("SweepMC", """SPECIFICATION Spec
CONSTANTS MaxDims=%d MaxVals=%d
INVARIANTS InvPrefix InvAll
PROPERTY Ends
""" % (ck.scale(3, 3), ck.scale(2, 4)), expect=["Advance", "Exhausted", "Simulate", "Finish"], timeout=800)
    mode, quick, thorough, depth = GEN[p]
    cfg = """INIT Init
NEXT Next
CONSTANTS Depth=%d Mode="%s"
INVARIANT %s
""" % (depth, mode, "EmitIter" if mode == "iter" else "EmitStep")
    scs = ck.behaviours("SweepGen", cfg, ck.scale(quick, thorough), depth + 4)
    traces = core.run_driver("sweep_drv.py", scs, timeout=ck.scale(300, 1500))
    ck.validate("SweepTrace", traces, FOCUS[p], scenarios=scs, driver="sweep_drv.py", chunk=1000, probe=probe)
