"""Checks R01..R07: the batch runner."""
ALL_OPS = "run now rel cbend relproc tick query info wait inew inext next wres gres clean edit swadd swclr".split()

FOCUS = {
    "R01": ["reply.run", "start.set", "live.set", "query.activecount", "query.active"],
    "R02": ["query.runs", "query.ok", "query.fail", "query.active", "query.activecount", "query.done", "info.runs",
            "info.retcode", "info.exception", "info.times", "inv.once", "inv.accounted", "end.thread", "live.set"],
    "R03": ["start.content", "start.unique", "start.place", "start.name", "start.switches", "start.timeout",
            "end.content", "info.edits", "gres.edits", "info.paths"],
    "R04": ["cb.once", "cb.args", "cb.afterend", "cb.rawarg", "cb.files", "end.thread", "reply.wres", "reply.gres",
            "info.callback", "inv.callback", "reply.rel", "reply.run"],
    "R05": ["reply.wait", "reply.run", "reply.now", "reply.wres", "reply.next", "reply.inext"],
    "R06": ["reply.inext", "reply.next", "inv.iter"],
    "R07": ["clean.userfiles", "clean.left", "clean.running", "inv.clean"],
}
CORE = "Run1 Rel RelOk CbEnd Query"
ACTS = {
    "R01": [CORE + " Run Tick RunF", CORE + " Run Tick RunP RelP"],
    "R02": [CORE + " Run Now Tick Wait Info INew INext", CORE + " Run RunP RelP Now Info WRes Clean"],
    "R03": [CORE + " Run Now Edit Sw SwC Info GRes Clean", CORE + " Run Edit Sw Info GRes INew INext"],
    "R04": [CORE + " Run RunF GRes WRes Info", "RunF RunP Run Rel RelOk RelP CbEnd GRes WRes Info Query INew INext"],
    "R05": [CORE + " Run Wait Tick Now", CORE + " Wait Tick WRes INew INext RunF"],
    "R06": [CORE + " Edit INew INext Run", "Run1 RunF RunP RelP RelOk Rel CbEnd INew INext Edit Tick Now Wait"],
    "R07": [CORE + " Run Now Clean", CORE + " Clean RunF RunP RelP Wait INew INext"],
}
MC = {  # acts, runs, par, outs, cbs, now, waitedOnly, properties, needed invariants are all checked
    "R01": [("Run Rel CbEnd Tick", 3, 2, '"ok","fail"', '"none","fun"', 3, "TRUE", "Monotone"),
            ("Run Rel CbEnd Tick", 2, 1, '"ok","fail"', '"none","fun"', 6, "TRUE", "Monotone Returns")],
    "R02": [("Run Rel Query Now", 3, 2, '"ok","noraw","fail"', '"none"', 3, "FALSE", "Monotone")],
    "R03": [("Run Rel Query Now", 3, 2, '"ok","fail"', '"none"', 3, "TRUE", "Monotone")],
    "R04": [("Run Rel CbEnd WRes", 2, 2, '"ok","noraw","fail"', '"none","fun"', 3, "TRUE", "Monotone Returns")],
    "R05": [("Run Rel CbEnd Wait Tick", 2, 2, '"ok","fail"', '"none","fun"', 6, "TRUE", "Monotone Returns"),
            ("Run Rel Wait Tick", 3, 2, '"ok","fail"', '"none"', 3, "TRUE", "Monotone")],
    "R06": [("Run Rel INew INext Tick", 3, 2, '"ok","noraw","fail"', '"none"', 3, "TRUE", "Monotone")],
    "R07": [("Run Rel Clean Query", 3, 2, '"ok","noraw","fail"', '"none"', 3, "TRUE", "Monotone")],
}
INVS = "InvSlots InvOnce InvAccount InvCallback InvClean InvIter InvBlocked InvExhaust InvWaitTrue"


RELEVANT = {
    "R01": lambda e: e["op"] == "run" and e["r"]["k"] in ("task", "blocked"),
    "R02": lambda e: e["op"] in ("query", "info"),
    "R03": lambda e: e["start"],
    "R04": lambda e: e["cb"] or e["op"] in ("gres", "wres"),
    "R05": lambda e: e["op"] == "wait" and e["r"]["k"] in ("true", "false"),
    "R06": lambda e: e["op"] == "inext",
    "R07": lambda e: e["op"] == "clean",
}


def make_probe(prop):
    def probe(t, rng):
        """corrupts one observed event of a recorded trace"""
        ix = [i for i, e in enumerate(t["ev"]) if not e["skip"] and RELEVANT[prop](e)]
        if not ix:
            return None
        e = t["ev"][rng.choice(ix)]
        if e["op"] == "query":
            f = rng.choice(["okn", "failn", "n", "nact", "done"])
            e[f] = [99] if f == "done" else e[f] + 1
        elif e["op"] == "info":
            e["inf"] = e["inf"][1:] if e["inf"] else [{"k": 99}]
        elif e["op"] == "clean":
            f = rng.choice(["keep", "left"])
            if f == "left" and not e["left"]:
                f = "keep"
            e["keep"] = False
        elif e["cb"]:
            c = e["cb"][0]
            f = rng.choice(["args", "hasraw", "ended", "paths"])
            c[f] = not c[f]
        elif prop == "R03":
            x = e["start"][0]
            f = rng.choice(["ed", "fresh", "place", "named", "sw", "tmo"])
            x[f] = [8, 8] if f == "ed" else ["bogus"] if f == "sw" else 77 if f == "tmo" else False
        else:
            e["r"] = {"k": {"true": "false", "false": "true", "blocked": "task", "task": "blocked"}.get(e["r"]["k"], "bogus"),
                      "v": e["r"]["v"] + 1}
        return t
    return probe


SIM = ["switch", "create", "create.name", "available", "command", "program", "console", "cwd", "result", "ended", "libraries"]


def probe_sim(t, rng):
    """corrupts one command or answer"""
    ix = [e for e in t["ev"] if e["op"] in ("run", "direct", "ask") and (e["a"].get("cmd") or e["a"].get("q"))]
    if not ix:
        return None
    e = rng.choice(ix)["a"]
    q = e.get("q") or e["cmd"]
    q[rng.randrange(len(q))] += "x"
    return t


def run_sim(ck):
    import core
    ck.model("SimulatorMC", """SPECIFICATION Spec
CONSTANT MaxSw=%d
INVARIANTS InvOwn InvNet InvApart InvTable
CHECK_DEADLOCK FALSE
""" % ck.scale(1, 2), expect=["Add", "Clear", "Mode", "Launch", "Start"], timeout=ck.scale(300, 850))
    scs = ck.behaviours("SimulatorGen", """INIT Init
NEXT Next
CONSTANT Depth=12
INVARIANT Emit
""", ck.scale(600, 6000), 14)
    traces = core.run_driver("sim_drv.py", scs, timeout=ck.scale(400, 3000))
    ck.validate("SimulatorTrace", traces, SIM, scenarios=scs, driver="sim_drv.py", chunk=150, probe=probe_sim)
    ck.assumptions += ["shell scripts that record their words stand in for the simulators; the platform is Linux"]


def run(ck):
    p = ck.prop
    if p == "R08":
        return run_sim(ck)
    for acts, runs, par, outs, cbs, now, w, props in MC[p]:
        if not ck.quick:
            now += 3
        cfg = """SPECIFICATION Spec
CONSTANTS MaxRuns=%d MaxPar=%d Cbs={%s} Outs={%s} MaxNow=%d WaitedOnly=%s Acts={%s}
INVARIANTS %s
PROPERTIES %s
""" % (runs, par, cbs, outs, now, w, ",".join('"%s"' % a for a in acts.split()), INVS, props)
        ck.model("RunnerMC", cfg, expect=["Do" + a for a in acts.split()], timeout=300)
    scs = []
    for n, acts in enumerate(ACTS[p]):
        for depth, num, runs in ((18, ck.scale(60, 400), 4), (34, ck.scale(70, 900), 7), (60, ck.scale(15, 250), 10)):
            cfg = """INIT Init
NEXT Next
CONSTANTS MaxRuns=%d Depth=%d Acts={%s} Pars={1,2,3} Tmos={%s}
INVARIANT Emit
""" % (runs, depth, ",".join('"%s"' % a for a in acts.split()), "8" if p == "R05" else "0, 8")
            scs += ck.behaviours("RunnerGen", cfg, num, depth + 1)
    for i, s in enumerate(scs):
        s["variant"] = i
    import core
    traces = core.run_driver("runner_drv.py", scs, timeout=ck.scale(400, 3000))
    focus = FOCUS[p] + ["diverged"]
    ck.validate("RunnerTrace", traces, focus, scenarios=scs, driver="runner_drv.py", chunk=400, probe=make_probe(p))
    ck.assumptions += ["a stand-in simulator whose runs are ended by the driver replaces the external executable",
                       "clock values seen by the code under test are virtual; sleeping only yields",
                       "calls of one runner are made from one thread at a time"]
