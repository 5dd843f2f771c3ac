"""Checks S01..S04: the simulation server and its clients."""
import core

FOCUS = {
    "S01": ["reply.open", "reply.launch", "reply.next", "reply.idle", "reply.fetch", "reply.fetchx", "reply.missing", "reply.giveup",
            "client.started", "client.stored", "client.completed", "fetch.content", "fetch.files", "start.set",
            "live.set", "live.slots", "diverged"],
    "S02": ["status.runs", "status.closed", "session.unique", "reply.foreign", "reply.unknown", "reply.close",
            "reply.sources", "reply.launch", "start.content", "start.dep", "files.lost", "files.others", "diverged"],
    "S03": ["files.left", "files.others", "stop.threads", "stop.port", "reply.stop", "reply.close", "diverged"],
    "S04": ["status.runs", "reply.launch", "reply.next", "reply.idle", "reply.fetch", "fetch.content", "fetch.files",
            "live.slots", "live.set", "start.set", "client.started", "client.stored", "files.lost",
            "stop.threads", "diverged"],
}
BASE = "Open Launch End Next Fetch"
ACTS = {
    "S01": [BASE + " EndOk FetchX Missing", BASE + " GiveUp FetchX LaunchD"],
    "S02": [BASE + " Foreign Unknown Close LaunchX", "Open Launch LaunchD Sources EndOk Next Fetch Close LaunchX Foreign"],
    "S03": [BASE + " Close Stop", "Open Launch LaunchD EndOk End Close Stop Fetch Next"],
    "S04": ["Open Launch Launch2 Race EndOk Unknown", "Open Launch Launch2 Race End Next Fetch Close Unknown"],
}
MC = {
    "S01": [("Open Launch End Next Fetch GiveUp", 3, 2, 2, '"ok","exc"', "Isolated Returns")],
    "S02": [("Open Launch End Next Fetch Close", 3, 2, 2, '"ok"', "Isolated")],
    "S03": [("Open Launch End Next Fetch Close Stop", 3, 2, 2, '"ok"', "Isolated Drains")],
    "S04": [("Open Launch End Next Fetch Close Stop", 3, 2, 2, '"ok"', "Isolated Drains")],
}
INVS = "InvSlots InvOnce InvCount InvKept InvGone InvEnded InvBlock"


def make_probe(prop):
    def probe(t, rng):
        """corrupts one observed event of a recorded trace"""
        if prop == "S03":
            ix = [i for i, e in enumerate(t["ev"]) if not e["skip"] and e["op"] in ("fetch", "close", "stop")]
        elif prop == "S02":
            ix = [i for i, e in enumerate(t["ev"]) if not e["skip"] and (e["start"] or e["status"] and e["obs"])]
        else:
            ix = [i for i, e in enumerate(t["ev"]) if not e["skip"] and e["op"] in ("launch", "next", "fetch", "race")]
        if not ix:
            return None
        e = t["ev"][rng.choice(ix)]
        if prop == "S03":
            e["keep"] = False
        elif prop == "S02":
            if e["start"]:
                e["start"][0]["content"] = False
            else:
                e["status"][0] = {"refused": False, "v": [77]}
        else:
            e["r"] = {"k": e["r"]["k"], "v": e["r"]["v"] + 1}
        return t
    return probe


def run(ck):
    p = ck.prop
    for acts, runs, cl, par, outs, props in MC[p]:
        if not ck.quick:
            runs, cl = runs + 1, cl + 1
        cfg = """SPECIFICATION Spec
CONSTANTS MaxRuns=%d MaxClients=%d MaxPar=%d Outs={%s} Acts={%s}
INVARIANTS %s
PROPERTIES %s
""" % (runs, cl, par, outs, ",".join('"%s"' % a for a in acts.split()), INVS, props)
        ck.model("ServerMC", cfg, expect=["Do" + a for a in acts.split()], timeout=900)
    if p == "S04":
        for tasks in (2, 3):
            ck.model("Update", """SPECIFICATION Spec
CONSTANTS Tasks=%d Locked=TRUE Passes=%d
INVARIANTS OnlyEnded Once Kept NoFailure
""" % (tasks, ck.scale(2, 4)), expect=["Begin", "Look", "End"])
    scs = []
    for acts in ACTS[p]:
        for depth, num, runs, cl in ((14, ck.scale(90, 500), 4, 2), (26, ck.scale(70, 900), 7, 3),
                                     (45, ck.scale(15, 200), 12, 3)):
            cfg = """INIT Init
NEXT Next
CONSTANTS MaxRuns=%d MaxClients=%d Depth=%d Acts={%s} Pars={1,2,3}
INVARIANT Emit
""" % (runs, cl, depth, ",".join('"%s"' % a for a in acts.split()))
            scs += ck.behaviours("ServerGen", cfg, num, depth + 1)
    for i, s in enumerate(scs):
        s["variant"] = i
    traces = core.run_driver("server_drv.py", scs, timeout=ck.scale(400, 3000))
    ck.validate("ServerTrace", traces, FOCUS[p], scenarios=scs, driver="server_drv.py", chunk=400, probe=make_probe(p))
    ck.assumptions += ["a stand-in simulator whose runs are ended by the driver replaces the external executable",
                       "server and clients run in one process and talk over the loopback network"]
