"""Checks E01..E05: the SPICE netlist editor."""
import json
import random

import core
import netlist as nl

TOP = ["nodes", "val", "prm", "par", "vals", "addc", "remc"]
SUBS = ["val.sub", "prm.sub", "par.sub", "vals.sub", "addc.sub", "remc.sub", "addi.sub", "remi.sub", "read.sub"]


def cl(kinds, *what):
    return ["%s.%s" % (w, k) for k in kinds for w in what]


ALLK = TOP + SUBS + ["addi", "remi", "remx", "reset", "reopen", "save", "read", "load"]
FOCUS = {
    "E01": cl(TOP + ["load", "read"], "text", "api", "reply"),
    "E02": cl(["reset", "reopen", "save"], "api", "reply", "journal") + ["orig"] + cl(["load"], "api", "reply") + cl(ALLK, "text"),
    "E03": cl(["addi", "remi", "remx", "addi.sub", "remi.sub"], "text", "api", "reply"),
    "E04": cl(SUBS, "text", "api", "reply") + ["stable"],
    "E05": cl(ALLK, "journal"),
}
ACTS = {
    "E01": ["Val Prm Par Vals Nodes AddC RemC Miss", "Val Prm Par ValS Nodes Save Reopen Read"],
    "E02": ["Val Prm Par ValS PrmS AddI RemC Reset Reopen Save", "Val ValS ParS AddC RemX RemCS Reset Reopen AddIS"],
    "E03": ["AddI RemI RemX AddP Val Par Reset Save", "AddI RemI RemX AddIS RemIS ValS Reopen"],
    "E04": ["ValS PrmS ParS Read Miss Val", "ValS PrmS ParS AddIS RemIS AddC RemCS Vals Reopen Val"],
    "E05": ["Val Prm Par Vals AddC RemC AddI RemI RemX Miss Reset", "ValS PrmS ParS AddIS RemIS Val RemCS AddC Read"],
}
MC = {
    "E01": ("Val Prm Par RemC", 3), "E02": ("Val ValS Par Reset Reopen", 3), "E03": ("AddI RemI AddIS Reset", 4),
    "E04": ("ValS Val AddIS Read Reopen", 3), "E05": ("Val ValS PrmS AddI Reset", 3),
}


def templates(ck, n):
    out = []
    for i in range(n):
        r = random.Random("%s/%s/tpl%d" % (ck.prop, ck.seed, i))
        t = nl.make(r)
        nl.selftest(*t)
        files, model, lib, inc = t
        init = [dict(v, key=k.split("/") if k else []) for k, v in model.items()]
        init += [dict(v, key=["#LIB"] + k.split("/")) for k, v in lib.items()]
        init += [dict(v, key=["#INC"] + (k.split("/") if k else [])) for k, v in inc.items()]
        out.append((files, init))
    return out


def data(tpl):
    return json.dumps({
        "tpl": [t[1] for t in tpl],
        "vals": {k: [nl.canon(a) for a, _ in v] for k, v in nl.VALS.items()},
        "keys": nl.CKEYS, "kvals": [nl.canon(a) for a, _ in nl.KVALS], "pvals": [nl.canon(a) for a, _ in nl.PVALS],
        "ins": [{"t": a, "q": b} for a, b in nl.INSTR], "sins": [{"t": a, "q": b} for a, b in nl.SUBINSTR],
        "comps": [{"t": "R", "n": ["in", "0"], "v": "5000", "k": {}}, {"t": "R", "n": ["a", "n7"], "v": "{rq}", "k": {"tol": "1"}},
                  {"t": "C", "n": ["in", "0"], "v": nl.canon("3n"), "k": {}}, {"t": "V", "n": ["q", "0"], "v": "SINE(0 1 50)", "k": {"Rser": "1"}}]})


def probe(t, rng, kinds):
    ev = t["ev"]
    ix = [i for i in range(1, len(ev)) if ev[i]["op"] != "reset" and ev[i]["op"] + (".sub" if ev[i].get("path") else "") in kinds]
    if not ix:
        return None
    e = ev[rng.choice(ix)]
    e["r"] = "bogus"
    for d in e["text"]:
        for c in d["c"].values():
            c["v"] += "x"
    for a in e["api"]:
        a["p"]["BOGUS"] = "1"
    e["j"] = e["j"] + [{"n": "Z", "v": "Z", "t": "Z"}]
    e["orig"] = e["stable"] = False
    return t


def run(ck):
    p = ck.prop
    acts, depth = MC[p]
    cfg = """SPECIFICATION Spec
CONSTANTS MaxOps=%d Acts={%s}
INVARIANTS InvReopen InvOwn InvReset
CONSTRAINT Cover
PROPERTIES Frame
""" % (depth + (0 if ck.quick else 1), ",".join('"%s"' % a for a in acts.split()))
    ck.model("EditorMC", cfg, expect=sorted({a.rstrip("S").lower() for a in acts.split()}), coverage=False, timeout=300 if ck.quick else 1500)
    scs = []
    for n, acts in enumerate(ACTS[p]):
        tpl = templates(ck, ck.scale(60, 400))
        if n:
            tpl = tpl[len(tpl) // 2:]
        for depth, num in ((8, ck.scale(150, 2000)), (20, ck.scale(60, 1000))):
            cfg = "INIT Init\nNEXT Next\nCONSTANTS Depth=%d MaxPath=%d Acts={%s}\nINVARIANT Emit\n" % (
                depth, 2, ",".join('"%s"' % a for a in acts.split()))
            for b in ck.behaviours("EditorGen", cfg, num, depth + 1, files={"templates.json": data(tpl)}):
                files, init = tpl[b["meta"] - 1]
                scs.append({"files": files, "init": init, "ops": b["ops"]})
    for i, s in enumerate(scs):
        s["variant"] = i
    traces = core.run_driver("editor_drv.py", scs, timeout=ck.scale(400, 3000))
    ck.validate("EditorTrace", traces, FOCUS[p], scenarios=scs, driver="editor_drv.py", chunk=300, probe=lambda t, rng: probe(t, rng, {c.split(".", 1)[1] for c in FOCUS[p] if "." in c}),
                describe=lambda e: {k: v for k, v in e.items() if k not in ("text", "api", "j")})
    ck.assumptions += ["netlists, values and directives come from a random generator of common SPICE syntax",
                       "an independent reader of the saved text (checked against the generator) gives its meaning"]
