"""Independent reading and random generation of SPICE netlists (shared by the editor checks; no spicelib code).

A netlist is represented as a flat map from definition paths to contents:
  {"": content of the main circuit, "AMP": ..., "AMP/INNER": ...}
  content = {"c": {REF: {"t","n","v","k"}}, "p": {NAME: val}, "i": [{"t","q"}], "m": [comment]}
"""
import re
from decimal import Decimal, InvalidOperation

SUFF = [("MEG", 6), ("T", 12), ("G", 9), ("K", 3), ("U", -6), ("µ", -6), ("N", -9), ("P", -12), ("F", -15)]
NUM = re.compile(r"^([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)(Meg|MEG|meg|[TGkKmuµnpf])?$")


def dec(x):
    s = format(x.normalize(), "f") if x else "0"
    return s


def canon(x):
    """Canonical text of a value: exact decimal for SPICE numbers, otherwise the text with single spaces."""
    if x is None:
        return "None"
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, (list, tuple)):
        return ",".join(canon(y) for y in x)
    if isinstance(x, (int, float)):
        return dec(Decimal("%.12g" % x if isinstance(x, float) else int(x)))
    s = str(x).strip()
    if len(s) > 1 and s[0] == s[-1] == '"':
        s = s[1:-1].strip()
    m = NUM.match(s)
    if m:
        try:
            d = Decimal(m.group(1))
        except InvalidOperation:
            return s
        u = m.group(2)
        if u == "m":
            d = d.scaleb(-3)
        elif u:
            d = d.scaleb(dict(SUFF)[u.upper()])
        return dec(d)
    s = re.sub(r"\s+", " ", s)
    s = re.sub(r"\s*([={}(),*/])\s*", r"\1", s)
    return s


# ---------------------------------------------------------------------------------------------------- reading
NODES = {"R": 2, "C": 2, "L": 2, "V": 2, "I": 2, "D": 2, "B": 2, "E": 2, "F": 2, "G": 2, "H": 2, "J": 3, "S": 4, "T": 4, "W": 3, "K": 2}
KEYVAL = re.compile(r"(?<=\s)(\w+)\s*=\s*(?=\S)")


def logical_lines(text):
    """Physical lines joined at '+' marks and at unclosed brackets; end-of-line comments are cut."""
    out = []
    depth = 0
    for ln in re.split(r"\r\n|\n\r|\n|\r", text):
        st = ln.lstrip()
        if depth == 0 and (not st or st[0] == "*"):
            out.append(ln)
            continue
        if st.startswith("+") and depth == 0 or st.startswith("+") and depth > 0:
            add, glue = st[1:], True
        elif depth > 0:
            add, glue = ln, True
        else:
            add, glue = ln, False
        add = add.split(";")[0]
        d = sum(add.count(c) for c in "({[") - sum(add.count(c) for c in ")}]")
        if glue:
            k = len(out) - 1
            while out[k].lstrip()[:1] in ("*", ""):
                k -= 1
            out[k] += " " + add
            depth += d
        else:
            out.append(add)
            depth = d
    return out


def split_params(s):
    """'a b k=v w={x y}' -> ('a b', [(k, v), ...]); brackets and quotes are opaque."""
    marks, depth, q = [], 0, None
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            if c == q:
                q = None
        elif c in "\"'":
            q = c
        elif c in "({[":
            depth += 1
        elif c in ")}]":
            depth -= 1
        elif c == "=" and depth == 0 and s[i - 1:i] not in ("<", ">", "!", "="):
            m = re.search(r"(\w+)\s*$", s[:i])
            if m:
                marks.append((m.start(), m.group(1), i + 1))
        i += 1
    if not marks:
        return s.strip(), []
    out = []
    for n, (st, k, vs) in enumerate(marks):
        e = marks[n + 1][0] if n + 1 < len(marks) else len(s)
        v = s[vs:e].strip()
        out.append((k, v))
    return s[:marks[0][0]].strip(), out


def component(line):
    line = line.strip()
    toks = line.split()
    ref = toks[0].upper()
    t = ref[0]
    if t in "XQMN" or t not in NODES:
        head, ks = split_params(line)
        hd = head.split()
        hd = [h for h in hd if h.lower() != "params:"]
        return ref, {"t": t, "n": hd[1:-1], "v": canon(hd[-1]), "k": {k: canon(v) for k, v in ks}}
    n = NODES[t]
    nodes = toks[1:1 + n]
    rest = re.match(r"\s*\S+(?:\s+\S+){%d}\s*(.*)$" % n, line, re.S).group(1)
    if t in "EFGHSWK":
        return ref, {"t": t, "n": nodes, "v": canon(rest), "k": {}}
    if t == "B":
        m = re.match(r"([VIBRvibr])\s*=", rest)
        body, ks = split_params(rest[m.end():])
        return ref, {"t": t, "n": nodes, "v": canon(m.group(1).upper() + "=" + body), "k": {k: canon(v) for k, v in ks}}
    if t in "RCL":
        m = re.match(t + r"\s*=\s*", rest, re.I)
        if m:
            rest = rest[m.end():]
    head, ks = split_params(" " + rest)
    if t == "T":
        head = "None"
    return ref, {"t": t, "n": nodes, "v": canon(head), "k": {k: canon(v) for k, v in ks}}


OWN = ("***** SPICEEDITOR", "***** ENDS SPICEEDITOR", "* SPICEEDITOR")


class BadNetlist(Exception):
    pass


def blank():
    return {"c": {}, "p": {}, "i": [], "m": []}


def parse(text, fragment=False):
    """Flat model of a netlist text; raises BadNetlist when the text is not a well formed netlist."""
    model = {"": blank()}
    stack = []
    key = ""
    ended = False
    ctl = None
    for ln in logical_lines(text):
        st = ln.strip()
        if not st:
            continue
        if st[0] == "*":
            if not st.upper().startswith(OWN):
                model[key]["m"].append(re.sub(r"\s+", " ", st))
            continue
        if ended:
            raise BadNetlist("statement after .END: " + st)
        if ctl is not None:
            ctl.append(st)
            if st.upper().startswith(".ENDC"):
                model[key]["i"].append({"t": " | ".join(ctl), "q": ".CONTROL"})
                ctl = None
            continue
        if st[0] == ".":
            cmd = st.split()[0].upper()
            if cmd == ".SUBCKT":
                head, ks = split_params(st)
                hd = [h for h in head.split() if h.lower() != "params:"]
                name = hd[1].upper()
                stack.append(key)
                key = (key + "/" if key else "") + name
                if key in model:
                    raise BadNetlist("subcircuit defined twice: " + key)
                model[key] = blank()
                model[key]["i"].append({"t": ".subckt " + " ".join(hd[2:]) + "".join(" %s=%s" % (k, canon(v)) for k, v in ks),
                                        "q": ".SUBCKT"})
            elif cmd == ".ENDS":
                if not stack:
                    raise BadNetlist(".ENDS without .SUBCKT")
                w = st.split()
                if len(w) > 1 and w[1].upper() != key.split("/")[-1]:
                    raise BadNetlist(".ENDS %s inside %s" % (w[1], key))
                key = stack.pop()
            elif cmd == ".END":
                if stack:
                    raise BadNetlist(".END inside .SUBCKT")
                ended = True
            elif cmd == ".CONTROL":
                ctl = [st]
            elif cmd in (".PARAM", ".PARAMS"):
                _, ks = split_params(" " + st.split(None, 1)[1])
                for k, v in ks:
                    k = k.upper()
                    if k in model[key]["p"]:
                        raise BadNetlist("parameter %s defined twice" % k)
                    model[key]["p"][k] = canon(v)
            else:
                model[key]["i"].append({"t": re.sub(r"\s+", " ", st), "q": cmd})
            continue
        ref, c = component(st)
        if ref in model[key]["c"]:
            raise BadNetlist("component %s twice" % ref)
        if c["t"] == "X":
            c["v"] = c["v"].upper()
        model[key]["c"][ref] = c
    if not fragment and not ended:
        raise BadNetlist("no .END")
    if stack or ctl:
        raise BadNetlist("unterminated section")
    return model


# ---------------------------------------------------------------------------------------------------- generation
VALS = {  # type -> [(canonical source, raw python values that mean it)]
    "R": [("4.7k", ["4.7k", 4700, 4700.0]), ("1Meg", ["1Meg", 1000000]), ("{x*2}", ["{x*2}"]), ("0.022", ["22m", 0.022])],
    "C": [("220n", ["220n", 2.2e-7]), ("3p", ["3p", 3e-12]), ("{cv}", ["{cv}"])],
    "L": [("22u", ["22u", 22e-6]), ("1.5m", ["1.5m", 0.0015]), ("{lv}", ["{lv}"])],
    "V": [("5", ["5", 5]), ("SINE(0 1 1k)", ["SINE(0 1 1k)"]), ("PULSE(0 1 1n 1n)", ["PULSE(0 1 1n 1n)"])],
    "I": [("2m", ["2m", 0.002]), ("PWL(0 0 1m 1)", ["PWL(0 0 1m 1)"])],
    "D": [("1N4148", ["1N4148"]), ("DX", ["DX"])],
    "M": [("IRF530", ["IRF530"]), ("PMX", ["PMX"])],
    "Q": [("BC547", ["BC547"]), ("QX", ["QX"])],
    "B": [("V=V(a)*3", ["V=V(a)*3"]), ("I=2*I(V1)", ["I=2*I(V1)"])],
    "E": [("in 0 20", ["in 0 20"]), ("a b 3", ["a b 3"])],
    "G": [("in 0 2m", ["in 0 2m"])],
    "F": [("V1 3", ["V1 3"])], "H": [("V1 1k", ["V1 1k"])], "S": [("SWX", ["SWX"])], "T": [], "W": [("WX", ["WX"])],
    "J": [("JX", ["JX"])], "K": [("0.5", ["0.5", 0.5])],
}
PVALS = [("7", ["7", 7]), ("2.5k", ["2.5k", 2500]), ("{a+b}", ["{a+b}"]), ("-1.5", ["-1.5", -1.5]), ("33n", ["33n", 3.3e-8])]
CKEYS = {"R": ["tol", "temp"], "C": ["ic", "Rser"], "L": ["Rser", "ic"], "V": ["Rser", "Cpar"], "I": ["rs"], "D": ["area", "m"],
         "M": ["l", "w"], "Q": ["area"], "B": ["tc1"], "X": ["gain", "off"], "E": [], "G": [], "F": [], "H": [], "S": [], "W": [], "K": [], "J": ["area"], "T": ["Td", "Z0"]}
KVALS = [("5", ["5", 5]), ("0.5", ["0.5", 0.5]), ("3u", ["3u"]), ("{g*2}", ["{g*2}"])]
INSTR = [(".tran 2m", ".TRAN"), (".ac dec 10 1 1k", ".AC"), (".save V(out)", ".SAVE"), (".save V(out) V(in)", ".SAVE"), (".options abstol=1p", ".OPTIONS"), (".options abstol=1p reltol=1m", ".OPTIONS"),
         (".meas tran vx MAX V(in)", ".MEAS"), (".ic V(out)=1", ".IC"), (".model DX D(Is=2n)", ".MODEL"), (".dc V1 0 1 0.1", ".DC")]
SUBINSTR = [(".ic V(m)=1", ".IC"), (".model DS D(Is=2n)", ".MODEL"), (".options gmin=1n", ".OPTIONS"), (".ic V(m)=1 V(b)=2", ".IC")]
UNIQUE = [".AC", ".DC", ".TRAN", ".NOISE", ".TF"]


def make(rng):
    """A random netlist: {file name: text} and the expected flat model of each file."""
    nodes = ["0", "in", "out", "n1", "n2", "N-3", "a", "b", "vcc"]

    def sep():
        r = rng.random()
        return " " if r < .75 else "  " if r < .85 else "\t" if r < .91 else "\n+ " if r < .96 else "\n+"

    def eq():
        return "=" if rng.random() < .85 else " = "

    def val(t):
        pool = {"R": ["1k", "10", "2.2Meg", "{rv}", "{2*rv + 1}", "4.99k", "1e3", ".5"], "C": ["100n", "1u", "{cv}", "1e-9"],
                "L": ["10u", "1m", "{lv}"], "V": ["1", "SINE(0 1 1k)", "PULSE(0 5 0 1n 1n 1u)", "{vs}", "-3.3", "AC 1"], "I": ["1m", "{ib}"],
                "D": ["DMOD"], "M": ["NMOS1"], "Q": ["QMOD"], "B": ["V=V(in)*2", "I=V(a)-V(b)", "V={k1}*V(in)"],
                "E": ["in 0 10", "a b {ge}", "value={V(a)*2}"], "G": ["in 0 1m"], "F": ["V1 2", "V1 {gf}"], "H": ["V1 50"], "S": ["SW1"],
                "W": ["WMOD"], "J": ["JMOD"], "K": ["0.99", "1"]}
        return rng.choice(pool[t])

    def kv():
        return rng.choice(["1", "0.1", "2u", "{kx}", "10m", "1e-3", "{kx + 1}"])
    NN = {"R": 2, "C": 2, "L": 2, "V": 2, "I": 2, "D": 2, "M": 4, "Q": 3, "B": 2, "E": 2, "G": 2, "F": 2, "H": 2, "S": 4, "W": 3, "J": 3, "K": 2, "T": 4}

    def comp(ref, scope_def=None, xval=None, xports=None):
        t = ref[0]
        ns = [rng.choice(nodes) for _ in range(xports or NN[t])]
        if t == "W":
            ns[2] = "V1"
        if t == "K":
            ns = ["L1", "L2"]
        if t == "T":
            ks = [("Td", rng.choice(["1n", "{td}"])), ("Z0", "50")]
            return ref + " " + sep().join(ns) + "".join(" " + k + eq() + v for k, v in ks) + "\n", {
                "t": t, "n": ns, "v": "None", "k": {k: canon(x) for k, x in ks}}
        if t == "M" and rng.random() < .4:
            ns = ns[:3]
        v = xval or val(t)
        ks = [] if t in "EGFHSWK" or rng.random() < .45 else [(k, kv()) for k in CKEYS[t][:rng.choice([1, 2])]]
        shown = v
        if t in "RCL" and rng.random() < .12:
            shown = t + "=" + v
        s1 = sep()
        txt = ref + " " + sep().join(ns) + s1 + shown
        if t == "X" and ks and rng.random() < .5:
            txt += " params:"
        for k, x in ks:
            txt += (sep() if t != "X" else " ") + k + eq() + x
        if rng.random() < .12:
            txt += " ; remark"
        return txt + "\n", {"t": t, "n": ns, "v": canon(v).upper() if t == "X" else canon(v), "k": {k: canon(x) for k, x in ks}}

    def body(model, key, refs, xs, nest, pool_params, instrs, depth):
        c = blank()
        model[key] = c
        items = []
        for r in refs:
            t, m = comp(r)
            items.append(t)
            c["c"][r] = m
        for r, name, ports in xs:
            t, m = comp(r, xval=name, xports=ports)
            items.append(t)
            c["c"][r] = m
        ps = [(p, kv()) for p in pool_params]
        while ps:
            n = rng.choice([1, 1, 2, 3])
            grp, ps = ps[:n], ps[n:]
            items.append(rng.choice([".param ", ".PARAM ", ".Param\t"]) + " ".join(k + eq() + v for k, v in grp)
                         + (" ; note" if rng.random() < .2 else "") + "\n")
            for k, v in grp:
                c["p"][k.upper()] = canon(v)
        ins = []
        for t, q in instrs:
            ins.append(t + "\n")
        items += ins
        for _ in range(rng.choice([0, 1, 2])):
            items.append(rng.choice(["* a remark\n", "*another\n", "* R1 a b 9\n"]))
        for name, ports, txt in nest:
            items.append(txt)
        rng.shuffle(items)
        c["i"] = [None] * 0
        for it in items:
            st = it.strip()
            if st[:1] == "*" and not st.startswith(".sub"):
                c["m"].append(re.sub(r"\s+", " ", st))
            for t, q in instrs:
                if it == t + "\n":
                    c["i"].append({"t": t, "q": q})
        out = ""
        for it in items:
            if rng.random() < .07:
                out += "\n"
            out += it
        return out

    def sub(model, key, name, ports, txt, c):
        hdr = rng.choice([".subckt ", ".SUBCKT "]) + name + " " + " ".join(ports)
        pk = ""
        if rng.random() < .3:
            hdr += rng.choice([" params: gain=1", " gain=1"])
            pk = " gain=1"
        c["i"].insert(0, {"t": ".subckt " + " ".join(ports) + pk, "q": ".SUBCKT"})
        return hdr + "\n" + txt + rng.choice([".ends", ".ENDS", ".Ends"]) + rng.choice(["", " " + name]) + "\n"

    model, lib, inc = {}, {}, {}
    names = ["amp", rng.choice(["Filt", "Filt", "Filt.2", "Filt-2", "2Filt"]), "INNER"]
    rng.shuffle(names)
    defs = []                         # text of top level definitions
    inner, mid, outer = names
    low = rng.random() < .5

    def use(n):
        return n.lower() if low else n
    # inner: only devices
    t = body(model, inner.upper(), rng.sample(["R1", "R7", "C1", "D1"], 2), [], [],
             rng.sample(["loc", "gain2"], rng.choice([0, 1])), [], 2)
    ti = sub(model, inner.upper(), inner, ["p", "q"], t, model[inner.upper()])
    where = rng.choice(["top", "top", "lib", "inc"])
    if where == "top":
        defs.append(ti)
    else:
        tgt = lib if where == "lib" else inc
        tgt[inner.upper()] = model.pop(inner.upper())
    # mid: uses inner; may hold its own nested definition
    nest = []
    xs = [("X9", use(inner), 2)]
    mk = mid.upper()
    if rng.random() < .4:
        k = mk + "/SUBN"
        tn = body(model, k, ["R1", "R2"], [], [], [], [], 3)
        nest.append(("subn", 2, sub(model, k, "subn", ["s", "t"], tn, model[k])))
        xs.append(("X8", "subn", 2))
    t = body(model, mk, rng.sample(["R1", "R2", "C1", "M1", "E1", "B1"], rng.choice([2, 3])), xs, nest,
             rng.sample(["loc", "g", "rg"], rng.choice([0, 1, 3])), rng.sample(SUBINSTR[:2] + SUBINSTR[3:], rng.choice([0, 1, 2])), 1)
    defs.append(sub(model, mk, mid, ["a", "b"], t, model[mk]))
    # outer: may use mid
    ok = outer.upper()
    t = body(model, ok, rng.sample(["R1", "L1", "Q1", "V1"], 2), [("X5", use(mid), 2)] if rng.random() < .5 else [], [],
             rng.sample(["loc"], rng.choice([0, 1])), [], 1)
    defs.append(sub(model, ok, outer, ["a", "b"], t, model[ok]))
    # main
    files = {}
    decoy = []
    instrs = rng.sample(INSTR, rng.choice([1, 2, 4]))
    extra = []
    if where == "lib":
        pre = ""
        if rng.random() < .6:        # a longer name with the same start comes first
            pre = ".subckt %s2 p q\nR1 p q 99\n.ends\n" % inner
            lib[inner.upper() + "2"] = {"c": {"R1": {"t": "R", "n": ["p", "q"], "v": "99", "k": {}}}, "p": {},
                                        "i": [{"t": ".subckt p q", "q": ".SUBCKT"}], "m": []}
        files["my lib.lib" if rng.random() < .2 else "my.lib"] = "* library\n" + pre + ti
        extra.append((".lib " + (('"my lib.lib"') if "my lib.lib" in files else "my.lib"), ".LIB"))
    elif where == "inc":
        files["part.inc"] = "* included\n" + ti
    tops = ["R1", "R2", "C1", "L1", "V1", "I1", "D1", "M1", "Q1", "B1", "E1", "G1", "R10", "J1", "K1", "F1", "H1", "S1", "W1", "T1", "R11", "C2"]
    xs = [("X1", use(mid), 2), ("X2", use(mid), 2), ("X3", use(rng.choice([inner, outer])), 2)][:rng.choice([2, 3, 3])]
    if rng.random() < .3:
        xs[0] = ("XU1",) + xs[0][1:]
    m2 = {}
    t = body(m2, "", rng.sample(tops, rng.choice([4, 7, 10])), xs, [("d", 0, d) for d in defs],
             rng.sample(["vcc", "cc", "rv", "temp", "freq_1", "v"], rng.choice([1, 3, 5])), instrs + extra, 0)
    model[""] = m2[""]
    head = rng.choice(["* test netlist\n", "* C:\\work\\x.net\n"])
    model[""]["m"].insert(0, re.sub(r"\s+", " ", head.strip()))
    if where == "inc":
        t = (".include part.inc\n" if rng.random() < .5 else '.inc "part.inc"\n') + t
    if rng.random() < .25:
        ctl = ".control\nrun\nprint V(out)\n.endc\n"
        t += ctl
        model[""]["i"].append({"t": ".control | run | print V(out) | .endc", "q": ".CONTROL"})
    if rng.random() < .6:
        t += ".backanno\n"
        model[""]["i"].append({"t": ".backanno", "q": ".BACKANNO"})
    t = head + t + rng.choice([".end\n", ".END\n", ".end", ".End\n"])
    if t.endswith("\n") and rng.random() < .3:
        t += rng.choice(["* after the end\n", "\n", "* after\n* the end\n"])
        for x in ("* after the end", "* after", "* the end"):
            if re.search("^" + re.escape(x) + "$", t, re.M):
                model[""]["m"].append(x)
    if rng.random() < .15:
        t = t.replace("\n", "\r\n")
    files["main.net"] = t
    if where == "inc":
        inc[""] = {"c": {}, "p": {}, "i": [], "m": ["* included"]}
    return files, model, lib, inc


def selftest(files, model, lib, inc):
    """The reader agrees with the generator."""
    def norm(m):
        return {k: {"c": v["c"], "p": v["p"], "i": sorted(x["t"] for x in v["i"] if x["q"] not in (".INCLUDE", ".INC")),
                    "m": sorted(v["m"])} for k, v in m.items()}
    a, b = norm(parse(files["main.net"])), norm(model)
    if a != b:
        for k in set(a) | set(b):
            if a.get(k) != b.get(k):
                raise BadNetlist("reader and generator disagree on %r:\n%s\n%s" % (k, a.get(k), b.get(k)))
    for fn, m in (("my.lib", lib), ("my lib.lib", lib), ("part.inc", inc)):
        if fn in files:
            x = norm(parse(files[fn], fragment=True))
            y = norm(m)
            if {k: v for k, v in x.items() if k} != {k: v for k, v in y.items() if k}:
                raise BadNetlist("reader and generator disagree on " + fn)
    return True


if __name__ == "__main__":
    import random
    import sys
    for i in range(int(sys.argv[1]) if len(sys.argv) > 1 else 300):
        r = random.Random(i)
        f = make(r)
        try:
            selftest(*f)
        except BadNetlist as e:
            print(i, e)
            print(f[0]["main.net"])
            break
    else:
        print("ok")
        print(f[0]["main.net"])
