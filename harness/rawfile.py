"""Writes RAW files as the simulators do, from the plots of the specification (independent of spicelib).

Integer k of the specification stands for k * (1 + 2**-18) where the file stores single precision, k * (1 + 2**-40)
where it stores doubles, and for (k + 3kj) times that where it stores complex numbers; so lost precision shows."""
import struct

S32, S64 = 1 + 2.0 ** -18, 1 + 2.0 ** -40
PLOTNAME = {"tran": "Transient Analysis", "ac": "AC Analysis", "noise": "Noise Spectral Density Curves",
            "dc": "DC transfer characteristic", "op": "Operating Point"}
COMMAND = {"ltspice": "Linear Technology Corporation LTspice XVII", "qspice": "QSPICE64, Build Feb 11 2025 08:06:48",
           "ngspice": "ngspice-44.2, Build Sat Jan 11 14:51:55 UTC 2025", "xyce": "Xyce 7.9"}


def axis_name(kind, dia):
    n = {"tran": "time", "ac": "frequency", "noise": "frequency", "dc": "V1", "op": "V(n0)"}[kind]
    if dia == "qspice" and kind in ("tran", "ac", "noise"):
        n = n.title()
    if dia == "xyce" and kind == "ac":
        n = "FREQ"
    return n


def names(p, f):
    out = [axis_name(p["kind"], f["dia"])]
    for v in range(2, len(p["vals"]) + 1):
        out.append("I(R4)" if v == 4 else "V(R4)" if v == 3 else "V(n%d)" % v)
    out += ["I(RA)", "I(RB)", "Twice"][:p["nal"]]
    return out


def types(p, f):
    """type of each stored variable: 'f' single, 'd' double, 'c' complex"""
    nv = len(p["vals"])
    if p["kind"] == "ac":
        return ["d" if f["dia"] == "qspice" else "c"] + ["c"] * (nv - 1)
    if f["dia"] == "ltspice" and not f["dbl"]:
        return ["d"] + ["f"] * (nv - 1)
    return ["d"] * nv


def enc(k, t, axis=False):
    if t == "f":
        return k * S32
    if t == "d":
        return k * S64
    return complex(k * S64, 0.0 if axis else 3 * k * S64)


def dec(x, t, axis=False, single=False, tol=0.0):
    """the integer a value stands for, -99999 if none"""
    try:
        if t == "c":
            x = complex(x)
            k = round(x.real)
        else:
            if isinstance(x, complex) or getattr(x, "dtype", None) is not None and x.dtype.kind == "c":
                return -99999
            x = float(x)
            k = round(x)
    except (TypeError, ValueError, OverflowError):
        return -99999
    w = enc(k, t, axis)
    if single and t == "f":
        x, w = (struct.unpack("f", struct.pack("f", z))[0] for z in (x, w))
    return k if abs(x - w) <= tol else -99999


def pack(x, t):
    return struct.pack("<dd", x.real, x.imag) if t == "c" else struct.pack("<" + t, x)


def write(f, path):
    """the file, as bytes; returns the offsets at which each plot starts"""
    out = b""
    code = "utf_8" if f["enc"] == "utf_8" else "utf_16_le"
    nl = "\r\n" if f["sto"] == "ascii" and f["dia"] == "ltspice" else "\n"
    starts = []
    for q, p in enumerate(f["plots"]):
        starts.append(len(out))
        ns, ts = names(p, f), types(p, f)
        nv, npts = len(p["vals"]), len(p["vals"][0])
        flags = ["complex" if p["kind"] == "ac" else "real"]
        if p["kind"] != "op" and f["dia"] == "ltspice":
            flags.append("forward")
        if f["dia"] == "ltspice" and f["dbl"] and p["kind"] != "ac":
            flags.append("double")
        if p["stepped"]:
            flags.append("stepped")
        if f["sto"] == "fast":
            flags.append("fastaccess")
        head = ["Title: * C:\\work\\some circuit: test.asc", "Date: Tue Feb 11 09:14:37 2025",
                "Plotname: " + PLOTNAME[p["kind"]], "Flags: " + " ".join(flags), "No. Variables: %d" % nv,
                "No. Points: %12d" % npts]
        if f["dia"] == "ltspice":
            head.append("Offset:   0.0000000000000000e+00")
        if f["cmd"]:
            head.append("Command: " + COMMAND[f["dia"]])
        if f["dia"] == "qspice":
            head.append(".param temp=27")
        if p["nal"]:
            head += [".alias I(RA) (0.5mho*V(n2,0))", ".alias I(RB) (0.5mho*V(n2,R4))", ".alias Twice 2*V(n2)"][:p["nal"]]
        head.append("Variables:")
        for i in range(nv):
            what = {"tran": "time", "ac": "frequency", "noise": "frequency"}.get(p["kind"], "voltage") if i == 0 else \
                "device_current" if ns[i].startswith("I") else "voltage"
            head.append("\t%d\t%s\t%s" % (i, ns[i], what))
        head.append("Values:" if f["sto"] == "ascii" else "Binary:")
        out += (nl.join(head) + nl).encode(code)
        cell = [[enc(p["vals"][v][i], ts[v], v == 0) for i in range(npts)] for v in range(nv)]
        if f["sto"] == "ascii":
            for i in range(npts):
                for v in range(nv):
                    x = cell[v][i]
                    s = ("%.17e,%.17e" % (x.real, x.imag)) if ts[v] == "c" else "%.17e" % x
                    out += (("%d\t" % i if v == 0 else "") + "\t" * (v > 0 or f["dia"] != "xyce") + s + nl).encode()
                if f["dia"] in ("xyce", "ngspice"):
                    out += b"\n"
        elif f["sto"] == "fast":
            for v in range(nv):
                out += b"".join(pack(x, ts[v]) for x in cell[v])
        else:
            for i in range(npts):
                out += b"".join(pack(cell[v][i], ts[v]) for v in range(nv))
    cut = f["cut"]
    if cut:
        if f["sto"] == "ascii":
            lines = out.split(b"\n")
            out = b"\n".join(lines[:max(2, len(lines) - 1 - cut)]) + b"\n"
        else:
            out = out[:max(40, len(out) - cut)]
    with open(path, "wb") as fh:
        fh.write(out)
    p = f["plots"][0]
    if p["stepped"] and p["log"] != "no":
        pars = p["pars"][:-1] if p["log"] == "short" else p["pars"]
        n = len(pars)
        if f["dia"] == "qspice":
            text = "C:\\work\\some.net\n" + "".join("%d of %d steps:  .step a=%d b=%d\n" % (i + 1, n, s["a"], s["b"])
                                                   for i, s in enumerate(pars)) + "\nTotal elapsed time: 0.2 s\n"
        else:
            text = "Circuit: * C:\\work\\some circuit.asc\n\n" + "".join(".step a=%d b=%d\n" % (s["a"], s["b"]) for s in pars)
            text = text[:-1] if f["seed"] % 2 else text + "\nTotal elapsed time: 0.2 s\n"
        with open(path.rsplit(".", 1)[0] + ".log", "w") as fh:
            fh.write(text)
