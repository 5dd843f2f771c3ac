PLT = "spicelib/raw/plot_data.py"
RCL = "spicelib/raw/raw_classes.py"
RWR = "spicelib/raw/raw_write.py"
RAWP = '''
import struct
import numpy as np
from spicelib import RawRead, RawWrite, Trace
CMD = {"lt": "Linear Technology Corporation LTspice XVII", "qs": "QSPICE64, Build Feb 11 2025", "ng": "ngspice-44.2, Build"}
def header(plot, flags, names, n, dia, kind="Binary:"):
    types = ["time" if x == "time" else "frequency" if x.lower() == "frequency" else "voltage" for x in names]
    s = "Title: * t\\nDate: Mon Jan 1 00:00:00 2024\\nPlotname: %s\\nFlags: %s\\nNo. Variables: %d\\nNo. Points: %d\\nCommand: %s\\nVariables:\\n" % (plot, flags, len(names), n, CMD[dia])
    for i, x in enumerate(names): s += "\\t%d\\t%s\\t%s\\n" % (i, x, types[i])
    return s + kind + "\\n"
def plot(name, flags, names, cols, dia, fmt):
    """cols: one list of values per variable, fmt: struct code per variable (z: complex)"""
    pk = lambda f, x: struct.pack("<dd", x.real, x.imag) if f == "z" else struct.pack("<" + f, x)
    h = header(name, flags, names, len(cols[0]), dia).encode("utf_16_le" if dia == "lt" else "utf_8")
    if "fastaccess" in flags: return h + b"".join(pk(f, x) for f, c in zip(fmt, cols) for x in c)
    return h + b"".join(pk(f, c[k]) for k in range(len(cols[0])) for f, c in zip(fmt, cols))
def put(name, data):
    p = os.path.join(TMP, name); open(p, "wb").write(data); return p
'''
seed("D01-second-read-of-fastaccess", "D01",
     "a fast-access file whose traces are read one after another, on demand",
     "the second and later reads of a file stored trace by trace return the data of the preceding trace",
     [(PLT, "                    start_index = 0\n", "                    start_index = 0 if self._axis is None else 1\n")],
     RAWP + '''
p = put("x.raw", plot("Transient Analysis", "real forward fastaccess", ["time", "V(a)", "V(b)"],
        [[0.0, 1.0, 2.0], [5.0, 6.0, 7.0], [50.0, 60.0, 70.0]], "lt", "dff"))
r = RawRead(p)
assert list(r.get_wave("V(a)")) == [5, 6, 7]
assert list(r.get_wave("V(b)")) == [50, 60, 70], r.get_wave("V(b)")
''')
seed("D02-last-point-of-inner-steps", "D02",
     "the value at the very last point of a step other than the last, asked for by its position on the axis",
     "the last point of a step is looked up as if the step had one point less, so it cannot be interpolated to",
     [(RCL, "            last_item = self.get_len(step) - 1\n", "            last_item = self.get_len(step) - 1 if step == 0 else self.axis.step_offset(step) - self.axis.step_offset(step - 1) - 1\n")],
     RAWP + '''
p = put("x.raw", plot("Transient Analysis", "real forward stepped", ["time", "V(a)"],
        [[0.0, 1.0, 0.0, 1.0, 2.0, 3.0], [1.0, 2.0, 10.0, 20.0, 30.0, 40.0]], "lt", "df"))
open(os.path.join(TMP, "x.log"), "w").write("Circuit: * t\\n.step r=1\\n.step r=2\\n")
r = RawRead(p)
t = r.get_trace("V(a)")
assert t.get_point_at(0.5, 0) == 1.5
assert t.get_point_at(2.5, 1) == 35, t.get_point_at(2.5, 1)
''')
seed("D02-query-stops-at-first-match", "D02",
     "a query for steps by two parameters of a sweep of both",
     "a step is taken to match a query when the first of the parameters matches",
     [(PLT, "                            break\n                        elif kwargs[key] != ll:\n                            break\n                    else:\n                        ret_steps.append(i)  # All the step parameters match\n",
            "                            break\n                        elif kwargs[key] != ll:\n                            break\n                        ret_steps.append(i)  # The step parameters match\n                        break\n")],
     RAWP + '''
p = put("x.raw", plot("Transient Analysis", "real forward stepped", ["time", "V(a)"],
        [[0.0, 1.0] * 4, [float(k) for k in range(8)]], "lt", "df"))
open(os.path.join(TMP, "x.log"), "w").write("Circuit: * t\\n.step r=1 c=1\\n.step r=1 c=2\\n.step r=2 c=1\\n.step r=2 c=2\\n")
r = RawRead(p)
assert r.get_steps(r=1, c=2) == [1], r.get_steps(r=1, c=2)
''')
seed("D03-next-plot-misplaced", "D03",
     "a binary file with several plots whose variables are not all of the same width",
     "the second plot of a file is looked for at the wrong place, so it is not found or read as garbage",
     [(PLT, "            record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info])\n            raw_file.seek(self._fpos_data + self._nPoints * record_size)",
            "            record_size = np.dtype(self._trace_info[0].dtype).itemsize * len(self._trace_info)\n            raw_file.seek(self._fpos_data + self._nPoints * record_size)")],
     RAWP + '''
one = plot("Transient Analysis", "real forward", ["time", "V(a)", "V(b)"],
           [[float(k) for k in range(200)], [5.0 + k for k in range(200)], [50.0 + k for k in range(200)]], "lt", "dff")
two = plot("Operating Point", "real", ["V(a)", "V(b)"], [[3.0], [4.0]], "lt", "df")
r = RawRead(put("x.raw", one + two), "*")
assert r.get_plot_names() == ["Transient Analysis", "Operating Point"], r.get_plot_names()
assert list(r.plots[1].get_wave("V(b)")) == [4]
''')
seed("D03-truncated-text-accepted", "D03",
     "a text file that was cut before its last points (a full disk, a simulation that was killed)",
     "a truncated text file is accepted and its missing points are given as zeros",
     [(PLT, "                if len(line) == 0:\n                    raise SpiceReadException(\n                        f\"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early\")\n",
            "                if len(line) == 0:\n                    _logger.warning(f\"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early\")\n                    break\n")],
     RAWP + '''
h = header("Transient Analysis", "real forward", ["time", "V(a)"], 4, "ng", "Values:")
for k in range(4): h += " %d\\t%g\\n\\t%g\\n" % (k, k, 10 + k)
full = RawRead(put("x.raw", h.encode()), "*")
assert list(full.get_wave("V(a)")) == [10, 11, 12, 13]
cut = h[:h.index(" 3\\t")]
try:
    r = RawRead(put("y.raw", cut.encode()), "*")
except Exception:
    pass
else:
    assert False, "a truncated file was read as %s" % list(r.get_wave("V(a)"))
''')
seed("D04-longer-trace-accepted", "D04",
     "a trace with more points than the axis is added to a file written trace by trace",
     "traces that are longer than the axis are accepted, and displace all data that follows",
     [(RWR, "            if len(self._traces[0]) != len(trace):\n", "            if len(self._traces[0]) > len(trace):\n")],
     RAWP + '''
w = RawWrite()
w.add_trace(Trace("time", [0.0, 1.0, 2.0]))
try:
    w.add_trace(Trace("V(a)", [1.0, 2.0, 3.0, 4.0]))
except Exception:
    pass
w.add_trace(Trace("V(b)", [5.0, 6.0, 7.0]))
w.save(os.path.join(TMP, "o.raw"))
assert list(RawRead(os.path.join(TMP, "o.raw"), "*").get_wave("V(b)")) == [5, 6, 7]
''')
seed("D04-time-array-in-single-precision", "D04",
     "the time axis is given as a numpy array and has values that single precision does not hold",
     "a time axis given as an array is stored with single precision",
     [(RWR, "            if name == 'time':\n                numerical_type = 'double'\n", "            if name == 'time' and not isinstance(data[0], float):\n                numerical_type = 'double'\n")],
     RAWP + '''
w = RawWrite()
t = np.array([0.0, 1.0 + 2.0 ** -40, 2.0])
w.add_trace(Trace("time", t))
w.add_trace(Trace("V(a)", [1.0, 2.0, 3.0]))
w.save(os.path.join(TMP, "o.raw"))
got = RawRead(os.path.join(TMP, "o.raw"), "*").get_axis()
assert list(got) == list(t), (got[1] - 1, t[1] - 1)
''')
seed("D05-second-alignment-forgets-first", "D05",
     "traces of two files with different axes are imported with axis alignment, one after another",
     "the second aligned import is aligned with the original axis only; the points of the first one are lost",
     [(RWR, "            if self._new_axis:\n                my_axis = self._new_axis\n            else:\n                my_axis = self._traces[0].get_wave()\n",
            "            my_axis = self._traces[0].get_wave()\n")],
     RAWP + '''
def src(name, t): return RawRead(put(name, plot("Transient Analysis", "real forward", ["time", "V(%s)" % name[0]], [t, [10 * x for x in t]], "lt", "df")), "*")
w = RawWrite()
w.add_traces_from_raw(src("a.raw", [0.0, 4.0, 8.0, 12.0, 16.0, 20.0]), ["V(a)"])
w.add_traces_from_raw(src("b.raw", [0.0, 2.0, 8.0, 12.0, 16.0, 20.0]), ["V(b)"], force_axis_alignment=True)
w.add_traces_from_raw(src("c.raw", [0.0, 6.0, 8.0, 12.0, 16.0, 20.0]), ["V(c)"], force_axis_alignment=True)
w.save(os.path.join(TMP, "o.raw"))
ax = list(RawRead(os.path.join(TMP, "o.raw"), "*").get_axis())
for t in (0, 2, 4, 6, 8):
    assert t in ax, ax
''')
seed("D05-axis-of-first-step", "D05",
     "the first traces of a file are imported from a step other than the first of a stepped file whose steps have their own axis",
     "the axis that comes with the first import is the one of the first step, whatever the step that is imported",
     [(RWR, "new_axis = Trace(oaxis.name, other.get_axis(from_step), oaxis.whattype", "new_axis = Trace(oaxis.name, other.get_axis(from_step if len(other.get_axis()) != len(other.get_axis(from_step)) else 0), oaxis.whattype")],
     RAWP + '''
p = put("x.raw", plot("Transient Analysis", "real forward stepped", ["time", "V(a)"],
        [[0.0, 1.0, 2.0, 0.0, 3.0, 5.0], [1.0, 2.0, 3.0, 10.0, 20.0, 30.0]], "lt", "df"))
open(os.path.join(TMP, "x.log"), "w").write("Circuit: * t\\n.step r=1\\n.step r=2\\n")
w = RawWrite()
w.add_traces_from_raw(RawRead(p), ["V(a)"], step=1)
w.save(os.path.join(TMP, "o.raw"))
assert list(RawRead(os.path.join(TMP, "o.raw"), "*").get_axis()) == [0, 3, 5]
''')

RCHEAD = """
from spicelib import RawWrite, Trace
from spicelib.scripts import raw_convert
import contextlib, io
import numpy as np
P = os.path.join(TMP, "t.raw")
w = RawWrite(fastacces=False)
w.add_trace(Trace("time", np.array([0.0, 1.0, 2.0])))
for k, n in enumerate(("V(a)", "I(a)", "I(R1)")):
    w.add_trace(Trace(n, np.array([10.0 * k, 10.0 * k + 1, 10.0 * k + 2])))
w.save(P)
def convert(*args):
    sys.argv = ["raw_convert"] + list(args)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            raw_convert.main()
    except SystemExit as x:
        return x.code or 0
Q = os.path.join(TMP, "t.csv")
"""
seed("D06-current-before-voltage", "D06",
     "a trace asked for without V() or I(), where both a voltage and a current have that name",
     "the current is written where the voltage is meant",
     [("spicelib/scripts/raw_convert.py", """                if 'V(' + trace + ')' in raw_traces:
                    found_traces.append('V(' + trace + ')')
""", """                if 'V(' + trace + ')' in raw_traces and 'I(' + trace + ')' not in raw_traces:
                    found_traces.append('V(' + trace + ')')
""")],
     RCHEAD + """
assert convert("-o", Q, "-s", ";", P, "R1", "V(a)") == 0
assert convert("-o", Q, "-s", ";", P, "a") == 0
assert "V(a)" in open(Q).readline()
""")
seed("D06-some-missing-is-an-error", "D06",
     "several traces are asked for and only the last one does not exist",
     "nothing is written",
     [("spicelib/scripts/raw_convert.py", """        if len(found_traces) == 0:
""", """        if len(found_traces) == 0 or (len(traces) > 1 and trace not in raw_traces and found_traces[-1][2:-1] != trace):
""")],
     RCHEAD + """
assert convert("-o", Q, "-s", ";", P, "V(a)", "nosuch") == 0
assert os.path.exists(Q)
""")
