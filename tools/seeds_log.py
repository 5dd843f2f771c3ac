LOG = "spicelib/log/"
LOGP = '''
from spicelib.log.ltsteps import LTSpiceLogReader, LTSpiceExport, reformat_LTSpice_export
def put(name, text):
    p = os.path.join(TMP, name); open(p, "w", encoding="utf-8", newline="").write(text); return p
'''
seed("L01-first-condition-without-match", "L01",
     "a query by several conditions of which the first matches no step",
     "a condition that no step meets is forgotten when another one follows",
     [(LOG + "logfile_data.py", "            if current_set is None:\n", "            if not current_set:\n")],
     LOGP + '''
p = put("x.log", "Circuit: * t\\n.step a=1 b=1\\n.step a=2 b=1\\n")
r = LTSpiceLogReader(p)
assert r.steps_with_conditions(b=1, a=7) == []
assert r.steps_with_conditions(a=7, b=1) == [], r.steps_with_conditions(a=7, b=1)
''')
seed("L01-interval-of-first-measure", "L01",
     "a stepped log with two or more measurements over an interval",
     "the end of the interval is stored under the name of the measurement before",
     [(LOG + "ltsteps.py", '''                    dataname = line[13:]  #''', '''                    title, dataname = dataname or line[13:], line[13:]  #'''),
      (LOG + "ltsteps.py", '''tokens[3] = dataname + "_TO"''', '''tokens[3] = title + "_TO"''')],
     LOGP + '''
p = put("x.log", "Circuit: * t\\n.step a=1\\n.step a=2\\n\\nMeasurement: m1\\n  step\\tRMS(v(a))\\tFROM\\tTO\\n     1\\t1\\t0\\t5\\n     2\\t2\\t0\\t6\\n\\n"
        "Measurement: m2\\n  step\\tRMS(v(b))\\tFROM\\tTO\\n     1\\t3\\t0\\t7\\n     2\\t4\\t0\\t8\\n")
r = LTSpiceLogReader(p)
assert r["m1_to"] == [5, 6] and r["m2_to"] == [7, 8], dict(r.dataset)
''')
seed("L02-phase-of-left-half-plane", "L02",
     "splitting complex measurements whose real part is negative",
     "the phase is computed in the right half plane only",
     [(LOG + "logfile_data.py", "        return math.atan2(self.imag, self.real) * 180 / math.pi\n",
       "        return math.atan(self.imag / self.real) * 180 / math.pi if self.real else math.copysign(90.0, self.imag)\n")],
     LOGP + '''
p = put("x.log", "Circuit: * t\\n\\ng1: v(a)/v(b)=(1,1)\\ng2: v(a)/v(b)=(-1,1)\\n")
r = LTSpiceLogReader(p)
r.obtain_amplitude_and_phase_from_complex_values()
assert abs(r["g1_ph"][0] - 45) < 1e-6
assert abs(r["g2_ph"][0] - 135) < 1e-6, r["g2_ph"]
''')
seed("L02-appended-rows-without-info", "L02",
     "appending the table of a stepped simulation to an existing file",
     "only the first row of the appended table carries the user information, the others are shifted",
     [(LOG + "logfile_data.py", "            if append_with_line_prefix is not None:  # if appending a file it must write the user info\n",
       "            if append_with_line_prefix is not None and (self.step_count == 0 or index < len(step_data) + 1):  # if appending a file it must write the user info\n")],
     LOGP + '''
p = put("x.log", "Circuit: * t\\n.step a=1\\n.step a=2\\n.step a=3\\n\\nMeasurement: m1\\n  step\\tv(a)\\n     1\\t1\\n     2\\t2\\n     3\\t3\\n")
r = LTSpiceLogReader(p)
out = os.path.join(TMP, "o.tsv")
r.export_data(out, append_with_line_prefix="run7")
rows = [x.split("\\t") for x in open(out).read().strip().split("\\n")]
assert [x[0] for x in rows[1:]] == ["run7"] * 3, rows
''')
seed("L03-ten-steps", "L03",
     "a QSPICE log with ten or more steps",
     "steps with numbers of more than one digit are not seen",
     [(LOG + "qspice_log_reader.py", r'''r"^\s*(\d+) of \d+ steps:\s+\.step (.*)$"''', r'''r"^\s*(\d) of \d+ steps:\s+\.step (.*)$"''')],
     '''
from spicelib.log.qspice_log_reader import QspiceLogReader
p = os.path.join(TMP, "x.log")
open(p, "w").write("x.net\\n" + "".join("%d of 11 steps:  .step a=%d\\n" % (k, k) for k in range(1, 12)))
r = QspiceLogReader(p, read_measures=False)
assert r.step_count == 11 and r["a"] == list(range(1, 12)), r.stepset
''')
seed("L03-operating-point-measures", "L03",
     "a QSPICE measurement of an operating point or dc analysis",
     "the analysis is taken for the name of the measurement",
     [(LOG + "qspice_log_reader.py", "if token1 in ('tran', 'ac', 'dc', 'op'):", "if token1 in ('tran', 'ac', 'dc'):")],
     '''
from spicelib.log.qspice_log_reader import QspiceLogReader
p = os.path.join(TMP, "x.log"); open(p, "w").write("x.net\\n")
m = os.path.join(TMP, "x.meas"); open(m, "w").write(".meas dc x1 max v(out):\\n   1.5\\n.meas op x2 v(out):\\n   2.5\\n")
r = QspiceLogReader(p, read_measures=False)
r.parse_meas_file(m)
assert r.get_measure_value("x1") == 1.5
assert r.get_measure_value("x2") == 2.5
''')
seed("L04-signal-analysed-twice", "L04",
     "a stepped simulation with two Fourier analyses of the same signal",
     "the step of an analysis is counted by the analyses of its signal",
     [(LOG + "ltsteps.py", "fourier_data = FourierData(signal, n_periods, dc_component, phd, thd, harmonics, self.step_count - 1)",
       "step_no = len(self.fourier.get(signal, [])) if self.step_count else -1\n                    fourier_data = FourierData(signal, n_periods, dc_component, phd, thd, harmonics, step_no)")],
     LOGP + '''
def four(f): return ("N-Period=2\\nFourier components of V(a)\\nDC component:0.5\\n\\nHarmonic\\tFrequency\\n Number\\t[Hz]\\n 1 \\t %g\\t 1e+0\\t 1e+0\\t 9.0\\t 0.0\\n"
                     "Total Harmonic Distortion:   4.110027%%\\n\\n\\n" % f)
p = put("x.log", "Circuit: * t\\n.step a=1\\n" + four(1e3) + four(2e3) + ".step a=2\\n" + four(1e3) + four(2e3))
r = LTSpiceLogReader(p)
assert [x.step for x in r.fourier["V(a)"]] == [0, 0, 1, 1], [x.step for x in r.fourier["V(a)"]]
''')
seed("L05-single-parameter-kept", "L05",
     "reformatting an export of a simulation with a single stepped parameter",
     "the values of the step are only renewed when there are several of them",
     [(LOG + "ltsteps.py", '''                param_values = "\\t".join(params)\n''', '''                if go_header or len(params) > 1:\n                    param_values = "\\t".join(params)\n''')],
     LOGP + '''
def table(steps):
    p = put("x.txt", "time\\tV(a)\\n" + "".join("Step Information: %s  (Run: %d/2)\\n0.0\\t1.0\\n" % (s, k + 1) for k, s in enumerate(steps)))
    reformat_LTSpice_export(p, os.path.join(TMP, "o.tsv"))
    return [x.split("\\t") for x in open(os.path.join(TMP, "o.tsv")).read().strip().split("\\n")]
assert [x[1:3] for x in table(["A=1 B=5", "A=2 B=5"])[1:]] == [["1", "5"], ["2", "5"]]
t = table(["A=1", "A=2"])
assert [x[1] for x in t[1:]] == ["1", "2"], t
''')
seed("L06-body-transconductance", "L06",
     "an operating point log of MOSFETs, in which LTspice leaves out the colon after Gmb",
     "the parameter Gmb is dropped",
     [(LOG + "semi_dev_op_reader.py", '''cols[0] == 'Gmb')''', '''cols[0] == 'gmb')''')],
     '''
from spicelib.log.semi_dev_op_reader import opLogReader
p = os.path.join(TMP, "x.log")
open(p, "w").write("Semiconductor Device Operating Points:\\n\\n    --- MOSFET Transistors ---\\nName:   m1   m2\\nGm:   1.0e-3  2.0e-3\\nGmb   3.0e-3  4.0e-3\\n\\n")
r = opLogReader(p)
assert r["mosfet transistors"]["m2"] == {"Gm": 2e-3, "Gmb": 4e-3}, r
''')
