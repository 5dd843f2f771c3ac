SIMD = "spicelib/sim/"
STEP = '''
from spicelib import SpiceEditor, SimRunner
from spicelib.sim.simulator import Simulator
from spicelib.sim.sim_stepping import SimStepper
from pathlib import Path
class Stub(Simulator):
    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        for x in (".raw", ".log"): Path(netlist_file).with_suffix(x).write_text("x")
        return 0
    @classmethod
    def valid_switch(cls, switch, switch_param): return []
    @classmethod
    def is_available(cls): return True
def stepper():
    p = os.path.join(TMP, "x.net")
    open(p, "w").write("* t\\nV1 in 0 1\\nR1 in a 1k\\nR2 a 0 2k\\nC1 a 0 1n\\n.param p=1\\n.end\\n")
    return SimStepper(SpiceEditor(p), SimRunner(simulator=Stub, parallel_sims=100, output_folder=os.path.join(TMP, "out")))
'''
seed("W01-plural-values-not-recorded", "W01",
     "values set with set_component_values before a sweep, and an export of the step information",
     "the values set for several components at once are missing in the records of the simulations",
     [(SIMD + "sim_stepping.py", '''        self.editor.set_component_values(**kwargs)
        self.current_values.update(**kwargs)''', '''        self.editor.set_component_values(**kwargs)
        self.current_values.update((key, value) for key, value in kwargs.items() if key in self.current_values)''')],
     STEP + '''
s = stepper()
s.set_component_value("R2", 5)
s.set_component_values(R2=7, C1="3n")
s.add_value_sweep("R1", [1, 2])
s.run_all()
assert [(i["R1"], i["R2"], i.get("C1")) for i in s.sim_info.values()] == [(1, 7, "3n"), (2, 7, "3n")], s.sim_info
''')
seed("W01-middle-dimension-not-restarted", "W01",
     "three dimensions, with values that can be told apart",
     "the middle dimension is swept only once",
     [(SIMD + "sim_stepping.py", '''                    iterators[iter_no] = iter(self.iter_list[iter_no].iter)
                    iter_no -= 1''', '''                    if iter_no + 1 == len(iterators):
                        iterators[iter_no] = iter(self.iter_list[iter_no].iter)
                    iter_no -= 1''')],
     STEP + '''
s = stepper()
s.add_value_sweep("R1", [1, 2]); s.add_value_sweep("R2", [3, 4]); s.run_all()
assert len(s.sim_info) == 4
s = stepper()
s.add_value_sweep("R1", [1, 2]); s.add_value_sweep("R2", [3, 4]); s.add_param_sweep("p", [5, 6]); s.run_all()
assert len(s.sim_info) == 8, len(s.sim_info)
''')
seed("W02-stop-at-zero", "W02",
     "a sweep that ends at zero",
     "a stop value of zero is taken for a missing one, so that the sweep goes the other way",
     [("spicelib/utils/sweep_iterators.py", '''        if stop is None:
            self.stop = start
            self.start = 0''', '''        if not stop:
            self.stop = start
            self.start = 0''')],
     '''
from spicelib.utils.sweep_iterators import sweep
assert list(sweep(3)) == [0, 1, 2, 3] and list(sweep(3, 1)) == [3, 2, 1]
assert list(sweep(3, 0)) == [3, 2, 1, 0], list(sweep(3, 0))
''')
seed("W02-inverse-ratio", "W02",
     "a logarithmic sweep upwards with a ratio lower than one",
     "the sweep starts at the lower limit instead of the upper one, and misses the limit it should start with",
     [("spicelib/utils/sweep_iterators.py", '''        if self.start < self.stop and self.step < 1:
            self.start, self.stop = self.stop, self.start''', '''        if self.start < self.stop and self.step < 1:
            self.step = 1 / self.step''')],
     '''
from spicelib.utils.sweep_iterators import sweep_log
assert list(sweep_log(16, 3, 0.5)) == [16, 8, 4]
assert list(sweep_log(3, 16, 0.5)) == [16, 8, 4], list(sweep_log(3, 16, 0.5))
''')

TKD = "spicelib/sim/tookit/"
# a stand-in simulator; ANSWER(values) gives the measurement, CIRCUITS holds the values (components and parameters) it saw
TOL = '''
import re
from spicelib import SpiceEditor, SimRunner
from spicelib.sim.simulator import Simulator
from pathlib import Path
CIRCUITS = {}; FAIL = set(); SEEN = {}; ANSWER = [lambda v: 0.0]
def num(t):
    m = re.fullmatch(r"([-+.0-9]+(?:e[-+]?\\\\d+)?)([a-zA-Z]*)", t.strip().lower())
    return float(m[1]) * {"": 1, "k": 1e3, "meg": 1e6, "m": 1e-3, "u": 1e-6, "n": 1e-9}[m[2]] if m else t
class LTspice(Simulator):
    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        p = Path(netlist_file); text = p.read_text(errors="replace"); k = int(re.search(r"_(\\\\d+)$", p.stem)[1])
        v = {}
        for ln in text.splitlines()[1:]:
            if ln[:1].upper() in "RCLVI": v[ln.split()[0]] = num(ln.split(None, 3)[3])
            for m in re.finditer(r"(\\\\w+)\\\\s*=\\\\s*(\\\\S+)", ln if ln.lower().startswith(".param") else ""): v[m[1]] = num(m[2])
        CIRCUITS[k] = v; SEEN[k] = text
        if k in FAIL: return 1
        step = re.search(r"^\\\\.step param run (\\\\S+) (\\\\S+) 1", text, re.M | re.I)
        out = ["Circuit: * t", ""]
        if step:
            runs = range(int(step[1]), int(step[2]) + 1)
            out += [".step run=%d" % r for r in runs] + ["", "", "Measurement: m1", "  step\\\\tv(out)"]
            out += ["     %d\\\\t%s" % (i + 1, ANSWER[0](dict(v, run=r))) for i, r in enumerate(runs)]
        else:
            out += ["m1: v(out)=%s" % float(ANSWER[0](v))]
            if "runm" in text: out += ["runm: run=%g" % v["run"]]
        p.with_suffix(".log").write_text("\\\\n".join(out + ["", "", "Date: Thu Jan 01 00:00:00 2026", ""])); p.with_suffix(".raw").write_text("x")
        return 0
    @classmethod
    def valid_switch(cls, switch, switch_param): return []
    @classmethod
    def is_available(cls): return True
def analysis(cls, sim=LTspice):
    p = os.path.join(TMP, "x.net")
    open(p, "w").write("* t\\\\nV1 in 0 100\\\\nR1 in a 200\\\\nR2 a 0 300\\\\nC1 a 0 100\\\\n.param p=100\\\\n.tran 1m\\\\n.meas tran m1 FIND V(a) AT 1m\\\\n.end\\\\n")
    CIRCUITS.clear()
    class Out:
        def write(self, s): return len(s)
        def flush(self): pass
    sys.stdout = Out()
    return cls(SpiceEditor(p), SimRunner(simulator=sim, parallel_sims=8, output_folder=os.path.join(TMP, "out")))
def circuits(*names):
    return [tuple(round(CIRCUITS[k][n], 6) for n in names) for k in sorted(CIRCUITS)]
from spicelib.sim.tookit.worst_case import WorstCaseAnalysis
from spicelib.sim.tookit.fast_worst_case import FastWorstCaseAnalysis
from spicelib.sim.tookit.quick_sensitivity_analysis import QuickSensitivityAnalysis
from spicelib.sim.tookit.montecarlo import Montecarlo
'''.replace("\\\\", "\\")
seed("W03-orphan-run", "W03",
     "a testbench whose number of runs, divided by the runs of each simulation, leaves one",
     "the last simulation of a split testbench has a single run",
     [(TKD + "tolerance_deviations.py", "total_number_of_runs = self.last_run_number + 2  # the +2 is to account for the run -1 and the last run",
       "total_number_of_runs = self.last_run_number + 1  # run -1 and the last run")],
     TOL + '''
an = analysis(WorstCaseAnalysis)
an.set_tolerance("R", 0.1)
an.set_tolerance("C", 0.1)
an.run_testbench(runs_per_sim=4)
steps = [tuple(map(int, re.search(r"run (-?\\d+) (-?\\d+) 1", SEEN[k]).groups())) for k in sorted(SEEN)]
assert all(a < b for a, b in steps), steps
''')
seed("W03-limit-at-nominal-skipped", "W03",
     "limits of which one is the nominal value, simulation by simulation",
     "an element is not set back to a limit that equals its nominal value",
     [(TKD + "worst_case.py", """                    if typ == 'component':
                        self.editor.set_component_value(ref, new_val)  # update the value
                    elif typ == 'parameter':
                        self.editor.set_parameter(ref, new_val)
                    else:
                        _logger.warning("Unknown type")
                bit_updated >>= 1""", """                    if new_val == val:
                        pass  # already there
                    elif typ == 'component':
                        self.editor.set_component_value(ref, new_val)  # update the value
                    elif typ == 'parameter':
                        self.editor.set_parameter(ref, new_val)
                    else:
                        _logger.warning("Unknown type")
                bit_updated >>= 1""")],
     TOL + '''
an = analysis(WorstCaseAnalysis)
an.set_deviation("R1", 200, 260)
an.set_deviation("R2", 250, 350)
an.run_analysis()
c = circuits("R1", "R2")
assert c[0] == (200, 300) and set(c[1:]) == {(200, 250), (260, 250), (200, 350), (260, 350)}, c
''')
seed("W03-limits-rounded", "W03",
     "limits with more than four digits, in a testbench",
     "limits lose digits in the formulas",
     [(TKD + "worst_case.py", 'new_val = "{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calculate',
       'new_val = "{wc1(%s,%.3g,%.3g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calculate')],
     TOL + '''
an = analysis(WorstCaseAnalysis)
an.set_deviation("R1", 12345, 13579)
an.save_netlist(os.path.join(TMP, "s.net"))
t = open(os.path.join(TMP, "s.net")).read()
m = re.search(r"wc1\\(200(?:\\.0)?,\\s*([^,]*),\\s*([^,]*),", t)
assert m is None or (float(m[1]), float(m[2])) == (12345, 13579), t
''')
seed("W04-minimum-search-not-restarted", "W04",
     "a measurement in which an element changes the direction in which an earlier one acts",
     "the search for the minimum does not look again at earlier elements",
     [(TKD + "fast_worst_case.py", """                min_setting[ref] = not min_setting[ref]
                min_value = new_value
                # Need to restart the cycle
                iterator = iter(self.elements_analysed)""", """                min_setting[ref] = not min_setting[ref]
                min_value = new_value""")],
     TOL + '''
import itertools
for s in itertools.product((-3, 0, 1, 4), repeat=4):
    a, b, c, d = s
    f = lambda v: (a * (v["R1"] - 200) + b * (v["R2"] - 300) + c * (v["C1"] - 100)) / 10 + d * (v["R1"] - 205) * (v["R2"] - 295) / 100 + (v["C1"] - 99) * (v["R2"] - 301) / 50
    ANSWER[0] = f
    an = analysis(FastWorstCaseAnalysis)
    for r, x in (("R1", 200), ("R2", 300), ("C1", 100)): an.set_deviation(r, x - 10, x + 10)
    nom, lo, at_hi, hi, at_lo = an.run_analysis(measure="m1")
    lim = {"R1": (190, 210), "R2": (290, 310), "C1": (90, 110)}
    for r in lim:
        for x in lim[r]:
            assert f(dict(at_lo, **{r: x})) >= lo - 1e-6 and f(dict(at_hi, **{r: x})) <= hi + 1e-6, s
''')
seed("W04-no-check-of-inert-elements", "W04",
     "an element without influence at first that has influence once others are at their limits",
     "elements that change nothing at first are never tried",
     [(TKD + "fast_worst_case.py", """            if max_setting[ref]:  # Set the negative impact components to the minimum value
                set_ref_to(ref, WorstCaseType.min)
            else:
                set_ref_to(ref, WorstCaseType.max)
            # Run the simulation
            new_value = run_and_get_measure()""", """            if component_deltas[ref] == 0:
                continue  # it has no influence
            if max_setting[ref]:  # Set the negative impact components to the minimum value
                set_ref_to(ref, WorstCaseType.min)
            else:
                set_ref_to(ref, WorstCaseType.max)
            # Run the simulation
            new_value = run_and_get_measure()""")],
     TOL + '''
f = lambda v: (v["R1"] - 200) * (v["R2"] - 300) / 10 + 2 * (v["R2"] - 300)
ANSWER[0] = f
an = analysis(FastWorstCaseAnalysis)
an.set_deviation("C1", 90, 110); an.set_deviation("R1", 190, 210); an.set_deviation("R2", 290, 310)
nom, lo, at_hi, hi, at_lo = an.run_analysis(measure="m1")
assert abs(f(at_hi) - hi) < 1e-6 and f(dict(at_hi, R1=210)) <= hi + 1e-6 and f(dict(at_hi, R1=190)) <= hi + 1e-6, (hi, at_hi)
''')
seed("W05-signed-changes", "W05",
     "elements that act in opposite directions",
     "changes of opposite signs cancel out in the total of the quick sensitivities",
     [(TKD + "quick_sensitivity_analysis.py", "error_data.append(abs(step_data - nominal_data))", "error_data.append(step_data - nominal_data)")],
     TOL + '''
ANSWER[0] = lambda v: v["R1"] - v["R2"]
an = analysis(QuickSensitivityAnalysis)
an.set_deviation("R1", 170, 230); an.set_deviation("R2", 290, 310)
an.run_analysis()
s = an.get_sensitivity_data("*", "m1")
assert abs(s["R1"] - 75) < 1e-6 and abs(s["R2"] - 25) < 1e-6, s
''')
seed("W05-changes-that-cancel", "W05",
     "an element that acts in both directions, depending on the others",
     "changes in both directions cancel out in the sensitivities of the worst case",
     [(TKD + "worst_case.py", "diffs.append(abs(wc_data[run] - wc_data[run | bit_updated]))", "diffs.append(wc_data[run] - wc_data[run | bit_updated])"),
      (TKD + "worst_case.py", "                mean = sum(diffs) / len(diffs)", "                mean = abs(sum(diffs)) / len(diffs)")],
     TOL + '''
ANSWER[0] = lambda v: (v["R1"] - 200) * (v["R2"] - 300) + v["C1"] - 100
an = analysis(WorstCaseAnalysis)
an.set_deviation("R1", 190, 210); an.set_deviation("R2", 290, 310); an.set_deviation("C1", 90, 110)
an.run_analysis()
s = an.make_sensitivity_analysis("m1")
assert s["R1"][0] > 40 and s["R2"][0] > 40, s
''')
seed("W06-wider-normal-limits", "W06",
     "limits with a normal distribution, simulation by simulation, in numbers",
     "the limits are taken for one and a half standard deviations",
     [(TKD + "montecarlo.py", 'f"{random.Random().gauss((dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6):g}"',
       'f"{random.Random().gauss((dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 3):g}"')],
     TOL + '''
an = analysis(Montecarlo)
an.set_deviation("R1", 100, 300, "normal")
an.run_analysis(num_runs=300)
c = [x for x, in circuits("R1")]
assert len(c) == 300
far = sum(abs(x - 200) > 50 for x in c)
assert far < 93, far
''')
seed("W06-drift", "W06",
     "several simulations of a Monte Carlo analysis by components that are looked at one after the other",
     "each simulation draws its values around those of the one before",
     [(TKD + "montecarlo.py", """            self._reset_netlist()  # reset the netlist
            self.play_instructions()  # play the instructions
            # Preparing""", """            if run == 0:
                self._reset_netlist()  # reset the netlist
            self.play_instructions()  # play the instructions
            # Preparing""")],
     TOL + '''
an = analysis(Montecarlo)
an.set_tolerance("R", 0.1)
an.run_analysis(num_runs=80)
c = circuits("R1", "R2")
assert all(180 <= a <= 220 and 270 <= b <= 330 for a, b in c), c
''')
seed("W06-qspice-deviation", "W06",
     "normal tolerances in a testbench for Qspice",
     "the tolerance is taken for one standard deviation",
     [(TKD + "montecarlo.py", '".func ntol(nom,tol) {if(run<0, nom, nom*(1+gauss(tol/3)))}"', '".func ntol(nom,tol) {if(run<0, nom, nom*(1+gauss(tol)))}"')],
     TOL + '''
class Qspice(LTspice): pass
t = {}
for sim in (LTspice, Qspice):
    an = analysis(Montecarlo, sim)
    an.set_tolerance("R", 0.1, "normal")
    an.prepare_testbench(num_runs=10)
    an.save_netlist(os.path.join(TMP, "s.net"))
    f = [ln for ln in open(os.path.join(TMP, "s.net")) if "gauss" in ln]
    t[sim.__name__] = re.sub(r"[\\s{}]", "", f[0])
assert t["Qspice"] == t["LTspice"], t
''')
seed("W07-stale-results", "W07",
     "two analyses with the same object, both read",
     "the results of the first analysis are given for the second",
     [(TKD + "tolerance_deviations.py", """        super().clear_simulation_data()
        self.simulation_results.clear()
        self.analysis_executed = False""", """        super().clear_simulation_data()
        self.simulation_results.pop('callback_returns', None)
        self.analysis_executed = False""")],
     TOL + '''
ANSWER[0] = lambda v: v["R1"]
an = analysis(WorstCaseAnalysis)
an.set_deviation("R1", 190, 210)
an.run_analysis()
assert an.get_min_max_measure_value("m1") == (190, 210)
an.set_deviation("R1", 150, 250)
an.run_analysis()
assert an.get_min_max_measure_value("m1") == (150, 250)
''')
seed("W07-pattern-removal-by-name", "W07",
     "an instruction of the circuit removed by a pattern",
     "patterns given to an analysis are taken for whole instructions",
     [(TKD + "sim_analysis.py", "                self.editor.remove_Xinstruction(instruction[1])", "                self.editor.remove_instruction(instruction[1])")],
     TOL + '''
an = analysis(WorstCaseAnalysis)
an.add_instruction(".options abc=1")
an.remove_Xinstruction(r"\\.options ab.*")
an.set_tolerance("R", 0.1)
an.save_netlist(os.path.join(TMP, "s.net"))
assert ".options abc" not in open(os.path.join(TMP, "s.net")).read()
''')
seed("W07-failed-simulations-numbered", "W07",
     "a simulation of a worst case that fails, and the results of later runs",
     "runs after a failed simulation are numbered by their position",
     [(TKD + "tolerance_deviations.py", """        if len(self.log_data.stepset) == 0:
            if 'runm' in self.log_data.dataset and len(self.log_data.dataset['runm']) > 0:
                if isinstance(self.log_data.dataset['runm'][0], LTComplex):""", """        if len(self.log_data.stepset) == 0:
            if 'runm' in self.log_data.dataset and len(self.log_data.dataset['runm']) > 0:
                if len(self.log_data.dataset['runm']) > 0 and self.analysis_executed:
                    self.log_data.stepset = {'run': list(range(-1, len(self.log_data.dataset['runm']) - 1))}
                elif isinstance(self.log_data.dataset['runm'][0], LTComplex):""")],
     TOL + '''
ANSWER[0] = lambda v: v["R1"]
FAIL.add(2)
an = analysis(WorstCaseAnalysis)
an.set_deviation("R1", 190, 210)
an.run_analysis()
assert an.read_logfiles().get_measure_value("m1", run=1) == 210
''')
