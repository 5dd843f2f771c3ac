RUN = "spicelib/sim/sim_runner.py"
TASK = "spicelib/sim/run_task.py"
STUB = '''
from pathlib import Path
from spicelib.sim.sim_runner import SimRunner
from spicelib.sim.simulator import Simulator
from spicelib.editor.spice_editor import SpiceEditor
GATES = {}
LIVE = []; PEAK = [0]
LOCK = threading.Lock()
OUTCOME = {}
class Stub(Simulator):
    spice_exe = ["stub"]; process_name = "no-such-proc"
    @classmethod
    def valid_switch(cls, s, p=""): return [s]
    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        n = Path(netlist_file)
        with LOCK:
            LIVE.append(n.stem); PEAK[0] = max(PEAK[0], len(LIVE))
        g = GATES.get(n.stem)
        if g: g.wait(20)
        o = OUTCOME.get(n.stem, "ok")
        if o in ("ok", "nolog"): n.with_suffix(".raw").write_text("raw")
        if o in ("ok", "noraw", "fail"): n.with_suffix(".log").write_text("log")
        with LOCK: LIVE.remove(n.stem)
        return {"fail": 1, "neg": -1}.get(o, 0)
CKT = os.path.join(TMP, "ckt.net"); OUT = os.path.join(TMP, "out")
open(CKT, "w").write("* t\\nV1 in 0 1\\nR1 in out 1k\\nR2 out 0 1k\\n.op\\n.end\\n")
def runner(n=2, **kw): return SimRunner(simulator=Stub, parallel_sims=n, output_folder=OUT, **kw)
'''

seed("R01-slot-freed-before-callback", "R01",
     "a callback that is still running after its simulation has ended while another launch waits for a slot",
     "the slot of a run is given away when its simulation ends although its callback still runs, so more runs than allowed are in progress",
     [(RUN, "            if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started\n",
       "            task = self.active_tasks[i]\n            if task.stop_time is None and (task.is_alive() or task.start_time is None):  # running or not yet started\n")],
     STUB + '''
hold = threading.Event(); started = threading.Event(); second = []
def cb(raw, log):
    started.set(); hold.wait(20)
r = runner(1)
r.run(CKT, callback=cb)
started.wait(10)
t = threading.Thread(target=lambda: second.append(r.run(CKT)))
t.start(); time.sleep(1.0)
early = bool(second)
hold.set(); t.join(20); r.wait_completion()
sys.exit(1 if early else 0)
''')
seed("R02-negative-code-is-success", "R02",
     "a simulator that ends with a negative return code (killed by a signal)",
     "a run that failed with code -1 is counted as successful",
     [(RUN, "                if self.active_tasks[i].retcode == 0:\n", "                if self.active_tasks[i].retcode in (0, -1):\n")],
     STUB + '''
OUTCOME["ckt_2"] = "neg"
r = runner(2)
for _ in range(3): r.run(CKT)
r.wait_completion()
sys.exit(0 if (r.okSim, r.failSim) == (2, 1) else 1)
''')
seed("R03-edits-shared", "R03",
     "an editor that is edited again after a launch, and the run's recorded edits are looked at afterwards",
     "the edits recorded with a run change when the circuit is edited later",
     [(TASK, "        self._edits = copy(netlist_updates)", "        self._edits = netlist_updates")],
     STUB + '''
ed = SpiceEditor(CKT); r = runner(2)
ed.set_component_value("R1", 111); t1 = r.run(ed)
ed.set_component_value("R1", 222); t2 = r.run(ed)
r.wait_completion()
sys.exit(0 if (t1.value("R1"), t2.value("R1")) == (111, 222) else 1)
''')
seed("R04-callback-without-output", "R04",
     "a simulator that reports success but does not write its raw file",
     "the callback is called although the run produced no output and errors were not asked for",
     [(TASK, "                some_error = True\n        else:", "                some_error = not self.log_file.exists()\n        else:")],
     STUB + '''
OUTCOME["ckt_1"] = "noraw"; calls = []
r = runner(1)
r.run(CKT, callback=lambda raw, log: calls.append(raw))
r.wait_completion()
sys.exit(1 if calls else 0)
''')
seed("R06-shared-iterator-position", "R06",
     "two iterations over the same runner in progress at the same time",
     "iterations share their position, so one iteration skips the runs already delivered to the other",
     [(RUN, "            if self._iterator_counter < len(self.runner.completed_tasks):\n                task: RunTask = self.runner.completed_tasks[self._iterator_counter]\n                self._iterator_counter += 1\n",
       "            position = getattr(self.runner, '_position', 0) if self.wait else self._iterator_counter\n            if position < len(self.runner.completed_tasks):\n                task: RunTask = self.runner.completed_tasks[position]\n                self._iterator_counter = position + 1\n                self.runner._position = self._iterator_counter\n"),
      (RUN, "    def __iter__(self):\n        self._iterator_counter = 0\n", "    def __iter__(self):\n        self._iterator_counter = 0\n        self.runner._position = 0\n")],
     STUB + '''
r = runner(2)
for _ in range(3): r.run(CKT)
r.wait_completion()
a = r.tasks(); b = r.tasks()
x = [next(a).runno, next(b).runno, next(a).runno, next(b).runno]
sys.exit(0 if x == [1, 1, 2, 2] or (x[0] == x[1] and x[2] == x[3]) else 1)
''')
seed("R07-cleanup-by-prefix", "R07",
     "at least ten runs, run 10 still in progress while run 1 is cleaned up",
     "cleaning up run 1 also deletes files of run 10 which is still in progress",
     [(RUN, "            self._del_file_if_exists(netlistfile)  # Delete the netlist file if still exists\n",
       "            for sibling in netlistfile.parent.glob(netlistfile.stem + '*' + netlistfile.suffix):\n                self._del_file_if_exists(sibling)  # Delete the netlist file if still exists\n")],
     STUB + '''
r = runner(20)
gate = GATES["ckt_10"] = threading.Event()
for _ in range(10): r.run(CKT)
time.sleep(1)
r.cleanup_files()
there = os.path.exists(os.path.join(OUT, "ckt_10.net"))
gate.set(); r.wait_completion()
sys.exit(0 if there else 1)
''')
SIMHEAD = '''
from pathlib import Path
from spicelib import SimRunner
import psutil; psutil.process_iter = lambda *a, **k: iter(())
def fake(path, text="exit 0"):
    p = os.path.join(TMP, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write('#!/bin/sh\\\\nfor a in "$@"; do printf "%s\\\\\\\\n" "$a"; done > "' + TMP + '/seen"\\\\n' + text + "\\\\n")
    os.chmod(p, 0o755)
    return p
def seen():
    return open(os.path.join(TMP, "seen")).read().split("\\\\n")[:-1]
NET = os.path.join(TMP, "c.net")
open(NET, "w").write("* c\\\\nR1 a 0 1k\\\\n.op\\\\n.end\\\\n")
'''.replace("\\\\", "\\")
seed("R08-same-path-twice", "R08",
     "two switches with the same file are added to a runner",
     "the second one is on the command line without its file",
     [("spicelib/sim/sim_runner.py", '''        if path:
            self.cmdline_switches.append(path)
''', '''        if path and path not in self.cmdline_switches:
            self.cmdline_switches.append(path)
''')],
     SIMHEAD + '''
from spicelib.simulators.xyce_simulator import XyceSimulator as S
S.create_from(Path(fake("bin/xy")))
r = SimRunner(simulator=S, output_folder=os.path.join(TMP, "o"))
r.add_command_line_switch("-prf", "p.txt"); r.add_command_line_switch("-rsf", "p.txt")
r.run(NET).join()
assert seen()[:4] == ["-prf", "p.txt", "-rsf", "p.txt"], seen()
''')
seed("R08-refused-program-stays", "R08",
     "create_from is given a program that does not exist, after one that does",
     "the simulator has the process name of the missing program, although the error was reported",
     [("spicelib/sim/simulator.py", '''        if plib_path_to_exe is not None and (plib_path_to_exe.exists() or shutil.which(plib_path_to_exe)):
            if process_name is None:
                cls.process_name = cls.guess_process_name(exe_parts[0])
            else:
                cls.process_name = process_name
''', '''        if exe_parts:
            cls.process_name = process_name or cls.guess_process_name(exe_parts[0])
        if plib_path_to_exe is not None and (plib_path_to_exe.exists() or shutil.which(plib_path_to_exe)):
''')],
     SIMHEAD + '''
from spicelib.simulators.xyce_simulator import XyceSimulator as S
S.create_from(fake("bin/xy"))
try:
    S.create_from(os.path.join(TMP, "none"))
    sys.exit("found")
except FileNotFoundError:
    pass
assert S.process_name == "xy", S.process_name
''')
seed("R08-log-of-dotted-name", "R08",
     "a netlist whose name has a dot before its extension, simulated with ngspice",
     "the simulator writes its raw file under another name, where the runner does not find it",
     [("spicelib/simulators/ngspice_simulator.py", '''        rawfile = netlist_file.with_suffix('.raw').as_posix()
''', '''        rawfile = (netlist_file.parent / (netlist_file.name.split('.')[0] + '.raw')).as_posix()
''')],
     SIMHEAD + '''
from spicelib.simulators.ngspice_simulator import NGspiceSimulator as S
S.create_from(fake("bin/ng"))
n = os.path.join(TMP, "a.b.net")
open(n, "w").write("* c\\n.end\\n")
S.run(n)
a = seen()
assert a[a.index("-r") + 1] == os.path.join(TMP, "a.b.raw"), a
''')
seed("R08-library-of-host", "R08",
     "LTspice in a wine folder, where a library folder exists there and in the home of the user",
     "the folder of the host is used instead of the one in the wine folder",
     [("spicelib/sim/simulator.py", '''            if path.startswith("~"):
                # Normally,''', '''            if path.startswith("~") and not os.path.isdir(os.path.expanduser(path)):
                # Normally,''')],
     SIMHEAD + '''
from spicelib.simulators.ltspice_simulator import LTspice as S
os.environ.update(HOME=os.path.join(TMP, "h"), USER="me")
exe = fake("w/drive_c/P/lt.exe")
for b in ("h", "w/drive_c/users/me"):
    os.makedirs(os.path.join(TMP, b, "Documents/LTspice/lib"))
S.create_from(exe)
assert [p.rstrip("/") for p in S.get_default_library_paths()] == [os.path.join(TMP, "w/drive_c/users/me/Documents/LTspice/lib")]
''')
