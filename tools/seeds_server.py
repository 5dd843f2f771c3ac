SRV = "spicelib/client_server/sim_server.py"
SRR = "spicelib/client_server/srv_sim_runner.py"
CLI = "spicelib/client_server/sim_client.py"
NET = '''
from pathlib import Path
import socketserver, xmlrpc.client, xmlrpc.server, zipfile
_serve = socketserver.BaseServer.serve_forever
socketserver.BaseServer.serve_forever = lambda self, poll_interval=0.5: _serve(self, 0.01)
xmlrpc.server.SimpleXMLRPCRequestHandler.log_message = lambda self, *a: None
from spicelib.sim.simulator import Simulator
from spicelib.client_server.sim_server import SimServer
from spicelib.client_server.sim_client import SimClient
GATES = {}; OUTCOME = {}; SEEN = {}
class Stub(Simulator):
    spice_exe = ["stub"]; process_name = "no-such-proc"
    @classmethod
    def valid_switch(cls, s, p=""): return [s]
    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        n = Path(netlist_file); SEEN[n.name] = n.read_text()
        g = GATES.get(n.stem)
        if g: g.wait(30)
        o = OUTCOME.get(n.stem, "ok")
        if o in ("ok", "nolog"): n.with_suffix(".raw").write_text("raw of " + n.stem)
        if o in ("ok", "noraw", "fail"): n.with_suffix(".log").write_text("log of " + n.stem)
        return 1 if o == "fail" else 0
OUT = os.path.join(TMP, "out"); os.mkdir(OUT)
SERVER = SimServer(Stub, parallel_sims=2, output_folder=OUT, port=0, host="127.0.0.1")
PORT = SERVER.server.server_address[1]
CLIENTS = []
def client():
    c = SimClient("http://127.0.0.1", PORT); CLIENTS.append(c); return c
def circuit(name="ckt.net", text="* t", sub="c"):
    d = os.path.join(TMP, sub); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name); open(p, "w").write(text + "\\nV1 1 0 1\\nR1 1 0 1k\\n.op\\n.end\\n"); return p
def wait(cond, t=10):
    t0 = time.time()
    while not cond() and time.time() - t0 < t: time.sleep(0.02)
    return cond()
def run_stems(): return sorted({f.split(".")[0] for f in os.listdir(OUT) if "_" in f})
def end(code):
    sys.stdout.flush(); shutil.rmtree(TMP, True); os._exit(code)
def limit(sec):
    def go():
        time.sleep(sec); end(3)
    threading.Thread(target=go, daemon=True).start()
limit(60)
'''

seed("S01-iterator-counts-stored", "S01",
     "a client that stores several finished runs before it fetches them while others are still in progress",
     "the iteration ends early: runs in progress are never handed out when as many finished runs wait to be fetched",
     [(CLI, "        while len(self.started_jobs) > 0:\n", "        while len(self.started_jobs) > len(self.stored_jobs) // 2:\n")],
     NET + '''
c = client(); GATES["ckt_3"] = threading.Event()
for i in range(2): c.run(circuit())
wait(lambda: len(SERVER.status(c.session_id)) == 2)
c.run(circuit())
got = [next(c), next(c)]
threading.Timer(0.5, GATES["ckt_3"].set).start()
got += list(c)
end(0 if sorted(got) == [1, 2, 3] else 1)
''')
seed("S01-zip-of-first-match", "S01",
     "a run that leaves only a log (a failure) in a session that also has a run whose files are still kept",
     "the archive sent for a failed run is named and filled from a stale file of another suffix: its log is missing",
     [(SRR, "        if isinstance(log_filename, Path) and log_filename.exists():\n            zip_file.write(log_filename)\n",
       "        if isinstance(log_filename, Path) and log_filename.suffix == '.log' and log_filename.exists():\n            zip_file.write(log_filename)\n")],
     NET + '''
c = client(); OUTCOME["ckt_2"] = "fail"
for i in range(2): c.run(circuit())
names = {}
for r in c:
    z = c.get_runno_data(r)
    names[r] = len(zipfile.ZipFile(z).namelist()) if z else 0
end(0 if names == {1: 2, 2: 1} else 1)
''')
seed("S02-status-by-count", "S02",
     "two sessions with interleaved runs",
     "the status of a session lists finished runs between its first and last run, so runs of other sessions too",
     [(SRV, "            if runno in self.sessions[session_id]:\n                _logger.debug(f\"Server: status({session_id}) will",
       "            mine = self.sessions[session_id]\n            if mine and min(mine) <= runno <= max(mine):\n                _logger.debug(f\"Server: status({session_id}) will")],
     NET + '''
a, b = client(), client()
a.run(circuit(sub="a")); b.run(circuit(sub="b")); wait(lambda: len(SERVER.simulation_manager.completed_tasks) == 2)
a.run(circuit(sub="a")); wait(lambda: len(SERVER.simulation_manager.completed_tasks) == 3)
end(0 if sorted(SERVER.status(a.session_id)) == [1, 3] and SERVER.status(b.session_id) == [2] else 1)
''')
seed("S02-fetch-any-session", "S02",
     "a session asking for the files of a finished run of another session",
     "the files of a run are handed to (and erased by) any open session",
     [(SRV, "        if runno in self.sessions[session_id]:\n            for task_info",
       "        if any(runno in runs for runs in self.sessions.values()):\n            for task_info")],
     NET + '''
a, b = client(), client()
a.run(circuit(sub="a")); wait(lambda: SERVER.status(a.session_id) == [1])
px = xmlrpc.client.ServerProxy("http://127.0.0.1:%d" % PORT)
name, data = px.get_files(b.session_id, 1)
end(0 if name == "" and SERVER.status(a.session_id) == [1] else 1)
''')
seed("S03-erase-by-position", "S03",
     "closing a session with several finished runs while other sessions have finished runs too",
     "when a session is closed the files of only its first finished run are erased",
     [(SRV, "        for runno in self.sessions[session_id]:\n", "        for runno in self.sessions[session_id][:1] + self.sessions[session_id][2:]:\n")],
     NET + '''
a, b = client(), client()
for i in range(2): a.run(circuit(sub="a")); wait(lambda: len(SERVER.status(a.session_id)) == i + 1)
b.run(circuit(sub="b")); wait(lambda: SERVER.status(b.session_id) == [3])
a.close_session()
end(0 if run_stems() == ["ckt_3"] else 1)
''')
seed("S03-circuit-kept", "S03",
     "fetching the result of a run that failed",
     "the netlist of a run that failed is never erased from the server",
     [(SRR, "                if f is not None and f.exists():\n", "                if f is not None and f.exists() and (filename != 'circuit' or task['retcode'] == 0):\n")],
     NET + '''
c = client(); OUTCOME["ckt_1"] = "fail"
c.run(circuit()); r = next(c); c.get_runno_data(r)
end(0 if run_stems() == [] else 1)
''')
seed("S04-launch-without-lock", "S04",
     "a run ends while the server's housekeeping and a launching request both look at the runner's lists",
     "a launch goes through the runner's lists without the protection against the housekeeping thread: runs are lost or misplaced",
     [("spicelib/sim/sim_runner.py", "        \"\"\"Returns the number of active simulation runs\"\"\"\n        self.update_completed()\n",
       "        \"\"\"Returns the number of active simulation runs\"\"\"\n        self._update_completed()\n")],
     NET + '''
from spicelib.sim.sim_runner import SimRunner
from spicelib.sim.run_task import RunTask
SERVER.stop_server()
r = SimRunner(simulator=Stub, parallel_sims=4, output_folder=OUT)
ck = circuit()
for i in range(1, 4): GATES["ckt_%d" % i] = threading.Event()
ts = [r.run(ck) for i in range(3)]
GATES["ckt_1"].set(); wait(lambda: not ts[0].is_alive())
inside, go, errors = threading.Event(), threading.Event(), []
real = RunTask.is_alive
def gated(self):
    v = real(self)
    if threading.current_thread().name == "HK":
        inside.set(); go.wait(5)
    return v
RunTask.is_alive = gated
def hk():
    try: r.update_completed()
    except Exception as e: errors.append(e)
h = threading.Thread(target=hk, name="HK"); h.start(); inside.wait(10)
m = threading.Thread(target=r.active_threads); m.start(); m.join(0.5)
go.set(); h.join(10); m.join(10)
ok = not errors and [t.runno for t in r.completed_tasks] == [1] and [t.runno for t in r.active_tasks] == [2, 3]
for g in GATES.values(): g.set()
end(0 if ok else 1)
''')
