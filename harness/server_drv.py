"""Executes scenarios (behaviours of Server.tla) on a real SimServer with real SimClients over the loopback network.

A stand-in simulator blocks every simulation until the driver ends it with a chosen outcome; sleeping only yields."""
import io
import json
import os
import shutil
import socket
import sys
import tempfile
import threading
import traceback
import xmlrpc.client
import zipfile
from pathlib import Path

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtime  # noqa: E402

vtime.install()
import socketserver  # noqa: E402
import xmlrpc.server  # noqa: E402

_serve = socketserver.BaseServer.serve_forever
socketserver.BaseServer.serve_forever = lambda self, poll_interval=0.5: _serve(self, min(poll_interval, 0.005))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import psutil  # noqa: E402

psutil.process_iter = lambda *a, **k: iter(())  # never let code under test kill real processes
from spicelib.sim.simulator import Simulator  # noqa: E402
from spicelib.sim.run_task import RunTask  # noqa: E402
from spicelib.client_server.sim_server import SimServer  # noqa: E402
from spicelib.client_server.sim_client import SimClient, SimClientInvalidRunId  # noqa: E402

LIMIT = 6.0
CUR = None
STALLS = [0.0]   # real time spent waiting in vain; beyond some budget the remaining scenarios are left out
KEEP = []   # clients must not be collected while a server of another scenario may use the same port


class Quiet(xmlrpc.server.SimpleXMLRPCRequestHandler):
    pass


xmlrpc.server.SimpleXMLRPCRequestHandler.log_message = lambda self, *a: None


class StubSim(Simulator):
    spice_exe = ["verif-stub"]
    process_name = "verif-stub-no-such-process"
    raw_extension = ".raw"

    @classmethod
    def valid_switch(cls, switch, switch_param=""):
        return [switch]

    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None,
            exe_log=False):
        return CUR.sim_entry(Path(netlist_file))


class Gates:
    """Holds chosen threads each time they look whether a task has ended; the driver lets them go one look at a time."""

    def __init__(self):
        self.threads, self.on = [], False
        self.cv = threading.Condition(threading.Lock())
        self.at, self.go = {}, {}

    def pause(self):
        me = threading.current_thread()
        if not self.on or me not in self.threads:
            return
        i = self.threads.index(me)
        with self.cv:
            self.at[i] = self.at.get(i, 0) + 1
            n = self.at[i]
            self.cv.notify_all()
            while self.on and self.go.get(i, 0) < n:
                self.cv.wait(5)

    def open_for(self, threads):
        self.threads, self.at, self.go = list(threads), {}, {}
        self.on = True

    def settle(self):
        """wait until both stand at a gate (or one of them is kept out by a lock)"""
        t0 = vtime.real_mono()
        while len(self.at) < len(self.threads) and vtime.real_mono() - t0 < 0.05:
            vtime.real_sleep(0.0005)

    def step(self, i):
        with self.cv:
            if self.at.get(i, 0) <= self.go.get(i, 0):
                return               # not at a gate
            self.go[i] = self.at[i]
            self.cv.notify_all()
        t0 = vtime.real_mono()
        while self.at[i] <= self.go[i] and vtime.real_mono() - t0 < 0.02:
            vtime.real_sleep(0.0003)

    def off(self):
        with self.cv:
            self.on = False
            self.cv.notify_all()


GATE = Gates()
REAL_ALIVE = threading.Thread.is_alive


def _gated_alive(self):
    GATE.pause()
    return REAL_ALIVE(self)


RunTask.is_alive = _gated_alive


class Driver:
    def __init__(self, par, variant):
        self.dir = tempfile.mkdtemp(prefix="verif_srv_")
        self.variant = variant
        self.par = par
        self.lock = threading.RLock()
        self.opened = False
        self.starts = []          # records of started simulations, in order
        self.sent = []            # (client, token) of launches in order
        self.runno = {}           # k -> server's run number
        self.byfile = {}
        self.clients, self.proxies = [], []
        self.state = []           # per client: open / closed
        self.owner, self.st, self.out = {}, {}, {}
        self.pend = None
        self.up = True
        self.depby = 0            # client that sent the dependency last
        os.chdir(self.dir)
        self.folder = os.path.join(self.dir, "srv") if variant % 2 else "./srv"
        os.mkdir(os.path.join(self.dir, "srv"))
        self.out_dir = os.path.join(self.dir, "srv")
        self.keep = {}
        for n in ("notes.txt", "other.raw", "ckt.raw", "ckt.log"):
            p = os.path.join(self.out_dir, n)
            with open(p, "w") as f:
                f.write("user file " + n)
            self.keep[p] = "user file " + n
        vtime.now = 1000.0
        vtime.active = True
        before = set(threading.enumerate())
        self.server = SimServer(StubSim, parallel_sims=par, output_folder=self.folder, timeout=300, port=0,
                                host="127.0.0.1")
        self.port = self.server.server.server_address[1]
        self.threads = [t for t in threading.enumerate() if t not in before]
        self.url = "http://127.0.0.1"
        self.direct = xmlrpc.client.ServerProxy("%s:%d" % (self.url, self.port))

    # ------------------------------------------------------------------ simulator side
    def sim_entry(self, netlist):
        rec = {"file": str(netlist), "ev": threading.Event(), "out": None, "over": False, "text": "", "dep": 0,
               "depby": self.depby, "thread": threading.current_thread()}
        try:
            rec["text"] = netlist.read_text()
        except OSError:
            pass
        try:
            rec["dep"] = int((netlist.parent / "lib.inc").read_text().split()[-1])
        except (OSError, ValueError, IndexError):
            pass
        with self.lock:
            self.starts.append(rec)
            rec["k"] = len(self.starts)
        if not self.opened:
            rec["ev"].wait()
        out = rec["out"] or "ok"
        try:
            if out in ("ok", "nolog", "failm"):
                netlist.with_suffix(".raw").write_text("raw of %s" % rec["k"])
            if out in ("ok", "noraw", "fail", "failm"):
                netlist.with_suffix(".log").write_text("log of %s" % rec["k"])
        finally:
            rec["over"] = True
        if out == "exc":
            raise RuntimeError("stub exception")
        return {"fail": 1, "failm": 3}.get(out, 0)

    # ------------------------------------------------------------------ calls
    def until(self, cond, limit=LIMIT):
        t0 = vtime.real_mono()
        while not cond():
            if vtime.real_mono() - t0 > limit:
                if limit >= 1.0:
                    STALLS[0] += limit
                return False
            vtime.real_sleep(0.0005)
        return True

    def call(self, kind, fn, c=0):
        p = {"kind": kind, "done": False, "val": None, "c": c}

        def go():
            try:
                p["val"] = fn()
            except StopIteration:
                p["val"] = "stop"
            except SimClientInvalidRunId:
                p["val"] = "invalid"
            except xmlrpc.client.Fault as e:
                p["val"] = ("fault", str(e))
            except BaseException as e:
                p["val"] = ("exception", type(e).__name__ + ": " + str(e))
            p["done"] = True
        p["thread"] = threading.Thread(target=go, daemon=True)
        p["thread"].start()
        return p

    def now(self, fn):
        """a call that must return at once"""
        p = self.call("now", fn)
        if not self.until(lambda: p["done"]):
            return ("hang",)
        return p["val"]

    def fn_launch(self, c, circuit, deps):
        return self.clients[c - 1].run(circuit, deps)

    # ------------------------------------------------------------------ what the driver knows
    def live(self):
        return [r["k"] for r in self.starts if not r["over"]]

    def note_run(self, runno, c):
        k = len(self.runno) + 1
        self.runno[k] = runno
        self.owner[k], self.st[k] = c, "run"
        return k

    def kof(self, runno):
        for k, n in self.runno.items():
            if n == runno:
                return k
        return 0

    def ks(self, xs):
        return [self.kof(x) for x in xs]

    # ------------------------------------------------------------------ events
    def allowed(self, op):
        p, n = self.pend, op["op"]
        others = self.up and (p is None or (p["kind"] == "next" and p["c"] != op.get("c")))
        if n == "end":
            return any(r["k"] == op["k"] and not r["over"] for r in self.starts)
        if n == "race":
            return p is not None and p["kind"] == "launch" and all(k in self.live() for k in op["ks"])
        if n == "giveup":
            return p is not None and p["kind"] == "launch"
        if n in ("open", "stop"):
            return self.up and p is None
        if op.get("c", 0) > len(self.clients) or n == "foreign" and (
                op["k"] not in self.runno or (self.owner[op["k"]], self.st[op["k"]]) == (op["c"], "done")):
            return False
        if n in ("foreign", "unknown"):
            return self.up and (p is None or p["kind"] == "next")
        if n == "next":
            return self.up and p is None and self.state[op["c"] - 1] == "open"
        if n == "launch":
            return others and (p is None or len(self.live()) < self.par)
        return others

    def do(self, op):
        ev = dict(op)
        n = op["op"]
        if n == "fetch":   # which of the stored runs, decided here
            st = sorted(self.kof(x) for x in self.clients[op["c"] - 1].stored_jobs) if op["c"] <= len(self.clients) else []
            ev["k"] = st[op["pick"] % len(st)] if st else 0
        ev["skip"] = not self.allowed(op)
        if ev["skip"]:
            return ev
        self.n0 = len(self.starts)
        ev["zip"] = {"own": True, "kinds": []}
        ev["r"] = getattr(self, "do_" + n)(ev)
        self.observe(ev)
        return ev

    @staticmethod
    def rep(k, v=0):
        return {"k": k, "v": v}

    def bad(self, v):
        return self.rep("unexpected:" + repr(v)[:200])

    def do_open(self, ev):
        c = self.now(lambda: SimClient(self.url, self.port))
        if not isinstance(c, SimClient):
            return self.bad(c)
        KEEP.append(c)
        self.clients.append(c)
        self.state.append("open")
        d = os.path.join(self.dir, "client%d" % len(self.clients))
        os.mkdir(d)
        return self.rep("client", len(self.clients))

    def circuit(self, c, ck):
        self.sent.append(c)
        name = "ckt.net" if ck == 0 else "c%d_filter.%d.cir" % (c, 5)
        p = os.path.join(self.dir, "client%d" % c, name)
        self.token = "* launch %d of client %d" % (len(self.sent), c)
        with open(p, "w") as f:
            f.write("%s\nV1 1 0 1\nR1 1 0 1k\n.op\n.end\n" % self.token)
        return p if self.variant % 3 else Path(p)

    def dep(self, c, v):
        p = os.path.join(self.dir, "client%d" % c, "lib.inc")
        with open(p, "w") as f:
            f.write("* client %d version %d" % (c, v))
        self.depby = c
        return p

    def do_launch(self, ev):
        c = ev["c"]
        path = self.circuit(c, ev["ck"])
        deps = [self.dep(c, ev["dep"])] if ev["dep"] and self.state[c - 1] == "open" else None
        p = self.call("launch", lambda: self.clients[c - 1].run(path, deps), c)
        if self.state[c - 1] == "open" and len(self.live()) >= self.par:
            self.until(lambda: p["done"], 0.03)
        else:
            self.until(lambda: p["done"])
        if not p["done"]:
            self.pend = p
            return self.rep("blocked")
        return self.launched(p)

    def launched(self, p):
        v = p["val"]
        if v == -1:
            return self.rep("refused")
        if not isinstance(v, int) or self.kof(v) or v < 0:
            return self.bad(v)
        self.until(lambda: len(self.starts) > len(self.runno))
        return self.rep("run", self.note_run(v, p["c"]))

    def do_missing(self, ev):
        v = self.now(lambda: self.clients[ev["c"] - 1].run(os.path.join(self.dir, "missing.net")))
        return self.rep("refused") if v == -1 else self.bad(v)

    def do_sources(self, ev):
        c = ev["c"]
        was = self.depby
        p = self.dep(c, ev["dep"])
        if self.state[c - 1] != "open":
            self.depby = was
        v = self.now(lambda: self.clients[c - 1].add_sources([p]))
        return self.rep({True: "true", False: "false"}[v]) if isinstance(v, bool) else self.bad(v)

    def resume(self):
        """the outstanding call: has it returned?"""
        p = self.pend
        if p is None:
            return self.rep("idle")
        if p["kind"] == "launch":
            expect = len(self.live()) < self.par
        else:
            cl = self.clients[p["c"] - 1]
            expect = any(self.st[k] == "done" and self.runno[k] in cl.started_jobs for k in self.runno)
        self.until(lambda: p["done"], LIMIT if expect else 0.02)
        if not p["done"]:
            return self.rep("blocked")
        self.pend = None
        return self.launched(p) if p["kind"] == "launch" else self.yielded(p)

    def do_end(self, ev):
        k = ev["k"]
        rec = self.starts[k - 1]
        rec["out"] = ev["o"]
        if k in self.runno:
            gone = self.state[self.owner[k] - 1] == "closed" or not self.up
            self.st[k] = "gone" if gone else "done"
        rec["ev"].set()
        self.until(lambda: rec["over"])
        r0 = None
        if self.pend is not None and self.pend["kind"] == "launch":
            r0 = self.resume()
        if k in self.runno:
            if self.st[k] == "done":
                sid = self.clients[self.owner[k] - 1].session_id
                if self.pend is None or self.pend["kind"] != "launch":
                    def seen():
                        v = self.now(lambda: self.direct.status(sid))
                        return isinstance(v, list) and self.runno[k] in v
                    # may already have been handed to the iterating client, never already fetched
                    self.until(seen, 2.0)
            elif self.up or not self.live():
                self.until(lambda: not any(self.st[j] == "gone" and j in self.files()[0] for j in self.runno), 2.0)
        return r0 if r0 is not None else self.resume()

    def do_race(self, ev):
        """runs end while the two threads of the server step through the runner's lists in a given interleaving"""
        ks = sorted(ev["ks"])
        GATE.open_for(self.threads)
        GATE.settle()
        todo = list(ks)
        for x in ev["sched"]:
            if x == 0 and todo:
                self.finish(todo.pop(0))
            elif x:
                GATE.step(x - 1)
        for k in todo:
            self.finish(k)
        GATE.off()
        r0 = self.resume()
        for k in ks:
            if self.state[self.owner[k] - 1] == "open" and self.pend is None:
                sid = self.clients[self.owner[k] - 1].session_id

                def seen():
                    v = self.now(lambda: self.direct.status(sid))
                    return isinstance(v, list) and self.runno[k] in v
                self.until(seen, 2.0)
        return r0

    def finish(self, k):
        rec = self.starts[k - 1]
        rec["out"] = "ok"
        self.st[k] = "gone" if self.state[self.owner[k] - 1] == "closed" else "done"
        rec["ev"].set()
        self.until(lambda: rec["over"])
        t = rec["thread"]
        self.until(lambda: not REAL_ALIVE(t))

    def do_giveup(self, ev):
        p = self.pend
        for _ in range(10):       # the launch may only now begin to measure its time
            vtime.tick(400)
            if self.until(lambda: p["done"], 0.6):
                break
        self.pend = None
        return self.launched(p) if p["done"] else self.rep("blocked")

    def yielded(self, p):
        v = p["val"]
        if v == "stop":
            return self.rep("stop")
        if isinstance(v, int) and self.kof(v):
            return self.rep("run", self.kof(v))
        return self.bad(v)

    def do_next(self, ev):
        cl = self.clients[ev["c"] - 1]
        p = self.pend = self.call("next", lambda: next(cl) if self.variant % 5 else next(iter(cl)), ev["c"])
        expect = not cl.started_jobs or any(self.st[k] == "done" and self.runno[k] in cl.started_jobs for k in self.runno)
        self.until(lambda: p["done"], LIMIT if expect else 0.02)
        return self.resume()

    def do_fetch(self, ev):
        k = ev["k"]
        v = self.now(lambda: self.clients[ev["c"] - 1].get_runno_data(self.runno.get(k, 999)))
        if v == "invalid":
            return self.rep("invalid", k)
        if k:
            self.st[k] = "gone"
        if v is None:
            return self.rep("nofile", k)
        if not isinstance(v, (str, Path)):
            return self.bad(v)
        own, kinds = True, []
        try:
            with zipfile.ZipFile(v) as z:
                for i in z.infolist():
                    text = z.read(i).decode()
                    kinds.append(i.filename.rsplit(".", 1)[-1])
                    own = own and text.endswith(" of %d" % k)
        except Exception as e:
            return self.bad(e)
        where = Path(v).parent.resolve() == Path(self.dir, "client%d" % ev["c"]).resolve()
        ev["zip"] = {"own": own and where, "kinds": kinds}
        return self.rep("zip", k)

    do_fetchx = do_fetch

    def do_foreign(self, ev):
        sid = self.clients[ev["c"] - 1].session_id
        v = self.now(lambda: self.direct.get_files(sid, self.runno[ev["k"]]))
        if isinstance(v, list) and len(v) == 2 and v[0] == "" and getattr(v[1], "data", 1) == b"":
            return self.rep("nothing")
        if isinstance(v, tuple) and v[0] == "fault":
            return self.rep("nothing")
        return self.bad(v)

    def do_unknown(self, ev):
        w, sid = ev["w"], "00000000-no-such-session"
        if w == "run":
            v = self.now(lambda: self.direct.run(sid, "x.net", b""))
            ok = v == -1
        elif w == "status":
            v = self.now(lambda: self.direct.status(sid))
            ok = v == [] or isinstance(v, tuple) and v[0] == "fault"
        elif w == "files":
            v = self.now(lambda: self.direct.get_files(sid, 1))
            ok = isinstance(v, tuple) and v[0] == "fault" or isinstance(v, list) and v[0] == ""
        elif w == "sources":
            buf = io.BytesIO()
            with zipfile.ZipFile(buf, "w") as z:
                z.writestr("notes.txt", "overwritten")
            v = self.now(lambda: self.direct.add_sources(sid, buf.getvalue()))
            ok = v is False
        else:
            v = self.now(lambda: self.direct.close_session(sid))
            ok = v is False
        return self.rep("refused") if ok else self.bad(v)

    def do_close(self, ev):
        c = ev["c"]
        if self.state[c - 1] == "open" and self.variant % 2:
            v = self.now(lambda: self.clients[c - 1].close_session())
            v = True if v in (None, True) else v
        else:
            v = self.now(lambda: self.direct.close_session(self.clients[c - 1].session_id))
        self.state[c - 1] = "closed"
        for k in self.runno:
            if self.owner[k] == c and self.st[k] == "done":
                self.st[k] = "gone"
        return self.rep({True: "true", False: "false"}[v]) if isinstance(v, bool) else self.bad(v)

    def do_stop(self, ev):
        v = self.now(self.direct.stop_server if ev["rpc"] else self.server.stop_server)
        self.up = False
        for k in self.runno:
            if self.st[k] == "done":
                self.st[k] = "gone"
        if not self.live():
            self.until(lambda: not any(self.alive(t) for t in self.threads), 3.0)
            self.until(lambda: not any(k in self.files()[0] for k in self.runno if self.st[k] == "gone"), 2.0)
        return self.rep("true") if v is True else self.bad(v)

    # ------------------------------------------------------------------ observations
    @staticmethod
    def alive(t):
        return t in threading.enumerate()

    def files(self):
        """runs with any file left, runs whose netlist exists, kinds of output files per run"""
        names = sorted(os.listdir(self.out_dir))
        left, nets, outs = [], [], []
        for k in range(1, len(self.starts) + 1):
            f = os.path.basename(self.starts[k - 1]["file"])
            stem = f.rsplit(".", 1)[0]
            mine = [n for n in names if n.rsplit(".", 1)[0] == stem]
            if mine:
                left.append(k)
            if f in mine:
                nets.append(k)
            outs.append([n.rsplit(".", 1)[-1] for n in mine if n != f])
        return left, nets, outs

    def observe(self, ev):
        ev["live"] = self.live()
        ev["start"] = []
        for r in self.starts[self.n0:]:
            k = r["k"]
            c = self.owner.get(k, 0)
            tok = "* launch %d of client %d" % (self.launch_of(r), c)
            ev["start"].append({"k": k, "content": r["text"].startswith(tok + "\n"), "dep": r["dep"],
                                "shared": r["depby"] not in (0, c)})
        ev["shared"] = any(x["shared"] for x in ev["start"])
        ev["obs"] = bool(self.up and (self.pend is None or self.pend["kind"] != "launch"))
        ev["status"] = []
        if ev["obs"]:
            for cl in self.clients:
                sid = cl.session_id
                v = self.now(lambda: self.direct.status(sid))
                if isinstance(v, list):
                    ev["status"].append({"refused": v == [] and self.state[len(ev["status"])] == "closed",
                                         "v": self.ks(v)})
                else:
                    ev["status"].append({"refused": isinstance(v, tuple) and v[0] == "fault", "v": [0]})
        ids = [c.session_id for c in self.clients]
        ev["distinct"] = len(ids) == len(set(ids))
        ev["cl"] = [{"started": self.ks(list(c.started_jobs)), "stored": self.ks(list(c.stored_jobs)),
                     "n": c.completed_jobs} for c in self.clients]
        ev["left"], ev["nets"], ev["outs"] = self.files()
        ev["keep"] = all(self.text(p) == t for p, t in self.keep.items())
        ev["threads"] = 0
        ev["port"] = True
        if not self.up:
            if not self.live():
                self.until(lambda: not any(self.alive(t) for t in self.threads), 3.0)
                ev["threads"] = sum(self.alive(t) for t in self.threads)
            ev["port"] = self.until(self.port_free, 3.0)

    def port_free(self):
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", self.port))
            s.listen(1)
            return True
        except OSError:
            return False
        finally:
            s.close()

    def launch_of(self, rec):
        """which launch (in order of sending) the netlist of a started simulation must come from: the last sent"""
        return len(self.sent)

    @staticmethod
    def text(p):
        try:
            with open(p) as f:
                return f.read()
        except OSError:
            return None

    def drain(self, emit):
        for _ in range(40):
            k = next(iter(self.live()), None)
            if self.pend is not None and k is None:
                break
            if k is None:
                break
            emit({"op": "end", "k": k, "o": "ok" if k % 2 else "fail"})
        if self.pend is not None or not self.up:
            return
        for c in range(1, len(self.clients) + 1):
            if self.state[c - 1] == "open":
                for _ in range(len(self.clients[c - 1].started_jobs) + 1):
                    emit({"op": "next", "c": c})
                    if self.pend is not None:
                        return
                for i in range(len(self.clients[c - 1].stored_jobs)):
                    if i < 2 or c % 2:
                        emit({"op": "fetch", "c": c, "pick": i})
        if self.variant % 2 and self.clients:
            emit({"op": "close", "c": 1})
        emit({"op": "stop", "rpc": bool(self.variant % 4 < 2)})

    def close(self):
        GATE.off()
        self.opened = True
        for r in self.starts:
            r["ev"].set()
        if self.up:
            self.call("stop", self.server.stop_server)
        self.until(lambda: not any(self.alive(t) for t in self.threads), 1.0)
        try:
            self.server.server.server_close()
        except Exception:
            pass
        os.chdir("/")
        shutil.rmtree(self.dir, ignore_errors=True)


def run_scenario(sc):
    global CUR
    meta = sc["meta"]
    d = CUR = Driver(meta["par"], sc["variant"])
    ev = []
    try:
        def emit(op):
            ev.append(d.do(op))
            return ev[-1]
        for op in sc["ops"]:
            e = emit(op)
            if "r" in e and e["r"]["k"].startswith("unexpected"):
                break
        else:
            d.drain(emit)
    finally:
        d.close()
    return {"par": meta["par"], "ev": ev}


if __name__ == "__main__":
    with open(sys.argv[1]) as fh:
        scs = json.load(fh)
    res = []
    for n, sc in enumerate(scs):
        try:
            res.append(run_scenario(sc) if STALLS[0] < 60 else {"par": 1, "ev": []})
        except Exception:
            res.append({"error": traceback.format_exc()})
    with open(sys.argv[2], "w") as fh:
        json.dump(res, fh)
    sys.stdout.flush()
    os._exit(0)
