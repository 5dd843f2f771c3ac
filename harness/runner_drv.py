"""Executes scenarios (behaviours of Runner.tla) on the real SimRunner and records what happened.

A stand-in simulator blocks every simulation until the driver ends it with a chosen outcome, callbacks block until the
driver ends them, and time is virtual: the driver is the scheduler."""
import functools
import json
import os
import shutil
import sys
import tempfile
import threading
import traceback
from pathlib import Path

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtime  # noqa: E402

vtime.install()
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import psutil  # noqa: E402

psutil.process_iter = lambda *a, **k: iter(())  # never let code under test kill real processes
from spicelib.sim.sim_runner import SimRunner, SimRunnerTimeoutError  # noqa: E402
from spicelib.sim.simulator import Simulator  # noqa: E402
from spicelib.sim.process_callback import ProcessCallback  # noqa: E402
from spicelib.editor.spice_editor import SpiceEditor  # noqa: E402

LIMIT = 6.0  # real seconds before something that should happen is declared not to happen
NETLIST = "* {title}\nV1 in 0 1\nR1 in out {a}\nR2 out 0 {b}\n.op\n.end\n"
CUR = None  # driver of the scenario being executed


def content_of(path):
    vals = {}
    try:
        with open(path) as f:
            for line in f:
                w = line.split()
                if len(w) >= 4 and w[0] in ("R1", "R2"):
                    vals.setdefault(w[0], []).append(w[3])
    except OSError:
        return [-1, -1]
    out = []
    for r in ("R1", "R2"):
        v = vals.get(r, [])
        try:
            out.append(int(v[0]) - 100 if len(v) == 1 else -2)
        except ValueError:
            out.append(-3)
    return out


class StubSim(Simulator):
    spice_exe = ["verif-stub"]
    process_name = "verif-stub-no-such-process"
    raw_extension = ".raw"

    @classmethod
    def valid_switch(cls, switch, switch_param=""):
        return [switch]

    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None,
            exe_log=False):
        return CUR.sim_entry(Path(netlist_file), cmd_line_switches, timeout, cwd, exe_log)


class PCallback(ProcessCallback):
    @staticmethod
    def callback(raw_file, log_file, token, tail):
        k, d = token
        with open(os.path.join(d, "cb%d" % k), "w") as f:
            f.write(json.dumps([str(raw_file) if raw_file else None, str(log_file) if log_file else None, tail]))
        with open(os.path.join(d, "how%d" % k)) as f:
            how = int(f.read())
        if how == 0:
            raise RuntimeError("callback failure")
        return how


class Obj:
    """a callable without __name__"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, raw, log, token):
        return self.fn(raw, log, token)


class Driver:
    def __init__(self, par, tmo, variant=0):
        self.dir = tempfile.mkdtemp(prefix="verif_run_")
        self.variant = variant
        self.lock = threading.RLock()
        self.opened = False      # when True everything that blocks is released (end of scenario)
        self.starts, self.cbs = [], []
        self.launch = 0          # launches accepted so far
        self.info = {}           # k -> launch info
        self.tasks = {}
        self.its = []
        self.pend = None
        self.nev = [0, 0]
        src = os.path.join(self.dir, "src")
        os.mkdir(src)
        self.src = os.path.join(src, "orig.net")
        self.ckt = os.path.join(src, "ckt.net")
        for p in (self.src, self.ckt):
            with open(p, "w") as f:
                f.write(NETLIST.format(title=os.path.basename(p), a=100, b=100))
        self.folder = variant % 4 != 3
        self.work = os.path.join(self.dir, "work")
        os.mkdir(self.work)
        os.chdir(self.work)
        self.out = os.path.join(self.dir, "out") if self.folder else None
        self.keep = {}
        spots = [src, self.work]
        if self.out:
            os.mkdir(self.out)
            spots.append(self.out)
            with open(os.path.join(self.out, "ckt.net"), "w") as f:
                f.write("mine")
        for d in spots:
            for n in ("ckt.raw", "ckt.log", "orig.log", "orig.raw", "notes.txt", "custom.log", "ckt.op.raw"):
                with open(os.path.join(d, n), "w") as f:
                    f.write("user file " + n)
        for d in spots:
            for n in os.listdir(d):
                p = os.path.join(d, n)
                with open(p) as f:
                    self.keep[p] = f.read()
        self.simcwd = os.path.join(self.dir, "simcwd") if variant % 3 == 1 else None
        self.pc = os.path.join(self.dir, "pc")
        os.mkdir(self.pc)
        of = None if not self.out else (Path(self.out) if variant % 2 else self.out)
        vtime.now = 1000.0
        vtime.active = True
        self.editor = SpiceEditor(self.ckt)
        self.runner = SimRunner(simulator=StubSim, parallel_sims=par, timeout=None if tmo < 0 else float(tmo),
                                output_folder=of, cwd=self.simcwd)

    # ------------------------------------------------------------------ simulator side
    def sim_entry(self, netlist, sw, tmo, cwd, exe_log):
        rec = {"k": self.launch, "file": str(netlist), "ed": content_of(netlist),
               "sw": list(sw or []), "tmo": tmo, "cwd": cwd, "exe": exe_log, "thread": threading.current_thread(),
               "ev": threading.Event(), "out": None, "over": False, "vt": vtime.now}
        with self.lock:
            rec["fresh"] = all(r["file"] != rec["file"] for r in self.starts)
            self.starts.append(rec)
        if not self.opened:
            rec["ev"].wait()
        rec["ed2"] = content_of(netlist)
        out = rec["out"] or "ok"
        try:
            if out in ("ok", "nolog", "failm"):
                netlist.with_suffix(".raw").write_text("raw%d" % rec["k"])
                netlist.with_suffix(".op.raw").write_text("opraw%d" % rec["k"])
            if out in ("ok", "noraw", "fail", "failm"):
                netlist.with_suffix(".log").write_text("log%d" % rec["k"])
            if exe_log:
                netlist.with_suffix(".exe.log").write_text("exe%d" % rec["k"])
        finally:
            rec["over"] = True
        if out == "exc":
            raise RuntimeError("stub exception %d" % rec["k"])
        return {"fail": 1, "fail2": -1, "failm": 3}.get(out, 0)

    def cb_entry(self, raw, log, k):
        sim = self.sim(k)
        rec = {"k": k, "raw": raw, "log": log, "ev": threading.Event(), "how": 0, "over": False,
               "ended": bool(sim and sim["over"]), "args": True,
               "hasraw": raw is not None, "paths": self.cbpaths(sim, raw, log)}
        with self.lock:
            self.cbs.append(rec)
        if not self.opened:
            rec["ev"].wait()
        rec["over"] = True
        if rec["how"] == 0:
            raise RuntimeError("callback failure")
        return rec["how"]

    def cbpaths(self, sim, raw, log):
        if not sim:
            return False
        stem = Path(sim["file"]).with_suffix("")
        rc0 = sim["out"] in ("ok", "noraw", "nolog")
        okraw = (not rc0) or (raw is not None and Path(raw).absolute() == stem.with_suffix(".raw"))
        if log is None:
            oklog = False
        else:
            lp = Path(log).absolute()
            if rc0 or sim["out"] in ("exc", "fail2"):
                oklog = lp == stem.with_suffix(".log")
            else:
                oklog = lp.with_suffix("") == stem and lp.exists()
        return bool(okraw and oklog)

    def sim(self, k):
        for r in self.starts:
            if r["k"] == k:
                return r
        return None

    # ------------------------------------------------------------------ waiting
    def until(self, cond, limit=LIMIT):
        t0 = vtime.real_mono()
        while not cond():
            if vtime.real_mono() - t0 > limit:
                return False
            vtime.real_sleep(0.0003)
        return True

    def call(self, kind, fn, k=None):
        p = {"kind": kind, "done": False, "val": None, "k": k}

        def go():
            try:
                p["val"] = fn()
            except StopIteration:
                p["val"] = "stop"
            except SimRunnerTimeoutError:
                p["val"] = "timeout"
            except ValueError as e:
                p["val"] = ("ValueError", str(e))
            except BaseException as e:  # recorded as an unexpected reply
                p["val"] = ("exception", type(e).__name__ + ": " + str(e))
            p["done"] = True
        p["thread"] = threading.Thread(target=go, daemon=True)
        p["thread"].start()
        self.pend = p

    def settle(self):
        """After an event: the outstanding call either has returned or has polled the new state."""
        p = self.pend
        if p is None:
            return {"k": "idle", "v": 0}
        if p["kind"] == "now":
            sim = lambda: self.sim(p["k"])  # noqa
            self.until(lambda: p["done"] or sim() is not None)
            if sim() is not None and (sim()["over"] or not sim()["thread"].is_alive()):
                self.until(lambda: p["done"])
            else:
                self.until(lambda: p["done"], 0.01)
        else:
            i = p["thread"].ident
            base = vtime.polls.get(i, 0)
            self.until(lambda: p["done"] or vtime.polls.get(i, 0) >= base + 4)
        if not p["done"]:
            return {"k": "blocked", "v": 0}
        self.pend = None
        return self.reply(p)

    def resval(self, v):
        """abstract value of a result returned by the runner"""
        if v is None:
            return {"k": "none", "v": 0}
        if isinstance(v, tuple) and len(v) == 2:
            raw, log = v
            for r in self.starts:
                stem = Path(r["file"]).with_suffix("")
                if log is not None and Path(log).absolute().with_suffix("") == stem:
                    if raw is None:
                        return {"k": "nofiles", "v": r["k"]}
                    if Path(raw).absolute() == stem.with_suffix(".raw") and \
                            Path(log).absolute() == stem.with_suffix(".log"):
                        return {"k": "files", "v": r["k"]}
            return {"k": "badfiles", "v": 0}
        if isinstance(v, int) and not isinstance(v, bool):
            return {"k": "cb", "v": v}
        return {"k": "other", "v": 0}

    def reply(self, p):
        v = p["val"]
        if isinstance(v, str):
            return {"k": v, "v": 0}
        if isinstance(v, tuple) and v and v[0] == "ValueError":
            return {"k": "rejected", "v": 0}
        if isinstance(v, tuple) and v and v[0] == "exception":
            return {"k": "exception", "v": 0}
        if p["kind"] == "wait":
            return {"k": "true" if v is True else "false" if v is False else "other", "v": 0}
        if p["kind"] == "run":
            if v is None:
                return {"k": "none", "v": 0}
            self.tasks[p["k"]] = v
            n = len(self.starts)
            self.until(lambda: any(r["k"] == p["k"] for r in self.starts))
            del n
            return {"k": "task", "v": getattr(v, "runno", 0)}
        if p["kind"] == "next":
            if p["legacy"]:
                return self.resval(v)
            return {"k": "item", "v": getattr(v, "runno", 0)}
        return self.resval(v)

    # ------------------------------------------------------------------ operations
    def do(self, op):
        o = op["op"]
        ev = dict(op)
        ev.pop("nm", None)
        n0, c0 = len(self.starts), len(self.cbs)
        r = None
        ev["skip"] = False
        if self.pend is not None and o not in ("rel", "relproc", "cbend", "tick"):
            return {**ev, "skip": True}
        if o in ("run", "now"):
            r = self.op_run(op)
        elif o in ("rel", "relproc"):
            rec = self.sim(op["k"])
            if rec is None or rec["over"] or rec["out"]:
                return {**ev, "skip": True}
            cb = self.info[op["k"]]["cb"]
            if cb == "proc":
                with open(os.path.join(self.pc, "how%d" % op["k"]), "w") as f:
                    f.write(str(op.get("how", 0)))
            rec["out"] = op["o"]
            rec["ev"].set()
            k = op["k"]
            self.until(lambda: not rec["thread"].is_alive() or
                       any(c["k"] == k and not c["over"] for c in self.cbs))
            ev["dead"] = not rec["thread"].is_alive()
            if cb == "proc":
                cf = os.path.join(self.pc, "cb%d" % k)
                if os.path.exists(cf):
                    raw, log, tail = json.loads(open(cf).read())
                    c = {"k": k, "args": tail == "tail", "ended": rec["over"], "hasraw": raw is not None,
                         "paths": self.cbpaths(rec, raw, log), "over": True}
                    self.cbs.append(c)
            ev["same"] = rec.get("ed2") == rec["ed"]
        elif o == "cbend":
            recs = [c for c in self.cbs if c["k"] == op["k"] and not c["over"]]
            if not recs:
                return {**ev, "skip": True}
            recs[0]["how"] = op["how"]
            recs[0]["ev"].set()
            th = self.sim(op["k"])["thread"]
            self.until(lambda: not th.is_alive())
            ev["dead"] = not th.is_alive()
            ev["same"] = True
        elif o == "tick":
            vtime.tick(op["d"])
        elif o == "wait":
            t = None if op["tmo"] < 0 else op["tmo"]
            self.call("wait", lambda: self.runner.wait_completion(timeout=t))
        elif o == "wres":
            if op["k"] not in self.tasks:
                return {**ev, "skip": True}
            self.call("wres", self.tasks[op["k"]].wait_results)
        elif o == "inext":
            it, legacy = self.its[op["i"] - 1]
            self.call("next", lambda: next(it))
            self.pend["legacy"] = legacy
        elif o == "gres":
            if op["k"] not in self.tasks:
                return {**ev, "skip": True}
            t = self.tasks[op["k"]]
            r = self.resval(t.get_results())
            ev["ed"] = [self.edval(t.value("R1")), self.edval(t.value("R2"))]
        else:
            r = {"k": "ok", "v": 0}
            getattr(self, "op_" + o)(op, ev)
        if r is None:
            r = self.settle()
        with self.lock:
            starts = self.starts[n0:]
            cbs = self.cbs[c0:]
            live = [x["k"] for x in self.starts if not x["over"]]
        ev["r"] = r
        ev["start"] = [self.start_obs(x) for x in starts]
        ev["cb"] = [{f: c[f] for f in ("k", "args", "ended", "hasraw", "paths")} for c in cbs]
        ev["live"] = live
        return ev

    def start_obs(self, x):
        i = self.info.get(x["k"], {})
        f = Path(x["file"])
        place = True if not self.out else f.parent == Path(self.out)
        named = f.name == i["name"] if i.get("name") else True
        return {"k": x["k"], "ed": x["ed"], "fresh": x["fresh"] and x["file"] not in self.keep, "place": place,
                "named": named,
                "sw": x["sw"] if (bool(x["exe"]) == i.get("exe") and
                                  (str(x["cwd"]) if x["cwd"] else None) == self.simcwd) else ["?"],
                "tmo": -1 if x["tmo"] is None else int(x["tmo"])}

    @staticmethod
    def edval(v):
        try:
            return 0 if v is None else int(v) - 100
        except (TypeError, ValueError):
            return -9

    def op_run(self, op):
        a = op["a"]
        k = self.launch + 1
        exe = k % 3 == 0
        name = ("custom%d.net" % k) if op.get("nm") else None
        kw = dict(switches=list(a["sw"]) or None, run_filename=name, exe_log=exe)
        if a["tmo"]:
            kw["timeout"] = float(a["tmo"])
        net = self.editor if a["src"] == "ed" else (self.src if k % 2 else Path(self.src))
        self.info[k] = {"cb": a["cb"], "name": name, "exe": exe}
        if op["op"] == "now":
            kw.pop("timeout", None)
            self.launch = k
            self.call("now", lambda: self.runner.run_now(net, **kw), k)
            return None
        d = self

        def cb3(raw, log, token):
            return d.cb_entry(raw, log, token)

        def cb2(raw, log):
            return d.cb_entry(raw, log, k)

        def one(raw):
            return None
        c = a["cb"]
        if c == "fun":
            if k % 3 == 0:
                kw["callback"] = cb2
            else:
                kw["callback"] = cb3
                kw["callback_args"] = (k,) if k % 3 == 1 else {"token": k}
        elif c == "obj":
            kw["callback"] = Obj(cb3.__call__) if k % 2 else functools.partial(cb3)
            kw["callback_args"] = {"token": k}
        elif c == "proc":
            kw["callback"] = PCallback
            tok = (k, self.pc)
            kw["callback_args"] = {"token": tok, "tail": "tail"} if k % 2 else (tok, "tail")
        elif c == "bad":
            v = (k + self.variant) % 4
            if v == 0:
                kw["callback"] = one
            elif v == 1:
                kw["callback"] = cb3
            elif v == 2:
                kw["callback"], kw["callback_args"] = cb3, {"wrong": 1}
            else:
                kw["callback"], kw["callback_args"] = cb3, (1, 2)
        kw["callback_on_error"] = a["cberr"]
        kw["wait_resource"] = a["wait"]
        if c == "bad":
            before = (self.runner.runno, sorted(os.listdir(self.out or self.work)))
            try:
                self.runner.run(net, **kw)
                return {"k": "accepted", "v": 0}
            except ValueError:
                same = before == (self.runner.runno, sorted(os.listdir(self.out or self.work)))
                return {"k": "rejected" if same else "rejected-dirty", "v": 0}
            finally:
                self.info.pop(k, None)
        self.launch = k
        self.call("run", lambda: self.runner.run(net, **kw), k)
        return None

    def op_query(self, op, ev):
        ev["nact"] = self.runner.active_threads()
        ev["n"] = self.runner.runno
        ev["okn"], ev["failn"] = self.runner.okSim, self.runner.failSim
        ev["act"] = [t.runno for t in self.runner.active_tasks]
        ev["done"] = [t.runno for t in self.runner.completed_tasks]

    def op_info(self, op, ev):
        self.runner.active_threads()
        inf = []
        for k, v in self.runner.sim_info().items():
            sim = self.sim(k)
            x = {"k": k, "rc": v["retcode"], "exc": v["exception_text"] is not None and
                 "stub exception %d" % k in v["exception_text"], "ret": self.resval(v["callback_return"])}
            paths = sim is not None and Path(v["netlist_file"]).absolute() == Path(sim["file"])
            if paths:
                stem = Path(sim["file"]).with_suffix("")
                if v["retcode"] == 0:
                    paths = Path(v["raw_file"]).absolute() == stem.with_suffix(".raw") and \
                        Path(v["log_file"]).absolute() == stem.with_suffix(".log")
                else:
                    lf = Path(v["log_file"]).absolute()
                    paths = lf.with_suffix("") == stem and not v["raw_file"] and \
                        (sim["out"] not in ("fail", "failm") or self.cleaned(k) or lf.exists())
            x["paths"] = bool(paths)
            x["times"] = sim is not None and v["start_time"] == sim["vt"] and v["stop_time"] >= v["start_time"]
            ups = [u for u in v.get("edits", [])]
            names = {"R1": 1, "R2": 2}
            x["edk"] = [names.get(u.name, 9) for u in ups]
            x["edv"] = [self.edval(u.value) for u in ups]
            inf.append(x)
        ev["inf"] = inf

    def cleaned(self, k):
        return k in getattr(self, "cleanedk", set())

    def op_inew(self, op, ev):
        c = op["c"]
        nm = {1: "R1", 2: "R2"}

        def val(v):
            return 100 + v
        if op["lg"]:
            it = iter(self.runner)
        elif c["k"] == "all":
            it = self.runner.tasks()
        elif c["k"] == "dict":
            d = {}
            for j, x in enumerate(c["c"]):
                vs = [val(v) for v in x["v"]]
                d[nm[x["n"]]] = vs[0] if len(vs) == 1 else (tuple(vs), vs, set(vs))[(j + self.variant) % 3]
            it = self.runner.tasks(d)
        else:
            cc = [(nm[x["n"]], [val(v) for v in x["v"]]) for x in c["c"]]
            it = self.runner.tasks(lambda t: all(t.value(n) in vs for n, vs in cc))
        self.its.append((it, op["lg"]))

    def op_clean(self, op, ev):
        self.runner.cleanup_files()
        self.cleanedk = set(t.runno for t in self.runner.completed_tasks)
        ev["keep"] = all(os.path.exists(p) and open(p).read() == t for p, t in self.keep.items())
        left, nets = [], []
        for r in self.starts:
            f = Path(r["file"])
            if any(x.startswith(f.stem + ".") for x in os.listdir(f.parent)):
                left.append(r["k"])
            if f.exists() or not r["fresh"]:
                nets.append(r["k"])
            elif not r["thread"].is_alive():
                pass
        busy_missing = [r["k"] for r in self.starts if r["thread"].is_alive() and r["k"] not in nets]
        ev["left"], ev["nets"] = left, [x for x in nets if x not in busy_missing]

    def op_edit(self, op, ev):
        if (op["n"] + op["v"]) % 2:
            self.editor.set_component_value("R%d" % op["n"], 100 + op["v"])
        else:
            self.editor.set_component_value("R%d" % op["n"], 100 + op["v"])

    def op_swadd(self, op, ev):
        self.runner.add_command_line_switch(op["x"])

    def op_swclr(self, op, ev):
        self.runner.clear_command_line_switches()

    # ------------------------------------------------------------------ end
    def drain(self, emit):
        """Completes the scenario: everything still running ends, then all read-outs are taken."""
        n = 0
        while n < 60:
            n += 1
            live = [r for r in self.starts if not r["over"]]
            incb = [c for c in self.cbs if not c["over"]]
            if incb:
                emit({"op": "cbend", "k": incb[0]["k"], "how": 100 + incb[0]["k"]})
            elif live:
                k = live[-1]["k"] if n % 2 else live[0]["k"]
                if self.info.get(k, {}).get("cb") == "proc":
                    emit({"op": "relproc", "k": k, "o": "ok", "how": 100 + k})
                else:
                    emit({"op": "rel", "k": k, "o": "ok"})
            else:
                break
        if self.pend is not None:
            return
        emit({"op": "query"})
        emit({"op": "info"})
        for k in sorted(self.tasks):
            emit({"op": "gres", "k": k})
        for lg in (True, False):
            emit({"op": "inew", "c": {"k": "all", "c": []}, "lg": lg})
            i = len(self.its)
            for _ in range(self.launch + 1):
                emit({"op": "inext", "i": i})
        emit({"op": "wait", "tmo": -1})
        emit({"op": "clean"})

    def close(self):
        self.opened = True
        with self.lock:
            for r in self.starts:
                r["ev"].set()
            for c in self.cbs:
                if "ev" in c:
                    c["ev"].set()
        for r in self.starts:
            r["thread"].join(0.5)
        vtime.active = True
        try:
            self.runner.active_tasks.clear()
        except Exception:
            pass
        os.chdir("/")
        shutil.rmtree(self.dir, ignore_errors=True)


def run_scenario(sc, variant):
    global CUR
    meta = sc["meta"]
    d = CUR = Driver(meta["par"], meta["tmo"], variant)
    ev = []
    try:
        def emit(op):
            ev.append(d.do(op))
        for op in sc["ops"]:
            emit(op)
        d.drain(emit)
    finally:
        d.close()
    return {"par": meta["par"], "tmo": meta["tmo"], "ev": ev}


if __name__ == "__main__":
    # usage: runner_drv.py scenarios.json out.json
    with open(sys.argv[1]) as fh:
        scs = json.load(fh)
    res = []
    for n, sc in enumerate(scs):
        try:
            res.append(run_scenario(sc, sc.get("variant", n)))
        except Exception:
            res.append({"error": traceback.format_exc()})
    with open(sys.argv[2], "w") as fh:
        json.dump(res, fh)
    sys.stdout.flush()
    os._exit(0)
