"""Starts stand-in programs with the real simulator classes and SimRunner, and records the command lines they were given.

The programs are shell scripts in a scratch folder that write down their words and do what the scenario tells."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import traceback
from pathlib import Path

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
import psutil  # noqa: E402
psutil.process_iter = lambda *a, **k: iter(())  # never let code under test end real processes
from spicelib.sim.sim_runner import SimRunner  # noqa: E402
from spicelib.simulators.ltspice_simulator import LTspice  # noqa: E402
from spicelib.simulators.ngspice_simulator import NGspiceSimulator  # noqa: E402
from spicelib.simulators.qspice_simulator import Qspice  # noqa: E402
from spicelib.simulators.xyce_simulator import XyceSimulator  # noqa: E402

SIMS = {"lt": LTspice, "ng": NGspiceSimulator, "qs": Qspice, "xy": XyceSimulator}
LIMITS = {"short": 0.4, "long": 60.0, "nolimit": None}
LT_LIBS = ["~/AppData/Local/LTspice/lib", "~/Documents/LTspiceXVII/lib/", "~/Documents/LTspice/lib/", "~/My Documents/LTspiceXVII/lib/", "~/My Documents/LTspice/lib/",
           "~/Local Settings/Application Data/LTspice/lib"]
QS_LIBS = ["C:/Program Files/QSPICE", "~/Documents/QSPICE"]
FAKE = r'''#!/bin/sh
D="%s"
OUT=$(cat "$D/todo")
{ printf '%%s\n' "$0" "$PWD" "$$"; for a in "$@"; do printf '%%s\n' "$a"; done; } > "$D/seen.tmp"
mv "$D/seen.tmp" "$D/seen"
echo out
echo err >&2
[ "$OUT" = slow ] && exec sleep 30
P=
for a in "$@"; do
  case "$P" in -o|-l) LOG="$a";; -r) RAW="$a";; esac
  case "$a" in *.net) NET="${a#Z:}";; *.asc) NET="$a";; esac
  P="$a"
done
[ "$OUT" = exit3 ] && exit 3
if [ "$OUT" = ok ] && [ -n "$NET" ]; then
  case "$NET" in
    *.asc) echo net > "${NET%%.*}.net";;
    *) echo log > "${NET%%.*}.log"; echo raw > "${NET%%.*}.%s";;
  esac
fi
exit 0
'''


class Run:
    def __init__(self, sc, folder):
        self.meta, self.folder = sc["meta"], folder
        m = self.meta
        self.cur = os.path.join(folder, "cur")
        os.makedirs(self.cur)
        os.chdir(self.cur)
        base = SIMS[m["sim"]]
        self.gate = gate = threading.Event()

        class Sim(base):
            spice_exe = []
            process_name = "nothing"

            @classmethod
            def run(cls, *a, **k):
                gate.wait(30)
                return super().run(*a, **k)
        self.Sim = Sim
        ext = "qraw" if m["sim"] == "qs" else "raw"
        bin_ = os.path.join(folder, "bin")
        self.prog = {}
        for form, path in (("path", "pro grams/sim a"), ("str", "bin/simb.exe"), ("spaced", "pro grams/sim c.exe"), ("loader", "bin/wine_x"), ("which", "bin/verif_sim_w")):
            p = os.path.join(folder, path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(FAKE % (folder, ext))
            os.chmod(p, 0o755)
            self.prog[form] = p
        os.environ["PATH"] = bin_ + os.pathsep + PATH
        self.real = os.path.join(folder, "drive c", "sim.exe")
        os.makedirs(os.path.dirname(self.real))
        open(self.real, "w").close()
        self.n = 0
        if m["made"] != "none":
            self.create(m["made"], m["name"])
        self.wd = os.path.join(folder, "work")
        os.makedirs(self.wd)
        self.out = os.path.join(folder, "out dir")
        self.runner = SimRunner(simulator=Sim, output_folder=self.out, timeout=LIMITS[m["to"]], cwd=self.wd if m["cwd"] else None)
        self.src = os.path.join(folder, "circ.net")
        with open(self.src, "w") as f:
            f.write("* circuit\nR1 a 0 1k\nV1 a 0 1\n.op\n.end\n")

    def create(self, form, name):
        p = self.prog
        arg = {"path": lambda: Path(p["path"]), "str": lambda: p["str"], "spaced": lambda: p["spaced"], "loader": lambda: "%s -x '%s'" % (p["loader"], self.real),
               "which": lambda: "verif_sim_w", "missing": lambda: os.path.join(self.folder, "no", "sim.exe"), "missingpath": lambda: Path(self.folder) / "no" / "sim.exe",
               "empty": lambda: "", "windows": lambda: "C:\\no such\\sim.exe"}[form]()
        old = (list(self.Sim.spice_exe), self.Sim.process_name)
        try:
            got = self.Sim.create_from(arg, name) if name else self.Sim.create_from(arg)
            k = "ok" if got is self.Sim else "other"
        except FileNotFoundError:
            k = "notfound"
        except Exception as e:
            k = type(e).__name__
        names = {os.path.basename(v): f for f, v in p.items()}
        return {"k": k, "same": old == (list(self.Sim.spice_exe), self.Sim.process_name), "there": bool(self.Sim.is_available()), "words": len(self.Sim.spice_exe),
                "name": names.get(self.Sim.process_name, str(self.Sim.process_name))}

    def todo(self, out):
        with open(os.path.join(self.folder, "todo"), "w") as f:
            f.write(out)
        seen = os.path.join(self.folder, "seen")
        if os.path.exists(seen):
            os.remove(seen)

    def seen(self, net, cir=None, logf=None):
        try:
            with open(os.path.join(self.folder, "seen")) as f:
                q = f.read().split("\n")[:-1]
        except OSError:
            return {"cmd": ["not started"], "prog": "", "cwd": False, "con": "", "alive": False}
        prog, cwd, pid, words = q[0], q[1], int(q[2]), q[3:]
        stem = os.path.splitext(net)[0] if net else None
        raw = ".qraw" if self.meta["sim"] == "qs" else ".raw"
        ab = {self.real: "EXE"}
        if net:
            ab.update({net: "NET", "Z:" + net: "Z:NET", stem + ".log": "LOG", stem + raw: "RAW"})
        if cir:
            ab[cir] = "CIR"
        con = ""
        for fn in [logf, stem and stem + ".exe.log", cir and os.path.splitext(cir)[0] + ".exe.log"]:
            if fn and os.path.exists(fn):
                with open(fn) as f:
                    con = "+".join(f.read().split())
        alive = os.path.exists("/proc/%d" % pid)
        if alive:
            try:
                with open("/proc/%d/stat" % pid) as f:
                    alive = f.read().rsplit(")", 1)[1].split()[0] != "Z"
            except OSError:
                alive = False
        names = {v: f for f, v in self.prog.items()}
        same = {self.wd: True, self.cur: False}
        return {"cmd": [ab.get(w, w) for w in words], "prog": names.get(prog, names.get(os.path.join(self.folder, "bin", prog), prog)), "cwd": same.get(cwd, cwd), "con": con, "alive": alive}

    def switches(self, own, as_str=False):
        return None if not own else own[0] if as_str else list(own)

    def op(self, o):
        k = o["op"]
        if k == "ask":
            n = None if o["n"] == "None" else o["n"][1:] if o["look"] == "bare" else " %s " % o["n"] if o["look"] == "blank" else o["n"]
            try:
                q = self.Sim.valid_switch(n, o["p"]) if o["p"] else self.Sim.valid_switch(n)
            except ValueError:
                return {"k": "refused", "q": []}
            except Exception as e:
                return {"k": type(e).__name__, "q": []}
            a = {"k": "ok", "q": list(q)}
            if o["spoil"]:
                q[:] = ["spoilt"] + q
            return a
        if k == "add":
            if o["p"]:
                self.runner.add_command_line_switch(o["n"], o["p"])
            else:
                self.runner.add_command_line_switch(o["n"])
        elif k == "clear":
            self.runner.clear_command_line_switches()
        elif k == "mode":
            self.Sim.set_compatibility_mode(o["m"] or None)
        elif k == "create":
            return self.create(o["m"], o["n"])
        elif k == "run":
            return self.launch(o)
        elif k == "direct":
            return self.direct(o)
        elif k == "libs":
            return self.libs(o)
        elif k == "netlist":
            return self.netlist(o)
        return {"k": ""}

    def libs(self, o):
        base = SIMS[self.meta["sim"]]
        root = os.path.join(self.folder, "prefix", "drive_c")
        home = os.path.join(self.folder, "home")
        os.environ.update(HOME=home, USER="me")
        dirs = {"lt": LT_LIBS, "qs": QS_LIBS}[self.meta["sim"]]
        bases = {"wine": os.path.join(root, "users", "me"), "home": home}
        for i, where, kind in o["have"]:
            d = dirs[i - 1]
            p = os.path.join(bases[where], d[2:]) if d[0] == "~" else os.path.join(root, d[3:])
            p = p.rstrip("/")
            os.makedirs(os.path.dirname(p) if kind == "file" else p, exist_ok=True)
            if kind == "file":
                open(p, "w").close()
        exe = os.path.join(root if o["exe"].startswith("wine") else os.path.join(home, "bin"), "P F", "sim.exe")
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        if o["exe"] != "gone":
            open(exe, "w").close()

        class Sim(base):
            spice_exe = [] if o["exe"] == "none" else [exe] if o["exe"] != "winex" else ["wine", exe]
        q = []
        for p in Sim.get_default_library_paths():
            for where, b, pre in (("wine", bases["wine"] + "/", "~/"), ("wine", root + "/", "C:/"), ("home", home + "/", "~/")):
                if p.startswith(b):
                    q.append([where, pre + p[len(b):]])
                    break
            else:
                q.append(["?", p])
        return {"q": q}

    def after(self, o, own):
        if o["after"] == "clear":
            self.runner.clear_command_line_switches()
        elif o["after"] == "add":
            self.runner.add_command_line_switch("-later")
        elif o["after"] == "spoil" and own:
            own.append("-spoilt")

    def launch(self, o):
        self.todo(o["out"])
        own = self.switches(o["own"])
        kw = {}
        if own is not None:
            kw["switches"] = own
        if o["lim"] != "none":
            kw["timeout"] = LIMITS[o["lim"]]
        if o["log"]:
            kw["exe_log"] = True
        self.n += 1
        if o["name"]:
            kw["run_filename"] = "%d_%s" % (self.n, o["name"])
        if o["now"]:
            self.gate.set()
            have = len(self.runner.completed_tasks)
            self.runner.run_now(self.src, **kw)
            task = self.runner.completed_tasks[-1] if len(self.runner.completed_tasks) > have else None
            self.after(o, own)
        else:
            self.gate.clear()
            task = self.runner.run(self.src, **kw)
            self.after(o, own)
            self.gate.set()
            if task is not None:
                task.join(25)
        if task is None:
            return {"cmd": ["no task"], "prog": "", "cwd": False, "con": "", "ret": "", "alive": False}
        a = self.seen(Path(task.netlist_file).absolute().as_posix())
        a["ret"] = {0: "0", 3: "3", -2: "stopped"}.get(task.retcode, "other")
        self.runner.update_completed()
        return a

    def direct(self, o):
        self.todo(o["out"])
        self.n += 1
        net = os.path.join(self.folder, "di r", "d.%d x.net" % self.n)
        os.makedirs(os.path.dirname(net), exist_ok=True)
        shutil.copy(self.src, net)
        kw = {}
        logf = None
        f = None
        if o["cwd"]:
            kw["cwd"] = self.wd
        if o["con"] == "log":
            kw["exe_log"] = True
        elif o["con"] == "file":
            logf = os.path.join(self.folder, "con%d" % self.n)
            f = open(logf, "w")
            kw.update(stdout=f, stderr=subprocess.STDOUT)
        self.gate.set()
        try:
            ret = str(self.Sim.run(net if self.n % 2 else Path(net), self.switches(o["own"], o["str"]), **kw))
        except Exception:
            ret = "error"
        finally:
            if f:
                f.close()
        return dict(self.seen(net, logf=logf), ret=ret)

    def netlist(self, o):
        self.todo(o["out"])
        self.n += 1
        cir = os.path.join(self.folder, "c%d v.1.asc" % self.n)
        with open(cir, "w") as f:
            f.write("Version 4\nSHEET 1 880 680\n")
        try:
            p = self.Sim.create_netlist(cir if self.n % 2 else Path(cir), self.switches(o["own"]), **({"exe_log": True} if o["log"] else {}))
            ret = "netlist" if Path(p) == Path(cir).with_suffix(".net") else "wrong"
        except RuntimeError:
            ret = "failed"
        except Exception:
            ret = "error"
        return dict(self.seen(None, cir=cir), ret=ret)


PATH = os.environ.get("PATH", "")


def one(sc, folder):
    r = Run(sc, folder)
    meta = dict(sc["meta"], mode="kiltpsa")
    return {"meta": meta, "ev": [dict(o, a=r.op(o)) for o in sc["ops"]]}


def main(a, b):
    scs = json.load(open(a))
    out = []
    keep = sys.stdout
    for sc in scs:
        folder = os.path.realpath(tempfile.mkdtemp(prefix="verif_sim_"))
        try:
            out.append(one(sc, folder))
        except Exception:
            out.append({"error": traceback.format_exc()[-900:].replace("^", "")})
        finally:
            os.chdir("/")
            shutil.rmtree(folder, ignore_errors=True)
    sys.stdout = keep
    json.dump(out, open(b, "w"))
    os._exit(0)


main(sys.argv[1], sys.argv[2])
