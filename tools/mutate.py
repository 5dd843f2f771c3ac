#!/usr/bin/env python3
"""mutate.py N SEED [file-prefix] : makes random small changes to the code (one at a time, in scratch copies), drops those that the
stable tests notice, and tells which quick checks notice the others. Those that no check notices are printed for review."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED = int(sys.argv[1]), int(sys.argv[2])
PREFIX = sys.argv[3] if len(sys.argv) > 3 else ""
FILES = {
    "sim/sim_runner.py": "R01 R02 R03 R04 R05 R06 R07 R08", "sim/run_task.py": "R02 R03 R04 R08", "sim/simulator.py": "R08", "simulators/ngspice_simulator.py": "R08",
    "simulators/ltspice_simulator.py": "R08", "simulators/xyce_simulator.py": "R08", "simulators/qspice_simulator.py": "R08", "sim/process_callback.py": "R04",
    "editor/spice_subcircuit.py": "E01 E02 E03 E04 E05 N02", "editor/spice_editor.py": "E01 E02 E03 E04", "editor/spice_components.py": "E01 E02 E04 N02",
    "editor/spice_subcircuit_instance.py": "E04 E01 E05", "editor/base_subcircuit.py": "E01 E04 E05 A01 N02", "editor/base_editor.py": "E01 E03 A02 N02", "editor/updates.py": "E05",
    "editor/spice_file.py": "E02 E04", "editor/spice_utils.py": "E01 E03 A02 N02", "editor/primitives.py": "N02 A01 E01",
    "client_server/srv_sim_runner.py": "S01 S02 S03 S04", "client_server/sim_server.py": "S01 S02 S03 S04", "client_server/sim_client.py": "S01 S03 S04",
    "raw/raw_read.py": "D01 D02 D03 D05", "raw/plot_data.py": "D01 D02 D03 D04 D05", "raw/raw_classes.py": "D02 D04", "raw/raw_write.py": "D04 D05",
    "log/ltsteps.py": "L01 L02 L05", "log/logfile_data.py": "L01 L02 L03", "log/qspice_log_reader.py": "L03", "log/semi_dev_op_reader.py": "L06",
    "sim/sim_stepping.py": "W01", "utils/sweep_iterators.py": "W02", "sim/tookit/montecarlo.py": "W06 W07", "sim/tookit/worst_case.py": "W03 W07", "sim/tookit/fast_worst_case.py": "W04 W07",
    "sim/tookit/quick_sensitivity_analysis.py": "W05 W07", "sim/tookit/tolerance_deviations.py": "W03 W06 W07", "sim/tookit/sim_analysis.py": "W03 W07",
    "utils/float_unit.py": "N01 N02", "editor/asc_editor.py": "A01 A02 N02", "editor/qsch_editor.py": "A03 A01 A02 N02", "editor/base_schematic.py": "A01 A02", "utils/detect_encoding.py": "A01 E02 L01",
    "utils/file_search.py": "E04 A01", "raw/plot_interface.py": "D01 D02",
}
SKIP = {"__repr__", "__str__", "plot", "main", "print_info", "to_excel", "kill_all_ltspice", "kill_all_spice"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def logs(n):
    return "logger" in ast.dump(n) or "print" in ast.dump(n)[:80]


def sites(tree):
    """(kind, node, parent, field, index)"""
    out = []

    def visit(n, parent, field, ix, fn):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIP:
                return
            fn = n.name
        if fn and isinstance(n, ast.stmt):
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not logs(n) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append(("del", n, parent, field, ix, fn))
            if isinstance(n, (ast.If, ast.While)):
                out.append(("cond", n, parent, field, ix, fn))
            if isinstance(n, ast.Expr) and (logs(n) or isinstance(n.value, ast.Constant)):
                return
            if isinstance(n, ast.Raise):
                return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                out.append(("cmp", n, parent, field, ix, fn))
            if isinstance(n, ast.BoolOp):
                out.append(("bool", n, parent, field, ix, fn))
                out.append(("drop", n, parent, field, ix, fn))
            if isinstance(n, ast.Constant) and isinstance(n.value, int):
                out.append(("const", n, parent, field, ix, fn))
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not isinstance(parent, ast.Expr):
                out.append(("str", n, parent, field, ix, fn))
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                out.append(("arith", n, parent, field, ix, fn))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "strip", "rstrip", "lstrip", "casefold", "copy"):
                out.append(("unwrap", n, parent, field, ix, fn))
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "annotation", "returns", "args") and isinstance(n, (ast.FunctionDef, ast.AnnAssign, ast.arg)):
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        visit(x, n, f, i, fn)
            elif isinstance(v, ast.AST):
                visit(v, n, f, None, fn)
    visit(tree, None, None, None, None)
    return out


def put(parent, field, ix, new):
    if ix is None:
        setattr(parent, field, new)
    else:
        getattr(parent, field)[ix] = new


def mutate(src, rng):
    tree = ast.parse(src)
    byk = {}
    for s in sites(tree):
        byk.setdefault(s[0], []).append(s)
    kind = rng.choice([k for k in ("del", "cond", "cmp", "bool", "drop", "const", "arith", "unwrap", "str", "del", "cond", "cmp", "drop") if k in byk])
    k, n, parent, field, ix, fn = rng.choice(byk[kind])
    old = ast.unparse(n).split("\n")[0]
    if k == "del":
        new = ast.Pass()
        put(parent, field, ix, new)
    elif k == "cond":
        c = rng.choice([True, False])
        if isinstance(n, ast.While):
            return None
        n.test = ast.Constant(c)
        new = n
    elif k == "cmp":
        n.ops = [CMP[type(n.ops[0])]()]
        new = n
    elif k == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        new = n
    elif k == "drop":
        new = rng.choice(n.values)
        put(parent, field, ix, new)
    elif k == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + rng.choice([1, -1])
        new = n
    elif k == "str":
        n.value = n.value[:-1] if len(n.value) > 1 else "#"
        new = n
    elif k == "arith":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
        new = n
    elif k == "unwrap":
        new = n.func.value
        put(parent, field, ix, new)
    ast.fix_missing_locations(tree)
    return "%s:%s line %d: %s  ->  %s" % (k, fn, n.lineno, old[:110], ast.unparse(new).split("\n")[0][:110]), ast.unparse(tree)


def main():
    rng = random.Random(SEED)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    files = [f for f in FILES if f.startswith(PREFIX)]
    tmp = tempfile.mkdtemp(prefix="mutate_")
    v = os.path.join(tmp, "verif")
    shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns("seeded", ".git", "out", "evidence"))
    try:
        n = 0
        while n < N:
            f = rng.choice(files)
            repo = os.path.join(tmp, "repo")
            shutil.rmtree(repo, ignore_errors=True)
            subprocess.check_call(["git", "clone", "-q", "/repo", repo])
            p = os.path.join(repo, "spicelib", f)
            m = mutate(open(p, encoding="utf8").read(), rng)
            if m is None:
                continue
            open(p, "w", encoding="utf8").write(m[1])
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1", MPLBACKEND="Agg", PYTHONPATH=repo)
            os.makedirs(os.path.join(repo, "unittests", "temp"), exist_ok=True)
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "-o", "python_files=test_*.py *_unittest.py",
                                    "--ignore=unittests/test_montecarlo.py", "unittests", "-rA"], cwd=repo, env=e, capture_output=True, text=True, timeout=200)
            except subprocess.TimeoutExpired:
                continue
            passed = {x.split(" ", 1)[1].strip() for x in t.stdout.splitlines() if x.startswith("PASSED ")}
            names = {x.split("::", 1)[1].replace("::", ".") for x in passed if "::" in x}
            lost = [b for b in base if ".".join(b.replace("::", ".").split(".")[-2:]) not in names]
            if lost:
                continue
            n += 1
            t0, verdict = time.time(), "SURVIVED"
            for prop in FILES[f].split():
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "quick"], cwd=v, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    verdict = "timeout " + prop
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    cl = [x for x in r.stdout.splitlines() if x.startswith("clauses")]
                    verdict = "caught by %s %s" % (prop, cl[0][17:80] if cl else "")
                    break
                if r.returncode != 0:
                    verdict = "no answer from %s: %s" % (prop, (r.stdout + r.stderr).replace("\n", " ")[:300])
                    break
            print("%s %s | %s | %.0fs" % (f, m[0], verdict, time.time() - t0), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
