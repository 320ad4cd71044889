"""Development helper: mutation analysis of the checks. Never used by a check.

mutate.py <file of repo> [jobs]     appends survivors to /tmp/mut/<file>.txt
Every syntactic mutant of the file is put into a copy of the tree and the checks mapped to that file are run (one process, first violation ends).
"""
import ast, copy, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

C, D = "shepherd_core/shepherd_core/", "shepherd_data/shepherd_data/"
MAP = {
    C + "writer.py": "R01 R04 R02 R08",
    C + "reader.py": "R03 R07 R05 R04 R06 R09 D02",
    D + "reader.py": "R08 R06 R10 R02 R09",
    D + "cli.py": "R10 R02",
    D + "ivonne.py": "I01", D + "mppt.py": "I01",
    C + "decoder_waveform/uart.py": "D01",
    C + "data_models/base/calibration.py": "K01 K02 K03 R04",
    C + "data_models/base/cal_measurement.py": "K03",
    C + "calibration_hw_def.py": "K01",
    C + "data_models/base/shepherd.py": "M01",
    C + "data_models/base/content.py": "M01 M03", C + "data_models/base/wrapper.py": "M01 M02", C + "data_models/base/timezone.py": "M01 M04",
    C + "testbed_client/fixtures.py": "M02 M03 M04",
    C + "testbed_client/client_abc_fix.py": "M02 M03",
    C + "testbed_client/user_model.py": "M01",
    C + "data_models/experiment/experiment.py": "E01 E02",
    C + "data_models/experiment/target_config.py": "E01 E02",
    C + "data_models/experiment/observer_features.py": "G01 E01",
    C + "data_models/task/__init__.py": "E02", C + "data_models/task/emulation.py": "E02", C + "data_models/task/firmware_mod.py": "E02",
    C + "data_models/task/programming.py": "E02", C + "data_models/task/observer_tasks.py": "E02", C + "data_models/task/testbed_tasks.py": "E02", C + "data_models/task/harvest.py": "E02 M01",
    C + "data_models/testbed/testbed.py": "T01", C + "data_models/testbed/observer.py": "T01", C + "data_models/testbed/target.py": "T01", C + "data_models/testbed/gpio.py": "T01", C + "data_models/testbed/mcu.py": "T01", C + "data_models/testbed/cape.py": "T01",
    C + "data_models/content/virtual_harvester.py": "P01", C + "data_models/content/virtual_source.py": "P02", C + "data_models/content/energy_environment.py": "M03 M01",
    C + "data_models/content/firmware.py": "F01", C + "fw_tools/converter.py": "F01 F02", C + "fw_tools/converter_elf.py": "F02 F01", C + "fw_tools/validation.py": "F01", C + "fw_tools/patcher.py": "F02",
    C + "vsource/virtual_converter_model.py": "V01 V02 V04", C + "vsource/virtual_harvester_model.py": "V03 V04", C + "vsource/virtual_source_model.py": "V04", C + "vsource/virtual_source_simulation.py": "V04", C + "vsource/virtual_harvester_simulation.py": "V04", C + "vsource/target_model.py": "V05",
    C + "inventory/__init__.py": "N01", C + "inventory/system.py": "N01", C + "inventory/python.py": "N01", C + "inventory/target.py": "N01",
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def skip_node(n):
    s = ast.unparse(n)
    return "logger" in s or s.startswith(("plt.", "click.echo", "print(", "logging."))


def mutants(src):
    """Yield (line, description, new source)."""
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Expr, ast.Assign)) and skip_node(n) or isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Raise):  # texts of errors
            for m in ast.walk(n):
                skip.add(id(m))
            skip.discard(id(n))
        for ann in [getattr(n, "annotation", None), getattr(n, "returns", None)] if not isinstance(n, ast.AnnAssign) or "Field" not in ast.unparse(n.annotation) else []:
            if ann is not None:
                for m in ast.walk(ann):
                    skip.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
    nodes = [n for n in ast.walk(tree) if id(n) not in skip]
    lines = src.encode().split(b"\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln) + 1)
    raw = src.encode()

    def put(n, text):
        a, b = offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
        return (raw[:a] + text.encode() + raw[b:]).decode()

    def rep(n, new):
        t = ast.unparse(new)
        if isinstance(new, ast.expr) and not isinstance(new, (ast.Constant, ast.Name, ast.Call)):
            t = f"({t})"
        return n.lineno, f"{ast.unparse(n)[:90]}  ->  {t[:90]}", put(n, t)

    for n in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [o()]
                yield rep(n, m)
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for o in BIN.get(type(n.op), []):
                m = copy.deepcopy(n)
                m.op = o()
                yield rep(n, m)
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield rep(n, m)
            for k in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[k]
                yield rep(n, m if len(m.values) > 1 else m.values[0])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield rep(n, n.operand)
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield rep(n, ast.Constant(not v))
            elif isinstance(v, int):
                yield rep(n, ast.Constant(v + 1))
                if v > 0 and v < 10:
                    yield rep(n, ast.Constant(v - 1))
            elif isinstance(v, float):
                yield rep(n, ast.Constant(v * 1.1 + (v == 0)))
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield rep(n.test, ast.Constant(True))
            yield rep(n.test, ast.Constant(False))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            m = copy.deepcopy(n)
            m.func.id = "max" if n.func.id == "min" else "min"
            yield rep(n, m)
            if len(n.args) == 2:
                yield rep(n, n.args[0])
                yield rep(n, n.args[1])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("round", "int", "abs") and len(n.args) == 1:
            yield rep(n, n.args[0])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "strip", "copy", "resolve", "astype", "flatten"):
            yield rep(n, n.func.value)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if isinstance(n, ast.Assign) and n.col_offset < 8:
                continue
            yield n.lineno, f"drop: {ast.unparse(n)[:100]}", put(n, "pass")
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield n.lineno, "drop: " + ast.unparse(n), put(n, "pass")


def main():
    f, jobs = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 8
    src = (Path("/repo") / f).read_text()
    out = Path("/tmp/mut") / (f.replace("/", "_") + ".txt")
    out.parent.mkdir(exist_ok=True)
    todo = sorted(set(mutants(src)))
    limit = int(sys.argv[3]) if len(sys.argv) > 3 else 10**6
    todo = sorted(todo, key=lambda x: hashlib.md5(x[1].encode()).hexdigest())[:limit]
    done = set()
    if out.exists():
        done = {x.split("\t")[1] for x in out.read_text().splitlines()}
    checks = MAP[f].split()
    verif = Path(f"/tmp/mut/verif_{os.getpid()}")
    shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))

    def one(job):
        k, (line, text, new) = job
        tag = f"{line}:{text}".replace("\n", " ").replace("\t", " ")
        if tag in done:
            return
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            return
        w = Path(f"/tmp/mut/w{os.getpid()}_{k}")
        w.mkdir()
        for part in ("shepherd_core", "shepherd_data"):
            shutil.copytree(Path("/repo") / part, w / part, ignore=shutil.ignore_patterns("docs", "*.pyc", "__pycache__"))
        (w / f).write_text(new)
        res, t0 = "SURVIVED", time.time()
        for c in checks:
            try:
                p = subprocess.run([str(verif / "run.sh"), c], env={**os.environ, "MC_REPO": str(w), "MC_PROCS": "1", "MC_FAILS": "1", "MC_EVID": str(w / "evid")}, capture_output=True, text=True, timeout=450)
                if p.returncode == 1:
                    res = "killed " + c
                    break
                if p.returncode:
                    res = f"BROKEN {c}: " + p.stderr.strip().splitlines()[-1][:100]
                    break
            except subprocess.TimeoutExpired:
                res = f"TIMEOUT {c}"
                break
        shutil.rmtree(w, ignore_errors=True)
        with out.open("a") as fd:
            fd.write(f"{res}\t{tag}\t{time.time() - t0:.0f}s\n")

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, enumerate(todo)))
    shutil.rmtree(verif)
    r = out.read_text().splitlines()
    print(f, len(r), "mutants", sum(x.startswith("killed") for x in r), "killed", sum(x.startswith("SURV") for x in r), "survived", len([x for x in r if x.startswith(("BROK", "TIME"))]), "other", flush=True)


if __name__ == "__main__":
    main()
