"""Development helper: create / verify planted bugs. Never used by a check.

seed.py make <batch.py>     batch defines SEEDS = [dict(id, prop, file, old, new, needs, breaks, demo)]
seed.py test [id ...]       demo on clean + patched copy, stable tests, check of the property
"""
import importlib.util, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path("/verif/seeded")
DEMO_SH = """#!/bin/bash
# run with cwd = repository; exit 0 if the behaviour is right
export HOME=/root LANG=C.UTF-8 TZ=UTC MPLBACKEND=Agg PWNLIB_NOTERM=1 TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work" XDG_CACHE_HOME="$work/cache" MPLCONFIGDIR="$work/mpl" SCRATCH="$work"
export PYTHONPATH="$PWD/shepherd_core:$PWD/shepherd_data" REPO="$PWD"
cd "$work" || exit 2
/opt/venv/bin/python "$here/demo.py"
"""
PRE = """import logging, os, sys
from pathlib import Path
import numpy as np
S = Path(os.environ["SCRATCH"])
logging.disable(logging.CRITICAL)

"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(batch):
    spec = importlib.util.spec_from_file_location("b", batch)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    w = Path("/tmp/seedmk")
    for s in m.SEEDS:
        shutil.rmtree(w, ignore_errors=True)
        sh(f"git clone -q /repo {w}")
        edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
        for f, old, new in edits:
            p = w / f
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            p.write_text(t.replace(old, new))
        diff = sh(f"git -C {w} diff").stdout
        # removed lines have to be original ones
        for f in {e[0] for e in edits}:
            rem = set()
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh(f"git -C {w} diff -U0 -- {f}").stdout, re.M):
                n = int(h[2]) if h[2] is not None else 1
                rem |= set(range(int(h[1]), int(h[1]) + n))
            for ln in sh(f"git -C {w} blame -s -w HEAD -- {f}").stdout.splitlines():
                mm = re.match(r"(\S+)\s+(?:\S+\s+)?(\d+)\)", ln)
                if mm and int(mm[2]) in rem and not (mm[1].startswith("^") or sh(f"git -C {w} merge-base --is-ancestor {mm[1]} b5016e7").returncode == 0):
                    print("   ", s["id"], "touches line of a fix:", ln)
            if not rem:
                print("   ", s["id"], "pure addition in", f)
        d = V / s["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(DEMO_SH)
        (d / "demo.sh").chmod(0o755)
        (d / "demo.py").write_text(PRE + s["demo"].strip("\n") + "\n")
        (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        print("made", s["id"])
    shutil.rmtree(w, ignore_errors=True)


def test(sid, full=True):
    d = V / sid
    prop = json.loads((d / "meta.json").read_text())["property"]
    w = Path(f"/tmp/seedt_{sid}")
    shutil.rmtree(w, ignore_errors=True)
    sh(f"git clone -q /repo {w}")
    dd = Path(f"/tmp/seedd_{sid}")
    shutil.rmtree(dd, ignore_errors=True)
    dd.mkdir()
    for f in d.iterdir():
        if f.suffix not in (".diff", ".json"):
            shutil.copy(f, dd)
    out = [sid]
    clean = sh(f"bash {dd}/demo.sh", cwd=w)
    out.append("demo-clean=%d" % clean.returncode + ("" if clean.returncode == 0 else " !!! " + (clean.stdout + clean.stderr)[-1500:]))
    a = sh(f"git apply {d}/patch.diff", cwd=w)
    if a.returncode:
        out.append("APPLY FAILED " + a.stderr[:300])
    p = sh(f"bash {dd}/demo.sh", cwd=w)
    out.append("demo-patched=%d" % p.returncode + (" !!!" if p.returncode == 0 else ""))
    out.append("  | " + (p.stdout + p.stderr).strip().splitlines()[-1][:150] if (p.stdout + p.stderr).strip() else "")
    if full:
        t = Path("/opt/vp/test.sh").read_text().replace("/repo", str(w))
        ts = Path(f"/tmp/seedtest_{sid}.sh")
        ts.write_text(t)
        r = sh(f"PYTHONPATH={w}/shepherd_core:{w}/shepherd_data bash {ts} /tmp/seedres_{sid}.json")
        ts.unlink()
        res = json.loads(Path(f"/tmp/seedres_{sid}.json").read_text())
        Path(f"/tmp/seedres_{sid}.json").unlink()
        base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
        out.append("tests: " + (r.stdout.strip().splitlines() or ["?"])[-1])
    c = sh(f"MC_EVID=/tmp/seedev_{sid} MC_REPO={w} /verif/run.sh {prop}")
    v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
    out.append(f"check {prop} rc={c.returncode} " + ("CAUGHT " + v[0][:60] if c.returncode == 1 and v else "MISSED !!! " + c.stderr[-300:]))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(dd, ignore_errors=True)
    return "\n    ".join(x for x in out if x)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(x.name for x in V.iterdir())
        n = int(os.environ.get("SEED_PROCS", "3"))
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(test, ids):
                print(r, flush=True)
