"""Common machinery of all checks: bookkeeping, replay files, evidence, parallel enumeration."""
from __future__ import annotations

import contextlib
import hashlib
import json
import logging
import multiprocessing as mp
import os
import pathlib
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parents[1]
EVID = pathlib.Path(os.environ.get("MC_EVID", ROOT / "evidence"))
REPO = os.environ.get("MC_REPO", "/repo").rstrip("/") + "/"
NPROC = int(os.environ.get("MC_PROCS", 0)) or max(1, min(8, os.cpu_count() or 1))
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


class Hang(BaseException):
    """A case did not come back in time."""


class Stop(BaseException):
    """Enough violations."""


def _alarm(_s, _f):
    raise Hang("no answer within the time limit of a single case")


def fingerprint(obj) -> str:
    return hashlib.blake2b(repr(obj).encode(), digest_size=12).hexdigest()


class Check:
    """Counts what was explored and collects violations of one property."""

    max_violations = int(os.environ.get("MC_FAILS", 8))

    def __init__(self, pid: str, level: str) -> None:
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states: set = set()
        self.outcomes: set = set()
        self.samples: list = []
        self.extra: dict = {}
        self.exhaustive = True
        self.broken: str | None = None
        self.violations: list = []  # (key, message, replay)
        self.known: dict = {}  # key -> text
        for line in (ROOT / "known_findings.txt").read_text().splitlines():
            # format: property=<id> key=<key> <what fails>
            if line.startswith("property="):
                head, key, text = (line.split(" ", 2) + ["", ""])[:3]
                if head == f"property={pid}":
                    self.known[key.removeprefix("key=")] = text
        self.known_hit: set = set()
        self.known_seen: dict = {}
        base = os.environ.get("MC_SCRATCH") or tempfile.mkdtemp(prefix="mc.")
        self.scratch = pathlib.Path(base)
        self._n = 0

    # ------------------------------------------------------------ bookkeeping
    def state(self, obj) -> bool:
        """Note a (canonical) state; True if it is new."""
        key = fingerprint(obj)
        new = key not in self.states
        self.states.add(key)
        return new

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def trace(self, n: int = 1) -> None:
        """One complete history, executed on the real code and compared with the model."""
        self.traces += n

    def ev(self, outcome=None) -> None:
        """One evaluated case; outcome is what was observed (to count distinct non-trivial ones)."""
        self.evaluations += 1
        if outcome is not None:
            self.outcomes.add(fingerprint(outcome))

    def sample(self, obj, limit: int = 4) -> None:
        if len(self.samples) < limit:
            self.samples.append(_plain(obj))

    def count(self, name: str, n: int = 1) -> None:
        self.extra[name] = self.extra.get(name, 0) + n

    def newdir(self) -> pathlib.Path:
        self._n += 1
        d = self.scratch / f"w{os.getpid()}_{self._n}"
        d.mkdir(parents=True)
        return d

    @contextlib.contextmanager
    def tmp(self):
        d = self.newdir()
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ verdicts
    def fail(self, key: str, message: str, replay=None) -> None:
        key = key.replace(" ", "_")
        if key in self.known:
            self.known_hit.add(key)
            return
        if any(k == key for k, _, _ in self.violations):
            return
        self.violations.append((key, message, _plain(replay)))
        if len(self.violations) >= self.max_violations:
            raise Stop

    def expect(self, cond, key: str, message: str = "", replay=None) -> bool:
        if not cond:
            self.fail(key, message() if callable(message) else message, replay)
            return False
        return True

    @contextlib.contextmanager
    def case(self, key: str, replay=None, limit: float = 60):
        """Unexpected errors and hangs of the code under test inside are violations."""
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            yield
        except Stop:
            raise
        except Hang as xcp:
            self.fail(f"{key}:hang", str(xcp), replay)
        except (Exception, SystemExit) as xcp:  # noqa: BLE001
            if isinstance(xcp, (MemoryError, ImportError)) and not _from_repo(xcp):
                raise  # an error of the harness or sandbox
            self.fail(f"{key}:{type(xcp).__name__}",
                      f"unexpected {type(xcp).__name__}: {xcp}"[:600] + "\n" + _where(xcp), replay)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    @contextlib.contextmanager
    def guard(self):
        """Outermost guard: import errors etc. of the code under test are violations."""
        try:
            yield
        except Stop:
            self.exhaustive = False
        except (Exception, SystemExit) as xcp:  # noqa: BLE001
            if _from_repo(xcp) or not isinstance(xcp, (ImportError, OSError, MemoryError, RuntimeError)):
                with contextlib.suppress(Stop):
                    self.fail(f"uncaught:{type(xcp).__name__}", f"{xcp}\n{_where(xcp)}",
                              {"traceback": traceback.format_exc()})
            else:
                self.broken = traceback.format_exc()

    # ------------------------------------------------------------ parallel enumeration
    def parallel(self, func, items, chunks: int | None = None) -> None:
        """func(check, item) for every item, spread over processes; results are merged."""
        items = list(items)
        if not items:
            return
        n = min(chunks or NPROC, 1 if NPROC == 1 else 64)
        parts = [items[i::n] for i in range(n)]
        parts = [p for p in parts if p]
        if len(parts) == 1:
            for it in items:
                func(self, it)
            return
        ctx = mp.get_context("fork")
        with ctx.Pool(len(parts)) as pool:
            for res in pool.imap_unordered(_worker, [(self.pid, self.level, func, p) for p in parts]):
                self._merge(res)
        if self.broken:
            raise RuntimeError(self.broken)
        if len(self.violations) >= self.max_violations:
            raise Stop

    def _merge(self, res: dict) -> None:
        self.evaluations += res["evaluations"]
        self.transitions += res["transitions"]
        self.traces += res["traces"]
        self.states |= res["states"]
        self.outcomes |= res["outcomes"]
        for s in res["samples"]:
            self.sample(s)
        for k, v in res["extra"].items():
            self.count(k, v)
        self.known_hit |= res["known_hit"]
        self.exhaustive &= res["exhaustive"]
        if res["broken"]:
            self.broken = res["broken"]
        for v in res["violations"]:
            if all(k != v[0] for k, _, _ in self.violations):
                self.violations.append(v)

    # ------------------------------------------------------------ end
    def finish(self, rule: str, assume: list) -> int:
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.outcomes),
               "rule": rule, "samples": self.samples,
               "states": len(self.states), "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "exhaustive": bool(self.exhaustive and not self.violations and not self.broken)}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": assume, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        EVID.mkdir(exist_ok=True)
        for old in (EVID / "replay").glob(f"{self.pid}-*.json"):
            old.unlink()
        (EVID / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        for key in sorted(self.known_hit):
            print(f"KNOWN-FINDING: property={self.pid} {key} {self.known[key]}")
        print(f"{self.pid} {self.tier}: evaluations={self.evaluations} outcomes={len(self.outcomes)} "
              f"states={len(self.states)} transitions={self.transitions} traces={self.traces} "
              f"extra={self.extra} wall={ev['wall_s']}s")
        if self.violations:
            (EVID / "replay").mkdir(exist_ok=True)
            for i, (key, msg, replay) in enumerate(self.violations):
                path = EVID / "replay" / f"{self.pid}-{i}.json"
                path.write_text(json.dumps({"property": self.pid, "key": key, "message": msg,
                                            "case": replay}, indent=1) + "\n")
                print(f"VIOLATION property={self.pid} replay={os.path.relpath(path, ROOT)}")
                print(f"    key={key}\n    {msg[:1500]}")
            return 1
        if self.broken:
            print(self.broken, file=sys.stderr)
            return 2
        if self.evaluations + self.transitions == 0:
            print("nothing was explored", file=sys.stderr)
            return 2
        return 0


def _worker(args) -> dict:
    pid, level, func, items = args
    chk = Check(pid, level)
    with chk.guard():
        for it in items:
            func(chk, it)
    return {k: getattr(chk, k) for k in ("evaluations", "transitions", "traces", "states", "outcomes",
                                         "samples", "extra", "known_hit", "violations", "broken", "exhaustive")}


def _frames(xcp):
    """File names of the whole traceback chain."""
    seen = []
    while xcp is not None:
        seen += [f.filename for f in traceback.extract_tb(xcp.__traceback__)]
        xcp = xcp.__cause__ or xcp.__context__
    return seen


def _from_repo(xcp) -> bool:
    return any(f.startswith(REPO) for f in _frames(xcp))


def _where(xcp) -> str:
    return "".join(traceback.format_exception(xcp)[-6:])[-1500:]


def _plain(obj):
    """Something json can store."""
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    if isinstance(obj, dict):
        return {str(k): _plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set)):
        return [_plain(v) for v in obj]
    if hasattr(obj, "tolist"):
        return obj.tolist()
    return repr(obj)


def raises(func, *types):
    """(True, exception) if func raises one of types; other exceptions propagate."""
    try:
        func()
    except types as xcp:
        return xcp
    return None
