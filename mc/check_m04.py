"""M04: cache states, crash points of the cache write and source arguments, recovery on the real loader."""
import copy
import os
import pathlib
import pickle
import resource
import signal
import time

import yaml

from mc.lib import Check

RULE = ("enumerated: host kind (cache-writing / other) x cache state (absent, fresh, stale around the 24 h limit, damaged by truncation at byte offsets, overwritten, not a cache, a directory) x source (default, file, directory) x reset; "
        "own sources of equal name at two places, changed between loads, all histories of loads up to a depth; crash points: the cache-writing process is killed (and, separately, gets an i/o-error) when any file reaches n bytes, for every enumerated n, with and without an older cache present; afterwards both host kinds load. "
        "Oracle: content equals the one read directly from the source. distinct = distinct (case class, outcome)")
ASSUME = ["the cache was written by the same version of the library", "a killed write leaves a prefix of the bytes (no reordering by the file system)",
          "a fresh, well-formed cache may be used as it is"]

SHEEP = "/lib/firmware/am335x-pru0-fw"
_state = {"sheep": False}
_real_exists = pathlib.Path.exists
_real_os_exists = os.path.exists


def setup(chk: Check):
    """Own cache directory, controllable host kind, faster yaml; once per process."""
    if "cache" in _state and _state["pid"] == os.getpid():
        return
    base = chk.newdir()
    os.environ["XDG_CACHE_HOME"] = str(base)
    from shepherd_core.testbed_client import fixtures  # first import in this process
    _state["mod"] = fixtures
    _state["pid"] = os.getpid()
    _state["cache"] = base / "shepherd_datalib" / "fixtures.pickle"
    pathlib.Path.exists = lambda self, *a, **k: _state["sheep"] if str(self) == SHEEP else _real_exists(self, *a, **k)
    os.path.exists = lambda p: _state["sheep"] if str(p) == SHEEP else _real_os_exists(p)
    memo, orig = {}, yaml.safe_load
    _state["yaml"] = orig

    def fast(stream):
        key = getattr(stream, "name", None)
        if not isinstance(key, str):
            return orig(stream)
        if key not in memo:
            memo[key] = pickle.dumps(orig(stream))
        return pickle.loads(memo[key])

    yaml.safe_load = fast
    # other source
    src = chk.newdir()
    (src / "one.yaml").write_text(yaml.safe_dump([{"datatype": "thing", "parameters": {"id": 1, "name": "a"}}, {"datatype": "mcu", "parameters": {"id": 5, "name": "other"}}]))
    (src / "sub").mkdir()
    (src / "sub" / "two.yaml").write_text(yaml.safe_dump([{"datatype": "Thing", "parameters": {"id": 2, "name": "B", "inherit_from": "a"}}]))
    _state["src"] = src
    clear()
    _state["sheep"] = False
    root = pathlib.Path(fixtures.__file__).parents[1] / "data_models"
    _state["default"] = raw([f for f in root.glob("**/*.yaml")])
    _state["file"] = raw([src / "one.yaml"])
    _state["dir"] = raw([src / "one.yaml", src / "sub" / "two.yaml"])
    # a proper cache
    _state["sheep"] = True
    fixtures.Fixtures()
    _state["sheep"] = False
    c = _state["cache"]
    _state["valid"] = c.read_bytes() if c.is_file() else pickle.dumps(fixtures.Fixtures(reset=True).components)
    other = copy.deepcopy(fixtures.Fixtures(reset=True))
    other["mcu"].elements_by_name.popitem()
    _state["poison"] = pickle.dumps(other.components)
    clear()


def raw(files):
    """Content of files, without the loader."""
    out = {}
    for f in files:
        with f.open() as fd:
            for e in yaml.safe_load(fd):
                if isinstance(e, dict):
                    p = e["parameters"]
                    names, ids = out.setdefault(e["datatype"].lower(), ({}, {}))
                    names[str(p["name"]).lower()] = p
                    ids[p["id"]] = p
    return out


def clear():
    d = _state["cache"].parent
    if d.is_dir():
        for p in d.rglob("*"):
            if not p.is_dir():
                p.unlink()
        if _state["cache"].is_dir():
            _state["cache"].rmdir()
    elif d.exists():
        d.unlink()


def put(data: bytes, age_h: float = 0):
    c = _state["cache"]
    c.parent.mkdir(parents=True, exist_ok=True)
    c.write_bytes(data)
    t = time.time() - age_h * 3600
    os.utime(c, (t, t))


def load(source, *, reset=False, sheep=False):
    kw = {"file": {"file_path": _state["src"] / "one.yaml"}, "dir": {"file_path": _state["src"]}}.get(source, {})
    _state["sheep"] = sheep
    try:
        db = _state["mod"].Fixtures(reset=reset, **kw)
    finally:
        _state["sheep"] = False
    return {t: (dict(db[t].elements_by_name), dict(db[t].elements_by_id)) for t in db.keys()}


def check_load(chk, key, rep, source, **kw):
    rep = {**rep, "source": source, **kw}
    with chk.case(f"{key}:load", rep):
        got = load(source, **kw)
        chk.step()
        good = got == _state[source]
        chk.expect(good, f"{key}:content:{source}", lambda: f"loaded types {({t: len(v[0]) for t, v in got.items()})} differ from source {source}", rep)
        chk.ev((key, source, tuple(kw.items()), good))


CASES = [(s, r, h) for s in ("default", "file", "dir") for r in (False, True) for h in (False, True)]


def states(chk: Check, item):
    setup(chk)
    kind, arg = item
    good = [c for c in CASES]
    size = len(_state["valid"])
    for source, reset, sheep in good:
        clear()
        rep = {"cache": kind, "arg": arg}
        if kind == "valid":
            put(_state["valid"], arg)
        elif kind == "other-content":  # well-formed, but of different content
            put(_state["poison"], arg)
            if arg < 24 and source == "default" and not reset and not sheep:
                continue  # legitimately used
        elif kind == "truncated":
            put(_state["valid"][:arg], 0)
        elif kind == "garbage":
            put(arg, 0)
        elif kind == "flipped":
            data = bytearray(_state["valid"])
            data[arg % size] = 0xFF ^ data[arg % size] if arg < 3 else 0
            put(bytes(data[: arg % size + 1]), 0)
        elif kind == "directory":
            _state["cache"].mkdir(parents=True, exist_ok=True)
        elif kind == "blocked":
            d = _state["cache"].parent
            if d.is_dir():
                d.rmdir() if not any(d.iterdir()) else None
            if not d.exists():
                d.write_text("not a directory")
        chk.state((kind, arg if not isinstance(arg, bytes) else arg[:20], source, reset, sheep))
        check_load(chk, kind, rep, source, reset=reset, sheep=sheep)
        if kind != "blocked":
            # whatever happened: the next default load has to be right, too
            if not (kind == "other-content" and arg < 24 and _state["cache"].is_file() and _state["cache"].read_bytes() == _state["poison"]):
                check_load(chk, kind + ":next", {**rep, "before": [source, reset, sheep]}, "default", sheep=False)
        chk.trace()
    clear()


def histories(chk: Check, item):
    """Sequences of loads on a shared cache directory."""
    setup(chk)
    import itertools
    first, depth = item
    steps = [("default", False, False), ("default", False, True), ("file", False, True), ("dir", False, True), ("file", False, False), ("dir", True, False), ("default", True, True)]
    for rest in itertools.product(steps, repeat=depth - 1):
        clear()
        hist = [steps[first], *rest]
        for i, (source, reset, sheep) in enumerate(hist):
            check_load(chk, "history", {"history": hist[: i + 1]}, source, reset=reset, sheep=sheep)
        chk.state(tuple(hist))
        chk.trace()
    clear()


def sources(chk: Check, item):
    """Own sources of the same name in different places, also changed between loads: what is in the file at that moment counts."""
    setup(chk)
    import itertools
    mod = _state["mod"]
    first, depth = item
    clear()
    menu = [(place, kind, how) for place in ("a", "b") for kind in ("file", "dir") for how in ("load", "change+load", "load-reset")]
    for k, rest in enumerate(itertools.product(menu, repeat=depth - 1)):
        base = _state["src"].parent / f"own_{first}_{depth}_{k}"
        version = {"a": 0, "b": 100}
        for pl in version:
            (base / pl).mkdir(parents=True)
        hist = [menu[first], *rest]

        def write(pl):
            # the real parser is used here
            (base / pl / "set.yaml").write_text(yaml.safe_dump([{"datatype": "thing", "parameters": {"id": version[pl], "name": f"n{version[pl]}"}}]))

        orig, yaml.safe_load = yaml.safe_load, _state["yaml"]
        try:
            for pl in version:
                write(pl)
            for n, (pl, kind, how) in enumerate(hist):
                rep = {"history": hist[: n + 1]}
                with chk.case("sources:load", rep):
                    if how == "change+load":
                        version[pl] += 1
                        write(pl)
                    src = base / pl / "set.yaml" if kind == "file" else base / pl
                    db = mod.Fixtures(src, reset=how == "load-reset")
                    chk.step()
                    got = {t: list(db[t].elements_by_name) for t in db.keys()}
                    chk.expect(got == {"thing": [f"n{version[pl]}"]}, "sources:content", lambda: f"loaded {str(got)[:200]} instead of version {version[pl]}", rep)  # noqa: B023
                    chk.ev((tuple(hist[: n + 1]), str(got)[:60]))
        finally:
            yaml.safe_load = orig
        for pl in version:
            (base / pl / "set.yaml").unlink()
            (base / pl).rmdir()
        base.rmdir()
        chk.state(("sources", *hist))
        chk.trace()
    with chk.case("sources:default", None):
        check_load(chk, "sources:default", {}, "default")


def crash(chk: Check, item):
    """Kill or disturb the cache-writing process when a file reaches the limit."""
    setup(chk)
    limit, mode, old = item
    clear()
    if old:
        put(_state["valid"], 25 if old == "stale" else 1)
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "kill" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            got = load("default", sheep=True)
            os._exit(0 if got == _state["default"] else 7)
        except BaseException:
            os._exit(8)
    _, status = os.waitpid(pid, 0)
    rep = {"bytes": limit, "mode": mode, "older cache": old}
    chk.step()
    if mode == "error":
        chk.expect(os.WIFEXITED(status) and os.WEXITSTATUS(status) in (0, 8), "crash:content", f"wrong content, status {status}", rep)
        chk.expect(os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0, "crash:fatal", f"loading fails when the cache can not be written (status {status})", rep)
    elif os.WIFSIGNALED(status):
        chk.count("killed during the write")
    chk.state((limit, mode, old))
    for sheep in (False, True, False):
        check_load(chk, f"crash:{mode}", rep, "default", sheep=sheep)
    chk.trace()
    clear()


def run(chk: Check):
    # size of the cache is not known before; determined in a child
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = 100_000
        try:
            setup(chk)
            n = len(_state["valid"])
        finally:
            os.write(w, str(n).encode())
            os._exit(0)
    os.waitpid(pid, 0)
    size = int(os.read(r, 99))
    chk.count("bytes of cache", size)
    stepn = max(1, size // (4000 if chk.thorough else 150))
    offsets = sorted({*range(0, 40), *range(0, size, stepn), *range(size - 40, size)})
    garbage = [b"", b"\0", b"garbage", b"\x80\x04.", b"\x80\x05N.", pickle.dumps([]), pickle.dumps({}), pickle.dumps({"mcu": 1}), pickle.dumps("text"), pickle.dumps({1: {}}), b"cnosuchmodule\nname\n.",
               b"cshepherd_core.testbed_client.fixtures\nNoSuchClass\n.", b"I1\n.", b"(lp0\n", b"\xff" * 5000, b"- datatype: mcu\n"]
    items = [("truncated", o) for o in offsets] + [("garbage", g) for g in garbage] + [("flipped", o) for o in offsets[::4]]
    items += [(k, a) for k in ("valid", "other-content") for a in (0, 1, 23.9, 24.1, 25, 1000, -1)]
    items += [("absent", None), ("directory", None), ("blocked", None)]
    chk.parallel(states, items)
    chk.parallel(histories, [(i, d) for d in range(1, 5 if chk.thorough else 4) for i in range(7)])
    chk.parallel(sources, [(i, d) for d in range(1, 5 if chk.thorough else 4) for i in range(12)])
    limits = sorted({0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, size - 1, *range(0, size, max(1, size // (400 if chk.thorough else 24)))})
    chk.parallel(crash, [(n, m, o) for n in limits for m in ("kill", "error") for o in (None, "fresh", "stale")])
    chk.sample({"cache": "truncated", "offsets": offsets[:60:7]})
    chk.sample({"crash": "kill", "bytes": limits[:10]})
