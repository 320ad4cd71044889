"""R10: commands over batches of files vs the same command on each file alone.

The order in which a directory lists its files is the environment's choice: os.scandir/os.listdir are wrapped so that
every order is delivered.  Reference for each (command, file): the outputs of running the command on that file alone
in a fresh directory; those are compared with a hand-written expectation of which outputs must appear.
"""
import itertools as it
import os
import pathlib

import h5py
import numpy as np

from mc import h5
from mc.check_r02 import uart_edges
from mc.lib import Check

RULE = ("enumerated: each command (with option variants) x all ordered selections of files from a menu of good, faulty and unreadable ones; "
        "the directory order is controlled. Oracle: outputs per file equal those of a run on that file alone (file contents, recordings compared by dataset and attribute), "
        "exit status of validation by the menu, sources byte-identical. distinct = distinct (command, file, outputs)")
ASSUME = ["content of plots is not compared", "directory order is delivered by os.scandir/os.listdir",
          "for validation a usable recording with time-jumps counts as not valid (the command combines both checks)"]

NAMES = ("good", "slow", "short", "jump", "nowin", "text", "nodata", "curve", "nouart", "empty", "badmode")
VALID = {"good": True, "slow": True, "short": True, "jump": False, "nowin": False, "text": False, "nodata": False, "curve": False,
         "nouart": True, "empty": True, "badmode": False}


BUILT: dict = {}


def build(d: pathlib.Path, name: str) -> pathlib.Path:
    f = d / f"{name}.h5"
    if name not in BUILT:
        _build(f, name)
        BUILT[name] = f.read_bytes()
    f.write_bytes(BUILT[name])
    return f


def _build(f: pathlib.Path, name: str) -> None:
    gpio = lambda n: (*uart_edges(b"hi\nyou"), f"0:\n  name: {n}\n")  # noqa: E731
    t, v, c = h5.ramp(20_000, t0=10**12)
    logs = {"sheep": ([10**12, 10**12 + 5], [10, 40], ["a", "b"]), "uart": ([10**12], None, ["x"])}
    if name == "good":
        h5.make(f, t, v, c, gpio=gpio("uart"), logs=logs)
        with h5py.File(f, "a") as fd:
            g = fd.create_group("ptp")
            for k, x in (("time", np.array([10**12, 2 * 10**12], "u8")), ("values", np.array([[1, 2], [3, 4]], "i4"))):
                g.create_dataset(k, data=x).attrs["description"] = {"time": "time [ns]", "values": "x, y"}[k]
    elif name == "slow":
        h5.make(f, *h5.ramp(9_000, t0=5 * 10**12, step=1_000_000), mode="emulator", hostname="other", logs={"kernel": ([1], [30], ["w"])})
    elif name == "short":
        h5.make(f, *h5.ramp(1500, t0=7), cal={"voltage": (1e-3, 0.5)})
    elif name == "jump":
        t[10_000:] += 10**9
        h5.make(f, t, v, c)
    elif name == "nowin":
        h5.make(f, t, v, c, window=None)
    elif name == "badmode":
        h5.make(f, t, v, c, mode="printer", logs=logs)
    elif name == "text":
        f.write_bytes(b"this is no recording\n" * 10)
    elif name == "nodata":
        with h5py.File(f, "w") as fd:
            fd.attrs["mode"] = "harvester"
            fd.create_group("sheep").create_dataset("time", data=[1, 2])
    elif name == "curve":
        h5.make(f, t, v, c, datatype="ivcurve", window=0)
    elif name == "nouart":
        h5.make(f, t[:5000], v[:5000], c[:5000], gpio=gpio("button"))
    elif name == "empty":
        h5.make(f, [], [], [], gpio=([], [], "0:\n  name: uart\n"), logs={"sheep": ([], [], [])})


CMDS = {
    "validate": ["validate"],
    "extract": ["extract", "-f", "9"],
    "extract-cut": ["extract", "-f", "1", "-s", "0.001", "-e", "0.0115", "--separator", ","],
    "extract-default": ["extract"],
    "meta": ["extract-meta"],
    "uart": ["extract-uart"],
    "gpio": ["extract-gpio", "-s", ","],
    "down": ["downsample"],
    "down-f": ["downsample", "-f", "3"],
    "down-r": ["downsample", "-r", "500"],
    "down-cut": ["downsample", "-f", "2", "-s", "0.004"],
}


def invoke(args, order=None):
    """(exit code, exception) of one command; order = names in the order the directory delivers them."""
    from click.testing import CliRunner
    from shepherd_data.cli import cli
    scandir, listdir = os.scandir, os.listdir
    rank = {n: i for i, n in enumerate(order or ())}

    class Scan:
        def __init__(self, path="."):
            with scandir(path) as s:
                self.it = iter(sorted(s, key=lambda e: (rank.get(e.name, 99), e.name)))

        def __enter__(self):
            return self

        def __exit__(self, *_):
            return None

        def close(self):
            return None

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

    try:
        os.scandir = Scan
        os.listdir = lambda path=".": sorted(listdir(path), key=lambda n: (rank.get(n, 99), str(n)))
        res = CliRunner().invoke(cli, args)
    finally:
        os.scandir, os.listdir = scandir, listdir
    xcp = res.exception if res.exception is not None and not isinstance(res.exception, SystemExit) else None
    return res.exit_code, xcp


def content(p: pathlib.Path):
    if p.suffix == ".png":
        return "plot"
    if p.suffix != ".h5":
        return p.read_bytes()
    res = {}
    with h5py.File(p, "r") as fd:
        def visit(n, o):
            res[n] = ((str(o.dtype), o.shape, str(o[...].tolist()) if o.dtype.kind == "O" else o[...].tobytes()) if isinstance(o, h5py.Dataset) else None, {k: str(x) for k, x in o.attrs.items()})
        fd.visititems(visit)
        return (sorted(res.items()), {k: str(x) for k, x in fd.attrs.items()})


def outputs(d: pathlib.Path, ignore) -> dict:
    return {str(p.relative_to(d)): content(p) for p in sorted(d.rglob("*")) if p.is_file() and str(p.relative_to(d)) not in ignore}


SINGLE: dict = {}


def expected_names(cmd, name):
    """Which outputs have to appear, by hand."""
    if name in ("text", "nodata") or cmd == "validate":
        return set()
    if cmd == "meta":
        return {"good": {"good.yaml", "good.ptp.csv", "good.sheep.log", "good.uart.log"}, "slow": {"slow.yaml", "slow.kernel.log"},
                "badmode": {"badmode.yaml", "badmode.sheep.log", "badmode.uart.log"}}.get(name, {f"{name}.yaml"})
    if cmd == "uart":
        return {"good.uart_from_wf.log"} if name == "good" else set()
    if cmd == "gpio":
        return {"good": {"good.waveform.uart.csv"}, "nouart": {"nouart.waveform.button.csv"}}.get(name, set())
    return None  # cuts: content is judged by R08, names here only relative to the single run


def single(chk: Check, item):
    """Reference run on one file alone (also via the path of the file itself)."""
    cmd, name = item
    outs = []
    for how in ("file", "dir"):
        with chk.tmp() as d, chk.case(f"{cmd}:{name}", {"command": cmd, "file": name, "given": how}):
            f = build(d, name)
            dig = h5.digest(f)
            rc, xcp = invoke([*CMDS[cmd], str(f if how == "file" else d)])
            chk.step()
            rep = {"command": CMDS[cmd], "file": name, "given": how}
            chk.expect(xcp is None, f"{cmd}:{name}:abort", f"command ended with {xcp!r}", rep)
            chk.expect(h5.digest(f) == dig, f"{cmd}:{name}:source", "source was changed", rep)
            want = int(not VALID[name]) if cmd == "validate" else 0
            chk.expect(rc == want, f"{cmd}:{name}:exit", f"exit status {rc} instead of {want}", rep)
            out = outputs(d, {f.name})
            exp = expected_names(cmd, name)
            if exp is not None:
                chk.expect(set(out) == exp, f"{cmd}:{name}:outputs", f"outputs {set(out)} instead of {exp}", rep)
            outs.append(out)
            chk.ev((cmd, name, sorted(out), how))
    if len(outs) == 2:
        chk.expect(outs[0] == outs[1], f"{cmd}:{name}:dir", "outputs differ between giving the file and its directory", {"command": cmd, "file": name})


def ref(chk: Check, cmd, name):
    if (cmd, name) not in SINGLE:
        with chk.tmp() as d:
            f = build(d, name)
            rc, _ = invoke([*CMDS[cmd], str(f)])
            SINGLE[cmd, name] = rc, outputs(d, {f.name})
    return SINGLE[cmd, name]


def batch(chk: Check, item):
    cmd, order = item
    rep = {"command": CMDS[cmd], "order": order}
    key = f"{cmd}:batch"
    with chk.tmp() as d, chk.case(key, rep):
        files = [build(d, n) for n in order]
        dig = [h5.digest(f) for f in files]
        names = [f.name for f in files]
        rc, xcp = invoke([*CMDS[cmd], str(d)], names)
        chk.step()
        chk.expect(xcp is None, f"{key}:abort", f"batch {order} was aborted by {xcp!r}", rep)
        want = int(any(not VALID[n] for n in order)) if cmd == "validate" else 0
        chk.expect(rc == want, f"{key}:exit", f"exit status {rc} instead of {want} for {order}", rep)
        chk.expect([h5.digest(f) for f in files] == dig, f"{key}:source", f"a source was changed in {order}", rep)
        out = outputs(d, set(names))
        exp = {}
        for n in order:
            exp.update(ref(chk, cmd, n)[1])
        if not chk.expect(set(out) == set(exp), f"{key}:names", f"{order}: outputs {sorted(out)} instead of {sorted(exp)}", rep):
            return
        for k in out:
            chk.expect(out[k] == exp[k], f"{key}:content", f"{order}: content of {k} differs from run on the file alone", rep)
        chk.trace()
        chk.state((cmd, order))
        chk.ev((cmd, tuple(sorted(out)), rc))


def folders(chk: Check, item):
    """Directory input covers exactly the recordings inside (and below, when asked)."""
    cmd, recurse, order = item
    rep = {"command": CMDS[cmd], "recurse": recurse, "order": order}
    with chk.tmp() as d, chk.case(f"{cmd}:folder", rep):
        sub = d / "sub" / "deep"
        sub.mkdir(parents=True)
        top = build(d, order[0])
        mid = build(d / "sub", order[1])
        low = build(sub, order[2])
        (d / "note.txt").write_text("h5")
        (d / "fake.h5").mkdir()
        (d / "not.h5.bak").write_bytes(b"x")
        rc, xcp = invoke([*CMDS[cmd], *(["-a"] if recurse else []), str(d)], [top.name, "sub", "deep", mid.name, low.name])
        chk.step()
        chk.expect(xcp is None, f"{cmd}:folder:abort", f"{xcp!r}", rep)
        part = {"": order[0], **({"sub/": order[1], "sub/deep/": order[2]} if recurse else {})}
        exp = {pre + k: v for pre, n in part.items() for k, v in ref(chk, cmd, n)[1].items()}
        out = outputs(d, {"note.txt", "not.h5.bak", *(str(f.relative_to(d)) for f in (top, mid, low))})
        chk.expect(set(out) == set(exp), f"{cmd}:folder:names", f"outputs {sorted(out)} instead of {sorted(exp)}", rep)
        if cmd == "validate":
            want = int(any(not VALID[n] for n in part.values()))
            chk.expect(rc == want, f"{cmd}:folder:exit", f"exit {rc} instead of {want}", rep)
        chk.ev((cmd, recurse, order))


TITLES = ("rec_2023.01.02", "a.downsampled_x5", "a b", "x.h5", "[1]", "a(1)", "-dash", "{n}", "$HOME", "caf\u00e9", "1", "note.txt", "*", "out.uart", "a,b", "%s", "n" * 100)


def replace(fd, name, what):
    """Another kind of member in the place of a dataset."""
    attrs, data = dict(fd[name].attrs), fd[name][...]
    del fd[name]
    if what == "group":
        new = fd.create_group(name)
    elif what == "scalar":
        new = fd.create_dataset(name, data=5)
    elif what == "texts":
        new = fd.create_dataset(name, data=np.array(["a"] * 3, dtype=h5py.string_dtype()))
    elif what == "link":
        fd[name] = h5py.SoftLink("/nowhere")
        return
    elif what == "short":
        new = fd.create_dataset(name, data=data[:1])
    else:  # a block can not be read
        new = fd.create_dataset(name, data=data, chunks=True, compression="gzip", fletcher32=True)
        new.id.write_direct_chunk((0,) * data.ndim, b"garbage" * 3)
    for k, v in attrs.items():
        new.attrs[k] = v


MEMBERS = ("data/time", "data/voltage", "data/current", "gpio/time", "gpio/value", "sheep/time", "sheep/level", "sheep/message", "uart/message", "ptp/time", "ptp/values")
ATTRS = (("gpio/value", "description"), ("/", "config"), ("/", "mode"), ("/", "hostname"), ("data", "datatype"), ("data", "window_samples"), ("data/voltage", "gain"), ("data/time", "offset"), ("ptp/time", "description"))
HARD = {"group", "scalar", "link"}  # in place of a series


def malformed():
    for name in MEMBERS:
        for what in ("group", "scalar", "texts", "link", "short", "unreadable"):
            if what == "unreadable" and name.endswith("message"):
                continue
            yield f"{what}:{name}", (lambda fd, name=name, what=what: replace(fd, name, what))
    for name in ("data", "gpio", "sheep", "uart", "ptp"):
        yield f"dataset:{name}", (lambda fd, name=name: (fd.__delitem__(name), fd.__setitem__(name, np.arange(5))))
    for node, attr in ATTRS:
        for v in ("a: [", "hello", "[1, 2]", "", 5, -1.5, float("nan"), [1.0, 2.0]):
            yield f"{node}@{attr}={v}", (lambda fd, node=node, attr=attr, v=v: fd[node].attrs.__setitem__(attr, v))


def damaged(chk: Check, item):
    """A malformed recording does not keep the others from being processed."""
    name, cmd = item
    rep = {"malformed": name, "command": cmd}
    with chk.tmp() as d, chk.case("damaged", rep):
        good = build(d, "good").rename(d / "m.h5")
        bad = [build(d, "good").rename(d / f"{n}.h5") for n in "az"]
        for f in bad:
            with h5py.File(f, "a") as fd:
                dict(malformed())[name](fd)
        dig = [h5.digest(f) for f in (good, *bad)]
        rc, xcp = invoke([*CMDS[cmd], str(d)], ["a.h5", "m.h5", "z.h5"])
        chk.step()
        chk.expect(xcp is None, "damaged:abort", f"{cmd} was aborted by {xcp!r} for {name}", rep)
        chk.expect([h5.digest(f) for f in (good, *bad)] == dig, "damaged:source", "a source was changed", rep)
        exp = {k.replace("good", "m", 1): v for k, v in ref(chk, cmd, "good")[1].items()}
        mine = {k: v for k, v in outputs(d, {"a.h5", "m.h5", "z.h5"}).items() if k.startswith("m.")}
        chk.expect(mine == exp, "damaged:good", f"{cmd}: outputs of the good file are {sorted(mine)} instead of {sorted(exp)}, or differ", rep)
        if cmd == "validate":
            kind, _, where = name.partition(":")
            if (where.startswith("data/") and kind in HARD) or name in ("dataset:data", "unreadable:data/time") or name.startswith(("/@mode", "data@datatype")):
                chk.expect(rc == 1, "damaged:exit", f"exit status {rc} in spite of {name}", rep)
        else:
            chk.expect(rc == 0, "damaged:exit", f"exit status {rc}", rep)
        chk.ev(item)
        chk.state(item)


def titled(chk: Check, item):
    """Names of files and directories do not matter."""
    title, sub, recurse = item
    rep = {"file": f"{title}.h5", "directory": sub, "recurse": recurse}
    with chk.tmp() as d, chk.case("titles", rep):
        src = d / sub if sub else d
        src.mkdir(exist_ok=True)
        good = build(d, "good").rename(d / "plain.h5")
        opt = ["-a"] if recurse else []
        seen = recurse or not sub
        for kind in ("text", "good"):
            f = build(d, kind).rename(src / f"{title}.h5")
            rc, xcp = invoke(["validate", *opt, str(d)])
            chk.expect(xcp is None and rc == int(seen and kind == "text"), "titles:validate", f"exit status {rc} ({xcp!r}) with {kind} file", rep)
            rc, xcp = invoke(["validate", str(f)])
            chk.expect(xcp is None and rc == int(kind == "text"), "titles:validate-file", f"exit status {rc} ({xcp!r}) with {kind} file", rep)
            if kind == "text":
                f.unlink()
        for cmd in ("extract-meta", "extract-uart"):
            rc, xcp = invoke([cmd, *opt, str(d)])
            chk.expect(xcp is None and rc == 0, "titles:abort", f"{cmd} ended with {rc} {xcp!r}", rep)
            for g in (good, f):
                mine = {p.name for p in g.parent.iterdir() if p.name.startswith(g.stem + ".") and p not in (g, good, f)}
                exp = {f"{g.stem}.{x}" for x in (("yaml", "ptp.csv", "sheep.log", "uart.log", "uart_from_wf.log") if cmd == "extract-uart" else ("yaml", "ptp.csv", "sheep.log", "uart.log"))} if g == good or seen else set()
                chk.expect(mine == exp, "titles:outputs", f"{cmd}: outputs of {g.name} are {sorted(mine)} instead of {sorted(exp)}", rep)
            chk.step()
        chk.ev(item)
        chk.state(item)


def run(chk: Check):
    chk.parallel(damaged, [(n, c) for n, _ in malformed() for c in ("validate", "extract", "meta", "uart", "gpio", "down-f")])
    chk.parallel(titled, [(t, s, r) for t in TITLES for s in ("", "sub", "a b.c", "dir.h5", "[x]") for r in (False, True)])
    chk.parallel(single, [(c, n) for c in CMDS for n in NAMES])
    three = NAMES if chk.thorough else ("good", "slow", "jump", "text", "nodata")
    items = [(c, o) for c in CMDS for o in it.permutations(NAMES, 2)]
    items += [(c, o) for c in CMDS for o in it.permutations(three, 3) if chk.thorough or c in ("validate", "down-r", "meta", "uart")]
    items.sort()
    chk.parallel(batch, items)
    menu = [("good", "slow", "text"), ("text", "good", "slow"), ("nodata", "text", "good"), ("slow", "jump", "nouart"), ("good", "text", "text"), ("good", "good", "good")]
    chk.parallel(folders, [(c, r, o) for c in ("validate", "extract", "meta", "uart", "gpio", "down-f") for r in (False, True) for o in menu])
    chk.sample({"commands": list(CMDS), "files": NAMES})
