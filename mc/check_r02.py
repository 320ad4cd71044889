"""R02: existing files are never changed unless asked for."""
import itertools
import sys
import threading

import h5py
import numpy as np
from mc import h5
from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.base.calibration import CalibrationSeries
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.data_models.task import Compression
from shepherd_core.writer import Writer

RULE = ("A) directory content (kind of the existing file x occupied fallback names) x open request (mode, datatype, window, calibration, flags); "
        "B) every exporter on directories with every subset of its outputs already present; "
        "C) two writers on one path: the second one's complete session is placed at every source line of the first one's constructor. "
        "Outcome = (accepted or rejected, chosen name, which files differ); all cases are non-trivial (at least one file exists or appears)")
ASSUME = ["bytes of a file are its identity", "C) preempts at source-line granularity inside the writer module, one preemption"]

CAL = CalibrationSeries(voltage=CalibrationPair(gain=2e-6, offset=0.1), current=CalibrationPair(gain=3e-9, offset=-0.2))
MODES = (None, "harvester", "emulator", "nonsense")
DTYPES = (None, "ivsample", "ivcurve", "isc_voc", EnergyDType.ivcurve, "nonsense")
WINDOWS = (None, 0, 7, -1)
ALLOWED = {"harvester": ("ivsample", "ivcurve", "isc_voc"), "emulator": ("ivsample",)}
KINDS = ("none", "hrv", "hrv_curve", "emu", "garbage", "empty", "dir")


def populate(d, kind, extra):
    f = d / "rec.h5"
    t, v, c = h5.ramp(20_000)
    if kind == "hrv":
        h5.make(f, t, v, c, attrs={"note": "keep"})
    elif kind == "hrv_curve":
        h5.make(f, t, v, c, datatype="ivcurve", window=50, cal={"voltage": (1e-6, 0.5)})
    elif kind == "emu":
        h5.make(f, t, v, c, mode="emulator", config={"a": 1})
    elif kind == "garbage":
        f.write_bytes(b"this is not a recording")
    elif kind == "empty":
        f.write_bytes(b"")
    elif kind == "dir":
        f.mkdir()
    for i in extra:
        h5.make(d / f"rec.{i}.h5", t, v, c)
    (d / "other.h5").write_bytes(b"unrelated")
    return f


STORED = {"hrv": ("harvester", "ivsample", 0), "hrv_curve": ("harvester", "ivcurve", 50), "emu": ("emulator", "ivsample", 0)}


def acceptable(kind, mode, dtype, window, modify):
    dtype = dtype.name if isinstance(dtype, EnergyDType) else dtype
    base = STORED.get(kind) if modify else ("harvester", "ivsample", 0)
    m = base[0] if mode is None else mode
    dt = base[1] if dtype is None else dtype
    w = base[2] if window is None else window
    if m not in ALLOWED or dt not in ALLOWED[m]:
        return False
    # an unmentioned iv-curve type with a window of zero is left open by the property
    if dt == "ivcurve" and w < 1:
        return False if dtype is not None else None
    return True


def open_case(chk, item):
    kind, extra, mode, dtype, window, cal, flags = item
    modify, force = flags
    replay = {"existing": kind, "occupied": extra, "mode": mode, "datatype": str(dtype), "window": window, "cal": cal,
              "modify_existing": modify, "force_overwrite": force}
    key = f"open:{'modify' if modify else 'force' if force else 'plain'}"
    with chk.tmp() as d:
        f = populate(d, kind, extra)
        before = h5.snapshot(d)
        openable = kind in STORED
        if openable and modify:
            with h5py.File(f) as fd:
                old = {k: fd["data"][k][:] for k in h5.DSETS}
                old_root = dict(fd.attrs)
                old_cal = {k: (fd["data"][k].attrs["gain"], fd["data"][k].attrs["offset"]) for k in h5.DSETS}
        with chk.case(key, replay):
            w = None
            try:
                w = Writer(f, mode, dtype, window, CAL if cal else None, Compression.null,
                           modify_existing=modify, force_overwrite=force, verbose=False)
            except Exception as xcp:  # noqa: BLE001
                err = type(xcp).__name__
                del xcp
            chk.step()
            chk.state((kind, extra, mode, str(dtype), window, cal, flags))
            if w is None:
                import gc
                gc.collect()
                after = h5.snapshot(d)
                changed = [n for n in before if after.get(n) != before[n]]
                chk.expect(not changed, f"{key}:rejected-but-changed", f"open failed ({err}) but {changed} changed", replay)
                can = not (modify and not openable) and not (kind == "dir")
                if can:
                    chk.expect(acceptable(kind, mode, dtype, window, modify) is not True, f"{key}:wrongly-rejected", f"{err} for a usable request", replay)
                chk.ev(("rejected", kind, flags, len(extra)))
                return
            with w:
                name = w.file_path.name
                if not modify:
                    w.append_iv_data_raw(0, np.arange(10_000, dtype="u4"), np.arange(10_000, dtype="u4"))
                else:
                    w.append_iv_data_raw(200_000_000, np.arange(10_000, dtype="u4"), np.arange(10_000, dtype="u4"))
            after = h5.snapshot(d)
            chk.trace()
            chk.ev(("accepted", kind, flags, name, mode, str(dtype)))
            chk.sample(replay)
            ok = acceptable(kind, mode, dtype, window, modify)
            chk.expect(ok is not False, f"{key}:wrongly-accepted", "an unusable request was accepted", replay)
            if modify:
                chk.expect(name == "rec.h5", f"{key}:name", f"modify went to {name}", replay)
                with h5py.File(d / name) as fd:
                    for k in h5.DSETS:
                        chk.expect(np.array_equal(fd["data"][k][:len(old[k])], old[k]), f"{key}:samples", f"recorded {k} was altered", replay)
                        chk.expect(fd["data"][k].shape == (30_000,), f"{key}:appended", "append missing", replay)
                        g = (fd["data"][k].attrs["gain"], fd["data"][k].attrs["offset"])
                        exp = (CAL[k].gain, CAL[k].offset) if cal else old_cal[k]
                        chk.expect(g == exp, f"{key}:cal", f"calibration of {k} is {g}, expected {exp}", replay)
                    exp_root = dict(old_root)
                    if mode is not None:
                        exp_root["mode"] = mode
                    chk.expect(dict(fd.attrs) == exp_root, f"{key}:settings", f"root settings {dict(fd.attrs)}, expected {exp_root}", replay)
                    base = STORED[kind]
                    exp_dt = base[1] if dtype is None else dtype.name if isinstance(dtype, EnergyDType) else dtype
                    exp_w = base[2] if window is None else window
                    got = (fd["data"].attrs["datatype"], int(fd["data"].attrs["window_samples"]))
                    chk.expect(got == (exp_dt, exp_w), f"{key}:settings", f"datatype/window {got}, expected {(exp_dt, exp_w)}", replay)
                may_change = {"rec.h5"}
            elif force:
                chk.expect(name == "rec.h5", f"{key}:name", f"overwrite went to {name}", replay)
                may_change = {"rec.h5"}
            else:
                may_change = set()
                chk.expect(name not in before, f"{key}:name-reused", f"stored under existing name {name}", replay)
                if kind == "none":
                    chk.expect(name == "rec.h5", f"{key}:name", f"free name was not used but {name}", replay)
            changed = [n for n in before if after.get(n) != before[n] and n not in may_change]
            chk.expect(not changed, f"{key}:changed", f"{changed} changed", replay)
            new = [n for n in after if n not in before]
            exp_new = [] if name in before else [name]
            chk.expect(new == exp_new, f"{key}:files", f"new files {new}, expected {exp_new}", replay)


# ------------------------------------------------------------------ B: exporters
def source(d, stem="rec"):
    t, v, c = h5.ramp(20_000)
    desc = "0:\n  name: uart\n  pin: 8\n1:\n  name: led\n  pin: 9\n"
    tt, lv = uart_edges(b"Hi\nyou\n")
    n = 3
    return h5.make(d / f"{stem}.h5", t, v, c, gpio=(tt, lv, desc),
                   logs={"sheep": ([10**9] * n, [20, 30, 40], ["a", "b", "c"]), "kernel": ([10**9] * n, None, ["x"] * n),
                         "uart": ([5] * n, None, ["x"] * n)})


def pair(d):
    if not d.exists():
        d.mkdir()
        for stem in ("a", "b"):
            source(d, stem)
    return d


def uart_edges(data, baud=9600):
    tick = 1e9 / baud
    t = 10**9
    ts, lv = [t], [1]
    t += int(200 * tick)
    for b in data:
        bits = [0] + [(b >> i) & 1 for i in range(8)] + [1]
        for i, bit in enumerate(bits):
            if lv[-1] != bit:
                ts.append(int(t + i * tick))
                lv.append(bit)
        t += 20 * tick
    ts.append(int(t + 300 * tick))
    lv.append(0)
    return ts, lv


def exporters():
    from click.testing import CliRunner
    from shepherd_data import Reader
    from shepherd_data.cli import cli

    def rd(fn):
        def call(f):
            with Reader(f, verbose=False) as r:
                return fn(r)
        return call

    def cmd(*args):
        def call(f):
            res = CliRunner().invoke(cli, [args[0], str(f), *args[1:]])
            if res.exception is not None and not isinstance(res.exception, SystemExit):
                raise res.exception
        return call

    return {
        "metadata": rd(lambda r: r.save_metadata()),
        "csv": rd(lambda r: r.save_csv(r["data"])),
        "log": rd(lambda r: r.save_log(r["sheep"])),
        "waveform": rd(lambda r: [r.waveform_to_csv(k, w) for k, w in r.gpio_to_waveforms().items()]),
        "cut": rd(lambda r: r.cut_and_downsample_to_file(0.05, 0.15, 2)),
        "ds": rd(lambda r: r.cut_and_downsample_to_file(None, None, 4)),
        "nocut": rd(lambda r: r.cut_and_downsample_to_file(None, None, 1)),
        "plot": rd(lambda r: r.plot_to_file(0, 0.1, 3, 2, only_pwr=True)),
        "plot-full": rd(lambda r: r.plot_to_file(None, None, 3, 2)),
        "plots": rd(lambda r: [r.plot_to_file(a, b, 3, 2, only_pwr=True) for a, b in ((0, 0.1), (0, 0.101), (0.001, 0.1))]),
        "multiplot": rd(lambda r: r.multiplot_to_file([r.generate_plot_data(0, 0.1)] * 2, r.file_path.parent / "many", 3, 2, only_pwr=True)),
        "multiplot-png": rd(lambda r: r.multiplot_to_file([r.generate_plot_data(0.05, 0.1)] * 3, str(r.file_path.parent / "many.png"), 3, 2)),
        "cli-plot-full": cmd("plot", "-w", "3", "-h", "2"),
        "cli-multiplot": lambda f: cmd("plot", "-s", "0", "-e", "0.05", "-w", "3", "-h", "2", "-p", "--multiplot")(pair(f.parent / "sub")),
        "cli-extract": cmd("extract", "-f", "5"),
        "cli-meta": cmd("extract-meta"),
        "cli-uart": cmd("extract-uart"),
        "cli-gpio": cmd("extract-gpio"),
        "cli-downsample": cmd("downsample"),
        "cli-downsample-f": cmd("downsample", "-f", "3", "-s", "0.01"),
        "cli-validate": cmd("validate"),
        "cli-plot": cmd("plot", "-s", "0", "-e", "0.05", "-w", "3", "-h", "2", "-p"),
    }


def export_case(chk, name):
    call = exporters()[name]
    key = f"export:{name}"
    with chk.tmp() as d, chk.case(key, name, limit=300):
        f = source(d)
        src = h5.digest(f)
        call(f)
        first = h5.snapshot(d)
        outputs = sorted(n for n in first if n != "rec.h5" and not n.startswith("sub/"))
        chk.expect(first["rec.h5"] == src, f"{key}:source", "the source recording was changed", name)
        expect_out = {"nocut": 0, "cli-validate": 0}.get(name, 1)
        chk.expect(len(outputs) >= expect_out, f"{key}:nothing", "no output was produced", name)
        chk.ev((name, tuple(outputs)))
        chk.sample({"exporter": name, "outputs": outputs})
        for present in itertools.chain.from_iterable(itertools.combinations(outputs, k) for k in range(1, len(outputs) + 1)):
            if not chk.thorough and len(outputs) > 4 and 1 < len(present) < len(outputs) - 1:
                continue
            chk.step()
            chk.trace()
            chk.state((name, present))
            d2 = chk.newdir()
            f2 = source(d2)
            for n in present:
                (d2 / n).parent.mkdir(exist_ok=True)
                if n == "sub":
                    pair(d2 / n)
                elif n.endswith(".h5"):  # has to be a recording, as it may be read again
                    t, v, c = h5.ramp(20_000, t0=10**9)
                    h5.make(d2 / n, t, v, c)
                else:
                    (d2 / n).write_bytes(b"precious " + n.encode())
            before = h5.snapshot(d2)
            call(f2)
            after = h5.snapshot(d2)
            changed = [n for n in before if after.get(n) != before[n]]
            chk.expect(not changed, f"{key}:overwrote", f"{changed} existed before and changed", {"exporter": name, "present": present})
            missing = [n for n in outputs if n not in after]
            chk.expect(not missing, f"{key}:missing", f"{missing} not produced although absent before", {"exporter": name, "present": present})
            chk.ev((name, present))


# ------------------------------------------------------------------ C: two writers
def racing(chk, item):
    """Run a complete second session when the first writer executes its k-th line."""
    k, preexisting, subdir = item
    replay = {"line_event": k, "preexisting": preexisting, "subdir": subdir}
    with chk.tmp() as d, chk.case("race", replay):
        base = d / "sub" if subdir else d
        f = base / "rec.h5"
        if preexisting:
            base.mkdir(exist_ok=True)
            h5.make(f, *h5.ramp(10_000))
        before = h5.snapshot(d)
        mod = sys.modules[Writer.__module__].__file__
        state = {"n": 0, "done": None, "busy": False}

        def second():
            with Writer(f, compression=Compression.null, verbose=False) as w:
                w.append_iv_data_raw(7, np.arange(10_000, dtype="u4") + 100, np.arange(10_000, dtype="u4") + 200)
                path = w.file_path
            return path, h5.digest(path)

        def tracer(frame, event, _arg):
            if frame.f_code.co_filename != mod:
                return None
            if event == "line" and not state["busy"] and state["done"] is None:
                if state["n"] == k:
                    state["busy"] = True
                    sys.settrace(None)
                    try:
                        state["done"] = second()
                    finally:
                        state["busy"] = False
                        sys.settrace(tracer)
                state["n"] += 1
            return tracer

        sys.settrace(tracer)
        try:
            w = Writer(f, compression=Compression.null, verbose=False)
        finally:
            sys.settrace(None)
        with w:
            w.append_iv_data_raw(0, np.arange(10_000, dtype="u4"), np.arange(10_000, dtype="u4") + 1)
            mine = w.file_path
        if state["done"] is None:
            chk.count("race_points_beyond_end")
            return
        chk.step()
        chk.trace()
        chk.state(("race", item))
        path, dig = state["done"]
        after = h5.snapshot(d)
        chk.expect(path != mine, "race:same-name", "both writers chose the same name", replay)
        chk.expect(h5.digest(path) == dig, "race:lost", "the recording of the other writer was altered", replay)
        with h5py.File(mine) as fd:
            chk.expect(np.array_equal(fd["data"]["current"][:], np.arange(10_000) + 1), "race:own", "own data missing", replay)
        changed = [n for n in before if after.get(n) != before[n] and not before[n].startswith("dir:")]
        chk.expect(not changed, "race:changed", f"{changed} changed", replay)
        chk.ev(("race", path.name, mine.name))


def many(chk, item):
    """Many recordings stored to one name: none is lost, all names differ."""
    from shepherd_core.writer import unique_path
    name, n = item
    with chk.tmp() as d, chk.case("many", item):
        f = d / name
        seen = {}
        for k in range(n):
            with Writer(f, compression=Compression.null, verbose=False) as w:
                w.append_iv_data_raw(k, np.full(10_000, k + 1, "u4"), np.full(10_000, k + 1, "u4"))
                p = w.file_path
            chk.step()
            chk.expect(p not in seen, "many:name", f"{p.name} is used for the {k + 1}. recording again", (name, k))
            seen[p] = k + 1
            u = unique_path(d / "other", f.suffix)
            chk.expect(not u.exists(), "many:unique", f"{u.name} is not unused", (name, k))
            u.write_text("x")
        for p, v in seen.items():
            with h5py.File(p) as fd:
                chk.expect(fd["data"]["current"][0] == v, "many:content", f"{p.name} holds recording {fd['data']['current'][0]} instead of {v}", (name, v))
        chk.ev(item)
        chk.trace()


def run(chk):
    chk.parallel(many, [(nm, 260 if chk.thorough else 35) for nm in ("rec.h5", "a.b.h5", "x y.H5", "12.0.h5")])
    extras = ((), (0,), (0, 1), (1,)) if chk.thorough else ((), (0, 1))
    items = []
    for kind, extra, mode, dtype, window, cal, flags in itertools.product(
            KINDS, extras, MODES, DTYPES, WINDOWS, (False, True), ((False, False), (True, False), (False, True), (True, True))):
        if kind == "dir" and flags != (False, False):
            continue  # asked to overwrite a directory: h5py refuses anyway
        if not chk.thorough and (extra and (kind not in ("hrv", "none") or cal)):
            continue
        items.append((kind, extra, mode, dtype, window, cal, flags))
    chk.parallel(open_case, items)
    chk.parallel(export_case, list(exporters()), chunks=len(exporters()))
    chk.parallel(racing, [(k, pre, sub) for k in range(0, 160) for pre, sub in ((False, False), (True, False), (False, True))])
