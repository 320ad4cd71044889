"""I01: parametric energy traces (polynomial, constant, alphabet) through all converters with every block size; trackers against brute force on every curve."""
import itertools as it
import math
import pickle

import h5py
import numpy as np
import pandas as pd

from mc import h5
from mc.lib import Check

RULE = ("A) all curves of a coefficient menu x grid x voltage limit x ratio through both trackers, alone and in frames of several rows in every order, compared with brute force over the curve; "
        "B) traces: number of rows x record rate x start time x requested duration x block size x converter; polynomials up to degree 3 (reproduced exactly by the cubic interpolation), constants and alphabet sequences; "
        "time-stamps, length, settings, values at every record and (polynomials) at every sample. distinct = distinct (converter, length, block layout, content)")
ASSUME = ["traces are recorded with the constant rate given to the reader and relative time-stamps", "the converted span ends with the last record (it can not be interpolated beyond), only whole buffers of 100 ms are stored",
          "block size is varied through the public max_elements attribute of the writer", "requested durations are multiples of the record interval", "with an open-circuit voltage beyond the limit the open-circuit tracker may use either"]

CURVES = [(a, b, c) for a in (1e-5, 1e-3, 0.04) for b in (1e-9, 1e-6) for c in (2.5, 4.2, 12.0)] + [(0.0, 1e-9, 4.0), (1e-3, 1e-3, 4.0), (1e-3, 1e-12, 20.0), (1e-3, 1e-6, 0.5), (5e-3, 0.02, 1.0)]


def cur(v, abc):
    a, b, c = abc
    return np.maximum(a - b * (np.exp(c * v) - 1.0), 0.0)


def voc_of(abc):
    a, b, c = abc
    return math.log(a / b + 1) / c


def trackers(chk: Check, item):
    from shepherd_data import mppt
    v_max, pts = item
    grid = np.linspace(0, v_max, pts)
    step = grid[1]

    def opt(row, abc, rep):
        p = grid * cur(grid, abc)
        chk.expect(abs(row.v * row.i - p.max()) <= 1e-9 * max(p.max(), 1e-12), "opt:max", f"power {row.v * row.i}, best of curve {p.max()}", rep)
        chk.expect(abs(row.i - cur(row.v, abc)) <= 1e-12 + 1e-9 * abc[0], "opt:curve", f"point ({row.v}, {row.i}) is not on the curve", rep)

    def voc(row, abc, ratio, rep, own):
        chk.expect(math.isfinite(row.v) and math.isfinite(row.i) and 0 <= row.v <= v_max, "voc:range", f"point ({row.v}, {row.i})", rep)
        chk.expect(abs(row.i - cur(row.v, abc)) <= 1e-12 + 1e-9 * abc[0], "voc:curve", f"point ({row.v}, {row.i}) is not on the curve", rep)
        p = grid * cur(grid, abc)
        chk.expect(row.v * row.i <= p.max() * (1 + 1e-9) + 1e-15, "voc:power", "more power than the curve has", rep)
        v_oc = voc_of(abc)
        goals = {min(ratio * v_oc, v_max), ratio * min(v_oc, v_max)}
        if own:  # estimated from the curve: last current above 5 % of the short-circuit current
            if abc[0] == 0:
                return
            below = grid[cur(grid, abc) < cur(0.0, abc) * 0.05]
            goals = {ratio * (below[0] if len(below) else v_max)}
        chk.expect(any(abs(row.v - g) <= step * 1.001 for g in goals), "voc:ratio", f"voltage {row.v}, expected about {goals}", rep)

    for abc in CURVES:
        rep = {"v_max": v_max, "points": pts, "abc": abc}
        with chk.case("tracker", rep):
            tr = mppt.OptimalTracker(v_max, pts)
            opt(tr.process(pd.DataFrame([dict(zip("abc", abc))])).iloc[0], abc, rep)
            vv = np.array([0.0, 0.5, 1.0, 3.0, 7.0])
            one = [float(mppt.iv_model(float(v), dict(zip("abc", abc)))) for v in vv]
            chk.expect(np.allclose(mppt.iv_model(vv, dict(zip("abc", abc))), cur(vv, abc), rtol=1e-12, atol=1e-15) and np.allclose(one, cur(vv, abc), rtol=1e-12, atol=1e-15), "model", "diode model differs", rep)
            oc = float(mppt.find_oc(grid, cur(grid, abc)))
            low = cur(grid, abc) < abc[0] * 0.05
            if abc[0] > 0:
                chk.expect(abs(oc - (grid[low][0] if low.any() else v_max)) <= step * 1.001, "find-oc", f"estimated open-circuit voltage {oc}", rep)
            for ratio, own in it.product((0.05, 0.5, 0.76, 0.8, 1.0), (False, True)):
                df = pd.DataFrame([{**dict(zip("abc", abc)), **({} if own else {"voc": min(voc_of(abc), v_max)})}])
                voc(mppt.OpenCircuitTracker(v_max, pts, ratio).process(df).iloc[0], abc, ratio, {**rep, "ratio": ratio, "own estimate": own}, own)
                chk.step()
                chk.ev((v_max, pts, abc, ratio, own))
    with chk.case("defaults", item):  # what the converters use when nothing is given
        for abc in CURVES:
            df = pd.DataFrame([{**dict(zip("abc", abc)), "voc": min(voc_of(abc), 5.0)}])
            for a, b in ((mppt.OptimalTracker(), mppt.OptimalTracker(5.0, 1000)), (mppt.OpenCircuitTracker(), mppt.OpenCircuitTracker(5.0, 1000, 0.8)), (mppt.OptimalTracker(v_max), mppt.OptimalTracker(v_max, 1000)),
                         (mppt.OpenCircuitTracker(v_max), mppt.OpenCircuitTracker(v_max, 1000, 0.8)), (mppt.OpenCircuitTracker(v_max, pts), mppt.OpenCircuitTracker(v_max, pts, 0.8))):
                x, y = a.process(df.copy()).iloc[0], b.process(df.copy()).iloc[0]
                chk.expect((x.v, x.i) == (y.v, y.i), "tracker:defaults", f"{type(a).__name__} gives ({x.v}, {x.i}) with default and ({y.v}, {y.i}) with explicit limits", abc)
                chk.step()
    pick = [CURVES[k] for k in (0, 7, 11, 18, 20)]
    for sel in it.permutations(pick, 3):
        with chk.case("frame", {"rows": sel}):
            df = pd.DataFrame([dict(zip("abc", s)) for s in sel])
            df["voc"] = [min(voc_of(s), v_max) for s in sel]
            a = mppt.OptimalTracker(v_max, pts).process(df.copy())
            b = mppt.OpenCircuitTracker(v_max, pts, 0.75).process(df.copy())
            for k, s in enumerate(sel):
                opt(a.iloc[k], s, {"rows": sel, "row": k})
                voc(b.iloc[k], s, 0.75, {"rows": sel, "row": k}, False)
            chk.step(2)
            chk.ev(("frame", v_max, pts, sel))


V_MAX = 5.0


def poly(name, n):
    """Parameters as functions of the relative position x in [0, 1]."""
    f = {"const": lambda x: 0.5 + 0 * x, "lin": lambda x: 0.1 + 0.8 * x, "cub": lambda x: 0.4 + 1.5 * (x - 0.2) * (x - 0.5) * (x - 0.9), "steep": lambda x: 0.02 + 0.9 * (1 - x) ** 3}[name]

    def params(x, kind):
        g = f(x)
        if kind == "isc_voc":  # isc and voc are polynomials
            a = 2e-3 * g
            v = 1.0 + 3.0 * f(x)
            b = 1e-7 * a
            return a, b, np.log(1 / 1e-7 + 1) / v
        return 2e-3 * g, 1e-7 + 0 * g, 2.0 + 2 * f(x)
    return params


def seq(name, n):
    val = {"zig": lambda k: (1e-3 + 8e-4 * (k % 2), 1e-7, 2.2 + 2.0 * (k % 3)), "spike": lambda k: (3e-3 if k == n // 2 else 1e-4, 1e-8, 3.0 if k % 4 else 1.5), "dark": lambda k: (0.0 if k % 3 == 1 else 1e-3, 1e-7, 3.0)}[name]
    return [val(k) for k in range(n)]


class Blocks:
    """Limit the block size of all writers."""

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        from shepherd_core.writer import Writer
        self.cls, self.orig = Writer, Writer.__init__
        orig, size = self.orig, self.size

        def init(w, *a, **k):
            orig(w, *a, **k)
            if size is not None:
                w.max_elements = size
        Writer.__init__ = init

    def __exit__(self, *_):
        self.cls.__init__ = self.orig


def convert(chk, d, kind, df, sps, block, duration, **kw):
    from shepherd_data import ivonne
    f = d / "in.iv"
    with f.open("wb") as fd:
        pickle.dump(df, fd)
    out = d / "out.h5"
    keep = df.copy()
    with Blocks(None if block is None else block * (10**9 // sps // 10_000)), ivonne.Reader(f, sps, verbose=False) as r:
        {"isc_voc": r.upsample_2_isc_voc, "ivsample": r.convert_2_ivsamples, "ivcurve": r.convert_2_ivcurves}[kind](out, V_MAX, duration_s=duration, **kw)
        before = h5.digest(out)
        # a second conversion keeps the existing file
        {"isc_voc": r.upsample_2_isc_voc, "ivsample": r.convert_2_ivsamples, "ivcurve": r.convert_2_ivcurves}[kind](out, V_MAX, duration_s=None)
        chk.expect(h5.digest(out) == before, "convert:again", "existing output was changed", kind)
    with h5py.File(out) as fd:
        g = fd["data"]
        res = {k: g[k][:] for k in h5.DSETS}
        cal = {k: (g[k].attrs["gain"], g[k].attrs["offset"]) for k in h5.DSETS}
        meta = (fd.attrs["mode"], g.attrs["datatype"], int(g.attrs["window_samples"]), fd.attrs["hostname"])
    out.unlink()
    assert keep.equals(pickle.loads(f.read_bytes()))
    return res["time"].astype("i8"), res["voltage"] * cal["voltage"][0] + cal["voltage"][1], res["current"] * cal["current"][0] + cal["current"][1], meta


EPS_V, EPS_I = 1e-8, 1e-9


def traces(chk: Check, item):
    kind, n, sps, name, t0, dur, block, pts = item
    rep = {"converter": kind, "rows": n, "rate": sps, "content": name, "start": t0, "duration in rows": dur, "rows per block": block, "points per curve": pts}
    from shepherd_data import mppt
    exact = name in ("const", "lin", "cub", "steep")
    rows = np.arange(n)
    span = max(n - 1, 1)
    if exact:
        par = poly(name, n)
        a, b, c = (np.broadcast_to(x, (n,)) for x in par(rows / span, kind))
    else:
        a, b, c = (np.array(x, dtype=float) for x in zip(*seq(name, n))) if n else (np.zeros(0),) * 3
    df = pd.DataFrame({"a": a, "b": b, "c": c, "time": t0 + rows / sps})
    with chk.tmp() as d, chk.case("trace", rep, limit=120):
        kw = {"pts_per_curve": pts} if kind == "ivcurve" else {}
        ratio = None
        if kind == "ivsample" and n % 2:
            ratio = 0.75
            kw["tracker"] = mppt.OpenCircuitTracker(V_MAX, pts, ratio)
        elif kind == "ivsample":
            kw["tracker"] = mppt.OptimalTracker(V_MAX, pts) if pts != 1000 else None
        t, v, i, meta = convert(chk, d, kind, df, sps, block, None if dur is None else dur / sps, **kw)
        chk.step()
        chk.trace()
        end = (n - 1) if dur is None else min(dur, n - 1)  # last record used
        width = pts if kind == "ivcurve" else 1
        t_ns = np.round(df["time"].to_numpy() * 1e9).astype("i8")
        total = 0 if n < 2 else -(-int(t_ns[end] - t_ns[0]) // (10_000 * width)) * width
        total = total // 10_000 * 10_000
        chk.expect(meta == ("harvester", kind, pts if kind == "ivcurve" else 0, "IVonne"), "trace:meta", f"{meta}", rep)
        if not chk.expect(len(t) == total == len(v) == len(i), "trace:length", f"{len(t)} samples, expected {total}", rep) or not total:
            chk.ev((kind, "empty", n, dur) if n > 5 else None)
            return
        want = t_ns[0] + 10_000 * np.arange(total)
        chk.expect(np.abs(t - want).max() <= 1, "trace:time", lambda: f"time-stamps differ first at {np.argmax(np.abs(t - want) > 1)}: steps {sorted(set(np.diff(t).tolist()))[:4]}", rep)
        chk.expect(v.max() <= V_MAX + EPS_V and v.min() >= 0, "trace:limit", f"voltage up to {v.max()}", rep)
        if kind == "ivcurve":
            grid = np.linspace(0, V_MAX, pts)
            m = total // pts
            chk.expect(np.abs(v[: m * pts].reshape(m, pts) - grid).max() < EPS_V, "trace:grid", "voltages of a curve are not the ramp", rep)
            ic = i[: m * pts].reshape(m, pts)
            for k in range(m):
                x = (want[k * pts] - t_ns[0]) * 1e-9 * sps
                if exact and n >= 4:
                    e = cur(grid, [float(np.asarray(q)) for q in par(np.float64(x / span), kind)])
                elif name == "const":
                    e = cur(grid, (a[0], b[0], c[0]))
                elif abs(x - round(x)) < 1e-9:
                    r = round(x)
                    e = cur(grid, (a[r], b[r], c[r]))
                else:
                    continue
                if not chk.expect(np.abs(ic[k] - e).max() <= EPS_I + 1e-6 * max(e.max(), 1e-9), "trace:curve", f"curve {k} differs by {np.abs(ic[k] - e).max()} A", rep):
                    break
        else:
            x = (want - t_ns[0]) * 1e-9 * sps
            idx = np.nonzero(np.abs(x - np.round(x)) < 1e-9)[0]
            ab = np.round(x[idx]).astype(int)
            if kind == "isc_voc":
                e_v = np.minimum(np.log(a / b + 1) / c, V_MAX)
                e_i = a
            else:
                grid = np.linspace(0, V_MAX, pts)
                e_v, e_i = np.zeros(n), np.zeros(n)
                for r in range(n):
                    ic = cur(grid, (a[r], b[r], c[r]))
                    if ratio is None:
                        k = int(np.argmax(grid * ic))
                    else:
                        k = max(0, int((grid < ratio * min(voc_of((a[r], b[r], c[r])), V_MAX)).sum()) - 1)
                    e_v[r], e_i[r] = grid[k], ic[k]
            tol = grid[1] * 1.001 if kind == "ivsample" and ratio is not None else 0
            chk.expect(np.abs(v[idx] - e_v[ab]).max() <= EPS_V + 1e-6 + tol, "trace:voltage", lambda: f"at records: {v[idx][:5]} instead of {e_v[ab][:5]}", rep)
            if not tol:
                chk.expect(np.abs(i[idx] - e_i[ab]).max() <= EPS_I + 1e-8, "trace:current", lambda: f"at records: {i[idx][:5]} instead of {e_i[ab][:5]}", rep)
            if name == "const":
                chk.expect(np.ptp(v) <= 2 * EPS_V and np.ptp(i) <= 2 * EPS_I, "trace:const", "constant trace is not constant", rep)
            elif exact and n >= 4 and kind == "isc_voc":
                aa, _, cc = par(x / span, kind)
                vv = np.minimum(np.log(1 / 1e-7 + 1) / cc, V_MAX)
                if (np.log(a / b + 1) / c).max() <= V_MAX:
                    chk.expect(np.abs(v - vv).max() <= 1e-6, "trace:voltage-between", lambda: f"differs by {np.abs(v - vv).max()} V at sample {np.argmax(np.abs(v - vv))}", rep)
                chk.expect(np.abs(i - aa).max() <= EPS_I + 1e-8, "trace:current-between", lambda: f"differs by {np.abs(i - aa).max()} A at sample {np.argmax(np.abs(i - aa))}", rep)
        chk.state((kind, n, sps, dur, block, pts))
        chk.ev((kind, total, block, name, pts, t0))


def run(chk: Check):
    chk.parallel(trackers, list(it.product((0.9, 2.5, 5.0), (10, 101, 1000))))
    items = []
    names = ("const", "lin", "cub", "steep", "zig", "spike", "dark")
    lens = range(14) if chk.thorough else (0, 1, 2, 3, 4, 5, 6, 7, 11)
    for kind in ("isc_voc", "ivsample", "ivcurve"):
        for n in lens:  # record rate of 10 Hz: one buffer per row
            for block in (1, 2, 3, 4, 5, 7, None):
                for name in names if n in (4, 6, 11) else names[:3:2] + ("zig",):
                    items.append((kind, n, 10, name, 0.0, None, block, 1000))
        for n, sps in ((26, 50), (30, 60), (33, 30), (41, 80), (52, 100), (3, 1), (5, 4)):
            for t0, block, name in it.product((0.0, 7.00001, 100.2), (3, 8, None), ("cub", "zig")):
                items.append((kind, n, sps, name, t0, None, block, 1000 if kind == "ivcurve" else 100))
        for dur in range(1, 131, 1 if chk.thorough else 3):  # all durations in rows
            items.append((kind, 130, 50, "lin", 0.0, dur, None if dur % 2 else 16, 1000))
        for n, sps in ((70, 50), (74, 50), (33, 30), (14, 10), (6, 5)):
            for dur in range(n // 2, n + 3) if n < 40 or chk.thorough else range(n - 25, n + 3):
                items.append((kind, n, sps, "lin", 0.0, dur, None, 1000))
        for dur in (115, 29, 57, 58, 114, 116, 129, 130, 200):  # 2.3 s, 0.58 s
            items.append((kind, 130, 50, "cub", 0.0, dur, None, 1000))
    for pts, n, block in [*it.product((2, 3, 4, 5, 7, 9, 10), (6, 22), (5, None)), *it.product((100, 300, 700, 999, 1000, 2000, 3000, 10_000) if chk.thorough else (100, 300, 1000, 3000), (6, 22, 26, 31), (5, 7, None))]:
        for name in ("cub", "zig"):
            items.append(("ivcurve", n, 50, name, 0.0, None, block, pts))
        items.append(("ivsample", n, 50, "zig", 0.0, None, block, min(pts, 1000)))
    items.sort(key=lambda x: -x[1] / x[2] * (5 if x[0] == "ivcurve" else 1))
    chk.parallel(traces, items)
    chk.sample({"converter": "ivcurve", "rows": 22, "rows per block": 5, "content": "zig"})
