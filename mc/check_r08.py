"""R08: downsampling and cutting vs single-pass references."""
import itertools
import math

import h5py
import numpy as np
from mc import h5
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_data import Reader

RULE = ("A) series length x start x end x factor x processing block x destination kind x source kind, time and values; "
        "B) signals (constant, step, slow and fast oscillation) x factor x block for the filter; "
        "C) cut requests: start x end x factor menus on recordings of 100 kHz, 1 kHz and an uneven length; "
        "outcome = (selected index range, factor, blocks needed); non-trivial if at least one output sample is produced")
ASSUME = ["filter response is judged by behaviour (gain at 0 Hz, attenuation above the new Nyquist rate, block independence)",
          "block size is set by the public max_elements attribute"]
CAL = {"voltage": (2e-6, 0.5), "current": (3e-9, 0.25)}


def series(n):
    i = np.arange(n, dtype="u8")
    return np.uint64(10**12) + i * np.uint64(10_000), (i * 7919 * 31 + 12345) % 1_000_003, (i * i * 97 + 5) % 999_983


def make_dst(kind, d):
    if kind == "none":
        return None, None
    if kind == "array":
        return np.empty((3,)), None
    fd = h5py.File(d / "dst.h5", "w")
    return fd.create_dataset("x", (2,), dtype="f8", maxshape=(None,), chunks=(100,)), fd


def ranges(chk, item):
    n, fac = item
    with chk.tmp() as d, chk.case("down", {"length": n, "factor": fac}, limit=600):
        t, v, c = series(n)
        f = h5.make(d / "rec.h5", t, v, c, cal=CAL)
        with Reader(f, verbose=False) as r:
            whole = r.max_elements
            for start, end in itertools.product(range(0, n + 2), [None, *range(0, n + 3)]):
                _end = n if end is None else min(n, end)
                _start = min(start, _end)
                k = (_end - _start) // fac
                replay = {"length": n, "start": start, "end": end, "factor": fac}
                ref_t = t[_start:_end][::fac][:k]
                r.max_elements = whole
                ref_v = r.downsample(r.ds_voltage, None, start, end, fac) if _end > _start else None
                for block in range(1, n + 1):
                    r.max_elements = block
                    for is_time in (True, False):
                        got = r.downsample(r.ds_time if is_time else r.ds_voltage, None, start, end, fac, is_time=is_time)
                        chk.step()
                        chk.ev((_start, _end, fac, -(-(_end - _start) // block)) if k else None)
                        if _end == _start:
                            chk.expect(got is None or len(got) == 0, "down:empty", f"{0 if got is None else len(got)} samples from an empty range", {**replay, "block": block})
                            continue
                        what = "time" if is_time else "value"
                        if not chk.expect(len(got) == k, f"down:{what}:len", f"{len(got)} samples, expected {k}", {**replay, "block": block}):
                            continue
                        ref = ref_t if is_time else ref_v
                        ok = np.array_equal(got.astype("u8"), ref) if is_time else np.allclose(got, ref, rtol=1e-9, atol=1e-6)
                        chk.expect(ok, f"down:{what}:block", lambda: f"block of {block}: {list(got)}, expected {list(ref)}", {**replay, "block": block})
                        if fac == 1 and not is_time:
                            chk.expect(np.array_equal(got.astype("u8"), v[_start:_end]), "down:identity", "factor 1 altered values", replay)
                chk.state((n, _start, _end, fac))
            r.max_elements = whole
            # destination and source kinds
            for kind in ("none", "h5", "array"):
                for src in ("h5", "array"):
                    dst, fd = make_dst(kind, d)
                    data = r.ds_time if src == "h5" else t.copy()
                    got = r.downsample(data, dst, 1, None, fac, is_time=True)
                    del dst
                    exp = t[1:][::fac][: max(0, n - 1) // fac]
                    if n > 1:
                        chk.expect(np.array_equal(np.asarray(got[:]).astype("u8"), exp), "down:dst", f"destination {kind}, source {src}: {list(got[:])}, expected {list(exp)}", item)
                    chk.step()
                    if src == "array":
                        chk.expect(np.array_equal(data, t), "down:src-changed", "source array was modified", item)
                    if fd:
                        fd.close()
            chk.trace()
            chk.sample({"length": n, "factor": fac})


def filters(chk, item):
    fac, block, name = item
    n = 6000
    i = np.arange(n)
    sig = {"const": np.full(n, 500_000.0), "step": np.where(i < n // 2, 1e5, 9e5),
           "slow": 5e5 + 4e5 * np.sin(2 * np.pi * i / (fac * 60)), "fast": 5e5 + 4e5 * np.where(i % 2, 1, -1)}[name]
    replay = {"factor": fac, "block": block, "signal": name}
    with chk.tmp() as d, chk.case("filter", replay):
        f = h5.make(d / "rec.h5", i * 10_000, np.round(sig), np.zeros(n), cal=CAL)
        with Reader(f, verbose=False) as r:
            ref = r.downsample(r.ds_voltage, None, 0, None, fac)
            r.max_elements = block
            got = r.downsample(r.ds_voltage, None, 0, None, fac)
            chk.expect(len(got) == n // fac and np.allclose(got, ref, rtol=1e-9, atol=1e-3), "filter:block", "result depends on block size", replay)
            arr = np.asarray(ref, dtype=float)
            settle = min(len(arr) // 3, 60)
            tail = arr[settle:]
            if fac == 1:
                chk.expect(np.allclose(arr, np.round(sig)), "filter:identity", "factor 1 altered the values", replay)
            elif name == "const":
                chk.expect(np.allclose(tail, 5e5, rtol=1e-3), "filter:dc", f"constant level becomes {tail[-1]}", replay)
            elif name == "fast":
                chk.expect(np.abs(tail - 5e5).max() < 2e4, "filter:alias", f"fast oscillation leaks by {np.abs(tail - 5e5).max()}", replay)
            elif name == "slow":
                amp = (tail.max() - tail.min()) / 2
                chk.expect(3.5e5 < amp < 4.2e5, "filter:pass", f"slow oscillation has amplitude {amp}, expected 4e5", replay)
            elif name == "step":
                a, b = arr[: len(arr) // 2][-5:].mean(), arr[-5:].mean()
                chk.expect(abs(a - 1e5) < 2e3 and abs(b - 9e5) < 2e3, "filter:step", f"levels {a}, {b}", replay)
        chk.step()
        chk.trace()
        chk.state(("filter", item))
        chk.ev(("filter", item))


RECS = {"100k": (30_000, 10_000), "1k": (5_000, 1_000_000), "uneven": (12_345, 1_000_000), "100k-open": (25_500, 10_000)}


def cuts(chk, item):
    rec, kind, reqs = item
    n, step = RECS[rec]
    mode, dtype, window, cal, config, host = kind
    with chk.tmp() as d:
        t = np.uint64(10**12) + np.arange(n, dtype="u8") * np.uint64(step)
        i = np.arange(n)
        v = np.where(i < n // 2, 400_000, 900_000) + i % 7
        c = np.full(n, 70_000)
        f = h5.make(d / "rec.h5", t, v, c, mode=mode, datatype=dtype, window=window, cal=cal, config=config, hostname=host)
        src = h5.digest(f)
        sps = round(1e9 / step)
        total = n / sps
        for start, end, fac in reqs:
            replay = {"recording": rec, "kind": kind, "start": start, "end": end, "factor": fac}
            s = max(0, start or 0)
            e = total if end is None else min(total, end)
            ss, es = round(s * sps), round(e * sps)
            fl = math.floor(fac)
            ok = es >= ss and fac >= 1 and (es - ss) / fl >= 1000
            if fac >= 1 and (es - ss) / fl >= 1000 > (es - ss) / fac:
                continue  # exactly at the limit with a fractional factor: left open
            before = h5.snapshot(d)
            chk.step()
            chk.state((rec, s, e, fac))
            with chk.case("cut", replay):
                with Reader(f, verbose=False) as r:
                    try:
                        out = r.cut_and_downsample_to_file(start, end, fac)
                    except ValueError as xcp:
                        chk.expect(not ok, "cut:rejected", f"possible request was rejected: {xcp}", replay)
                        chk.expect(h5.snapshot(d) == before, "cut:rejected-file", "a rejected request left a file", replay)
                        chk.ev(("rejected", rec, s, e, fac))
                        continue
                chk.expect(ok, "cut:accepted", "impossible request was accepted", replay)
                chk.expect(h5.digest(f) == src, "cut:source", "source was changed", replay)
                after = h5.snapshot(d)
                if out == f:
                    chk.expect(ss == 0 and es == n and fl == 1, "cut:same", "result is the source itself although something is to be cut", replay)
                    chk.expect(after == before, "cut:same", "files changed", replay)
                    continue
                chk.expect(sorted(set(after) - set(before)) == [out.name], "cut:name", f"new files {sorted(set(after) - set(before))} vs {out.name}", replay)
                exp_t = t[ss:es][::fl][: (es - ss) // fl]
                if fl == 1 and sps == 100_000:
                    exp_t = exp_t[: len(exp_t) // 10_000 * 10_000]
                with h5py.File(out) as fd:
                    g = fd["data"]
                    lens = [g[k].shape[0] for k in h5.DSETS]
                    chk.expect(lens == [len(exp_t)] * 3, "cut:len", f"lengths {lens}, expected {len(exp_t)}", replay)
                    chk.expect(np.array_equal(g["time"][:], exp_t), "cut:range", lambda: f"time starts {g['time'][:2]} ends {g['time'][-2:]}, expected {exp_t[:2]} .. {exp_t[-2:]}", replay)
                    if fl == 1:
                        chk.expect(np.array_equal(g["voltage"][:], v[ss:es][: len(exp_t)]) and np.array_equal(g["current"][:], c[ss:es][: len(exp_t)]), "cut:values", "values differ", replay)
                    else:
                        cur = g["current"][:].astype(float)
                        chk.expect(np.abs(cur[len(cur) // 2:] - 70_000).max() < 200, "cut:values", "constant current was not kept", replay)
                        mid = (n // 2 - ss) // fl
                        if 120 < mid < len(cur) - 120:
                            vo = g["voltage"][:].astype(float)
                            chk.expect(abs(vo[mid - 3] - 400_003) < 3000 and abs(vo[mid + 100] - 900_003) < 3000, "cut:values", f"voltage step at wrong place: {vo[mid - 3]}, {vo[mid + 100]}", replay)
                    chk.expect((fd.attrs["mode"], g.attrs["datatype"], int(g.attrs["window_samples"])) == (mode, dtype, window), "cut:settings", "settings differ", replay)
                    for k in h5.DSETS:
                        exp = {"time": (1e-9, 0.0), "voltage": (3e-9, 0.0), "current": (250e-12, 0.0), **(cal or {})}[k]
                        chk.expect((g[k].attrs["gain"], g[k].attrs["offset"]) == exp, "cut:cal", f"calibration of {k} differs", replay)
                    chk.expect(fd.attrs["ds_factor"] == fl, "cut:factor", f"recorded factor {fd.attrs['ds_factor']}, applied {fl}", replay)
                    chk.expect(fd.attrs.get("hostname") == (host or "unknown"), "cut:host", "host name differs", replay)
                with Reader(out, verbose=False) as r:
                    chk.expect(r.get_config() == (config or {}), "cut:config", f"config {r.get_config()}, expected {config}", replay)
                    chk.expect(r.get_datatype() == EnergyDType[dtype], "cut:dtype", "datatype differs", replay)
                # doing it again must not touch it
                dig = h5.digest(out)
                with Reader(f, verbose=False) as r:
                    out2 = r.cut_and_downsample_to_file(start, end, fac)
                chk.expect(out2 == out and h5.digest(out) == dig, "cut:again", "existing output was not kept", replay)
                out.unlink()
                chk.trace()
                chk.ev((rec, ss, es, fl))
                chk.sample(replay)


def history(chk, item):
    """Two cuts of the same recording, one after the other: each result belongs to its own request."""
    reqs, first = item
    n, step = RECS["1k"]
    i = np.arange(n)
    ref = {}
    with chk.tmp() as d0:
        d = d0
        for a, b in [(first, q) for q in reqs]:
            d = chk.newdir()
            f = h5.make(d / "rec.h5", np.uint64(10**12) + np.arange(n, dtype="u8") * np.uint64(step), i % 977, i % 991)
            rep = {"cuts": [a, b]}
            with chk.case("history", rep):
                outs = []
                for s, e, fac in (a, b):
                    with Reader(f, verbose=False) as r:
                        outs.append(r.cut_and_downsample_to_file(s, e, fac))
                chk.step(2)
                chk.trace()
                same = a == b
                chk.expect((outs[0] == outs[1]) == same, "history:name", f"results are {outs[0].name} and {outs[1].name}", rep)
                for (s, e, fac), out in zip((a, b), outs):
                    ss, es = round((s or 0) * 1000), n if e is None else round(min(e, n / 1000) * 1000)
                    exp_t = np.uint64(10**12) + np.arange(ss, es, fac)[: (es - ss) // fac].astype("u8") * np.uint64(step)
                    with h5py.File(out) as fd:
                        chk.expect(np.array_equal(fd["data"]["time"][:], exp_t), "history:range", f"{out.name} has {fd['data']['time'].shape} samples starting at {fd['data']['time'][:1]}, expected {len(exp_t)} from {exp_t[:1]}", rep)
                chk.ev(("history", a, b))
                chk.state(("history", outs[0].name, outs[1].name))


def run(chk):
    nmax = 13 if chk.thorough else 9
    items = [(n, fac) for n in range(1, nmax + 1) for fac in (1, 2, 3, 4, 5, 7)]
    items.sort(key=lambda x: -x[0])
    chk.parallel(ranges, items)
    blocks = (1000, 999, 1001, 64, 7, 2999, 6000) if chk.thorough else (999, 64, 2999)
    chk.parallel(filters, [(fac, b, s) for fac in (1, 2, 3, 5, 10, 16) for b in blocks for s in ("const", "step", "slow", "fast")])
    kinds = [("harvester", "ivsample", 0, None, None, "host"), ("emulator", "ivsample", 0, CAL, {"a": [1]}, None),
             ("harvester", "isc_voc", 0, {"time": (1e-9, 3.0)}, {"virtual_harvester": {"voltage_step_mV": 3}}, "x")]
    marks = {"100k": [None, -1, 0, 0.05, 0.036, 0.144, 0.1, 0.15, 0.29999, 0.3, 1, 0.00001],
             "1k": [None, -1, 0, 0.5, 1, 1.001, 2.007, 2.5, 4.999, 5, 9], "uneven": [None, 0, 1, 0.3, 12.3, 12.344, 12.345, 20], "100k-open": [None, 0, 0.05, 0.25, 0.255]}
    facs = (0.5, 0.99, 1, 1.5, 2, 2.7, 3, 7, 100) if chk.thorough else (0.5, 1, 2, 2.7, 7)
    items = []
    for rec, kind in itertools.product(RECS, kinds):
        if kind != kinds[0] and rec not in ("1k", "100k") and not chk.thorough:
            continue
        ms = marks[rec] if chk.thorough or kind == kinds[0] else marks[rec][::2]
        for fac in facs:
            for s in ms:
                items.append((rec, kind, [(s, e, fac) for e in ms]))
    chk.parallel(cuts, items)
    reqs = [(s, e, fac) for s in (None, 0.001, 0.5, 0.504, 0.51, 1.5) for e in (4, 4.004, 4.01, 4.1, None) for fac in (1, 2)]
    if not chk.thorough:
        reqs = [r for r in reqs if r[2] == 1 or (r[0] in (None, 0.5, 0.504) and r[1] in (4, 4.004, None))]
    reqs = [r for r in reqs if r != (None, None, 1)]
    chk.parallel(history, [(reqs, r) for r in reqs])
