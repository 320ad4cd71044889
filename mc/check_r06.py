"""R06: energy, statistics and rates vs their definitions, for every block size."""
import itertools
import math

import numpy as np
from mc import h5
from shepherd_core.reader import Reader

RULE = ("recording length <= 5 (7) with every voltage series over a 3-value alphabet x current patterns x every processing block size x "
        "sample intervals and calibrations; plus default block size on a recording above it; outcome = (series, interval, calibration); "
        "non-trivial if more than one block is needed")
ASSUME = ["float tolerance 1e-9 relative", "block size is set by the public max_elements attribute"]
VALS = (0, 1000, 2**32 - 1)
CALS = ({}, {"voltage": (2e-6, -0.5), "current": (3e-9, 0.25), "time": (1e-9, 7.0)})


def close(a, b, scale=1.0):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12 * scale)


def metrics(chk, key, r, t, v, c, cal, replay):
    """All published numbers against the definition."""
    n = len(v)
    gt, ot = cal.get("time", (1e-9, 0))
    gv, ov = cal.get("voltage", (3e-9, 0))
    gc, oc = cal.get("current", (250e-12, 0))
    dur = (int(t[-1]) - int(t[0])) * gt if n > 1 else 0
    if n > 1 and dur > 0:
        interval = dur / (n - 1)
        rate = max(round((n - 1) / dur), 1)
    else:
        interval, rate = 1e-5, 100_000
    vs, cs = np.asarray(v, "f8") * gv + ov, np.asarray(c, "f8") * gc + oc
    exp = float((vs * cs).sum() * interval)
    scale = float((np.abs(vs) * np.abs(cs)).sum() * interval) or 1.0
    got = r.energy()
    chk.expect(close(got, exp, scale * 1e3), f"{key}:energy", f"energy {got}, expected {exp}", replay)
    chk.expect(close(r.sample_interval_s, interval), f"{key}:interval", f"interval {r.sample_interval_s}, expected {interval}", replay)
    chk.expect(r.sample_interval_ns == round(interval * 1e9), f"{key}:interval-ns", f"interval {r.sample_interval_ns} ns, expected {interval * 1e9}", replay)
    chk.expect(r.samplerate_sps == rate, f"{key}:rate", f"rate {r.samplerate_sps}, expected {rate}", replay)
    chk.expect(abs(r.runtime_s - n / rate) <= 0.0501, f"{key}:runtime", f"runtime {r.runtime_s}, expected {n / rate}", replay)
    chk.expect(r.buffers_n == n // 10_000, f"{key}:buffers", f"buffers {r.buffers_n}, expected {n // 10_000}", replay)
    meta = r.get_metadata()["data"]
    chk.expect(close(meta["_group_info"]["energy_Ws"], exp, scale * 1e3), f"{key}:meta-energy", "energy in metadata differs", replay)
    for name, arr in (("voltage", vs), ("current", cs)):
        st = meta[name]["_dataset_info"].get("statistics", {})
        if n == 0:
            chk.expect(all(not (isinstance(x, float) and x == x and x != 0) for x in st.values()) or not st, f"{key}:empty-stats", f"{st}", replay)
            continue
        amp = float(np.abs(arr).max()) or 1.0
        want = {"mean": float(arr.mean()), "min": float(arr.min()), "max": float(arr.max()), "std": float(arr.std())}
        for k, e in want.items():
            tol = 1e-6 * amp if k == "std" else 1e-9 * amp
            chk.expect(abs(st[k] - e) <= tol, f"{key}:{name}:{k}", f"{name} {k} = {st[k]}, expected {e}", replay)


def small(chk, item):
    n, step, cal_i, volts = item
    cal = CALS[cal_i]
    currs = [[(i * 37 + 11) % 5 * 10**8 for i in range(n)], [VALS[-1]] * n]
    with chk.tmp() as d:
        for ci, curr in enumerate(currs):
            t = [10**6 + i * step for i in range(n)]
            f = h5.make(d / f"r{ci}.h5", t, volts, curr, cal=cal)
            for block in [*range(1, n + 2), None]:
                replay = {"voltage_raw": volts, "current_raw": curr, "time_raw": t, "cal": cal, "max_elements": block}
                with chk.case("small", replay), Reader(f, verbose=False) as r:
                    if block is not None:
                        r.max_elements = block
                    metrics(chk, "small", r, t, volts, curr, cal, replay)
                    chk.step()
                    chk.trace()
                    chk.state((n, step, cal_i, volts, ci, block))
                    chk.ev((volts, curr, step, cal_i) if block is not None and block < n else None)
                    chk.sample(replay)


def big(chk, item):
    n, block, step = item
    replay = {"length": n, "max_elements": block, "step": step}
    with chk.tmp() as d, chk.case("big", replay, limit=300):
        i = np.arange(n, dtype="u8")
        t = i * np.uint64(step)
        v = (i * 7919) % 2**31
        c = (i * 104729) % 2**31
        if n:
            v[-1], c[-1] = 2**32 - 1, 2**32 - 1
        f = h5.make(d / "big.h5", t, v, c)
        with Reader(f, verbose=False) as r:
            if block:
                r.max_elements = block
            metrics(chk, "big", r, t, v, c, {}, replay)
        chk.step()
        chk.trace()
        chk.ev(("big", item))
        chk.state(("big", item))


def run(chk):
    nmax = 6 if chk.thorough else 5
    items = []
    for n in range(nmax + 1):
        for volts in itertools.product(VALS, repeat=n):
            for step, cal_i in ((10_000, 0), (10_000, 1), (1_000_000, 0)):
                if not chk.thorough and n == nmax and cal_i == 0 and step != 10_000:
                    continue
                items.append((n, step, cal_i, volts))
    items += [(n, step, c, tuple((i * 13) % 97 * 10**7 for i in range(n))) for n in (1, 2, 3, 7) for step in (1, 3_333, 20_000, 10**9, 3 * 10**9) for c in (0, 1)]
    chk.parallel(small, items)
    items = [(n, b, s) for n in (9_999, 10_000, 10_001, 30_000) for b in (None, 9_999, 10_000, 7_000) for s in (10_000, 20_000)]
    items.append((4_000_003, None, 10_000))
    if chk.thorough:
        items += [(4_000_000, None, 10_000), (8_000_001, None, 10_000), (4_010_000, 4_000_000, 10_000)]
    chk.parallel(big, items)
