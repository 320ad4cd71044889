"""R03: every buffered read request vs list slicing."""
import itertools

import h5py
import numpy as np
from mc import h5
from shepherd_core.reader import Reader

RULE = ("recording length x start x end x buffer length x raw x omit-time (small lengths, all combinations) and default buffer length on "
        "recordings around multiples of 10 000; outcome = the yielded index slices; non-trivial if at least one buffer is yielded")
ASSUME = ["start and end are non-negative"]
CAL = {"time": (2e-9, 5.0), "voltage": (3e-6, -0.25), "current": (250e-9, -0.125)}


def content(n):
    i = np.arange(n, dtype="u8")
    v = (i * 7 + 3) ** 2 % 2**32
    c = (i * 11 + 1) ** 3 % 2**32
    if n:
        v[-1] = c[-1] = 2**32 - 1
    return np.uint64(10**15) + i * np.uint64(10_000), v, c


def same(chk, key, got, raw_t, raw_v, raw_c, sl, raw, omit, replay):
    chk.expect(isinstance(got, tuple) and len(got) == 3, f"{key}:shape", f"yielded {type(got)}", replay)
    for name, g, e in zip(("time", "voltage", "current"), got, (raw_t, raw_v, raw_c)):
        if name == "time" and omit:
            chk.expect(g is None, f"{key}:omit", "time given although omitted", replay)
            continue
        e = e[sl]
        if not raw:
            e = e * CAL[name][0] + CAL[name][1]
            ok = len(g) == len(e) and np.allclose(g, e, rtol=1e-12, atol=0)
        else:
            ok = len(g) == len(e) and np.array_equal(np.asarray(g).astype("u8"), e)
        chk.expect(ok, f"{key}:{name}:{'raw' if raw else 'si'}", lambda: f"{name}: got {list(g)[:8]}, expected {list(e)[:8]}", replay)


def check_file(chk, item):
    n, reqs = item
    with chk.tmp() as d, chk.case("read", {"length": n}):
        t, v, c = content(n)
        f = h5.make(d / "rec.h5", t, v, c, cal=CAL)
        with Reader(f, verbose=False) as r:
            for start, end, blen, raw, omit in reqs:
                replay = {"length": n, "start": start, "end": end, "n_samples_per_buffer": blen, "raw": raw, "omit_ts": omit}
                kw = {} if blen is None else {"n_samples_per_buffer": blen}
                b = blen or 10_000
                got = list(r.read_buffers(start, end, is_raw=raw, omit_ts=omit, **kw))
                hi = n // b if end is None else min(end, n // b)
                exp = list(range(start, hi))
                chk.step()
                chk.ev((n, b, tuple(exp), raw, omit) if exp else None)
                chk.state((n, start, end, blen))
                if chk.expect(len(got) == len(exp), "read:count", f"{len(got)} buffers, expected {len(exp)}", replay):
                    for g, i in zip(got, exp):
                        same(chk, "read", g, t, v, c, slice(i * b, (i + 1) * b), raw, omit, replay)
                chk.sample(replay)
            # two readers of the same file interleaved in every order
            if 4 <= n <= 8:
                for order in set(itertools.permutations((0, 0, 1, 1))):
                    gens = [r.read_buffers(n_samples_per_buffer=2, is_raw=True), r.read_buffers(start_n=0, n_samples_per_buffer=2)]
                    pos = [0, 0]
                    for k in order:
                        g = next(gens[k])
                        same(chk, "interleaved", g, t, v, c, slice(pos[k] * 2, pos[k] * 2 + 2), k == 0, False, {"order": order, "length": n})
                        pos[k] += 1
                    chk.step(4)
        chk.trace()


def long_file(chk, item):
    """Recordings longer than what is read at once (sparse file, marked samples), whole and in small chunks."""
    n, limit, reqs = item
    with chk.tmp() as d, chk.case("long", {"length": n, "chunk limit": limit}):
        f = h5.make(d / "rec.h5", [], [], [], cal=CAL)
        marks = sorted({min(n - 1, max(0, k)) for b in range(0, n + 10_000, 10_000) for k in (b, b - 1)})
        with h5py.File(f, "a") as fd:
            for name in ("time", "voltage", "current"):
                fd["data"][name].resize((n,))
            step = 1 if n < 10**6 else 97
            use = sorted({*marks[::step], *marks[-6:]})
            for k in use:
                for m, name in enumerate(("time", "voltage", "current")):
                    fd["data"][name][k] = k * 3 + m
        with Reader(f, verbose=False) as r:
            if limit is not None:
                r.max_elements = limit
            for start, end, blen in reqs:
                rep = {"length": n, "chunk limit": limit, "start": start, "end": end, "n_samples_per_buffer": blen}
                hi = n // blen if end is None else min(end, n // blen)
                count = 0
                for k, got in zip(range(start, max(hi, start) + 1), r.read_buffers(start, end, n_samples_per_buffer=blen, is_raw=True)):
                    count += 1
                    for m, g in enumerate(got):
                        want = {x - k * blen: x * 3 + m for x in use if k * blen <= x < (k + 1) * blen}
                        g = np.asarray(g)
                        if chk.expect(len(g) == blen, "long:size", f"buffer {k} has {len(g)} samples", rep):
                            nz = {int(x): int(g[x]) for x in np.flatnonzero(g)}
                            chk.expect(nz == {x: v for x, v in want.items() if v}, "long:content", f"buffer {k}: {dict(list(nz.items())[:4])} instead of {dict(list(want.items())[:4])}", rep)
                chk.expect(count == max(0, hi - start), "long:count", f"{count} buffers, expected {hi - start}", rep)
                chk.step(count)
                chk.ev((item[:2], start, end, blen))
        chk.trace()


def run(chk):
    chk.parallel(long_file, [(n, lim, [(s, e, b)]) for n, lim in ((4_010_000, None), (6_000_000, None), (60_000, 20_000), (60_000, 10_000), (60_000, 7), (65_000, 30_000)) for b in (10_000, 7_000)
                             for s, e in ((0, None), (n // b - 2, None), (1, n // b), (n // b - 3, n // b + 5))])
    items = []
    nmax, bmax, smax = (14, 7, 9) if chk.thorough else (9, 5, 6)
    for n in range(nmax + 1):
        reqs = [(s, e, b, raw, om) for b in range(1, bmax + 1) for s in range(smax) for e in [None, *range(smax)]
                for raw in (True, False) for om in (True, False)]
        items.append((n, reqs))
    for n in (0, 1, 9_999, 10_000, 10_001, 19_999, 20_000, 35_000):
        reqs = [(s, e, b, raw, om) for b in (None, 9_999, 10_000, 5_000) for s in range(4) for e in (None, 0, 1, 2, 3, 4, 9)
                for raw in (True, False) for om in (True, False)]
        items.append((n, reqs))
    chk.parallel(check_file, items)
