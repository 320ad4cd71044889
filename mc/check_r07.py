"""R07: placement of time jumps vs the verdict of the time check."""
import itertools

import h5py
import numpy as np
from mc import h5
from shepherd_core.reader import Reader

RULE = ("recordings of 0..B buffers (also with partial last buffer) x every placement of up to two jumps at buffer starts x jump sizes x "
        "processing block sizes; outcome = (jumps, verdict); non-trivial if there are at least two buffer starts")
ASSUME = ["a deviation counts as a jump from 10 ms per buffer, up to 1 ms is tolerated (resolution of the check is 5 ms by design)"]
BUF = 10_000
JUMPS = (10_000_000, -10_000_000, -100_000_000, -350_000_000, 1_000_000_000, 900_000, -900_000)


def one(chk, item):
    n, placement, cal_t, blocks = item
    starts = (n + BUF - 1) // BUF
    with chk.tmp() as d:
        offs = np.zeros(n, dtype="i8")
        for pos, jump in placement:
            offs[pos * BUF:] += jump
        t = (10**10 + np.arange(n, dtype="i8") * 10_000 + offs).astype("u8")
        z = np.zeros(n, "u4")
        f = h5.make(d / "rec.h5", t, z, z, cal=cal_t)
        first = t[::BUF].astype("i8")
        diffs = first[1:] - first[:-1]
        exp = bool(np.all(np.abs(diffs - 100_000_000) < 2_000_000))
        for block in blocks:
            replay = {"samples": n, "jumps_ns": placement, "max_elements": block, "cal": cal_t}
            with chk.case("check", replay), Reader(f, verbose=False) as r:
                if block is not None:
                    r.max_elements = block
                got = r.check_timediffs()
                chk.expect(bool(got) == exp, f"check:{'missed' if got else 'false-alarm'}", f"verdict {got}, expected {exp}", replay)
                chk.step()
                chk.trace()
                chk.state((n, placement, block))
                chk.ev((starts, placement, exp) if starts > 1 else None)
                chk.sample(replay)


def run(chk):
    bmax = 7 if chk.thorough else 5
    blocks = [None, 10_000, 20_000, 30_000, 15_000] + ([40_000, 25_000, 60_000, 5_000] if chk.thorough else [])
    items = []
    for n in (0, 1, 9_999, 10_000, 10_001, 19_999):
        items.append((n, (), {}, blocks))
    for b in range(2, bmax + 1):
        for n in (b * BUF, b * BUF - BUF + 1):
            places = [()]
            places += [((p, j),) for p in range(1, b) for j in JUMPS]
            for p, q in itertools.combinations(range(1, b), 2):
                js = JUMPS if chk.thorough or b <= 4 else JUMPS[1:4]
                places += [((p, j), (q, k)) for j in js for k in js]
            items += [(n, pl, {}, blocks) for pl in places]
    items += [(30_000, pl, {"time": (1e-9, 5.0)}, blocks) for pl in ((), ((1, JUMPS[0]),), ((2, JUMPS[2]),))]
    # a uniform but not nominal recording
    items += [(30_000, ((1, j), (2, j)), {}, blocks) for j in JUMPS[:5]]
    chk.parallel(one, items)
