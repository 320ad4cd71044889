"""K03: calibration measurements on point grids against exact rational least squares."""
import itertools as it
from fractions import Fraction as Fr

from mc.lib import Check

RULE = ("enumerated: all point lists of 2..n points over a grid of raw and reference values (incl. repeated points), for every channel one at a time with "
        "different lines in the others; capes with every subset of halves measured. Oracle: rational least squares and its coefficient of determination. "
        "distinct = distinct (fit, verdict)")
ASSUME = ["fits are compared with 1e-6 relative tolerance (float least squares); verdicts within 1e-9 of the threshold 0.999 may go either way"]


def reference(points):
    """(gain, offset, r2) or None if no line exists."""
    n = len(points)
    xs, ys = [Fr(p[0]) for p in points], [Fr(p[1]) for p in points]
    mx, my = sum(xs) / n, sum(ys) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    syy = sum((y - my) ** 2 for y in ys)
    sxy = sum((x - mx) * (y - my) for x, y in zip(xs, ys))
    if sxx == 0 or syy == 0:
        return None
    g = sxy / sxx
    return g, my - g * mx, sxy**2 / (sxx * syy)


def good(ref):
    if ref is None:
        return False
    g, _, r2 = ref
    if abs(r2 - Fr(999, 1000)) < Fr(1, 10**9):
        return None
    return r2 > Fr(999, 1000) and g > 0


def close(cp, ref, xs):
    g, o, _ = ref
    scale = abs(g) * max(abs(Fr(x)) for x in xs) + abs(o)
    return abs(Fr(cp.gain) - g) <= abs(g) * Fr(1, 10**6) and abs(Fr(cp.offset) - o) <= scale * Fr(1, 10**6)


def attempt(fn):
    try:
        return fn()
    except ValueError:
        return None


def points(chk: Check, item):
    from shepherd_core.data_models.base.cal_measurement import meas_to_cal
    first, xs, ys, n = item
    grid = list(it.product(xs, ys))
    for rest in it.product(grid, repeat=n - 1):
        pts = [first, *rest]
        rep = {"points": pts}
        with chk.case("fit", rep):
            got = attempt(lambda: meas_to_cal([{"shepherd_raw": x, "reference_si": y} for x, y in pts], "test"))
            ref = reference(pts)
            want = good(ref)
            chk.step()
            if want is not None:
                chk.expect((got is not None) == want, "fit:verdict", f"{pts} was {'rejected' if got is None else f'accepted as {got.gain}, {got.offset}'}", rep)
            if got is not None and ref is not None:
                chk.expect(close(got, ref, [p[0] for p in pts]), "fit:line", f"{pts} gave {got.gain}, {got.offset} instead of {float(ref[0])}, {float(ref[1])}", rep)
            chk.ev((want, None if ref is None else (ref[0], ref[1])))


CH = {"harvester": ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"), "emulator": ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")}
LINES = ((0.5, 0.0), (1e-6, -1e-3), (2.0, 7.5), (3e-9, 1e-6))
BAD = ([(1, 2), (2, 1)], [(1, 5), (2, 5)], [(3, 1), (3, 2)], [(1, 0), (2, 9), (3, 1)], [(1, 0.1), (2, 0.1), (3, 0.1)])


def meas(line, xs=(1, 1000, 60_000)):
    g, o = line
    return [{"shepherd_raw": x, "reference_si": g * x + o} for x in xs]


def channels(chk: Check, item):
    from shepherd_core.data_models.base.cal_measurement import CalMeasurementCape
    from shepherd_core.data_models.base.calibration import CalibrationCape
    from shepherd_core.data_models.base.calibration import CapeData
    halves, rot, ident = item
    rep = {"halves": halves, "lines": rot, "identity": ident}
    default = CalibrationCape()
    with chk.case("cape", rep):
        data = CapeData(serial_number="xyz", version="24A0", cal_date="2022-02-02") if ident else None
        dv = {h: {c: meas(LINES[(i + rot) % 4]) for i, c in enumerate(CH[h])} for h in halves}
        m = CalMeasurementCape(**dv, cape=data, host="host7" if ident else None)
        cal = m.to_cal()
        chk.step()
        chk.expect(cal.cape == data and cal.host == ("host7" if ident else None), "cape:identity", f"{cal.cape}, {cal.host}", rep)
        for h, chans in CH.items():
            for i, c in enumerate(chans):
                if h in halves:
                    g, o = LINES[(i + rot) % 4]
                    ok = abs(cal[h][c].gain - g) <= 1e-6 * g and abs(cal[h][c].offset - o) <= 1e-6 * (abs(o) + 60_000 * g)
                else:
                    ok = cal[h][c] == default[h][c]
                chk.expect(ok, "cape:channel", f"{h}.{c} became {cal[h][c].gain}, {cal[h][c].offset}", {**rep, "channel": [h, c]})
        chk.ev((halves, rot, ident))
        for h in halves:
            for c in CH[h]:
                for bad in BAD:
                    dv2 = {k: dict(v) for k, v in dv.items()}
                    dv2[h][c] = [{"shepherd_raw": x, "reference_si": y} for x, y in bad]
                    m2 = CalMeasurementCape(**dv2)
                    chk.step()
                    got = attempt(m2.to_cal)
                    chk.expect(got is None, "cape:faulty", f"faulty measurement of {h}.{c} was accepted", {**rep, "channel": [h, c], "points": bad})
                    chk.ev((h, c, tuple(bad)))


def decades(chk: Check, item):
    """Exact lines of any magnitude are recovered with their own precision."""
    from shepherd_core.data_models.base.cal_measurement import meas_to_cal
    ge, xs = item
    for gm, oe, om, sign in it.product((1, 3.7), range(-4, 7), (0, 1, 7.3), (1, -1)):
        g, o = gm * 10.0**ge, sign * om * gm * 10.0 ** (ge + oe)
        if om == 0 and (oe or sign < 0):
            continue
        pts = [(x, g * x + o) for x in xs]
        rep = {"points": pts, "gain": g, "offset": o}
        ref = reference(pts)
        with chk.case("decade", rep):
            got = attempt(lambda: meas_to_cal([{"shepherd_raw": x, "reference_si": y} for x, y in pts], "test"))
            chk.step()
            want = good(ref)
            if want is not None and abs(o) < 1e9 * g:
                chk.expect((got is not None) == want, "decade:verdict", f"{pts} was {'rejected' if got is None else 'accepted'}", rep)
            if got is not None and ref is not None:
                chk.expect(close(got, ref, xs), "decade:line", f"{pts} gave {got.gain}, {got.offset} instead of {float(ref[0])}, {float(ref[1])}", rep)
            chk.ev((ge, xs, gm, oe, om, sign))


def run(chk: Check):
    chk.parallel(decades, [(ge, xs) for ge in range(-13, 4) for xs in ((1, 10, 100), (1, 2), (100, 5000, 60_000), (3, 262_143), (1, 50_000, 50_001, 65_535))])
    xs, ys = (1, 2, 3, 60_000), (0.0, 0.1, 0.2, 5.0, -1e-3)
    for n in (2, 3):
        chk.parallel(points, [(f, xs, ys, n) for f in it.product(xs, ys)])
    xs4, ys4 = ((1, 2, 3, 4), (0.1, 0.2, 0.3, 0.4)) if chk.thorough else ((1, 2, 3), (0.1, 0.2, 0.3))
    chk.parallel(points, [(f, xs4, ys4, 4) for f in it.product(xs4, ys4)])
    # noise around the threshold
    chk.parallel(points, [((1, 0.0), (1, 100, 200), (0.0, 95.0, 100.0, 105.0, 199.0), 3)], chunks=1)
    halves = [(), ("harvester",), ("emulator",), ("harvester", "emulator")]
    chk.parallel(channels, [(h, r, i) for h in halves for r in range(4) for i in (False, True)])
    chk.sample({"points": [(1, 0.1), (2, 0.1)], "verdict": good(reference([(1, 0.1), (2, 0.1)]))})
