"""K01: all codes of all converter channels; calibration pairs over menus against exact rational arithmetic."""
import itertools as it
from fractions import Fraction as Fr

import numpy as np

from mc.lib import Check

RULE = ("enumerated: every raw code of ADC (2^18) and DAC (2^16) for each channel, codes around and beyond the range, with and without limiting; "
        "calibration pairs: gains x offsets x values (numbers and arrays of all kinds). Oracle: hardware constants and exact rationals. "
        "distinct = distinct conversion results")
ASSUME = ["float results are compared to 1e-12 relative of the exact rational, rounding of exact ties may go either way"]


def codes(chk: Check, item):
    from shepherd_core import calibration_hw_def as hw
    ch, part = item
    to_si = {"adc_current": hw.adc_raw_to_current, "adc_voltage": hw.adc_raw_to_voltage, "dac_voltage": hw.dac_raw_to_voltage}[ch]
    to_raw = {"adc_current": hw.adc_current_to_raw, "adc_voltage": hw.adc_voltage_to_raw, "dac_voltage": hw.dac_voltage_to_raw}[ch]
    bits = 16 if ch == "dac_voltage" else 18
    top = 2**bits - 1
    # resolution by datasheet of cape v2.4: 96 V/A & 5.12 V range for ADC, 5 V range for DAC
    lsb = {"adc_current": Fr(512, 100) / 2**18 / 96, "adc_voltage": Fr(512, 100) / 2**18, "dac_voltage": Fr(5) / 2**16}[ch]
    n = (top + 1) // 8
    last = None
    for code in range(part * n - 1, (part + 1) * n + 1):
        rep = {"channel": ch, "code": code}
        with chk.case(f"{ch}", rep):
            si = to_si(code, limited=False)
            ok = abs(Fr(si) - code * lsb) <= abs(code * lsb) * Fr(1, 10**12)
            chk.expect(ok, f"{ch}:scale", f"code {code} gives {si!r}, expected {float(code * lsb)!r}", rep)
            chk.expect(last is None or si > last, f"{ch}:monotone", f"code {code} gives {si} after {last}", rep)
            last = si
            back = to_raw(si, limited=False)
            chk.expect(isinstance(back, int) and abs(back - code) <= 1, f"{ch}:back", f"code {code} came back as {back!r}", rep)
            mid = to_raw(float((code + (Fr(1, 2) if code >= 0 else Fr(-1, 2))) * lsb), limited=False)
            chk.expect(mid == code, f"{ch}:truncate", f"half a step above code {code} gives {mid}", rep)
            lim_si = to_si(code)
            want = to_si(min(max(code, 0), top), limited=False)
            chk.expect(lim_si == want and to_si(code, limited=True) == want, f"{ch}:limit-si", f"limited conversion of {code} gives {lim_si}", rep)
            lim = to_raw(float((code + Fr(1, 2)) * lsb))
            chk.expect(lim == min(max(code, 0), top), f"{ch}:limit-raw", f"limited conversion gives {lim} for {code}", rep)
            chk.step(6)
            chk.ev(None)
    chk.outcomes.add((ch, part))


def beyond(chk: Check):
    from shepherd_core import calibration_hw_def as hw
    for ch, to_si, to_raw, bits in (("adc_current", hw.adc_raw_to_current, hw.adc_current_to_raw, 18), ("adc_voltage", hw.adc_raw_to_voltage, hw.adc_voltage_to_raw, 18),
                                    ("dac_voltage", hw.dac_raw_to_voltage, hw.dac_voltage_to_raw, 16)):
        top = 2**bits - 1
        for code in (-(2**20), -2**bits, -2, -1, top, top + 1, top + 2, 2**bits * 2, 2**32):
            rep = {"channel": ch, "code": code}
            with chk.case(ch, rep):
                chk.expect(to_si(code) == to_si(min(max(code, 0), top), limited=False), f"{ch}:beyond-si", f"{code} -> {to_si(code)}", rep)
                si = to_si(code, limited=False)
                chk.expect((si < 0) == (code < 0) and (to_si(top, limited=False) < si) == (code > top), f"{ch}:beyond-free", f"unlimited {code} -> {si}", rep)
                chk.expect(abs(to_raw(si, limited=False) - code) <= 1, f"{ch}:beyond-back", f"{code} came back as {to_raw(si, limited=False)}", rep)
                chk.expect(abs(to_raw(si) - min(max(code, 0), top)) <= 1 and 0 <= to_raw(si) <= top, f"{ch}:beyond-raw", f"{code} -> {to_raw(si)}", rep)
                chk.ev((ch, code))


GAINS = (1e-12, 250e-12, 3e-9, 1e-3, 0.3, 1.0, 2.5, 1e6)
OFFS = (0, 0.0, 1.0, -1.0, 1e-9, -3e-3, 12345.678)
RAWS = (0, 1, 2, 3, 5, 10_000, 2**18 - 1, 2**31, 2**32 - 1)


def pairs(chk: Check, item):
    from shepherd_core.data_models.base.calibration import CalibrationPair
    gain, off = item
    rep = {"gain": gain, "offset": off}
    with chk.case("pair", rep):
        cp = CalibrationPair(gain=gain, offset=off)
        g, o = Fr(gain), Fr(off)

        def near(got, exp, scale):
            return abs(Fr(float(got)) - exp) <= scale * Fr(1, 10**12)

        for neg in (None, True, False):
            kw = {} if neg is None else {"allow_negative": neg}
            for raw in (*RAWS, -1, -1000, 0.5, 1e9):
                exp = Fr(raw) * g + o
                if neg is False:
                    exp = max(exp, Fr(0))
                got = cp.raw_to_si(raw, **kw)
                chk.step()
                chk.expect(isinstance(got, float) and near(got, exp, abs(Fr(raw) * g) + abs(o)), "pair:si", f"{raw} gives {got!r}, expected {float(exp)}", {**rep, "raw": raw, **kw})
                chk.ev((gain, off, raw, neg, got))
            for dt in ("u4", "u8", "i8", "f8"):
                base = np.array([r for r in RAWS], dtype=dt)
                for arr in (base, base[::2], base[:0], base[::-1], base.reshape(3, 3)):
                    keep = arr.copy()
                    got = cp.raw_to_si(arr, **kw)
                    one = np.array([cp.raw_to_si(x.item(), **kw) for x in arr.ravel()]).reshape(arr.shape)
                    chk.step()
                    chk.expect(np.shape(got) == np.shape(arr) and np.allclose(got, one, rtol=1e-12, atol=1e-300 if off == 0 else abs(off) * 1e-12), "pair:si-array", f"array gives {got}, singles {one}", {**rep, "dtype": dt, **kw})
                    chk.expect(np.array_equal(arr, keep) and arr.dtype == keep.dtype, "pair:si-input", "input array was changed", {**rep, "dtype": dt})
        sis = [float(Fr(k) * g / 4 + o) for k in (-9, -4, -1, 0, 1, 3, 4, 5, 7, 21, 400, 401, 4 * 10**5 + 3)] + [0.0, 1.0, -1.0]
        scale = [max(abs(Fr(s)), abs(o)) / g for s in sis]
        for s, sc in zip(sis, scale):
            exact = max((Fr(s) - o) / g, Fr(0))
            got = cp.si_to_raw(s)
            chk.step()
            chk.expect(isinstance(got, int) and got >= 0 and abs(got - exact) <= Fr(1, 2) + sc * Fr(1, 10**12), "pair:raw", f"{s!r} gives {got!r}, exact {float(exact)}", {**rep, "si": s})
            chk.ev((gain, off, s, got))
        arr = np.array(sis)
        for a in (arr, arr[::2], arr[:0], arr[:16].reshape(4, 4)):
            keep = a.copy()
            got = cp.si_to_raw(a)
            one = np.array([cp.si_to_raw(float(x)) for x in a.ravel()], dtype=float).reshape(a.shape)
            chk.expect(np.shape(got) == a.shape and np.array_equal(np.asarray(got, dtype=float), one), "pair:raw-array", f"array gives {got}, singles {one}", rep)
            chk.expect(np.array_equal(a, keep), "pair:raw-input", "input array was changed", rep)
        if gain in {1.0, 2.5} and off in {0, 1.0, -1.0}:  # exactly between two codes: singles and arrays have to agree
            ties = np.array([(k + 0.5) * gain + off for k in (0, 1, 2, 3, 4, 5, 10, 11, 254, 255, 2**20, 2**20 + 1)])
            one = np.array([cp.si_to_raw(float(x)) for x in ties], dtype=float)
            chk.expect(np.array_equal(np.asarray(cp.si_to_raw(ties), dtype=float), one), "pair:raw-tie", f"array gives {cp.si_to_raw(ties)}, singles {one}", rep)
        for raw in RAWS:
            if raw * abs(float(gain)) * 1e-12 <= gain * 0.2 and abs(off) * 1e-13 < gain:
                chk.expect(cp.si_to_raw(cp.raw_to_si(raw)) == raw, "pair:round-trip", f"raw {raw} came back as {cp.si_to_raw(cp.raw_to_si(raw))}", rep)


def derived(chk: Check):
    from shepherd_core import calibration_hw_def as hw
    from shepherd_core.data_models.base.calibration import CalibrationEmulator
    from shepherd_core.data_models.base.calibration import CalibrationHarvester
    from shepherd_core.data_models.base.calibration import CalibrationPair
    for a, b in it.product((1, 2, 1000, 51200, 0.5, 1e6), (0, 7, -3, 1000, 0.25)):
        rep = {"slope": a, "raw at zero": b}
        with chk.case("derived", rep):
            cp = CalibrationPair.from_fn(lambda x, *, limited=True, a=a, b=b: a * x + b if not limited else 0, unit="V")
            for si in (0.0, 0.5, 1.0, 3.0, 100.0):
                chk.expect(abs(cp.raw_to_si(a * si + b) - si) < 1e-9 * max(1, abs(b)), "derived:fn", f"raw {a * si + b} gives {cp.raw_to_si(a * si + b)} instead of {si}", rep)
            chk.expect(cp.unit == "V", "derived:unit", f"{cp.unit}", rep)
            chk.ev((a, b, cp.gain, cp.offset))
    fns = {"dac_V_Hrv": hw.dac_raw_to_voltage, "dac_V_Sim": hw.dac_raw_to_voltage, "adc_V_Sense": hw.adc_raw_to_voltage, "adc_C_Hrv": hw.adc_raw_to_current,
           "dac_V_A": hw.dac_raw_to_voltage, "dac_V_B": hw.dac_raw_to_voltage, "adc_C_A": hw.adc_raw_to_current, "adc_C_B": hw.adc_raw_to_current}
    for cal in (CalibrationHarvester(), CalibrationEmulator()):
        for key, fn in fns.items():
            if key in type(cal).model_fields:
                with chk.case("default", {"channel": key}):
                    for code in (0, 1, 1000, 2**16 - 1):
                        si = cal[key].raw_to_si(code)
                        chk.expect(abs(si - fn(code)) <= 2e-4 * max(abs(fn(code)), 1e-12), "default:value", f"{key}: {code} is {si}, hardware {fn(code)}", {"channel": key, "code": code})
                        chk.ev((key, code, si))


def run(chk: Check):
    chk.parallel(codes, [(c, p) for c in ("adc_current", "adc_voltage", "dac_voltage") for p in range(8)])
    with chk.case("beyond"):
        beyond(chk)
    chk.parallel(pairs, it.product(GAINS, OFFS))
    derived(chk)
    chk.sample({"gains": GAINS, "offsets": OFFS})
