"""K02: cape calibration through its byte string, the export for the real-time unit and the attachment to recordings."""
import itertools as it
import struct
from fractions import Fraction as Fr

from mc.lib import Check

RULE = ("enumerated: each of the 16 entries x value menu, all pairs of entries x pairs of values, on a base of 16 distinct values; all wrong lengths up to 300 bytes, every "
        "entry overwritten by each forbidden value; container boundaries of each exported number. Oracle: struct module, exact rationals. distinct = distinct byte strings and exports")
ASSUME = ["the format is 16 big-endian doubles (gain, offset per channel; harvester before emulator), as stored on existing capes"]

HRV = ("dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv")
EMU = ("dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B")
ENTRIES = [(half, ch, what) for half, chs in (("harvester", HRV), ("emulator", EMU)) for ch in chs for what in ("gain", "offset")]
BASE = [(1.5 + i) * 1e-6 if i % 2 == 0 else (i - 8) * 1e-3 + 1e-5 for i in range(16)]
GVAL = (1e-12, 7.25, 5e-324, 1.7976931348623157e308, 1, 0.1)
OVAL = (0.0, -0.0, -1e-9, 3, -1.7976931348623157e308, 5e-324, 12.000000000000002)


def cape(values, **kw):
    from shepherd_core.data_models.base.calibration import CalibrationCape
    d = {"harvester": {}, "emulator": {}}
    for (half, ch, what), v in zip(ENTRIES, values):
        d[half].setdefault(ch, {})[what] = v
    return CalibrationCape(**d, **kw)


def trip(chk: Check, values, rep):
    from shepherd_core.data_models.base.calibration import CalibrationCape
    with chk.case("trip", rep):
        c = cape(values)
        raw = c.to_bytestr()
        exp = struct.pack(">16d", *values)
        chk.step()
        chk.expect(raw == exp, "trip:bytes", f"byte string {raw.hex()} instead of {exp.hex()}", rep)
        for src in (raw, exp):
            b = CalibrationCape.from_bytestr(src)
            got = [b[h][c_][w] for h, c_, w in ENTRIES]
            chk.expect(got == [float(v) for v in values], "trip:values", f"read back {got} instead of {list(values)}", rep)
            chk.expect(b.to_bytestr() == raw, "trip:again", "second serialisation differs", rep)
        chk.trace()
        chk.ev(raw)


def menu(i):
    return OVAL if i % 2 else GVAL


def singles(chk: Check, i):
    for v in menu(i):
        vals = list(BASE)
        vals[i] = v
        trip(chk, vals, {"entry": ENTRIES[i], "value": v})
    for j in range(i + 1, 16):
        for v, w in it.product(menu(i), menu(j)):
            vals = list(BASE)
            vals[i], vals[j] = v, w
            trip(chk, vals, {"entries": [ENTRIES[i], ENTRIES[j]], "values": [v, w]})


def faults(chk: Check, i):
    from shepherd_core.data_models.base.calibration import CalibrationCape
    good = struct.pack(">16d", *BASE)
    for v in ((0.0, -0.0, -1e-300, -1.0, float("nan"), float("inf"), float("-inf")) if i % 2 == 0 else (float("nan"), float("inf"), float("-inf"))):
        vals = list(BASE)
        vals[i] = v
        rep = {"entry": ENTRIES[i], "value": repr(v)}
        try:
            CalibrationCape.from_bytestr(struct.pack(">16d", *vals))
        except ValueError:
            ok = True
        else:
            ok = False
        chk.step()
        chk.expect(ok, "fault:value", f"{ENTRIES[i]} = {v} was accepted", rep)
        chk.ev((i, repr(v)))
    for n in range(i, 300, 16):
        if n == 128:
            continue
        try:
            CalibrationCape.from_bytestr((good * 3)[:n])
        except (ValueError, struct.error):
            ok = True
        else:
            ok = False
        chk.step()
        chk.expect(ok, "fault:length", f"{n} bytes were accepted", {"length": n})
        chk.ev(("len", n))


# exported name -> (channel per half, rational scale of the value, inverse?)
EXPORT = {
    "harvester": {"adc_current_gain": ("adc_C_Hrv", "gain", 10**9 * 2**8), "adc_current_offset": ("adc_C_Hrv", "offset", 10**9),
                  "adc_voltage_gain": ("adc_V_Sense", "gain", 10**6 * 2**8), "adc_voltage_offset": ("adc_V_Sense", "offset", 10**6),
                  "dac_voltage_gain": ("dac_V_Hrv", "gain", None), "dac_voltage_offset": ("dac_V_Hrv", "offset", 10**6)},
    "emulator": {"adc_current_gain": ("adc_C_A", "gain", 10**9 * 2**8), "adc_current_offset": ("adc_C_A", "offset", 10**9),
                 "adc_voltage_gain": 256 * 10**6, "adc_voltage_offset": 0,
                 "dac_voltage_gain": ("dac_V_A", "gain", None), "dac_voltage_offset": ("dac_V_A", "offset", 10**6)},
}


def exact(name, scale, value):
    return Fr(2**20) / (10**6 * Fr(value)) if scale is None else Fr(value) * scale


def limits(what):
    return (0, 2**32 - 1) if what == "gain" else (-(2**31), 2**31 - 1)


def export(chk: Check, half):
    fits = {"gain": 1e-5, "offset": 1e-3}

    def vals(**over):
        """over: (channel, what) -> value; everything else fits."""
        res = []
        for k, (h, ch, what) in enumerate(ENTRIES):
            v = fits[what] * (1 + k / 7)
            res.append(over.get(f"{ch}.{what}", v) if h == half else fits[what] * 1000)
        return res

    def judge(over, rep):
        with chk.case("export", rep):
            c = cape(vals(**over))[half]
            exp = {}
            bad = near = False
            for key, spec in EXPORT[half].items():
                if not isinstance(spec, tuple):
                    exp[key] = Fr(spec)
                    continue
                ch, what, scale = spec
                e = exact(key, scale, c[ch][what])
                exp[key] = e
                lo, hi = limits(what)
                tol = abs(e) * Fr(1, 10**14)
                bad |= e < lo - Fr(1, 2) - tol or e > hi + Fr(1, 2) + tol
                near |= not (lo - Fr(1, 2) + tol < e < hi + Fr(1, 2) - tol)
            chk.step()
            try:
                got = c.export_for_sysfs()
            except (ValueError, ArithmeticError):
                chk.expect(near or bad, "export:reject", f"export was rejected although it fits: { {k: str(v)[:40] for k, v in exp.items()} }", rep)
                chk.ev(("reject", half, repr(over)))
                return
            chk.expect(not bad, "export:wrap", f"export does not fit but was accepted: {got}", rep)
            chk.expect(set(got) == set(exp), "export:keys", f"{set(got)}", rep)
            for key, e in exp.items():
                chk.expect(isinstance(got[key], int) and abs(got[key] - e) <= Fr(1, 2) + abs(e) * Fr(1, 10**14), f"export:{key}", f"{key} is {got[key]} instead of {float(e)}", rep)
            chk.ev(tuple(sorted(got.items())))

    judge({}, {"half": half})
    chans = HRV if half == "harvester" else EMU
    for ch in chans:
        for what in ("gain", "offset"):
            for v in (menu(0) if what == "gain" else menu(1)):
                judge({f"{ch}.{what}": v}, {"half": half, "entry": [ch, what], "value": v})
    for key, spec in EXPORT[half].items():
        if not isinstance(spec, tuple):
            continue
        ch, what, scale = spec
        lo, hi = limits(what)
        for target in (lo, lo + 1, lo - 1, hi, hi + 1, hi - 1, 0, 1, -1, 2 * hi, Fr(1, 3), 2**16, 2**24 + 1):
            if what == "gain" and target <= 0:
                continue
            v = float(Fr(2**20, 10**6) / target) if scale is None else float(Fr(target) / scale)
            judge({f"{ch}.{what}": v}, {"half": half, "entry": [ch, what], "value": v, "number": str(target)})
            for ch2 in chans:
                if ch2 != ch:
                    judge({f"{ch}.{what}": v, f"{ch2}.{what}": v}, {"half": half, "entries": [[ch, what], [ch2, what]], "value": v})


def series(chk: Check, i):
    from shepherd_core.data_models.base.calibration import CalibrationSeries
    from shepherd_core.data_models.base.calibration import CapeData
    vals = list(BASE)
    vals[i] = menu(i)[4] if i % 2 == 0 else 0.777
    for data in (None, CapeData(serial_number="1234", version="24A1", cal_date="2023-01-01")):
        c = cape(vals, cape=data, host="abc")
        rep = {"changed": ENTRIES[i], "cape": data is not None}
        with chk.case("series", rep):
            for got, volt, cur in ((CalibrationSeries.from_cal(c.harvester), c.harvester.adc_V_Sense, c.harvester.adc_C_Hrv),
                                   (CalibrationSeries.from_cal(c.emulator), c.emulator.dac_V_A, c.emulator.adc_C_A),
                                   (CalibrationSeries.from_cal(c.emulator, emu_port_a=True), c.emulator.dac_V_A, c.emulator.adc_C_A),
                                   (CalibrationSeries.from_cal(c.emulator, emu_port_a=False), c.emulator.dac_V_B, c.emulator.adc_C_B),
                                   (CalibrationSeries.from_cal(c.harvester, emu_port_a=False), c.harvester.adc_V_Sense, c.harvester.adc_C_Hrv)):
                chk.step()
                chk.expect((got.voltage, got.current) == (volt, cur), "series:channel", f"got {got.voltage}/{got.current}, expected {volt}/{cur}", rep)
                chk.expect((got.time.gain, got.time.offset) == (1e-9, 0), "series:time", f"{got.time}", rep)
                chk.ev((got.voltage.gain, got.current.gain, got.voltage.offset, got.current.offset))
            back = type(c).from_bytestr(c.to_bytestr(), cape=data)
            chk.expect(back.cape == data, "series:cape", f"cape data {back.cape}", rep)


def run(chk: Check):
    trip(chk, BASE, {"entry": "base"})
    chk.parallel(singles, range(16))
    chk.parallel(faults, range(16))
    chk.parallel(export, ("harvester", "emulator"))
    chk.parallel(series, range(16))
    chk.sample({"base": BASE, "order": ENTRIES})
