"""P01: every harvester of the shipped set and of boundary menus, converted for the real-time unit and compared with a rational reference."""
import itertools as it
import math
import pathlib
from fractions import Fraction as Fr

import yaml

from mc.lib import Check

RULE = ("enumerated: full products of parameter menus per group (timing: samples x wait x interval x duration x algorithm; voltages: start x min x max x step x samples; modes), every field at all boundary values alone and in every pair with every other, "
        "every shipped definition and every one-field override of it; for every field a dense grid of whole register units (exact arrival); each accepted one converted for all (emulation/harvesting, input datatype, recorded window size, recorded step). "
        "Oracle: acceptance predicate and unit conversion in rationals, written from the field documentation. distinct = distinct register sets or rejections")
ASSUME = ["settings below the resolution of the hardware are raised to it: current limit (4 raw steps of the ADC) and voltage step (4 raw steps of the DAC)", "rounding ties are not decided (half a unit of tolerance)"]

ALG = {"neutral": (1, "ivsample"), "isc_voc": (8, "isc_voc"), "ivcurve": (16, "ivcurve"), "cv": (256, "ivsample"), "mppt_voc": (4096, "ivsample"), "mppt_po": (8192, "ivsample"), "mppt_opt": (16384, "ivsample")}
# name: (type, min, max, default)
F = {"samples_n": (int, 8, 2000, 8), "voltage_mV": (float, 0, 5000, 2500), "voltage_min_mV": (float, 0, 5000, 0), "voltage_max_mV": (float, 0, 5000, 5000), "current_limit_uA": (float, 1, 50000, 50000),
     "voltage_step_mV": (float, 1, 1_000_000, None), "setpoint_n": (float, 0, 1, 0.7), "interval_ms": (float, 0.01, 1_000_000, 100), "duration_ms": (float, 0.01, 1_000_000, 0.1), "wait_cycles": (int, 0, 100, 1)}
MENU = {"samples_n": (8, 9, 10, 909, 1999, 2000, 7, 2001, 1, 0, -5), "voltage_mV": (0, 0.5, 1, 2499.9996, 2500, 4999, 5000, -1, 5001), "voltage_min_mV": (0, 1, 1234.5678, 2500, 2501, 5000, -0.1, 5000.1),
        "voltage_max_mV": (5000, 4999.9, 2500, 2499, 1, 0, -1, 5001), "current_limit_uA": (1, 1.0004, 2, 100.5, 49999, 50000, 0.5, 50001, -1), "voltage_step_mV": (1, 1.5, 10, 714.2857, 5000, 1_000_000, 0.9, 1_000_001, 0),
        "setpoint_n": (0, 0.001, 0.25, 0.5, 0.76, 0.994, 0.997, 0.999, 1, -0.1, 1.1), "interval_ms": (0.01, 0.02, 0.05, 0.16, 1, 100, 16000, 999_999, 1_000_000, 0.009, 1_000_001), "duration_ms": (0.01, 0.02, 0.1, 1.2, 100, 256, 1_000_000, 0.009, 1_000_001),
        "wait_cycles": (0, 1, 2, 99, 100, 101, -1), "rising": (True, False), "enable_linear_extrapolation": (True, False), "algorithm": tuple(ALG)}
DT = ("ivsample", "ivcurve", "isc_voc")
REC = ((None, None), (16, None), (None, 0.005), (909, 0.0055), (0, 0.00125), (1818, 4.9999))


def frac(x):
    return Fr(str(x)) if isinstance(x, float) else Fr(x)


def predict(kw):
    """Final values of the accepted harvester or None."""
    v = {k: f[3] for k, f in F.items()} | {"rising": True, "enable_linear_extrapolation": True, **kw}
    if v.get("algorithm") not in ALG:
        return None
    if not 8 <= v["samples_n"] <= 2000:
        return None
    if v["voltage_step_mV"] is None:
        v["voltage_step_mV"] = abs(frac(v["voltage_max_mV"]) - frac(v["voltage_min_mV"])) / (v["samples_n"] - 1)
    for k, (_, lo, hi, _) in F.items():
        if not frac(lo) <= frac(v[k]) <= frac(hi):
            return None
    if not v["voltage_min_mV"] <= v["voltage_mV"] <= v["voltage_max_mV"]:
        return None
    return v


def registers(v, emu, dtype, win, step):
    """Reference register set or None (refused)."""
    num, dt = ALG[v["algorithm"]]
    if emu and (dt != "ivsample" or dtype == "isc_voc" or (dtype == "ivcurve" and (win is None or step is None))):
        return None
    if not emu and num < 8:
        return None
    cyc = 1 + v["wait_cycles"]
    tmin = Fr(v["samples_n"] * cyc if emu else cyc, 100)  # ms
    interval = min(max(frac(v["interval_ms"]), tmin), Fr(1_000_000))
    duration = min(max(frac(v["duration_ms"]), tmin), interval)
    window = win if win is not None else (v["samples_n"] if not emu else {"ivsample": 0, "ivcurve": v["samples_n"] * cyc}[dtype])
    return {"algorithm": num, "hrv_mode": int(emu) + 2 * v["rising"] + 4 * v["enable_linear_extrapolation"], "window_size": window,
            "voltage_uV": frac(v["voltage_mV"]) * 1000, "voltage_min_uV": frac(v["voltage_min_mV"]) * 1000, "voltage_max_uV": frac(v["voltage_max_mV"]) * 1000,
            "voltage_step_uV": frac(v["voltage_step_mV"]) * 1000 if step is None else frac(step) * 10**6, "current_limit_nA": frac(v["current_limit_uA"]) * 1000,
            "setpoint_n8": min(Fr(255), frac(v["setpoint_n"]) * 256), "interval_n": interval * 100, "duration_n": duration * 100, "wait_cycles_n": v["wait_cycles"]}


def near(a, b):
    return abs(Fr(a) - Fr(b)) <= Fr(1, 2) + Fr(1, 10**6) if isinstance(b, Fr) else a == b


def convert(chk: Check, key, h, v, rep, recs=REC):
    from pydantic import ValidationError
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    for emu, dt, (win, step) in it.product((False, True), DT, recs):
        r = {"harvester": rep, "for_emu": emu, "dtype_in": dt, "window_size": win, "voltage_step_V": step}
        exp = registers(v, emu, dt, win, step)
        with chk.case(f"{key}:convert", r):
            try:
                got = HarvesterPRUConfig.from_vhrv(h, dtype_in=EnergyDType[dt] if win else dt, window_size=win, voltage_step_V=step, for_emu=emu)
            except (ValueError, NotImplementedError) as xcp:
                chk.expect(exp is None, f"{key}:refused", f"refused with {xcp}", r)
                chk.ev((v["algorithm"], emu, dt, "refused"))
                continue
            if not chk.expect(exp is not None, f"{key}:not-refused", "impossible combination is accepted", r):
                continue
            chk.step()
            g = got.model_dump()
            chk.expect(set(g) == set(exp), f"{key}:registers", f"registers {set(g) ^ set(exp)}", r)
            for k, e in exp.items():
                chk.expect(isinstance(g[k], int) and 0 <= g[k] < 2**32 and near(g[k], e), f"{key}:{k}", lambda: f"{k} = {g[k]} instead of {float(e)}", r)  # noqa: B023
            chk.expect(g["voltage_min_uV"] <= g["voltage_uV"] <= g["voltage_max_uV"] and 1 <= g["duration_n"] <= g["interval_n"], f"{key}:order", f"limits out of order {g}", r)
            chk.ev(tuple(g.values()))
            chk.state(tuple(g.values()))


def build(chk: Check, key, kw, recs=REC):
    from shepherd_core.data_models import VirtualHarvesterConfig
    v = predict(kw)
    with chk.case(f"{key}:build", kw):
        try:
            h = VirtualHarvesterConfig(name="some", **kw)
        except ValueError as xcp:
            chk.expect(v is None, f"{key}:rejected", f"valid harvester is rejected: {str(xcp)[:300]}", kw)
            chk.ev("rejected")
            return
        if not chk.expect(v is not None, f"{key}:accepted", "invalid harvester is accepted", kw):
            return
        for k in MENU:
            x, e = h[k], v[k]
            chk.expect(x == e or (isinstance(e, (Fr, float)) and math.isclose(x, e, rel_tol=1e-12)), f"{key}:value:{k}", f"{k} is {x} instead of {e}", kw)
        convert(chk, key, h, v, kw, recs)
        chk.trace()


def timing(chk, item):
    n, w = item
    for i, d, a in it.product(MENU["interval_ms"][:-2], MENU["duration_ms"][:-2], ("cv", "ivcurve", "mppt_po")):
        build(chk, "timing", {"samples_n": n, "wait_cycles": w, "interval_ms": i, "duration_ms": d, "algorithm": a}, REC[::3])


def voltages(chk, item):
    lo, hi = item
    for v, s, n in it.product(MENU["voltage_mV"], (None, *MENU["voltage_step_mV"]), (8, 909, 2000, 1)):
        build(chk, "voltage", {"voltage_min_mV": lo, "voltage_max_mV": hi, "voltage_mV": v, "samples_n": n, "algorithm": "mppt_po", **({} if s is None else {"voltage_step_mV": s})}, REC[::3])


def modes(chk, item):
    for r, e, s in it.product((True, False), (True, False), MENU["setpoint_n"]):
        for c in MENU["current_limit_uA"]:
            build(chk, "modes", {"algorithm": item, "rising": r, "enable_linear_extrapolation": e, "setpoint_n": s, "current_limit_uA": c})


def pairs(chk, item):
    a, b = item
    for x, y in it.product(MENU[a], MENU[b]):
        for alg in (("mppt_voc",) if "algorithm" not in item else (None,)):
            build(chk, "pair", {**({"algorithm": alg} if alg else {}), a: x, b: y})


def grid(chk, item):
    """thorough: every setting of a coarse menu at once."""
    alg, n, w = item
    for lo, hi, v, i, d, sp, r, e in it.product((0, 1000.5), (5000, 2500), (2500, 1234.5), (0.01, 3, 16000), (0.01, 5, 100_000), (0, 0.5, 1), (True, False), (True, False)):
        build(chk, "grid", {"algorithm": alg, "samples_n": n, "wait_cycles": w, "voltage_min_mV": lo, "voltage_max_mV": hi, "voltage_mV": v, "interval_ms": i, "duration_ms": d, "setpoint_n": sp, "rising": r, "enable_linear_extrapolation": e}, REC[::2])


def shipped(chk, _):
    import shepherd_core
    from shepherd_core.data_models import VirtualHarvesterConfig
    f = pathlib.Path(shepherd_core.__file__).parent / "data_models/content/virtual_harvester_fixture.yaml"
    raw = {d["parameters"]["name"].lower(): d["parameters"] for d in yaml.safe_load(f.read_text()) if d["datatype"].lower() == "virtualharvesterconfig"}

    def resolve(name):
        d = dict(raw[name.lower()])
        p = d.pop("inherit_from", None)
        return {**(resolve(p) if p else {}), **d}

    for name in raw:
        base = {k: v for k, v in resolve(name).items() if k in MENU}
        if "algorithm" in base:
            v = predict(base)
            with chk.case("shipped", name):
                h = VirtualHarvesterConfig(name=name)
                if chk.expect(v is not None, "shipped:limits", f"shipped harvester {name} is outside of limits", name):
                    chk.expect(all(h[k] == v[k] or math.isclose(h[k], v[k], rel_tol=1e-12) for k in F), "shipped:values", f"values of {name}", name)
                    convert(chk, "shipped", h, v, name)
        for f in MENU:
            for x in MENU[f]:
                kw = {**base, f: x}
                v = predict(kw)
                with chk.case("inherit", (name, f, x)):
                    try:
                        h = VirtualHarvesterConfig(name="other", inherit_from=name, description="d", **{f: x})
                    except ValueError:
                        chk.expect(v is None, "inherit:rejected", f"{f}={x} on top of {name} is rejected", (name, f, x))
                        continue
                    if chk.expect(v is not None, "inherit:accepted", f"{f}={x} on top of {name} is accepted", (name, f, x)):
                        convert(chk, "inherit", h, v, {"inherit_from": name, f: x}, REC[::2])


def broken(chk, _):
    """Requests that miss something or carry values of no use: always a value error."""
    from shepherd_core.data_models import VirtualHarvesterConfig
    bad = [{"algorithm": "cv"}, {"name": "x", "samples_n": 9}, {"name": "x", "algorithm": "nope"}, {"name": "x", "algorithm": "cv", "other": 1}, {"name": "neutral"}, {"name": "NEUTRAL"}, {"name": "not there"}, {"id": 4}, {}, {"algorithm": "cv", "inherit_from": "nobody", "name": "y"}]
    nan, inf = float("nan"), float("inf")
    bad += [{"name": "x", "algorithm": "cv", f: v} for f in F for v in (nan, inf, -inf)]
    for kw in bad:
        with chk.case("broken", kw):
            try:
                VirtualHarvesterConfig(**kw)
                chk.fail("broken:accepted", "unusable harvester is accepted", kw)
            except ValueError:
                chk.step()
        chk.ev()


GRID = {"interval_ms": (100, "interval_n", {"duration_ms": 0.02}, 2), "duration_ms": (100, "duration_n", {"interval_ms": 1_000_000}, 2), "voltage_mV": (1000, "voltage_uV", {}, 0), "voltage_min_mV": (1000, "voltage_min_uV", {"voltage_mV": 5000, "voltage_step_mV": 10}, 0),
        "voltage_max_mV": (1000, "voltage_max_uV", {"voltage_mV": 0, "voltage_step_mV": 10}, 0), "voltage_step_mV": (1000, "voltage_step_uV", {}, 1000), "current_limit_uA": (1000, "current_limit_nA", {}, 1000)}


def units(chk, item):
    """Values that are whole register units (as decimal number): exactly these arrive."""
    from shepherd_core.data_models import VirtualHarvesterConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    f, part = item
    unit, reg, extra, low = GRID[f]
    top = F[f][2] * unit
    n = 12_000 if chk.thorough else 1_200
    for k in sorted({*range(low, low + n), *(top - j for j in range(40)), *(top * j // 499 for j in range(500)), *(min(top, m * 10**e + d) for m in (1, 2, 29, 57, 58, 115) for e in range(9) for d in (-1, 0, 1))}):
        if k % 4 != part or not low <= k <= top:
            continue
        x = float(Fr(k, unit))
        with chk.case("grid", (f, x)):
            h = VirtualHarvesterConfig(name="g", algorithm="mppt_voc", **{**extra, f: x})
            got = HarvesterPRUConfig.from_vhrv(h)[reg]
            chk.expect(got == k, f"grid:{f}", f"{reg} = {got} instead of {k} for {x}", (f, x))
            chk.step()
            chk.ev((f, k))


def run(chk: Check):
    chk.parallel(units, [(f, p) for f in GRID for p in range(4)])
    broken(chk, None)
    chk.parallel(timing, list(it.product(MENU["samples_n"][:8], MENU["wait_cycles"])))
    chk.parallel(voltages, list(it.product(MENU["voltage_min_mV"], MENU["voltage_max_mV"])))
    chk.parallel(modes, list(ALG))
    chk.parallel(pairs, list(it.combinations(MENU, 2)))
    chk.parallel(shipped, [0])
    if chk.thorough:
        chk.parallel(grid, list(it.product(ALG, (8, 9, 50, 909, 2000), (0, 1, 7, 100))))
    chk.sample({"algorithm": "mppt_po", "voltage_min_mV": 1234.5678, "samples_n": 909})
