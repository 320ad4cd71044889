"""P02: every virtual source of the shipped set and of boundary menus, converted for the real-time unit and compared with a rational reference."""
import itertools as it
import math
import pathlib
from fractions import Fraction as Fr

import yaml

from mc.lib import Check

RULE = ("enumerated: full products of parameter menus per group (thresholds x buck x capacitors; feature switches x capacitor x input type x logged node), every field at all boundary values alone and in every pair with every other, every position of both efficiency tables with every value of a menu, "
        "for every field a dense grid of whole register units (exact arrival), every shipped source and every one-field override of it, every harvester; each accepted one converted for all input datatypes and logged nodes. "
        "Oracle: acceptance predicate, unit conversion and threshold selection in rationals, written from the field documentation. distinct = distinct register sets or rejections")
ASSUME = ["storage capacitors below 1 nF are handled as 1 nF", "physically impossible inrush (output capacitor can not be charged) is represented by zero, as documented", "rounding ties are not decided (half a unit of tolerance)"]

# name: (min, max, default, menu)
F = {"interval_startup_delay_drain_ms": (0, 10_000, 0, (0, 0.01, 0.3, 9999.99)), "V_input_max_mV": (0, 10_000, 10_000, (0, 0.25, 3000)), "I_input_max_mA": (0, 4.29e3, 4200, (0, 0.0005, 100, 4200)),
     "V_input_drop_mV": (0, 4.29e6, 0, (0, 0.3, 350)), "R_input_mOhm": (0, 4.29e6, 0, (0, 1, 10_000, 1e6)), "C_intermediate_uF": (0, 100_000, 0, (0, 0.0005, 0.001, 0.9, 1, 100, 22.5)), "V_intermediate_init_mV": (0, 10_000, 3000, (0, 1.5, 2999)),
     "I_intermediate_leak_nA": (0, 4.29e9, 0, (0, 0.6, 330)), "V_intermediate_enable_threshold_mV": (0, 10_000, 1, (0, 1, 1800, 4000)), "V_intermediate_disable_threshold_mV": (0, 10_000, 0, (0, 1000, 3999)),
     "interval_check_thresholds_ms": (0, 4.29e3, 0, (0, 0.01, 64.3)), "V_pwr_good_enable_threshold_mV": (0, 10_000, 2800, (0, 2600.5)), "V_pwr_good_disable_threshold_mV": (0, 10_000, 2200, (0, 2100.25)), "C_output_uF": (0, 4.29e6, 1.0, (0, 0.5, 1, 30)),
     "V_output_log_gpio_threshold_mV": (0, 4.29e6, 1400, (0, 999.9)), "V_input_boost_threshold_mV": (0, 10_000, 0, (0, 130)), "V_intermediate_max_mV": (0, 10_000, 10_000, (0, 4500)), "V_output_mV": (0, 5000, 2400, (0, 1800, 3300.5)), "V_buck_drop_mV": (0, 5000, 0, (0, 150.5)),
     "LUT_input_V_min_log2_uV": (0, 20, 0, (0, 7)), "LUT_input_I_min_log2_nA": (1, 20, 1, (1, 8)), "LUT_output_I_min_log2_nA": (1, 20, 1, (1, 9))}
INTS = ("LUT_input_V_min_log2_uV", "LUT_input_I_min_log2_nA", "LUT_output_I_min_log2_nA")
B = {"enable_boost": False, "enable_buck": False, "enable_feedback_to_hrv": False, "immediate_pwr_good_signal": True}
MENU = {k: (*m, lo, hi, lo - 1, hi + 1) for k, (lo, hi, _, m) in F.items()} | {k: (False, True) for k in B}
DEF = {k: f[2] for k, f in F.items()} | B | {"LUT_input_efficiency": 12 * [12 * [1.0]], "LUT_output_efficiency": 12 * [1.0]}
EFF = (0, 1e-310, 1e-9, 0.0009, 0.00098, 0.002, 0.1, 0.33, 0.5, 0.7071, 0.99, 0.995, 0.9981, 1)
TOL = Fr(1, 2) + Fr(1, 10**6)


def frac(x):
    return Fr(repr(x)) if isinstance(x, float) else Fr(x)


def predict(kw):
    v = {**DEF, **kw}
    for k, (lo, hi, _, _) in F.items():
        if not frac(lo) <= frac(v[k]) <= frac(hi):
            return None
    a, b = v["LUT_input_efficiency"], v["LUT_output_efficiency"]
    if len(a) != 12 or len(b) != 12 or any(len(x) != 12 for x in a) or any(not 0 <= y <= 1 for x in (*a, b) for y in x):
        return None
    return v


def root(x):
    return Fr(math.isqrt(int(x * 10**24)), 10**12)


def registers(v, dtype, log):
    q = {k: frac(v[k]) for k in F}
    cs, co = q["C_intermediate_uF"], q["C_output_uF"]
    vout, ven, vdis, vpre = q["V_output_mV"], q["V_intermediate_enable_threshold_mV"], q["V_intermediate_disable_threshold_mV"], q["V_output_mV"] + q["V_buck_drop_mV"]
    d_en = d_low = Fr(0)
    if cs > 0 and co > 0:
        if ven**2 >= co / cs * vout**2:
            d_en = ven - root(ven**2 - co / cs * vout**2)
        if co <= cs:
            d_low = vout * (1 - root(1 - co / cs))
    if v["enable_buck"]:
        dv, en = (d_en, ven) if ven > vpre else (d_low, vpre + d_low)
        dis = max(vdis, vpre)
    else:
        dv, en, dis = d_en, ven, vdis
    boost = v["enable_boost"] and cs > 0
    fb = v["enable_feedback_to_hrv"] and cs > 0 and not boost and dtype == "ivcurve"
    return {"converter_mode": (cs > 0) + 2 * boost + 4 * v["enable_buck"] + 8 * log + 16 * fb, "interval_startup_delay_drain_n": q["interval_startup_delay_drain_ms"] * 100,
            "V_input_max_uV": q["V_input_max_mV"] * 1000, "I_input_max_nA": q["I_input_max_mA"] * 10**6, "V_input_drop_uV": q["V_input_drop_mV"] * 1000, "R_input_kOhm_n22": q["R_input_mOhm"] * 2**22 / 10**6,
            "Constant_us_per_nF_n28": Fr(2**28) / (100 * max(cs, Fr(1, 1000))) - Fr(1, 2), "V_intermediate_init_uV": q["V_intermediate_init_mV"] * 1000, "I_intermediate_leak_nA": q["I_intermediate_leak_nA"],
            "V_enable_output_threshold_uV": en * 1000, "V_disable_output_threshold_uV": dis * 1000, "dV_enable_output_uV": dv * 1000, "interval_check_thresholds_n": q["interval_check_thresholds_ms"] * 100,
            "V_pwr_good_enable_threshold_uV": q["V_pwr_good_enable_threshold_mV"] * 1000, "V_pwr_good_disable_threshold_uV": q["V_pwr_good_disable_threshold_mV"] * 1000, "immediate_pwr_good_signal": int(v["immediate_pwr_good_signal"]),
            "V_output_log_gpio_threshold_uV": q["V_output_log_gpio_threshold_mV"] * 1000, "V_input_boost_threshold_uV": q["V_input_boost_threshold_mV"] * 1000, "V_intermediate_max_uV": q["V_intermediate_max_mV"] * 1000,
            "V_output_uV": vout * 1000, "V_buck_drop_uV": q["V_buck_drop_mV"] * 1000, "LUT_input_V_min_log2_uV": int(q["LUT_input_V_min_log2_uV"]), "LUT_input_I_min_log2_nA": int(q["LUT_input_I_min_log2_nA"]) - 1, "LUT_output_I_min_log2_nA": int(q["LUT_output_I_min_log2_nA"]) - 1,
            "LUT_inp_efficiency_n8": [[min(Fr(255), frac(x) * 256) for x in r] for r in v["LUT_input_efficiency"]],
            "LUT_out_inv_efficiency_n4": [min(Fr(2**14), 16 / frac(x)) if x > 0 else Fr(2**14) for x in v["LUT_output_efficiency"]]}


def fits(got, exp, top):
    if isinstance(exp, list):
        return isinstance(got, (list, tuple)) and len(got) == len(exp) and all(fits(g, e, top) for g, e in zip(got, exp))
    return isinstance(got, int) and 0 <= got < top and abs(got - exp) <= TOL


def convert(chk: Check, key, src, v, rep):
    from shepherd_core.data_models.content.energy_environment import EnergyDType
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    for dt, log in it.product(("ivsample", "ivcurve", "isc_voc"), (False, True)):
        r = {"source": rep, "dtype_in": dt, "log_intermediate_node": log}
        with chk.case(f"{key}:convert", r):
            g = ConverterPRUConfig.from_vsrc(src, dtype_in=EnergyDType[dt], log_intermediate_node=log).model_dump()
            chk.step()
            exp = registers(v, dt, log)
            if not chk.expect(set(g) == set(exp), f"{key}:registers", f"registers {set(g) ^ set(exp)}", r):
                continue
            for k, e in exp.items():
                if g[k] != e:
                    chk.expect(fits(g[k], e, 2**8 if k == "LUT_inp_efficiency_n8" else 2**32), f"{key}:{k}", lambda: f"{k} = {g[k]} instead of {e if isinstance(e, list) else float(e)}"[:500], r)  # noqa: B023
            if v["V_intermediate_enable_threshold_mV"] >= v["V_intermediate_disable_threshold_mV"]:
                chk.expect(g["V_enable_output_threshold_uV"] >= g["V_disable_output_threshold_uV"], f"{key}:order", "output-thresholds lost their order", r)
            chk.ev(repr(g))
            chk.state(repr(g))


def build(chk: Check, key, kw, harvester=None):
    from shepherd_core.data_models import VirtualSourceConfig
    v = predict(kw)
    with chk.case(f"{key}:build", kw):
        try:
            src = VirtualSourceConfig(name="some", **({} if harvester is None else {"harvester": harvester}), **(kw or {"description": "d"}))
        except ValueError as xcp:
            chk.expect(v is None, f"{key}:rejected", f"valid source is rejected: {str(xcp)[:300]}", kw)
            chk.ev("rejected")
            return
        if chk.expect(v is not None, f"{key}:accepted", "invalid source is accepted", kw):
            chk.expect(all(src[k] == v[k] for k in v), f"{key}:values", "values changed", kw)
            convert(chk, key, src, v, kw)
            chk.trace()


def thresholds(chk, item):
    buck, vout, drop = item
    co = (0, 0.5, 1, 30) if not chk.thorough else (0, 0.1, 0.5, 1, 2, 10, 30, 4e6)
    cs = (0, 1, 22.5, 1000) if not chk.thorough else (0, 0.0005, 0.5, 1, 2, 22.5, 30, 1000, 100_000)
    th = (0, 1, 1800, 1950.5, 2400, 4000, 10_000) if not chk.thorough else (0, 1, 999, 1799, 1800, 1801, 1950, 1950.5, 1951, 2400, 3300, 4000, 10_000)
    for c, o, en, dis in it.product(cs, co, th, th):
        build(chk, "thresholds", {"enable_buck": buck, "V_output_mV": vout, "V_buck_drop_mV": drop, "C_intermediate_uF": c, "C_output_uF": o, "V_intermediate_enable_threshold_mV": en, "V_intermediate_disable_threshold_mV": dis})


def switches(chk, item):
    for b in it.product((False, True), repeat=4):
        build(chk, "switches", {**dict(zip(B, b)), "C_intermediate_uF": item})


def pairs(chk, item):
    a, b = item
    for x, y in it.product(MENU[a], MENU[b]):
        build(chk, "pair", {a: x, b: y})


def tables(chk, item):
    kind, r, c = item
    for x in (*EFF, -0.01, 1.01):
        if kind == "in":
            t = [[0.5 + (12 * i + j) / 400 for j in range(12)] for i in range(12)]
            t[r][c] = x
            build(chk, "lut-in", {"LUT_input_efficiency": t})
        else:
            t = [0.5 + j / 30 for j in range(12)]
            t[c] = x
            build(chk, "lut-out", {"LUT_output_efficiency": t})


def sizes(chk, _):
    for n in (0, 1, 11, 13):
        build(chk, "lut-size", {"LUT_output_efficiency": n * [0.5]})
        build(chk, "lut-size", {"LUT_input_efficiency": n * [12 * [0.5]]})
        for row in (0, 5, 11):
            t = [12 * [0.5] for _ in range(12)]
            t[row] = n * [0.5]
            build(chk, "lut-size", {"LUT_input_efficiency": t})


def shipped(chk, item):
    from shepherd_core.data_models import VirtualSourceConfig
    name, base = item
    v = predict(base)
    with chk.case("shipped", name):
        src = VirtualSourceConfig(name=name)
        if chk.expect(v is not None, "shipped:limits", f"shipped source {name} is outside of limits", name):
            chk.expect(all(src[k] == v[k] for k in v), "shipped:values", f"values of {name}", name)
            convert(chk, "shipped", src, v, name)
    for f in MENU:
        for x in MENU[f]:
            kw = {**base, f: x}
            v = predict(kw)
            with chk.case("inherit", (name, f, x)):
                try:
                    src = VirtualSourceConfig(name="other", inherit_from=name, description="d", **{f: x})
                except ValueError:
                    chk.expect(v is None, "inherit:rejected", f"{f}={x} on top of {name} is rejected", (name, f, x))
                    continue
                if chk.expect(v is not None, "inherit:accepted", f"{f}={x} on top of {name} is accepted", (name, f, x)):
                    convert(chk, "inherit", src, v, {"inherit_from": name, f: x})


def harvesters(chk, _):
    """Only harvesters that work during emulation are accepted."""
    from shepherd_core.data_models import VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.testbed_client import tb_client
    names = [n for n in tb_client.query_names("VirtualHarvesterConfig") if n != "neutral"]
    for n in names:
        with chk.case("harvester", n):
            h = VirtualHarvesterConfig(name=n)
            good = h.algorithm in ("neutral", "cv", "mppt_voc", "mppt_po", "mppt_opt")
            for arg in ({"name": n}, {"id": h.id}, h, h.model_dump()):
                try:
                    src = VirtualSourceConfig(name="q", harvester=arg)
                except ValueError:
                    chk.expect(not good, "harvester:rejected", f"{n} is rejected", n)
                    continue
                chk.expect(good and src.harvester == h, "harvester:accepted", f"{n} gives {src.harvester}", n)
                chk.step()
            chk.ev((n, good))
    for bad in ({"name": "neutral"}, {"name": "nope"}, {}):
        with chk.case("harvester-bad", bad):
            try:
                VirtualSourceConfig(name="q", harvester=bad)
                chk.fail("harvester-bad", f"harvester {bad} is accepted", bad)
            except ValueError:
                chk.ev()


UNIT = {"ms": 100, "mV": 1000, "mA": 10**6, "nA": 1}
REG = {"ms": ("_ms", "_n"), "mV": ("_mV", "_uV"), "mA": ("_mA", "_nA"), "nA": ("_nA", "_nA")}


def grid(chk, item):
    """Values that are whole register units (as decimal number): exactly these arrive."""
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    f, part = item
    u = f.rsplit("_", 1)[1]
    reg = f[: -len(u)] + REG[u][1].lstrip("_")
    reg = reg.replace("V_intermediate_enable", "V_enable_output").replace("V_intermediate_disable", "V_disable_output")
    top = int(Fr(repr(F[f][1]) if isinstance(F[f][1], float) else F[f][1]) * UNIT[u])
    n = 12_000 if chk.thorough else 1_200
    for k in sorted({*range(n), *(top - j for j in range(40)), *(top * j // 499 for j in range(500)), *(min(top, m * 10**e + d) for m in (1, 2, 29, 57, 58, 115) for e in range(9) for d in (-1, 0, 1))}):
        if k % 4 != part or not 0 <= k <= top:
            continue
        x = float(Fr(k, UNIT[u]))
        with chk.case("grid", (f, x)):
            g = ConverterPRUConfig.from_vsrc(VirtualSourceConfig(name="g", **{f: x}))[reg]
            chk.expect(g == k, f"grid:{f}", f"{reg} = {g} instead of {k} for {x}", (f, x))
            chk.step()
            chk.ev((f, k))


def run(chk: Check):
    import shepherd_core
    chk.parallel(grid, [(f, p) for f in F if f.rsplit("_", 1)[1] in UNIT and f not in INTS for p in range(4)])
    harvesters(chk, None)
    sizes(chk, None)
    chk.parallel(thresholds, list(it.product((False, True), (0, 1800, 3300.5) if not chk.thorough else (0, 1, 1800, 3300.5, 5000), (0, 150.5) if not chk.thorough else (0, 0.5, 150.5, 5000))))
    chk.parallel(switches, (0, 0.0005, 1, 100_000))
    pp = list(it.combinations(MENU, 2))
    chk.parallel(pairs, pp)
    chk.parallel(tables, [("in", r, c) for r in range(12) for c in range(12) if chk.thorough or r in (0, 5, 11) or c in (0, 11)] + [("out", 0, c) for c in range(12)])
    f = pathlib.Path(shepherd_core.__file__).parent / "data_models/content/virtual_source_fixture.yaml"
    raw = {d["parameters"]["name"].lower(): d["parameters"] for d in yaml.safe_load(f.read_text()) if d["datatype"].lower() == "virtualsourceconfig"}

    def resolve(name):
        d = dict(raw[name.lower()])
        p = d.pop("inherit_from", None)
        return {**(resolve(p) if p else {}), **d}

    chk.parallel(shipped, [(n, {k: x for k, x in resolve(n).items() if k in DEF}) for n in raw])
    chk.sample({"enable_buck": True, "V_output_mV": 1800, "V_intermediate_enable_threshold_mV": 1950.5})
