"""V02: output switch, power-good and output voltage over all reachable switch states."""
import itertools as it

from mc.lib import Check
from mc.ref_vsrc import SHIPPED, clone, configs, key, make

RULE = ("explored: real converter model, breadth-first to the fixpoint: from every reachable state (output switch, power-good, samples since the last check, startup counter, storage voltage) every storage voltage of a menu around all thresholds (0, +-1 uV, far), "
        "set in the storage or, without storage, fed through the input; for shipped sources and a grid of threshold orders x check intervals x immediate/slow signal x converter topologies. Oracle: reference automaton of two hysteresis comparators. distinct = distinct (configuration, state, voltage)")
ASSUME = ["check intervals above 20 samples (shipped: 64 ms) are explored with a shortened interval; the shipped interval itself only along constant-voltage histories", "voltages closer than 1 nV to a threshold, but not on it, are not decided"]


def grid(thorough):
    """Own configurations around 2.5 V."""
    ths = [(2600, 2300, 2800, 2400), (2600, 2300, 2200, 2100), (2600, 2300, 2500, 2450), (2300, 2600, 2200, 2700), (2500, 2500, 2500, 2500), (2600, 2300, 2600, 2300), (0, 0, 0, 0), (1, 0, 2800, 2200), (3000, 0, 3000, 0)]
    tops = [{"enable_boost": True, "C_intermediate_uF": 1, "C_output_uF": 0.1}, {"enable_boost": True, "enable_buck": True, "C_intermediate_uF": 1, "V_output_mV": 2200, "V_buck_drop_mV": 150, "C_output_uF": 0.1},
            {"enable_buck": True, "V_output_mV": 2500, "V_buck_drop_mV": 50}, {"C_intermediate_uF": 1, "C_output_uF": 0.9, "V_buck_drop_mV": 100}, {"V_input_drop_mV": 200},
            {"enable_boost": True, "enable_buck": True, "C_intermediate_uF": 1, "V_output_mV": 3000, "C_output_uF": 1}, {"enable_boost": True, "C_intermediate_uF": 1, "C_output_uF": 5, "V_buck_drop_mV": 2600}]
    ivs = (0, 0.01, 0.02, 0.05) if not thorough else (0, 0.01, 0.02, 0.03, 0.05, 0.1, 0.2)
    for (a, b, c, d), t, iv, im, st in it.product(ths, tops, ivs, (True, False), (0, 0.03)):
        if st and not thorough and (iv not in (0, 0.02) or a not in (2600, 0)):
            continue
        yield {"name": "own", "V_intermediate_enable_threshold_mV": a, "V_intermediate_disable_threshold_mV": b, "V_pwr_good_enable_threshold_mV": c, "V_pwr_good_disable_threshold_mV": d, "interval_check_thresholds_ms": iv,
               "immediate_pwr_good_signal": im, "interval_startup_delay_drain_ms": st, "V_intermediate_max_mV": 4000, "V_output_log_gpio_threshold_mV": 1400 if a != 2500 else 2400, **t}


def voltages(c, r):
    out = {1, 5_000, c.V_intermediate_max_uV, 1_400_000}
    for t in (r.thr_on, c.V_disable_output_threshold_uV, c.V_pwr_good_enable_threshold_uV, c.V_pwr_good_disable_threshold_uV, c.V_output_uV + c.V_buck_drop_uV, c.V_buck_drop_uV, c.V_output_log_gpio_threshold_uV + c.V_buck_drop_uV):
        out |= {t - 1, t, t + 1}
    return sorted(x for x in {int(x) for x in out} if 1 <= x <= c.V_intermediate_max_uV)


def step(chk, m, r, v, rep):
    """One sample with the storage at v; None when undecidable."""
    m.calc_inp_power(v + r.c.V_input_drop_uV, 0)
    r.inp(v + r.c.V_input_drop_uV, 0)
    m.calc_out_power(0)
    r.out(0)
    if r.store:
        m.set_V_intermediate_uV(float(v))
        m.set_P_input_fW(0.0)
        m.set_P_output_fW(0.0)
        r.p_in = r.p_out = 0.0
        r.v_mid = float(v)
    m.update_cap_storage()
    r.step_store()
    was = (r.on, r.good)
    raw = m.update_states_and_output()
    want = r.switch()
    if r.risky:
        return None
    chk.step()
    chk.expect(raw == want, "output" if raw and want else "supply", f"output is {raw} instead of {want} with {v} uV in storage (switch, power-good before: {was})", rep)
    chk.expect(m.get_power_good() is r.good or m.get_power_good() == r.good, "power-good", f"power-good is {m.get_power_good()} instead of {r.good} with {v} uV in storage (switch, power-good before: {was})", rep)
    chk.expect(abs(m.get_V_intermediate_uV() - r.v_mid) <= 1, "surge", f"storage is {m.get_V_intermediate_uV()} uV instead of {r.v_mid}", rep)
    chk.expect(m.get_state_log_gpio() == (r.v_out < r.c.V_output_log_gpio_threshold_uV), "gpio-log", f"gpio-logging is skipped: {m.get_state_log_gpio()} at {r.v_out} uV output", rep)
    chk.expect(abs(m.get_V_intermediate_raw() - r.raw(r.v_mid)) <= 1, "mid-raw", "raw value of storage", rep)
    chk.expect(m.get_state_log_intermediate() == r.log_mid, "log-mid", "flag for logging the storage", rep)
    return raw


def explore(chk: Check, item):
    kw, dt, log = item
    with chk.case("fixpoint", kw):
        m0, r0, shared = make(kw, dt, log=log)
        cfgs = [(m0, r0)]
        if r0.c.interval_check_thresholds_n > 40:  # shorten shipped intervals, the long one is walked below
            short = dict(kw, interval_check_thresholds_ms=0.05)
            m1, r1, shared = make(short, dt, log=log)
            long_walk(chk, m0, r0, kw)
            cfgs = [(m1, r1)]
        m0, r0 = cfgs[0]
        vs = voltages(r0.c, r0)
        if len(vs) > 24:
            vs = vs[:24]
        seen = {key(m0, shared)}
        level, depth = [(m0, r0, ())], 0
        while level and not chk.violations:
            depth += 1
            nxt = []
            for m, r, h in level:
                for v in vs:
                    m2, r2 = clone(m, shared), r.copy()
                    rep = {"source": kw, "dtype": dt, "storage uV per sample": [*h, v]}
                    if step(chk, m2, r2, v, rep) is None:
                        continue
                    chk.ev((repr(kw), len(seen), h[-3:], v))
                    k = key(m2, shared)
                    if k not in seen:
                        seen.add(k)
                        chk.state((repr(kw), dt, log, k))
                        nxt.append((m2, r2, (*h, v)))
            level = nxt
            chk.trace()
            if len(seen) > 60_000:
                chk.count("cut off before fixpoint")
                break
        chk.count("fixpoints", int(not level))


def long_walk(chk, m, r, kw):
    """The shipped check interval: constant voltages long enough for three decisions each."""
    n = r.c.interval_check_thresholds_n
    c = r.c
    low, mid, top = max(1, c.V_disable_output_threshold_uV - 1), int(r.thr_on) - 1, min(c.V_intermediate_max_uV, int(r.thr_on) + 100_000)
    h = []
    for v, k in ((top, n + 2), (low, 3), (top, 5), (low, n + 3), (mid, n + 2), (top, n - 1), (low, 2 * n), (top, n + 5)):
        h.append((v, k))
        for j in range(k):
            step(chk, m, r, v, {"source": kw, "(storage uV, samples)": h, "sample": j})
            if chk.violations:
                return
    chk.trace()


def run(chk: Check):
    items = [({"name": n}, d, log) for n in SHIPPED for d, log in (("ivsample", False), ("ivcurve", True))]
    items += [(kw, dt, False) for _n, kw, dt in configs()[2 * len(SHIPPED):]]
    items += [(kw, "ivsample", False) for kw in grid(chk.thorough)]
    chk.parallel(explore, items)
    chk.sample({"source": "BQ25570s", "storage uV per sample": [3000000, 2399999, 3000000]})
