"""V01: power, losses and storage of the emulated converter in every reachable state."""
import itertools as it
import math

from mc.lib import Check
from mc.ref_vsrc import ADC_OFFSETS, clone, configs, key, make

RULE = ("explored: real converter model; (a) from every start voltage of a menu around all thresholds one sample for every combination of a boundary menu of input voltage, input current and target current, (b) breadth-first all histories of samples up to a depth over an alphabet of inputs and loads "
        "(single and repeated), states merged when equal. Per step compared with the reference converter and checked for the energy balance. distinct = distinct (configuration, history) and single steps")
ASSUME = ["the balance holds up to the discretisation of one sample (C/2 dV^2), as the model integrates with explicit steps; from an empty storage that is not negligible (listed finding)", "with feedback the harvester is assumed to deliver the requested voltage",
          "float rounding is tolerated (1e-9)"]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1.0


def sample(chk, m, r, letter, name, rep):
    """One sample on both; returns whether both agree."""
    v, i, raw = letter
    c = r.c
    cap = 1e9 / (r.k) if r.store else 0  # only used relatively
    v0 = r.v_mid
    vin, iin = r.usable_input(v, i)
    p_in = m.calc_inp_power(v, i)
    want = r.inp(v, i)
    v_out, mid = r.v_out, r.v_mid
    ok = chk.expect(near(p_in, want) and near(m.get_P_input_fW(), want), f"input-power:{kind(r)}", f"input power {p_in} fW for {v} uV, {i} nA at storage {v0} uV; expected {want}", rep)
    if r.feedback and r.store and not r.boost:
        ok &= chk.expect(near(m.V_input_request_uV, r.request), "request", f"harvester is asked for {m.V_input_request_uV} uV instead of {r.request} (storage {v0} uV, {i} nA)", rep)
    lim = max(vin, v0) if r.feedback else vin
    ok &= chk.expect(0 <= p_in <= lim * iin * (1 + 1e-9) + 1, f"input-bound:{kind(r)}", f"input power {p_in} fW is outside of 0..{lim * iin}", rep)
    if r.store and not r.boost and not r.feedback and vin < v0:
        ok &= chk.expect(p_in == 0, "input-blocked", f"{p_in} fW flow into a storage of higher voltage ({v} uV, {i} nA, storage {v0} uV)", rep)
    p_out = m.calc_out_power(raw)
    drain = r.drain_left > 0
    want = r.out(raw)
    ok &= chk.expect(near(p_out, want) and near(m.get_P_output_fW(), want), f"output-power:{kind(r)}", f"output power {p_out} fW for raw current {raw} at {mid} uV; expected {want}", rep)
    if not drain:
        i_out = (max(0, min(raw, 2**18 - 1)) * r.adc.gain + r.adc.offset) * 1e9
        if r.adc.offset >= 0:
            ok &= chk.expect(p_out >= (v_out * i_out + mid * c.I_intermediate_leak_nA) * (1 - 1e-9) - 1, "output-bound", f"output power {p_out} fW is less than delivered to target and leaked", rep)
    v_new = m.update_cap_storage()
    want = r.step_store()
    ok &= chk.expect(near(v_new, want) and near(m.get_V_intermediate_uV(), want), f"storage:{kind(r)}", f"storage is {v_new} uV after {p_in} - {p_out} fW at {mid} uV; expected {want}", rep)
    ok &= chk.expect(1 <= v_new <= max(1, c.V_intermediate_max_uV), "storage-range", f"storage voltage {v_new} uV", rep)
    if r.store and cap:
        # C/2 (V1^2 - V0^2) <= (Pin - Pout) dt + C/2 dV^2, in units of C
        gained = (min(v_new, mid + max(r.dv_step, 0)) ** 2 - mid**2) / 2
        bal = (p_in - p_out) * r.k + r.dv_step**2 / 2
        ok &= chk.expect(gained <= bal + 1e-9 * (mid**2 + abs(bal)) + 4 * mid + 4 or mid < 1 or v_new <= 1, "energy", f"storage gains energy: {mid} -> {v_new} uV with {p_in} in and {p_out} out", rep)
    out = m.update_states_and_output()
    want = r.switch()
    if r.risky:
        return None
    ok &= chk.expect(out == want and m.get_power_good() == r.good and near(m.get_V_intermediate_uV(), r.v_mid), "state", f"output {out} (expected {want}), power-good {m.get_power_good()} ({r.good}), storage {m.get_V_intermediate_uV()} ({r.v_mid})", rep)
    ok &= chk.expect(all(math.isfinite(x) and x >= 0 for x in (p_in, p_out, v_new, out, m.get_V_intermediate_uV())), "finite", "value is negative or not finite", rep)
    if r.v_mid >= 1:
        ok &= chk.expect(near(m.get_I_mid_out_nA(), r.p_out / r.v_mid, 1e-6), "mid-current", f"current of storage {m.get_I_mid_out_nA()}", rep)
    ok &= chk.expect(abs(m.get_V_intermediate_raw() - r.raw(m.V_mid_uV)) <= 1, "mid-raw", f"raw storage voltage {m.get_V_intermediate_raw()}", rep)
    chk.step()
    return ok


def kind(r):
    return ("boost" if r.boost else "feedback" if r.feedback else "cap") if r.store else "none"


def menus(c, r):
    drop, thr = c.V_input_drop_uV, c.V_input_boost_threshold_uV
    vs = {0, 1, -5, drop, drop + 1, drop + thr - 1, drop + thr, 500_000 + drop, 1_000_000, c.V_input_max_uV + drop, c.V_input_max_uV + drop + 1, 12_000_000, *(drop + (k << c.LUT_input_V_min_log2_uV) - d for k in (1, 2, 11, 12) for d in (0, 1) if c.LUT_input_V_min_log2_uV > 10)}
    cs = {0, 1, -7, 1000, 1_000_000, 20_000_000, c.I_input_max_nA, c.I_input_max_nA + 1, *((2 << c.LUT_input_I_min_log2_nA << k) - d for k in (0, 1, 9, 10, 11) for d in (0, 1))}
    g = r.adc.gain * 1e9
    raws = {-3, 0, 1, 100, 5000, 2**17, 2**18 - 1, 2**18 + 5, *(int(((2 << c.LUT_output_I_min_log2_nA << k) - r.adc.offset * 1e9) / g) + d for k in (0, 5, 10, 11) for d in (0, 1))}
    mids = {1, 1000, 100_000, c.V_intermediate_max_uV, c.V_intermediate_max_uV - 1, *(max(1, t + d) for t in (c.V_enable_output_threshold_uV, c.V_disable_output_threshold_uV, c.V_output_uV + c.V_buck_drop_uV) for d in (0, 1))}
    return sorted(vs), sorted(cs), sorted(x for x in raws if x < 2**19), sorted(mids)


def single(chk: Check, item):
    n, off = item
    name, kw, dt = configs()[n]
    with chk.case("single", name):
        m0, r0, shared = make(kw, dt, ADC_OFFSETS[off])
        vs, cs, raws, mids = menus(r0.c, r0)
        if r0.store and not r0.boost:
            vs = sorted({*vs, *(x + r0.c.V_input_drop_uV + d for x in mids for d in (-1, 0, 1, 200_000))})
        pairs = [(v, i, raws[(a + b) % len(raws)]) for a, v in enumerate(vs) for b, i in enumerate(cs)] + [(v, i, x) for v in (vs[2], vs[len(vs) // 2]) for i in (cs[1], cs[-3]) for x in raws]
        if chk.thorough:
            pairs = list(it.product(vs, cs, raws))
        for mid in mids:
            for warm in (False, True):
                for letter in pairs:
                    m, r = clone(m0, shared), r0.copy()
                    if warm and sample(chk, m, r, (0, 0, raws[2]), name, None) is None:
                        continue
                    m.set_V_intermediate_uV(mid)
                    r.v_mid = float(mid)
                    rep = {"source": name, "arguments": kw, "dtype": dt, "offset": ADC_OFFSETS[off], "storage uV": mid, "sample": letter}
                    if sample(chk, m, r, letter, name, rep) is False:
                        return
                    chk.ev((n, off, mid, warm, letter))


def alphabet(c, r):
    drop = c.V_input_drop_uV
    g = r.adc.gain * 1e9
    strong = min(c.I_input_max_nA, 40_000_000)
    hi = min(c.V_input_max_uV, 4_800_000) + drop
    load = int(20_000_000 / g)
    base = [(0, 0, 0), (hi, strong, 0), (hi, strong // 40, int(1_000_000 / g)), (1_000_000 + drop, strong, load // 3), (0, 0, load), (500_000, 500_000, int(50_000 / g)), (2_450_000 + drop, 5_000_000, int(3_000_000 / g))]
    return [[x] * k for x in base for k in (1, 6)] + [[base[1], base[4]] * 3]


def histories(chk: Check, item):
    n, off = item
    name, kw, dt = configs()[n]
    with chk.case("history", name):
        m0, r0, shared = make(kw, dt, ADC_OFFSETS[off])
        letters = alphabet(r0.c, r0)
        level = [(m0, r0, ())]
        seen = {key(m0, shared)}
        for depth in range(5 if chk.thorough else 3):
            nxt = []
            for m, r, h in level:
                for k, word in enumerate(letters):
                    m2, r2 = clone(m, shared), r.copy()
                    rep = {"source": name, "arguments": kw, "dtype": dt, "offset": ADC_OFFSETS[off], "history": [letters[x] for x in (*h, k)]}
                    ok = True
                    for s in word:
                        ok = sample(chk, m2, r2, s, name, rep)
                        if not ok:
                            break
                    if ok is False:
                        return
                    if ok is None:
                        chk.count("undecided at a threshold")
                        continue
                    chk.trace()
                    chk.ev((n, off, h, k))
                    kk = key(m2, shared)
                    if kk not in seen:
                        seen.add(kk)
                        chk.state((n, off, kk))
                        nxt.append((m2, r2, (*h, k)))
            level = nxt
            if len(seen) > 12_000:
                break


def cold_start(chk: Check, _):
    """An empty storage may not be filled by the energy of a single small sample."""
    for name in ("BQ25504", "BQ25570s", "dio_cap"):
        m, r, _s = make({"name": name, "V_intermediate_init_mV": 0}, "ivsample")
        m.calc_inp_power(1_000_000, 1_000_000)
        m.calc_out_power(0)
        v = m.update_cap_storage()
        allowed = math.sqrt(2 * r.inp(1_000_000, 1_000_000) * r.k) + 1
        chk.step()
        chk.expect(v <= 2 * allowed + 1, f"cold-start:{name}", f"one sample of 1 mW charges the empty storage of {name} to {v} uV, its energy suffices for {round(allowed)} uV", {"source": name, "V_intermediate_init_mV": 0, "sample": [1_000_000, 1_000_000, 0]})


def run(chk: Check):
    cold_start(chk, None)
    cs = range(len(configs()))
    chk.parallel(single, [(n, o) for n in cs for o in (range(3) if chk.thorough else (n % 3,))])
    chk.parallel(histories, [(n, o) for n in cs for o in (range(3) if chk.thorough else (n % 2,))])
    chk.sample({"source": "BQ25504", "sample": [1_000_000, 1_000_000, 0]})
