"""V05: current drawn by the emulated targets for every supply condition and history."""
import itertools as it
import math

from mc.lib import Check

RULE = ("enumerated: every target model x parameter menus x a dense grid of supply voltages including zero (1 mV, thorough 0.1 mV) and all boundary values x power-good, then every history of (voltage, power-good) up to a depth on one object; the exported targets likewise; all invalid parameters. "
        "Oracle: defining law (Ohm, constant current, constant power with nothing drawn without voltage, series of diode and resistor solved by bisection). distinct = distinct (target, voltage, power-good) and histories")
ASSUME = ["the iteration of the diode model is an approximation: accepted error is 2.5 % of the short-circuit current (25 % for diodes with less than 1 V forward voltage)", "voltages are non-negative, as the emulated output is"]


def diode_nA(vf, i_f, r, v):
    c1 = 2 * 1.380649e-23 * 373.15 / 1.6021766e-19
    i_s = i_f / math.expm1(vf / c1)
    lo, hi = 0.0, v
    for _ in range(90):
        mid = (lo + hi) / 2
        lo, hi = (lo, mid) if i_s * math.expm1(mid / c1) > (v - mid) / r else (mid, hi)
    return 1e9 * (v - lo) / r


def specs():
    """(name, class, kwargs, law(v_uV, on) -> nA, absolute tolerance(v_uV))."""
    from shepherd_core.vsource import target_model as t
    out = []
    for r, c in it.product((0.0011, 1, 47, 1000, 1e6, 1e9), (False, True, None)):
        kw = {"R_Ohm": r} | ({} if c is None else {"controlled": c})
        out.append((f"R{r}{c}", t.ResistiveTarget, kw, lambda v, on, r=r, c=c: v / r * 1e3 if on or not c else 0, lambda v: 0))
    for a, s in it.product((1e-9, 45e-9, 1.888e-3, 0.5), (0, 1e-9, 350e-9, 1e-3, None)):
        kw = {"I_active_A": a} | ({} if s is None else {"I_sleep_A": s})
        out.append((f"I{a},{s}", t.ConstantCurrentTarget, kw, lambda v, on, a=a, s=s: 1e9 * (a if on else s or 0), lambda v: 0))
    for a, s in it.product((1e-9, 9e-3, 0.05, 2), (0, 1e-9, 2.91e-6, 1e-2, None)):
        kw = {"P_active_W": a} | ({} if s is None else {"P_sleep_W": s})
        out.append((f"P{a},{s}", t.ConstantPowerTarget, kw, lambda v, on, a=a, s=s: (a if on else s or 0) / (v * 1e-6) * 1e9 if v > 0 else 0, lambda v: 0))
    for (vf, i_f, r), c in it.product(((2.0, 20e-3, 100), (1.8, 5e-3, 220), (3.2, 20e-3, 50), (0.7, 20e-3, 100), (0.3, 1e-3, 10), (0.25, 1e-2, 100)), (False, True, None)):
        kw = {"V_forward_V": vf, "I_forward_A": i_f, "R_Ohm": r} | ({} if c is None else {"controlled": c})
        out.append((f"D{vf},{i_f},{r},{c}", t.DiodeTarget, kw, lambda v, on, a=(vf, i_f, r), c=c: diode_nA(*a, v * 1e-6) if on or not c else 0,
                    lambda v, r=r, vf=vf: (0.025 if vf >= 1 else 0.25) * v * 1e3 / r))
    shipped = {"diode_target_burn": (lambda v, on: diode_nA(2.0, 20e-3, 100, v * 1e-6), lambda v: 0.025 * v * 10),
               "mcu_msp430fr": (lambda v, on: 16 * 118e3 if on else 350, lambda v: 0), "mcu_msp_deep_sleep": (lambda v, on: 45, lambda v: 0)}
    for n, a, s in (("mcu_nrf52840", 9e-3, 2.91e-6), ("mcu_nrf_tx_8dBm", 49.2e-3, 0), ("mcu_nrf_tx_0dBm", 19.2e-3, 0), ("mcu_nrf_rx", 18.78e-3, 0)):
        shipped[n] = (lambda v, on, a=a, s=s: (a if on else s) / (v * 1e-6) * 1e9 if v > 0 else 0, lambda v: 0)
    for n, (law, tol) in shipped.items():
        out.append((n, lambda n=n: getattr(t, n), {}, law, tol))
    return out


def judge(chk, name, law, tol, got, v, on, how, rep):
    want = law(v, on)
    ok = isinstance(got, (int, float)) and math.isfinite(got) and got >= 0 and abs(got - want) <= 1e-9 * want + tol(v) + 1e-9
    return chk.expect(ok, f"{how}:{name[0] if name[0].isupper() else name}", f"{name} draws {got!r} nA at {v} uV, power-good {on}; law gives {want!r}", rep)


def one(chk: Check, idx):
    name, cls, kw, law, tol = specs()[idx]
    top = 5_000_000
    step = 100 if chk.thorough else 1000
    special = (0, 1, 2, 3, 10, 99, 100, 101, 999_999, 1_000_001, 2_399_999, 4_999_999, 10_000_000)
    with chk.case("law", name):
        tgt = cls(**kw)
        for v, on in it.product(sorted({*range(0, top + 1, step), *special}), (True, False)):
            if not judge(chk, name, law, tol, tgt.step(v, pwr_good=on), v, on, "law", [name, v, on]):
                break
            chk.step()
            chk.ev((name, v, on))
        if name[0] == "D":
            for v in range(0, top, step):
                i = tgt.step(v, pwr_good=True)
                chk.expect(i <= v * 1e3 / (kw["R_Ohm"]) * (1 + 1e-9), "law:limit", f"{name} draws {i} nA, more than the resistor allows at {v} uV", [name, v])
    # histories on one object
    al = tuple(it.product((0, 1, 300_000, 1_800_000, 3_000_000), (True, False)))
    with chk.case("history", name):
        for n in range(1, (5 if chk.thorough else 4)):
            for h in it.product(al, repeat=n):
                tgt = cls(**kw)
                got = None
                for v, on in h:
                    got = tgt.step(v, pwr_good=on)
                    chk.step()
                if not judge(chk, name, law, tol, got, *h[-1], "history", [name, h]):
                    return
                chk.trace()
                chk.ev((name, h))
            chk.state((name, n))


def invalid(chk: Check):
    from shepherd_core.vsource import target_model as t
    bad = [(t.ResistiveTarget, {"R_Ohm": r}) for r in (0, 1e-3, -1, -1e9)]
    bad += [(t.ConstantCurrentTarget, {"I_active_A": a, "I_sleep_A": s}) for a, s in ((0, 0), (-1, 0), (1, -1), (0, 1), (-1e-12, 0), (1e-3, -1e-12))]
    bad += [(t.ConstantPowerTarget, {"P_active_W": a, "P_sleep_W": s}) for a, s in ((0, 0), (-1, 0), (1, -1), (0, 1), (-1e-12, 0), (1e-3, -1e-12))]
    bad += [(t.DiodeTarget, {"V_forward_V": v, "I_forward_A": i, "R_Ohm": r}) for v, i, r in ((0.2, 1e-3, 10), (0, 1e-3, 10), (-1, 1e-3, 10), (2, 0, 10), (2, -1e-3, 10), (2, 1e-3, 1e-3), (2, 1e-3, 0), (2, 1e-3, -10))]
    for c, kw in bad:
        with chk.case("invalid", [c.__name__, kw]):
            try:
                c(**kw)
                chk.fail(f"invalid:{c.__name__}", f"{c.__name__} accepts {kw}", [c.__name__, kw])
            except ValueError:
                chk.step()
            chk.ev((c.__name__, repr(kw)))


def run(chk: Check):
    invalid(chk)
    chk.parallel(one, range(len(specs())))
    chk.sample({"target": "ConstantPower 9 mW", "history": [[0, True], [3000000, True]]})
