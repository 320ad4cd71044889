"""D02: every recorded history of pin states up to the depth, replayed from the waveforms of the real reader."""
import itertools as it

import h5py
import numpy as np

from mc import h5
from mc.lib import Check

RULE = ("enumerated: all sequences of the states of three pins up to the depth x placements of the pins in the register (incl. lowest and highest bit) "
        "x toggling of an unnamed bit; all name/number assignments from a menu; all lengths incl. zero; CSV with each separator. "
        "Oracle: replaying the waveform gives the pin state at each recorded instant, first entry is the initial state, every entry a change. "
        "distinct = distinct (pin history, waveform) pairs")
ASSUME = ["register width is 16 bit as written by the recorder", "recorded instants are strictly increasing"]

T0 = 1_700_000_000_000_000_123
STEPS = (0, 1, 2, 100_000, 100_007, 10**9, 10**10)
BITS = ((0, 1, 2), (15, 3, 7), (8, 0, 15))


def desc(bits, names=("a", "b", "c"), quote=False):
    return "".join(f"{repr(str(b)) if quote else b}:\n  name: {n}\n  pru_reg: r31\n" for b, n in zip(bits, names))


def times(n):
    return [T0 + STEPS[i % len(STEPS)] + (i // len(STEPS)) * 10**11 for i in range(n)]


def check_wf(chk, wf, t, states, rep, key="wf"):
    exp = [(t[i], int(s)) for i, s in enumerate(states) if i == 0 or states[i - 1] != s]
    got = [(int(a), int(b)) for a, b in wf]
    chk.expect(got == exp, f"{key}:entries", f"waveform {got} for states {list(zip(t, states))}", rep)
    # replay
    cur, k = None, 0
    for ts, s in zip(t, states):
        while k < len(got) and got[k][0] <= ts:
            cur = got[k][1]
            k += 1
        if not chk.expect(cur == s, f"{key}:replay", f"replay gives {cur} instead of {s} at {ts}", rep):
            return
    chk.ev((tuple(states), tuple(got)))


def histories(chk: Check, item):
    from shepherd_core import Reader
    first, n = item
    with chk.tmp() as d:
        for rest in it.product(range(8), repeat=n - 1):
            seq = [first, *rest]
            k = (sum((i + 1) * x for i, x in enumerate(seq))) % len(BITS)
            for bits in (BITS if n < 3 or chk.thorough else (BITS[k],)):
                free = 5
                vals = [sum(1 << b for j, b in enumerate(bits) if s >> j & 1) | ((i & 1) << free) | (i % 3 == 2) << 12 for i, s in enumerate(seq)]
                t = times(n)
                rep = {"states": seq, "bits": bits}
                with chk.case("wf", rep):
                    f = h5.make(d / "g.h5", *h5.ramp(1), gpio=(t, vals, desc(bits)))
                    with Reader(f, verbose=False) as r:
                        wfs = r.gpio_to_waveforms()
                        chk.step()
                        chk.expect(set(wfs) == {"a", "b", "c"}, "wf:names", f"waveforms of {set(wfs)}", rep)
                        for j, name in enumerate("abc"):
                            st = [s >> j & 1 for s in seq]
                            check_wf(chk, wfs[name], t, st, {**rep, "pin": name})
                            one = r.gpio_to_waveforms(name)
                            chk.expect(set(one) == {name} and np.array_equal(one[name], wfs[name]), "wf:single", f"waveform of single pin {name} differs", rep)
                    chk.state(seq)
                    chk.trace()


def single_pin(chk: Check, n):
    """Longer histories of one pin."""
    from shepherd_core import Reader
    with chk.tmp() as d:
        for word in range(2**n):
            st = [word >> i & 1 for i in range(n)]
            rep = {"states": st}
            with chk.case("long", rep):
                t = times(n)
                f = h5.make(d / "g.h5", *h5.ramp(1), gpio=(t, [s << 4 | (not s) << 5 for s in st], desc((4, 5), ("p", "q"))))
                with Reader(f, verbose=False) as r:
                    wf = r.gpio_to_waveforms()
                    check_wf(chk, wf["p"], t, st, rep, "long")
                    check_wf(chk, wf["q"], t, [1 - s for s in st], rep, "long")
                chk.step()
                chk.trace()


def naming(chk: Check, item):
    from shepherd_core import Reader
    bits, names, quote = item
    rep = {"bits": bits, "names": names, "quoted": quote}
    with chk.tmp() as d, chk.case("name", rep):
        vals = [0xFFFF, 0] + [1 << b for b in bits] + [0xFFFF & ~(1 << b) for b in bits]
        t = times(len(vals))
        f = h5.make(d / "g.h5", *h5.ramp(1), gpio=(t, vals, desc(bits, names, quote)))
        with Reader(f, verbose=False) as r:
            allw = r.gpio_to_waveforms()
            chk.expect(set(allw) == set(names), "name:all", f"{set(allw)}", rep)
            for b, n in zip(bits, names):
                st = [v >> b & 1 for v in vals]
                num = r.get_gpio_pin_num(n)
                chk.expect(num == b, "name:num", f"pin {n} has number {num} instead of {b}", rep)
                check_wf(chk, r.gpio_to_waveforms(n)[n], t, st, {**rep, "pin": n}, "name")
                check_wf(chk, allw[n], t, st, {**rep, "pin": n}, "name")
            chk.expect(r.get_gpio_pin_num("nope") is None and r.gpio_to_waveforms("nope") == {}, "name:unknown", "unknown pin gives a waveform", rep)
            if not any("uart" in n for n in names):
                chk.expect(r.gpio_to_uart() is None, "name:uart", "text without an uart pin", rep)
        chk.step()


def exports(chk: Check, item):
    from shepherd_data import Reader
    seq, sep = item
    rep = {"states": seq, "separator": sep}
    with chk.tmp() as d, chk.case("csv", rep):
        t = [5, 10**9, 12 * 10**8 + 5000, 99 * 10**9 + 1000, T0][:len(seq)]
        f = h5.make(d / "rec.h5", *h5.ramp(1), gpio=(t, [s << 2 for s in seq], desc((2,), ("gpio2",))))
        before = h5.digest(f)
        with Reader(f, verbose=False) as r:
            for name, wf in r.gpio_to_waveforms().items():
                r.waveform_to_csv(name, wf, sep)
        chk.step()
        out = d / "rec.waveform.gpio2.csv"
        if not chk.expect({p.name for p in d.iterdir()} == ({"rec.h5", out.name} if seq else {"rec.h5"}), "csv:files", f"{list(d.iterdir())}", rep):
            return
        chk.expect(h5.digest(f) == before, "csv:source", "recording was changed", rep)
        if not seq:
            chk.ev("none")
            return
        rows = [ln.split(sep) for ln in out.read_text().splitlines()]
        chk.expect(rows[0] == ["timestamp [s]", "gpio2"], "csv:header", f"header {rows[0]}", rep)
        exp = [(t[i], s) for i, s in enumerate(seq) if i == 0 or seq[i - 1] != s]
        ok = len(rows) == len(exp) + 1 and all(len(a) == 2 and abs(float(a[0]) - b[0] / 1e9) <= 1e-15 * b[0] + 1e-12 and a[1] == str(b[1]) for a, b in zip(rows[1:], exp))
        chk.expect(ok, "csv:rows", f"rows {rows[1:]} instead of {exp}", rep)
        out.write_text("mine")
        with Reader(f, verbose=False) as r:
            for name, wf in r.gpio_to_waveforms().items():
                r.waveform_to_csv(name, wf, sep)
        chk.expect(out.read_text() == "mine", "csv:existing", "existing csv was changed", rep)
        chk.ev((seq, rows))


def run(chk: Check):
    from shepherd_core import Reader
    depth = 5 if chk.thorough else 4
    chk.parallel(histories, [(a, n) for n in range(depth, 0, -1) for a in range(8)])
    chk.parallel(single_pin, range(1, 12 if chk.thorough else 10))
    menus = [("a", "b", "c"), ("gpio1", "gpio10", "gpio"), ("gpio10", "gpio1", "gpio11"), ("tx", "uart_tx", "x"), ("10", "1", "0")]
    menus = [n for m in menus for n in it.permutations(m)]
    chk.parallel(naming, [(b, n, q) for b in BITS + ((1, 10, 0), (2, 1, 15)) for n in menus for q in (False, True) if not (q and n[0].isdigit())]
                 if chk.thorough else [(b, n, q) for b in BITS for n in menus for q in (False, True) if not n[0].isdigit()])
    chk.parallel(exports, [(list(s), sep) for n in range(6) for s in it.product((0, 1), repeat=n) for sep in (";", ",", "|", "\t")])
    with chk.tmp() as d:
        for gpio in (None, ([], [], desc((0, 1, 2)))):
            with chk.case("none", {"group": gpio is not None}):
                f = h5.make(d / "n.h5", *h5.ramp(1), gpio=gpio)
                with Reader(f, verbose=False) as r:
                    chk.expect(r.gpio_to_waveforms() == {} and r.gpio_to_waveforms("a") == {}, "none:wf", "waveform without data")
                    chk.expect(r.gpio_to_uart() is None, "none:uart", "text without data")
                    if gpio is None:
                        chk.expect(r.get_gpio_pin_num("a") is None, "none:num", "pin number without gpio")
                chk.step()
    chk.sample({"states": [1, 5, 5, 2], "bits": BITS[1], "times": times(4)})
