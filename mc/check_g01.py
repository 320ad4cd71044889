"""G01: the event-lists of all actuation events over boundary grids; all tracing-settings over boundary menus."""
import datetime as dt
import itertools as it
from fractions import Fraction as Fr

from mc.lib import Check

RULE = ("enumerated: full grid delay x period x every count 1..4096 (quick: dense at the borders, every 7th between) of actuation events; every shipped gpio x level, own pins (names, directions, switch, wiring); all boundary values of every field alone and in pairs for events, gpio-tracing and power-tracing. "
        "Oracle: delay + k*period in rationals for k < count, acceptance predicates. distinct = distinct (event settings) or verdicts")
ASSUME = ["instants are compared to 0.1 us (guaranteed resolution is 10 us)", "computing power as post-processing is announced, but refused as not implemented"]

DELAY = (1e-5, 0.01, 0.1, 0.3, 1, 7.7, 1e5 / 3, 1e6)
PERIOD = (1e-5, 3e-5, 0.01, 0.07, 0.1, 0.3, 1 / 3, 1, 10, 3600)


def events(chk: Check, item):
    from shepherd_core.data_models.experiment.observer_features import GpioEvent
    from shepherd_core.data_models.testbed import GPIO
    delay, period = item
    g = GPIO(name="GPIO0")
    counts = range(1, 4097) if chk.thorough else sorted({*range(1, 130), *range(130, 4097, 7), 1000, 2048, 4095, 4096})
    base = (Fr(delay), Fr(period))
    for n in counts:
        rep = {"delay": delay, "period": period, "count": n}
        with chk.case("events", rep):
            ev = GpioEvent(delay=delay, gpio=g, level="X", period=period, count=n)
            got = ev.get_events()
            ok = chk.expect(len(got) == n, "events:count", f"{len(got)} instants instead of {n}", rep)
            if ok:
                idx = range(n) if n < 200 or n == 4096 else (0, 1, n // 2, n - 2, n - 1)
                for k in idx:
                    d = abs(Fr(float(got[k])) - (base[0] + k * base[1]))
                    chk.expect(d < Fr(1, 10**7), "events:instant", f"event {k} at {got[k]}, off by {float(d)} s", rep)
                chk.expect(all(a < b for a, b in zip(got[:-1].tolist(), got[1:].tolist())), "events:order", "instants not rising", rep)
            again = ev.get_events()
            chk.expect(len(again) == len(got) and (again == got).all(), "events:repeat", "second call differs", rep)
            chk.step(n)
            chk.ev((delay, period, n))
            chk.state((delay, period, n))
    chk.trace()


def gpios(chk: Check, _):
    """Only outputs for users can be controlled, each gpio is reported once."""
    from shepherd_core.data_models.experiment.observer_features import GpioActuation, GpioEvent
    from shepherd_core.data_models.testbed import GPIO
    from shepherd_core.testbed_client import tb_client
    names = tb_client.query_names("GPIO")
    ok = []
    for n, level in it.product(names, ("L", "H", "X", "Z", "")):
        with chk.case("gpio", (n, level)):
            g = GPIO(name=n)
            good = level in ("L", "H", "X") and "gpio" in g.name.lower() and g.direction in ("IO", "OUT")
            try:
                e = GpioEvent(delay=1, gpio={"name": n}, level=level)
                chk.expect(good, "gpio:accepted", f"{n} with level '{level}' is accepted", (n, level))
                chk.expect(e.gpio == g and e.level == level, "gpio:value", f"{n} gives {e.gpio}", n)
                if level == "L":
                    ok.append(e)
            except ValueError:
                chk.expect(not good, "gpio:rejected", f"{n} with level {level} is rejected", (n, level))
            chk.ev((n, level))
    wires = ({"reg_pru": "r31_00", "pin_pru": "P8_45"}, {"reg_sys": 26, "pin_sys": "P8_14"}, {"reg_pru": "r31_00", "pin_pru": "P8_45", "reg_sys": 0, "pin_sys": "P8_14"})
    for n, dirn, sw, wire, iid in it.product(("GPIO", "GPIO99", "gpio99", "Gpio99", "gPiO 9", "tgt_gpio99", "T-GPIO", "9gpio", "uart_tx", "GP99", "IO99", "g.p.i.o"), (None, "IN", "OUT", "IO"), (None, "sw"), wires, (990, 2**64)):
        rep = {"name": n, "direction": dirn, "switch": sw, "id": iid, **wire}
        with chk.case("own-gpio", rep):
            if n.lower() in {x.lower() for x in names}:
                continue
            g = GPIO(id=iid, name=n, **wire, **({} if dirn is None else {"direction": dirn}), **({} if sw is None else {"dir_switch": sw}))
            good = "gpio" in n.lower() and dirn in ("IO", "OUT")
            chk.expect(g.user_controllable() == good, "own-gpio:controllable", f"counts as {'not ' if good else ''}controllable", rep)
            try:
                e = GpioEvent(delay=1, gpio=g, level="H")
                chk.expect(good and e.gpio == g, "own-gpio:accepted", f"event for {e.gpio}", rep)
            except ValueError:
                chk.expect(not good, "own-gpio:rejected", "event is rejected", rep)
            chk.step()
            chk.ev(tuple(rep.items()))
    for r in range(1, 4):
        for sel in it.product(ok, repeat=r):
            with chk.case("gpios", [e.gpio.name for e in sel]):
                a = GpioActuation(events=list(sel))
                chk.expect(a.get_gpios() == {e.gpio for e in sel}, "gpios", "used gpios", [e.gpio.name for e in sel])
                chk.expect([e.get_events().tolist() for e in a.events] == [e.get_events().tolist() for e in sel], "gpios:events", "events of actuation", None)
                chk.step()
    for n in (0, 1, 2, 1023, 1024, 1025):
        with chk.case("actuation-size", n):
            try:
                GpioActuation(events=n * [ok[0]])
                chk.expect(1 <= n <= 1024, "actuation-size", f"{n} events are accepted", n)
            except ValueError:
                chk.expect(not 1 <= n <= 1024, "actuation-size", f"{n} events are rejected", n)
            chk.step()


S = dt.timedelta
TIMES = (S(0), S(microseconds=1), S(seconds=1.5), S(days=9), S(microseconds=-1), S(days=-1), 3, 0, -3, -0.5)


def neg(x):
    return x is not None and (x if isinstance(x, S) else S(seconds=x)) < S(0)


EVENT = {"delay": (1e-9, 1e-5, 1, 1e9, 0, -1, float("nan"), float("inf")), "period": (1e-5, 1.00001e-5, 1, 1e9, 0.99e-5, 0, -1, float("nan")), "count": (1, 2, 4096, 0, 4097, -1, 1.5), "level": ("L", "H", "X", "low", 1)}
GPIO_T = {"mask": (1, 512, 1023, 0, 1024, -1), "delay": TIMES, "duration": (None, *TIMES), "uart_decode": (True, False), "uart_baudrate": (2400, 9600, 921_600, 2399, 921_601, 0), "gpios": (None, 1, 2, 10, 0, 11)}
PWR_T = {"intermediate_voltage": (True, False), "delay": TIMES, "duration": (None, *TIMES), "calculate_power": (False, True), "samplerate": (10, 500, 100_000, 9, 100_001), "discard_current": (False, True), "discard_voltage": (False, True)}


def fin(x):
    return x == x and abs(x) != float("inf")


def good_event(k):
    d, p, n, lv = (k.get(f, x) for f, x in (("delay", 1), ("period", 1), ("count", 1), ("level", "L")))
    return fin(d) and d > 0 and fin(p) and p >= 10e-6 and isinstance(n, int) and 1 <= n <= 4096 and lv in ("L", "H", "X")


def good_gpio(k):
    return 0 < k.get("mask", 1023) < 1024 and not neg(k.get("delay", 0)) and not neg(k.get("duration")) and 2400 <= k.get("uart_baudrate", 115_200) <= 921_600 and k.get("gpios") in (None, 1, 2, 10)


def good_pwr(k):
    return not neg(k.get("delay", 0)) and not neg(k.get("duration")) and not k.get("calculate_power") and 10 <= k.get("samplerate", 100_000) <= 100_000 and not (k.get("discard_current") and k.get("discard_voltage"))


def settings(chk: Check, item):
    from shepherd_core.data_models import GpioTracing, PowerTracing
    from shepherd_core.data_models.experiment.observer_features import GpioEvent
    from shepherd_core.data_models.testbed import GPIO
    kind, fields = item
    menu, good, cls = {"event": (EVENT, good_event, GpioEvent), "gpio": (GPIO_T, good_gpio, GpioTracing), "power": (PWR_T, good_pwr, PowerTracing)}[kind]
    for vals in it.product(*(menu[f] for f in fields)):
        kw = dict(zip(fields, vals))
        arg = dict(kw)
        if arg.get("gpios") is not None:
            arg["gpios"] = [GPIO(name=f"GPIO{k % 8}") for k in range(arg["gpios"])]
        if kind == "event":
            arg = {"delay": 1, "gpio": {"name": "GPIO8"}, "level": "L", **arg}
        with chk.case(f"{kind}", kw):
            try:
                x = cls(**arg)
                if chk.expect(good(kw), f"{kind}:accepted", f"settings {kw} are accepted", kw):
                    for f, v in arg.items():
                        if f != "gpio":
                            w = S(seconds=v) if f in ("delay", "duration") and kind != "event" and isinstance(v, (int, float)) else v
                            got = S(seconds=x[f]) if isinstance(w, S) and not isinstance(x[f], S) else x[f]
                            chk.expect(got == w, f"{kind}:value:{f}", f"{f} is {x[f]} instead of {v}", kw)
            except (ValueError, NotImplementedError):
                chk.expect(not good(kw), f"{kind}:rejected", f"settings {kw} are rejected", kw)
        chk.ev((kind, repr(sorted(kw.items(), key=str))))


DEFAULTS = {"PowerTracing": {"intermediate_voltage": False, "delay": S(0), "duration": None, "calculate_power": False, "samplerate": 100_000, "discard_current": False, "discard_voltage": False},
            "GpioTracing": {"mask": 1023, "gpios": None, "delay": S(0), "duration": None, "uart_decode": False, "uart_baudrate": 115_200},
            "SystemLogging": {"dmesg": True, "ptp": True, "shepherd": True}}


def defaults(chk: Check, _):
    """What is not asked for has its documented default."""
    from shepherd_core import data_models
    from shepherd_core.data_models.experiment.observer_features import GpioEvent
    from shepherd_core.data_models.testbed import GPIO
    for name, want in DEFAULTS.items():
        for given in (None, *want):
            with chk.case("default", (name, given)):
                kw = {} if given is None else {given: want[given]}
                x = getattr(data_models, name)(**kw)
                for f, w in want.items():
                    got = S(seconds=x[f]) if isinstance(w, S) and not isinstance(x[f], S) else x[f]
                    chk.expect(got == w and isinstance(got, bool) == isinstance(w, bool), f"default:{name}:{f}", f"{f} is {x[f]} instead of {w}", (name, given))
                chk.step()
                chk.ev((name, given))
    with chk.case("default", "GpioEvent"):
        e = GpioEvent(delay=2, gpio=GPIO(name="GPIO0"), level="X")
        chk.expect(e.get_events().tolist() == [2.0] and e.count == 1, "default:event", f"{e}", None)
    with chk.case("default", "uart-pin"):
        chk.expect(data_models.GpioTracing().uart_pin == GPIO(name="GPIO8"), "default:uart-pin", "other pin for uart", None)


def run(chk: Check):
    defaults(chk, None)
    gpios(chk, None)
    chk.parallel(events, list(it.product(DELAY, PERIOD)))
    top = 3 if chk.thorough else 2
    chk.parallel(settings, [(k, f) for k, m in (("event", EVENT), ("gpio", GPIO_T), ("power", PWR_T)) for n in range(1, top + 1) for f in it.combinations(m, n)])
    chk.parallel(settings, [("event", tuple(EVENT)), ("power", tuple(PWR_T))] if chk.thorough else [("event", tuple(EVENT))])
    chk.sample({"delay": 0.1, "period": 0.07, "count": 4096})
