"""X01: all task models over border values, fields alone and in pairs; tasks from firmware."""
import datetime as dt
import itertools as it
import math
import pathlib

from mc import lab
from mc.lib import Check

RULE = ("enumerated: for each task model all values of a menu with all borders for every field alone, for every pair of fields (thorough: also every triple), every unknown field, every choice with all words similar to an allowed one (fragments, cases, additions, combinations); all firmware types x names x destinations for tasks made from a firmware. "
        "Oracle: acceptance predicate per field and combination, given values and documented defaults are kept. distinct = distinct (model, fields, verdict)")
ASSUME = ["values of another type that can be converted without loss (numbers as text, enum members) may be accepted", "starts in this check are far from now or clearly past; notations and zones are in Z01"]

S = dt.timedelta
UTC = dt.timezone.utc
FUT = dt.datetime(2999, 1, 2, 3, 4, 5, tzinfo=UTC)
NO = object()  # rejected
nan, inf = math.nan, math.inf


def same(*vals):
    return [(v, v) for v in vals]


BOOL = same(True, False)
VERB = [*same(0, 1, 2, 3, 4), (-1, NO), (5, NO), (1.5, NO), (100, NO), (None, NO)]
DUR = [(None, None), (S(0), S(0)), (S(microseconds=1), S(microseconds=1)), (30, S(seconds=30)), (0, S(0)), (0.25, S(seconds=0.25)), (S(days=900), S(days=900)),
       (S(microseconds=-1), NO), (S(days=-1), NO), (-1, NO), (-0.5, NO), ("x", NO)]
START = [(None, None), (FUT, FUT), (FUT.timestamp(), FUT), (FUT.isoformat(), FUT), (dt.datetime(2001, 1, 1), NO), (dt.datetime(2001, 1, 1, tzinfo=UTC), NO), (0, NO), (1, NO), ("2001-02-03T04:05:06", NO), ("soon", NO)]
COMP = [("lzf", "lzf"), (1, "1"), ("1", "1"), (None, None), ("None", "None"), ("gzip", NO), (2, NO), (0, NO), ("zip", NO)]
PATH = [("/a/b.h5", pathlib.Path("/a/b.h5")), ("rel", pathlib.Path("rel")), (pathlib.Path("/x"), pathlib.Path("/x"))]
PORT = [("A", "A"), ("B", "B"), ("a", NO), ("C", NO), (None, NO), (0, NO)]
AUX = [(0, 0), (4.5, 4.5), (1e-9, 1e-9), (3, 3), ("main", "main"), ("buffer", "buffer"), (4.5000001, NO), (5, NO), (-1e-9, NO), (-1, NO), (nan, NO), (inf, NO), ("mid", NO), ("Main", NO), ("intermediate", NO), (None, NO)]


def models():
    from shepherd_core.data_models import GpioActuation, GpioTracing, PowerTracing, SystemLogging, VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.experiment.observer_features import GpioEvent
    from shepherd_core.data_models.task import EmulationTask, FirmwareModTask, HarvestTask, ProgrammingTask
    from shepherd_core.data_models.testbed import GPIO
    act = GpioActuation(events=[GpioEvent(delay=1, gpio=GPIO(name="GPIO0"), level="H")])
    pt, gt, sl = PowerTracing(delay=3), GpioTracing(mask=5), SystemLogging(ptp=False)
    common = {"force_overwrite": BOOL, "output_compression": COMP, "time_start": START, "duration": DUR, "abort_on_error": BOOL, "use_cal_default": BOOL, "verbose": VERB,
              "sys_logging": [(None, None), (sl, sl), ({"ptp": False}, sl)], "wrong": [(1, NO), (None, NO)]}
    defs = {"force_overwrite": False, "output_compression": "lzf", "time_start": None, "duration": None, "abort_on_error": False, "use_cal_default": False, "verbose": 2, "sys_logging": SystemLogging()}
    mppt, neutral = VirtualHarvesterConfig(name="mppt_opt"), VirtualSourceConfig(name="neutral")
    cv, dio = VirtualHarvesterConfig(name="cv24"), VirtualSourceConfig(name="dio_cap")
    yield (HarvestTask, {"output_path": "/o"}, {**defs, "virtual_harvester": mppt, "power_tracing": PowerTracing()},
           {**common, "output_path": [*PATH, (None, NO)], "virtual_harvester": [(cv, cv), ({"name": "cv24"}, cv), ({"name": "nosuch"}, NO)], "power_tracing": [(pt, pt), ({"delay": 3}, pt), (None, NO), ({"samplerate": 1}, NO)]})
    yield (EmulationTask, {"input_path": "/i"},
           {**defs, "output_path": None, "enable_io": False, "io_port": "A", "pwr_port": "A", "voltage_aux": 0, "virtual_source": neutral, "power_tracing": PowerTracing(), "gpio_tracing": GpioTracing(), "gpio_actuation": None},
           {**common, "input_path": [*PATH, (None, NO)], "output_path": [*PATH, (None, None)], "enable_io": BOOL, "io_port": PORT, "pwr_port": PORT, "voltage_aux": AUX,
            "virtual_source": [(dio, dio), ({"name": "dio_cap"}, dio), ({"name": "nosuch"}, NO)], "power_tracing": [(pt, pt), ({"delay": 3}, pt), (None, None)],
            "gpio_tracing": [(gt, gt), ({"mask": 5}, gt), (None, None), ({"mask": 0}, NO)], "gpio_actuation": [(None, None), (act, NO)]})
    hexes = [(f"/d/f{x}", pathlib.Path(f"/d/f{x}")) for x in (".hex", ".HEX", ".Hex", ".ihex", ".ihx", ".IHX", ".v1.hex")]
    nohex = [(f"/d/f{x}", NO) for x in ("", ".elf", ".bin", ".o", ".out", ".so", ".txt", ".hex.elf", ".h5", "hex", "/.hex")]
    yield (ProgrammingTask, {"firmware_file": "/f.hex", "mcu_type": "nrf52", "protocol": "SWD"}, {"target_port": "A", "mcu_port": 1, "voltage": 3, "datarate": 200_000, "simulate": False, "verbose": 2},
           {"firmware_file": [*hexes, *nohex, (None, NO)], "target_port": PORT, "mcu_port": [*same(1, 2), (0, NO), (3, NO), (-1, NO), (None, NO), (1.5, NO)], "mcu_type": [*same("nrf52", "msp430", "other"), ("", NO), ("ä", NO), (None, NO)],
            "voltage": [*same(1, 1.0000001, 3.3, 4.9999999, 5), (5.0000001, NO), (0.9999999, NO), (0, NO), (-3, NO), (nan, NO), (inf, NO), (50, NO), (None, NO)],
            "datarate": [*same(1, 2, 115_200, 999_999, 1_000_000), (0, NO), (-1, NO), (1_000_001, NO), (10_000_000, NO), (None, NO), (0.5, NO)],
            "protocol": [("SWD", "SWD"), ("SBW", "SBW"), ("JTAG", "JTAG"), ("UART", "UART"), ("swd", NO), ("I2C", NO), (None, NO)], "simulate": BOOL, "verbose": VERB, "wrong": [(1, NO)]})
    yield (FirmwareModTask, {"data": "/a.elf", "data_type": "path_elf", "firmware_file": "/f.hex"}, {"custom_id": None, "verbose": 2},
           {"data": [("/x/y.elf", "/x/y.elf"), (pathlib.Path("/x/y.elf"), "/x/y.elf"), ("QUJD" * 300, "QUJD" * 300), (None, NO)], "data_type": [*((x, x) for x in ("path_elf", "path_hex", "elf", "hex")), ("base64", NO), ("ELF", NO), (None, NO)],
            "custom_id": [*same(None, 0, 1, 42, 0xFFFF), (0x10000, NO), (-1, NO), (2**32, NO), (1.5, NO), ("x", NO)], "firmware_file": [*PATH, (None, NO)], "verbose": VERB, "wrong": [(1, NO)]})


def fields(chk: Check, item):
    name, sel = item
    cls, base, defaults, menu = next(m for m in models() if m[0].__name__ == name)
    for combo in it.product(*(menu[f] for f in sel)):
        kw = {**base, **{f: v for f, (v, _) in zip(sel, combo)}}
        bad = [f for f, (_, w) in zip(sel, combo) if w is NO]
        rep = {"model": name, **{f: repr(v)[:80] for f, (v, _) in zip(sel, combo)}}
        with chk.case("accept", rep):
            try:
                got = cls(**kw)
            except ValueError as xcp:
                chk.expect(bad, f"{name}:rejected", f"rejected: {str(xcp)[:300]}", rep)
            else:
                if chk.expect(not bad, f"{name}:accepted:{'+'.join(bad)}", f"{bad} is accepted: {[repr(got[f])[:60] for f in bad if f in cls.model_fields]}", rep):
                    want = {**defaults, **{f: w for f, (_, w) in zip(sel, combo)}}
                    for f, w in want.items():
                        chk.expect(getattr(got, f) == w and (isinstance(w, bool) == isinstance(getattr(got, f), bool)), f"{name}:value:{f}", f"{f} is {getattr(got, f)!r:.80} instead of {w!r:.80}", rep)
                    for f in base:
                        if f not in sel:
                            chk.expect(str(getattr(got, f)) == str(base[f]), f"{name}:base:{f}", f"{f} is {getattr(got, f)!r:.80}", rep)
                    chk.expect(all(not isinstance(kw[f], dict) or v[0] == kw[f] for f, v in zip(sel, combo)), f"{name}:argument", "arguments were changed", rep)
            chk.step()
            chk.ev((name, sel, tuple(repr(v)[:60] for v, _ in combo), bool(bad)))
            chk.state((name, sel, tuple(repr(v)[:60] for v, _ in combo)))
    chk.trace()


def words(chk: Check, item):
    """Choices: everything that is similar to an allowed word."""
    name, field = item
    cls, base, _, menu = next(m for m in models() if m[0].__name__ == name)
    allowed = {v: w for v, w in menu[field] if isinstance(v, str) and w is not NO}
    sim = {""}
    for w in allowed:
        sim |= {w[a:b] for a in range(len(w)) for b in range(a + 1, len(w) + 1)} | {w.upper(), w.lower(), w.title(), w.swapcase()}
        sim |= {w + c for c in "sx_1,."} | {c + w for c in "sx_1,."} | {w + s + v for v in allowed for s in ("", " ", ",", ", ", "|", "/")} | {w[:k] + w[k + 1:] for k in range(len(w))}
    sim |= {" ".join(allowed), ", ".join(allowed), str(list(allowed)), "None", "null", "default", "0", "-1", "nan", "inf", "True"}
    for v in sorted(sim - {x for x, w in menu[field] if w is not NO}) + sorted(allowed):
        rep = {"model": name, field: v}
        with chk.case("word", rep):
            try:
                got = getattr(cls(**{**base, field: v}), field)
            except ValueError:
                chk.expect(v not in allowed, f"{name}:word:{field}", f"'{v}' is rejected", rep)
            else:
                chk.expect(v in allowed and got == allowed[v], f"{name}:word:{field}", f"'{v}' is accepted as {got!r}", rep)
            chk.step()
            chk.ev((name, field, v))
            chk.state((name, field, v))
    chk.trace()


def firmware(chk: Check, _):
    """Tasks made from a firmware."""
    from shepherd_core.data_models import Firmware
    from shepherd_core.data_models.task import FirmwareModTask
    from shepherd_core.fw_tools import file_to_base64
    own = {"owner": "o", "group": "g"}
    with chk.tmp() as d:
        src = d / "src.elf"
        src.write_bytes(b"some data" * 20)
        emb = file_to_base64(src)
        (d / "dir").mkdir()
        (d / "dir.hex").mkdir()
        for dtype, mcu, name, dst, cid, verb in it.product(("elf", "hex", "path_elf", "path_hex"), ("nRF52", "MSP430FR"), ("fw", "FW 2", "a-b_c", "v1.2", "v1.3", "app.elf", ".", "x.y.hex", "end."), ("dir", "dir.hex", "new.hex", "dir/x.hex", "sub/new"), (None, 0, 7, 0xFFFF, 0x10000), (None, 0, 4, 5)):
            rep = {"type": dtype, "name": name, "destination": dst, "id": cid, "verbose": verb}
            with chk.case("firmware", rep):
                fw = Firmware(name=name, mcu={"name": mcu}, data=emb if not dtype.startswith("path") else str(src), data_type=dtype, **own)
                kw = {} if cid is None else {"custom_id": cid}
                kw.update({} if verb is None else {"verbose": verb})
                before = sorted(d.rglob("*"))
                bad = cid == 0x10000 or verb == 5
                try:
                    t = FirmwareModTask.from_firmware(fw, firmware_file=d / dst, **kw)
                except ValueError:
                    chk.expect(bad, "firmware:rejected", "task is rejected", rep)
                else:
                    chk.expect(not bad, "firmware:accepted", "id or verbosity out of range are accepted", rep)
                    plain = name[:-4] if name.endswith((".elf", ".hex")) else name
                    want = d / dst / f"{plain}.hex" if (d / dst).is_dir() else d / dst
                    chk.expect(t.firmware_file == want, "firmware:file", f"{t.firmware_file} instead of {want}", rep)
                    chk.expect(t.data == fw.data and t.data_type == dtype and t.custom_id == cid and t.verbose == (2 if verb is None else verb), "firmware:values", f"{t!r:.200}", rep)
                chk.expect(sorted(d.rglob("*")) == before, "firmware:files", "files were written", rep)
                chk.step()
                chk.ev((dtype, name, dst, cid, verb))
        for x in (None, {"name": "nrf52_demo_rf"}, "nrf52_demo_rf", 1):
            with chk.case("firmware:type", repr(x)):
                try:
                    FirmwareModTask.from_firmware(x, firmware_file=d / "f.hex")
                    chk.fail("firmware:type", f"{x!r} counts as firmware")
                except (TypeError, ValueError):
                    chk.step()
    chk.trace()


def run(chk: Check) -> None:
    lab.setup()
    items = []
    for cls, _, _, menu in models():
        for r in range(4 if chk.thorough else 3):
            items += [(cls.__name__, sel) for sel in it.combinations(menu, r)]
    chk.sample(items[-1])
    chk.parallel(fields, items)
    chk.parallel(words, [(cls.__name__, f) for cls, _, _, menu in models() for f in ("output_compression", "io_port", "pwr_port", "voltage_aux", "target_port", "protocol", "data_type") if f in menu])
    chk.parallel(firmware, [0])
