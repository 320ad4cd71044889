"""M01: instances of every model over menus of field values, stored and loaded with the real yaml code."""
import datetime as dt
import ipaddress
import itertools as it
import pathlib
import uuid

from mc.lib import Check

RULE = ("enumerated: every concrete model class x every field x every accepted value of a common pool (numbers at container borders, strings that look like other yaml-types, paths, times with and without zone, durations with fractions, addresses, ids, lists), "
        "all pairs of accepted values of two fields (quick: two values per field), every shipped definition; each stored minimal and full, with and without comment, and loaded. "
        "Oracle: loaded == stored, equal hash; hash differs iff instances differ (compared against the base instance and pairwise via a table); other model types refuse the file; immutability, unknown fields, NaN and inf per field. "
        "distinct = distinct instances")
ASSUME = ["user accounts carry secrets that are deliberately not exported and are excluded", "start times of tasks lie in the future (the models demand it)",
          "field values the models refuse are skipped (counted)",
          "ids and names are given in their final form (number instead of text, no surrounding blanks), as definitions are looked up before the values are converted"]

UTC = dt.timezone.utc
FUT = dt.datetime(2999, 5, 4, 3, 2, 1)
POOL = [
    None, True, False, 0, 1, 2, 3, 7, 12, 255, 256, 1000, 65535, 65536, 2**31, 2**32 - 1, 10**12, 2**100, -1, -3,
    0.1, 0.5, 1.5, 2.25, 3.3, 4.7, 12.345678, 999.999, 1e-6, 1e-9, 123456.789, 4.29e6, 1e15 + 0.3, -20.5,
    "text", "A", "B", "1", "007", "0x1F", "1e3", "3.0", "null", "~", "yes", "No", "true", "2020-01-01", "2020-01-01 10:00:00", "12.5.6", "a b", "- x", "# no", "{a}", "[1]", "&a", "%y", "@q", "=", "<<", "_1_0", "1_000", "0o7",
    "key: value", "it's", 'say "x"', "12:30:45", "back\\slash", "tab", "!tag", "ümläut", "x" * 30, "x" * 120,
    "http://some.host:80/path?x=1", "https://h.org", "10.1.2.3", "fe80::1:2", "AA:bb:cc:00:11:22", "main", "buffer", "lzf", "None", "ivcurve", "isc_voc", "cv", "SWD", "JTAG", "OUT", "IO", "X",
    "12345678-1234-4234-9234-123456789abc",
    pathlib.Path("rel/a b.h5"), pathlib.Path("/abs/x.hex"), pathlib.Path("1"), pathlib.Path("null"), pathlib.Path("."),
    dt.timedelta(0), dt.timedelta(seconds=1), dt.timedelta(microseconds=1), dt.timedelta(seconds=1.5), dt.timedelta(days=3, seconds=7, microseconds=999_999), dt.timedelta(milliseconds=100), dt.timedelta(days=4000, microseconds=123_457),
    FUT, FUT.replace(microsecond=1), FUT.replace(microsecond=654_321), FUT.replace(tzinfo=UTC), FUT.replace(microsecond=5, tzinfo=dt.timezone(dt.timedelta(hours=-7, minutes=-30))), FUT.replace(tzinfo=dt.timezone(dt.timedelta(hours=2), "CEST")),
    dt.datetime(2020, 1, 1), dt.date(2021, 12, 31),
    ipaddress.ip_address("10.0.0.1"), ipaddress.ip_address("2001:db8::5"), uuid.UUID(int=0x12345678123442349234123456789ABC),
    [1], [2, 3], [0.5] * 12, [[0.25] * 12] * 12, [[0.0] * 11 + [1.0]] * 12, [],
]


def bases():
    """Class -> a small valid set of arguments."""
    from shepherd_core import data_models as m
    from shepherd_core.data_models import task as t
    from shepherd_core.data_models import testbed as b
    from shepherd_core.data_models.base import calibration as cal
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig, VirtualHarvesterConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig, VirtualSourceConfig
    own = {"owner": "me", "group": "us"}
    eenv = {"name": "eenv_static_2000mV_10mA_3600s"}
    nrf = {"name": "nrf52_demo_rf"}
    tcfg = {"target_IDs": [2], "energy_env": eenv, "firmware1": nrf}
    emu = {"input_path": "/in/a.h5"}
    mod = {"data": "/some/path.elf", "data_type": "path_elf", "firmware_file": "/x/fw.hex"}
    prog = {"firmware_file": "/x/fw.hex", "mcu_type": "nrf52", "protocol": "SWD"}
    obt = {"observer": "sheep01", "owner_id": 3, "time_prep": FUT, "root_path": "/root/p", "abort_on_error": False}
    res = {
        m.CalibrationPair: {"gain": 2.5}, m.CapeData: {"serial_number": "SN1"},
        m.CalibrationHarvester: {}, m.CalibrationEmulator: {}, m.CalibrationCape: {}, m.CalibrationSeries: {},
        m.EnergyEnvironment: {"name": "ee", "data_path": "/d/x.h5", "data_type": "ivsample", "duration": 3, "energy_Ws": 1.5, **own},
        m.Firmware: {"name": "fw", "mcu": {"name": "nRF52"}, "data": "/some/path.elf", "data_type": "path_elf", **own},
        VirtualHarvesterConfig: {"name": "hrv", "algorithm": "mppt_po", **own}, VirtualSourceConfig: {"name": "src", **own},
        HarvesterPRUConfig: HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig(name="mppt_opt")).model_dump(),
        ConverterPRUConfig: ConverterPRUConfig.from_vsrc(VirtualSourceConfig(name="neutral")).model_dump(),
        b.MCU: {"id": 77, "name": "mc", "description": "d", "platform": "p", "core": "c", "prog_protocol": "SWD", "fw_name_default": "nrf52_demo_rf"},
        b.GPIO: {"id": 4711, "name": "io", "reg_pru": "r31_00", "pin_pru": "P8_45"},
        b.Cape: {"id": 4711, "name": "cp", "version": "1", "description": "d"},
        b.Target: {"id": 4711, "name": "tg", "version": "1", "description": "d", "mcu1": "nRF52"},
        b.Observer: {"id": 4711, "name": "ob", "description": "d", "ip": "10.1.1.1", "mac": "00:00:00:00:00:01", "room": "r", "eth_port": "e"},
        b.Testbed: {"id": 4711, "name": "tb", "description": "d", "observers": [{"name": "sheep01"}], "data_on_server": "/a", "data_on_observer": "/b"},
        m.PowerTracing: {}, m.GpioTracing: {}, m.SystemLogging: {},
        m.GpioEvent: {"delay": 1.5, "gpio": {"name": "GPIO7"}, "level": "H"}, m.TargetConfig: tcfg,
        m.Experiment: {"name": "xp", "target_configs": [tcfg]},
        t.EmulationTask: emu, t.HarvestTask: {"output_path": "/out/x.h5"}, t.FirmwareModTask: mod, t.ProgrammingTask: prog,
        t.ObserverTasks: obt, t.TestbedTasks: {"name": "tbt", "owner_id": None, "observer_tasks": [obt]},
    }
    gpios = [n for n in ("GPIO7", "GPIO0", "GPIO1", "GPIO5", "gpio8")]
    for g in gpios:
        try:
            m.GpioEvent(delay=1.5, gpio={"name": g}, level="H")
            res[m.GpioEvent] = {"delay": 1.5, "gpio": {"name": g}, "level": "H"}
            break
        except ValueError:
            continue
    res[m.GpioActuation] = {"events": [res[m.GpioEvent]]}
    # nested values
    extra = {
        (m.CalibrationCape, "harvester"): [{"dac_V_Hrv": {"gain": 3e-5, "offset": 0.125}}], (m.CalibrationCape, "emulator"): [{"adc_C_A": {"gain": 2e-9}}],
        (m.CalibrationCape, "cape"): [{"serial_number": "007", "cal_date": "2020-01-01"}],
        (m.CalibrationSeries, "voltage"): [{"gain": 3.3e-6, "offset": -0.1}], (m.CalibrationHarvester, "dac_V_Hrv"): [{"gain": 1e-5, "offset": 1e-3}],
        (VirtualSourceConfig, "harvester"): [{"name": "cv20"}, {"name": "mine", "algorithm": "mppt_voc", "setpoint_n": 0.8}],
        (b.Observer, "cape"): [{"name": "cape51"}], (b.Target, "mcu2"): ["MSP430FR", {"name": "MSP430FR"}], (b.Observer, "ip"): ["2001:db8::7"],
        (b.Testbed, "observers"): [[{"name": "sheep01"}, {"name": "sheep02"}], [{"name": "sheep0"}]],
        (m.GpioTracing, "gpios"): [[{"name": "GPIO0"}]], (m.GpioTracing, "uart_pin"): [{"name": "GPIO0"}],
        (m.GpioActuation, "events"): [[res[m.GpioEvent]] * 2],
        (m.TargetConfig, "custom_IDs"): [[5], [65535, 0]], (m.TargetConfig, "virtual_source"): [{"name": "BQ25570"}, {"name": "own", "C_intermediate_uF": 47.5}],
        (m.TargetConfig, "power_tracing"): [{}, {"delay": 0.25, "duration": 7}], (m.TargetConfig, "gpio_tracing"): [{}, {"duration": dt.timedelta(minutes=3.3)}],
        (m.TargetConfig, "target_delays"): [[0], [3]], (m.TargetConfig, "gpio_actuation"): [res[m.GpioActuation]], (m.TargetConfig, "firmware2"): [{"name": "msp430_deep_sleep"}],
        (m.Experiment, "sys_logging"): [{"ptp": False}], (m.Experiment, "target_configs"): [[{**tcfg, "power_tracing": {"delay": 1.25}}]],
        (t.EmulationTask, "virtual_source"): [{"name": "dio_cap"}], (t.EmulationTask, "power_tracing"): [{"duration": 0.75}], (t.EmulationTask, "gpio_tracing"): [{"mask": 3}], (t.EmulationTask, "io_port"): ["B"],
        (t.HarvestTask, "virtual_harvester"): [{"name": "ivcurve"}], (t.ObserverTasks, "fw1_mod"): [{**mod, "custom_id": 65535}], (t.ObserverTasks, "fw2_prog"): [{**prog, "mcu_port": 2, "target_port": "B"}],
        (t.ObserverTasks, "emulation"): [{**emu, "time_start": FUT, "duration": 1.5}], (t.TestbedTasks, "observer_tasks"): [[obt, {**obt, "observer": "sheep02"}]],
        (t.FirmwareModTask, "firmware_file"): [pathlib.Path("/u/v.hex")], (t.ProgrammingTask, "firmware_file"): [pathlib.Path("rel/v.HEX")],
    }
    return res, extra


def roundtrip(chk, d, m, rep, others, comment=None, modes=(True, False)):
    cls = type(m)
    h = m.get_hash()
    for minimal in modes:
        f = m.to_file(d / "sub" / "inst.any", comment=comment, minimal=minimal) if comment else m.to_file(d / "inst", minimal=minimal)
        rep2 = {**rep, "minimal": minimal}
        if not chk.expect(f.is_file(), "file:missing", f"{f} was not created", rep2):
            return
        n = cls.from_file(f)
        chk.step()
        if not chk.expect(n == m and n.model_dump() == m.model_dump(), f"trip:{cls.__name__}", lambda: f"loaded differs in {({k: (v, n.model_dump().get(k)) for k, v in m.model_dump().items() if v != n.model_dump().get(k)})}"[:900], rep2):
            return
        chk.expect(n.get_hash() == h, f"hash:{cls.__name__}", "hash of loaded instance differs", rep2)
    for o in others:
        try:
            o.from_file(f)
        except ValueError:
            continue
        chk.fail(f"type:{cls.__name__}", f"file of {cls.__name__} was loaded as {o.__name__}", rep)


def model(chk: Check, item):
    idx, shard, shards = item
    res, extra = bases()
    classes = list(res)
    cls = classes[idx]
    kw0 = res[cls]
    key = cls.__name__
    others = [c for c in classes if c is not cls]
    with chk.tmp() as d:
        with chk.case(f"base:{key}", kw0):
            base = cls(**kw0)
            roundtrip(chk, d, base, {"class": key, "args": kw0}, others, comment="some comment: x")
            chk.expect(base.get_hash() == base.get_hash() and base == cls(**base.model_dump()), f"stable:{key}", "hash or equality is unstable", kw0)
            # immutability, unknown fields
            for f in cls.model_fields:
                before = base.model_dump()
                try:
                    setattr(base, f, before[f])
                    ok = False
                except (ValueError, TypeError, AttributeError):
                    ok = True
                chk.expect(ok and base.model_dump() == before, f"frozen:{key}:{f}", f"field {f} could be set", kw0)
                try:
                    delattr(base, f)
                    ok = False
                except (ValueError, TypeError, AttributeError):
                    ok = True
                chk.expect(ok, f"frozen-del:{key}:{f}", f"field {f} could be deleted", kw0)
                chk.expect(base[f] == getattr(base, f) and f in base, f"access:{key}:{f}", "access as dict differs", kw0)
                for bad in (float("nan"), float("inf"), float("-inf")):
                    try:
                        bad_inst = cls(**{**kw0, f: bad})
                    except (ValueError, TypeError, AttributeError, OverflowError):
                        chk.step()
                        continue
                    chk.fail(f"nan:{key}:{f}", f"{f} = {bad} was accepted as {bad_inst[f]!r}", kw0)
                chk.step()
            chk.expect(set(base.keys()) == set(cls.model_fields), f"keys:{key}", "keys are not the fields", kw0)
            for unknown in ("bogus", "Name", "_x", "comment2"):
                try:
                    cls(**{**kw0, unknown: 1})
                except ValueError:
                    chk.step()
                    continue
                chk.fail(f"unknown:{key}", f"unknown field {unknown} was accepted", kw0)
        # single fields
        table = {}
        fields = list(cls.model_fields)
        accepted = {f: [] for f in fields}
        for f in fields:
            nbase = base.model_dump()
            for v in POOL + extra.get((cls, f), []):
                kw = {**kw0, f: v}
                try:
                    inst = cls(**kw)
                    if f in ("id", "name") and inst[f] != v:
                        continue  # identification has to be given in its final form, see ASSUME
                except (ValueError, TypeError, KeyError, AttributeError, NotImplementedError, ZeroDivisionError, OverflowError):
                    chk.count("refused values")
                    continue
                accepted[f].append((v, inst))
        for f in fields[shard::shards]:
            for v, inst in accepted[f]:
                rep = {"class": key, "field": f, "value": v, "args": kw0}
                with chk.case(f"single:{key}", rep):
                    roundtrip(chk, d, inst, rep, ())
                    h = inst.get_hash()
                    dump = inst.model_dump()
                    generated = {k for k in ("id", "created", "updated_last", "cal_date", "lib_ver") if k in dump and k not in kw0 and k != f}
                    same = {k: x for k, x in dump.items() if k not in generated} == {k: x for k, x in nbase.items() if k not in generated}
                    if not generated:
                        chk.expect((inst == base) == same, f"eq:{key}", "equality and content disagree", rep)
                        chk.expect((h == base.get_hash()) == (inst == base), f"hash-diff:{key}:{f}", f"hash equal: {h == base.get_hash()}, instances equal: {inst == base}", rep)
                    elif not same:
                        chk.expect(h != base.get_hash(), f"hash-diff:{key}:{f}", "different instances have the same hash", rep)
                    if h in table:
                        chk.expect(table[h] == inst, f"hash-coll:{key}", "different instances share a hash", rep)
                    table[h] = inst
                    chk.ev((key, f, repr(v)))
                chk.state((key, f, repr(v)))
                chk.trace()
        # pairs
        lim = 4 if chk.thorough else (1 if len(fields) > 18 else 2)
        heavy = key in {"Experiment", "TargetConfig", "EmulationTask", "ObserverTasks", "TestbedTasks", "VirtualSourceConfig", "HarvestTask"}
        if heavy and not chk.thorough:
            lim = 1
        pick = {}
        for f in fields:
            diff = [(v, i) for v, i in accepted[f] if i[f] != base[f]]
            # later entries are the more unusual ones
            pick[f] = diff[:: max(1, len(diff) // lim)][:lim] if diff else []
        for k, (f, g) in enumerate(it.combinations(fields, 2)):
            if k % shards != shard:
                continue
            for (v, _), (w, _) in it.product(pick[f], pick[g]):
                rep = {"class": key, "fields": [f, g], "values": [v, w], "args": kw0}
                try:
                    inst = cls(**{**kw0, f: v, g: w})
                except (ValueError, TypeError, KeyError, AttributeError, NotImplementedError, ZeroDivisionError, OverflowError):
                    chk.count("refused pairs")
                    continue
                with chk.case(f"pair:{key}", rep):
                    roundtrip(chk, d, inst, rep, (), modes=(True, False) if chk.thorough else (bool(k % 2),))
                    chk.ev((key, f, g, repr(v), repr(w)))
                chk.trace()
    chk.count("instances of " + key, sum(len(a) for a in accepted.values()) if shard == 0 else 0)


def times(chk: Check, item):
    """The same instant written in different zones; many durations."""
    from shepherd_core import data_models as m
    from shepherd_core.data_models import task as t
    with chk.tmp() as d:
        a = [t.HarvestTask(output_path="x", time_start=FUT.replace(tzinfo=UTC).astimezone(dt.timezone(dt.timedelta(minutes=15 * k)))) for k in range(-40, 41, 4)]
        for x in a:
            rep = {"time": x.time_start}
            with chk.case("zone", rep):
                chk.expect(x == a[0] and x.get_hash() == a[0].get_hash(), "zone:hash", f"equal instances hash differently ({x.time_start} vs {a[0].time_start})", rep)
                roundtrip(chk, d, x, rep, ())
                chk.ev(repr(x.time_start))
        for us in [10**k for k in range(12)] + [10**k - 1 for k in range(1, 13)] + [10**k + 1 for k in range(1, 12)] + [k * 99_991 for k in range(1, 60)]:
            rep = {"microseconds": us}
            with chk.case("duration", rep):
                roundtrip(chk, d, m.PowerTracing(delay=dt.timedelta(microseconds=us), duration=dt.timedelta(microseconds=2 * us + 1)), rep, ())
                chk.ev(us)


def shipped(chk: Check, item):
    from shepherd_core.testbed_client import tb_client
    from mc.check_m03 import models
    cls = models()
    typ, names = item
    c = cls[typ]
    with chk.tmp() as d:
        for name in names:
            with chk.case(f"shipped:{typ}:{name}", {"type": typ, "name": name}):
                roundtrip(chk, d, c(name=name), {"type": typ, "name": name}, ())
                chk.ev((typ, name))


def inherited(chk: Check, item):
    """Instances based on a shipped definition with single fields set explicitly, also back to the default of the class."""
    from shepherd_core.testbed_client import tb_client
    from mc.check_m03 import models
    cls = models()
    typ, names = item
    c = cls[typ]
    with chk.tmp() as d:
        for name, how in it.product(names, ("name", "inherit")):
            kw0 = {"name": name} if how == "name" else {"inherit_from": name, "name": "my own", "id": 4711}
            try:
                base = c(**kw0)
            except (ValueError, KeyError):
                continue
            for f, info in c.model_fields.items():
                if f in ("id", "name") or info.is_required():
                    continue
                v = info.get_default(call_default_factory=True)
                rep = {"type": typ, "args": kw0, "field": f, "value": v}
                if v == base[f]:
                    continue
                try:
                    inst = c(**kw0, **{f: v})
                except (ValueError, TypeError, KeyError):
                    chk.count("refused values")
                    continue
                with chk.case(f"inherited:{typ}", rep):
                    roundtrip(chk, d, inst, rep, ())
                    chk.ev((typ, name, how, f))
                chk.trace()


def run(chk: Check):
    res, _ = bases()
    classes = list(res)
    # every concrete model class has to be covered
    from mc.check_m03 import models
    known = {c.__name__.lower() for c in classes}
    skip = {"contentmodel", "user", "inventory", "inventorylist", "pythoninventory", "systeminventory", "targetinventory", "calmeasurementcape", "calmeasurementharvester", "calmeasurementemulator", "calmeasurement", "calmeasurementpair"}
    missing = set(models()) - known - skip
    chk.count("model classes", len(classes))
    chk.count("classes without menu", len(missing))
    heavy = {"Experiment": 4, "TargetConfig": 3, "EmulationTask": 4, "VirtualSourceConfig": 6, "ObserverTasks": 2, "TestbedTasks": 2, "ConverterPRUConfig": 4, "HarvestTask": 3, "VirtualHarvesterConfig": 2}
    items = []
    for i, c in enumerate(classes):
        n = heavy.get(c.__name__, 1) * (2 if chk.thorough else 1)
        items += [(i, s, n) for s in range(n)]
    items.sort(key=lambda x: -heavy.get(classes[x[0]].__name__, 1))
    chk.parallel(model, items, chunks=32)
    chk.parallel(times, [0])
    from shepherd_core.testbed_client import tb_client
    todo = []
    for typ in ("virtualharvesterconfig", "virtualsourceconfig", "energyenvironment", "firmware", "mcu", "gpio", "cape", "target", "observer", "testbed"):
        names = [n for n in tb_client.query_names(typ) if (typ, n) != ("virtualharvesterconfig", "neutral")]
        todo += [(typ, names[i::4]) for i in range(4) if names[i::4]]
    chk.parallel(shipped, todo)
    chk.parallel(inherited, todo)
    chk.sample({"class": "PowerTracing", "field": "delay", "value": dt.timedelta(microseconds=1)})
