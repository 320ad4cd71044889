"""E02: task sets of every accepted experiment over menus, compared with a reference mapping; clock schedules during generation."""
import datetime as dt
import itertools as it
import pathlib
import sys

from mc import lab
from mc.lib import Check

RULE = ("enumerated on the lab testbed: all ordered target selections up to size 3 (quick) / 4 (thorough) with own configurations per target (firmware pairs, custom ids, energy, source, tracing), grouped configurations, all combinations of experiment-level settings; "
        "all positions of a second-change of the clock during the generation of an asap-experiment. Oracle: reference mapping experiment -> tasks written from the model documentation; task sets also taken through the file and through prepare_task / extract_tasks. "
        "distinct = distinct task sets")
ASSUME = ["gpio-actuation is announced but not implemented: tasks for it are refused", "start times lie in the future"]

FUT = dt.datetime(2999, 5, 4, 3, 2, 1)
EENV = ("eenv_static_2000mV_10mA_3600s", "eenv_static_3000mV_50mA_3600s", "SolarSunny")
SRC = ("neutral", "BQ25570", "dio_cap")
PT = (None, {}, {"delay": 1.5, "duration": 7, "discard_current": True}, {"intermediate_voltage": True, "samplerate": 500})
GT = (None, {}, {"mask": 5, "delay": 2}, {"uart_decode": True, "uart_baudrate": 9600, "uart_pin": {"name": "GPIO0"}})
FWS = {41: (("nrf52_demo_rf", None), ("nrf52_testable", "msp430_testable")), 42: (("nrf52_rf_test", None), ("nrf52_demo_rf", None)), 65578: (("nrf52_testable", "msp430_deep_sleep"), ("nrf52_demo_rf", None)),
       43: (("nrf52_demo_rf", "msp430_spi_fram"), ("nrf52_rf_survey", None)), 44: (("msp430_testable", "nrf52_testable"), ("msp430_deep_sleep", None)),
       51: (("fw-mcu-a", "fw-mcu-b"), ("fw-mcu-a", None)), 52: (("fw-mcu-b", "fw-mcu-a"), ("fw-mcu-b", None))}
USE = tuple(FWS)
_c = {}


def ready():
    if "info" not in _c:
        _c["info"] = lab.setup()
        from shepherd_core.data_models.testbed import Testbed
        _c["tb"] = Testbed()
    return _c["info"], _c["tb"]


def tcfg(ids, custom, fw, ee, src, pt, gt):
    key = (ids, custom, fw, ee, src, pt, gt)
    if key not in _c:
        from shepherd_core.data_models import TargetConfig
        _c[key] = TargetConfig(target_IDs=list(ids), **({} if custom is None else {"custom_IDs": list(custom)}), energy_env={"name": EENV[ee]}, virtual_source={"name": SRC[src]},
                               firmware1={"name": fw[0]}, **({} if fw[1] is None else {"firmware2": {"name": fw[1]}}), power_tracing=PT[pt], gpio_tracing=GT[gt])
    return _c[key]


def mcu_of(info, i, n):
    return info[i][f"mcu{n}"]


def verify(chk, xp, xkw, cfgs, tbt, tb, info, rep, start=None):
    """cfgs: list of (ids, custom, fw, ee, src, pt, gt); start: reference start for the directory or None = unknown."""
    from shepherd_core.data_models import EnergyEnvironment, Firmware, GpioTracing, PowerTracing, SystemLogging, VirtualSourceConfig
    from shepherd_core.data_models.testbed import MCU
    order = [(i, c, k) for c in cfgs for k, i in enumerate(c[0])]
    ok = chk.expect([t.observer for t in tbt.observer_tasks] == [f"lab{info[i]['obs']:02}" for i, _, _ in order], "set:observers", lambda: f"tasks for {[t.observer for t in tbt.observer_tasks]}", rep)
    chk.expect(tbt.name == xkw["name"] and tbt.owner_id == xkw.get("owner_id") and tbt.email_results == xkw.get("email_results", False), "set:meta", "name, owner or email of task set", rep)
    if not ok:
        return
    chk.expect(tbt.get_observer_tasks("lab99") is None and tbt.get_observer_tasks("lab0") is None, "set:unknown", "unknown observer has tasks", rep)
    roots = {t.root_path for t in tbt.observer_tasks}
    chk.expect(len(roots) == 1, "set:root", f"several output directories {roots}", rep)
    root = roots.pop()
    chk.expect(root.parent == pathlib.Path("/obs/data/experiments") and root.name.startswith(xkw["name"] + "_"), "set:root-place", f"output directory {root}", rep)
    if start is not None:
        chk.expect(root.name == f"{xkw['name']}_{start:%Y-%m-%d_%H-%M-%S}", "set:root-name", f"output directory {root} for start {start}", rep)
    outs = tbt.get_output_paths()
    chk.expect(outs == {f"lab{info[i]['obs']:02}": root / f"emu_lab{info[i]['obs']:02}.h5" for i, _, _ in order}, "set:outputs", f"outputs {outs}", rep)
    for (i, cfg, k), t in zip(order, tbt.observer_tasks):
        ids, custom, fw, ee, src, pt, gt = cfg
        r = {**rep, "target": i}
        obs = f"lab{info[i]['obs']:02}"
        chk.expect(tbt.get_observer_tasks(obs) == t, "obs:lookup", "wrong tasks for observer", r)
        chk.expect(t.owner_id == xkw.get("owner_id") and t.abort_on_error == xkw.get("abort_on_error", False), "obs:meta", "owner or abort flag", r)
        if start is not None:
            exp = start - dt.timedelta(seconds=240)
            a, b = (x.astimezone() if x.tzinfo is None else x for x in (t.time_prep, exp))
            chk.expect(a == b, "obs:prep", f"preparation at {t.time_prep} instead of {exp}", r)
        node = info[i]["tbid"] if custom is None else custom[k]
        names = []
        for n in (1, 2):
            mod, prog = getattr(t, f"fw{n}_mod"), getattr(t, f"fw{n}_prog")
            if fw[n - 1] is None:
                chk.expect(mod is None and prog is None, "fw:none", f"firmware task {n} without firmware", r)
                continue
            if not chk.expect(mod is not None and prog is not None, "fw:missing", f"firmware task {n} is missing", r):
                continue
            f = Firmware(name=fw[n - 1])
            mcu = MCU(name=mcu_of(info, i, n))
            file = root / f"fw{n}_{obs}.hex"
            names += [f"fw{n}_mod"]
            chk.expect((mod.data, mod.data_type) == (f.data, f.data_type), "fw:data", f"firmware {n} is {str(mod.data)[:60]}", r)
            chk.expect(mod.custom_id == node, "fw:node", f"node id {mod.custom_id} instead of {node}", r)
            chk.expect(mod.firmware_file == file and prog.firmware_file == file, "fw:file", f"{mod.firmware_file} is created, {prog.firmware_file} programmed", r)
            chk.expect(prog.target_port == info[i]["port"] and prog.mcu_port == n, "fw:port", f"programs port {prog.target_port}, controller {prog.mcu_port}", r)
            chk.expect((prog.mcu_type, prog.voltage, prog.datarate, prog.protocol) == (mcu.name, mcu.prog_voltage, mcu.prog_datarate, mcu.prog_protocol), "fw:settings",
                       f"programmer settings {(prog.mcu_type, prog.voltage, prog.datarate, prog.protocol)}", r)
            chk.expect(prog.simulate is False, "fw:simulate", "simulated programming", r)
        e = t.emulation
        if not chk.expect(e is not None, "emu:missing", "no emulation", r):
            continue
        exp = {"input_path": EnergyEnvironment(name=EENV[ee]).data_path, "output_path": root / f"emu_{obs}.h5", "duration": xkw.get("duration"), "abort_on_error": xkw.get("abort_on_error", False),
               "enable_io": GT[gt] is not None, "io_port": info[i]["port"], "pwr_port": info[i]["port"], "virtual_source": VirtualSourceConfig(name=SRC[src]),
               "power_tracing": None if PT[pt] is None else PowerTracing(**PT[pt]), "gpio_tracing": None if GT[gt] is None else GpioTracing(**GT[gt]), "gpio_actuation": None,
               "sys_logging": SystemLogging(**xkw["sys_logging"]) if "sys_logging" in xkw else SystemLogging(dmesg=True, ptp=True, shepherd=True), "use_cal_default": False, "force_overwrite": False, "voltage_aux": 0}
        for f, v in exp.items():
            chk.expect(e[f] == v, f"emu:{f}", f"{f} is {str(e[f])[:200]} instead of {str(v)[:200]}", r)
        ts = xkw.get("time_start")
        if ts is None:
            chk.expect(e.time_start is None, "emu:start", f"start {e.time_start} for an asap-experiment", r)
        else:
            want = ts.astimezone() if ts.tzinfo is None else ts
            chk.expect(e.time_start == want and e.time_start.tzinfo is not None, "emu:start", f"start {e.time_start} instead of {want}", r)
        tasks = t.get_tasks()
        chk.expect(len(tasks) == 2 * sum(f is not None for f in fw) + 1 and all(any(x is y for y in tasks) for x in (t.fw1_mod, t.fw2_mod, t.fw1_prog, t.fw2_prog, e) if x is not None), "obs:tasks", f"{len(tasks)} tasks", r)
        mods = [k2 for k2, x in enumerate(tasks) if type(x).__name__ == "FirmwareModTask"]
        progs = [k2 for k2, x in enumerate(tasks) if type(x).__name__ == "ProgrammingTask"]
        chk.expect(type(tasks[-1]).__name__ == "EmulationTask" and (not mods or max(mods) < min(progs)), "obs:order", "order of tasks: modify, program, emulate", r)


def handle(chk, key, xkw, cfgs, files=False, d=None):
    from shepherd_core.data_models import Experiment
    from shepherd_core.data_models.task import TestbedTasks, extract_tasks, prepare_task
    info, tb = ready()
    rep = {"experiment": xkw, "target configurations (ids, custom ids, firmware, env, source, power-, gpio-tracing)": cfgs}
    with chk.case(key, rep):
        xp = Experiment(**xkw, target_configs=[tcfg(*c) for c in cfgs])
        before = xp.get_hash()
        tbt = TestbedTasks.from_xp(xp, tb)
        chk.step()
        verify(chk, xp, xkw, cfgs, tbt, tb, info, rep, xkw.get("time_start"))
        chk.expect(xp.get_hash() == before, f"{key}:changed", "experiment was changed", rep)
        chk.ev((key, repr(cfgs), repr(xkw)))
        chk.state(repr(cfgs))
        chk.trace()
        if files:
            for minimal in (True, False):
                f = tbt.to_file(d / "tasks.yaml", minimal=minimal)
                again = TestbedTasks.from_file(f)
                chk.expect(again == tbt, f"{key}:file", "task set differs after loading", rep)
                for t in tbt.observer_tasks:
                    for src in (f, str(f), tbt):
                        w = prepare_task(src, t.observer)
                        got = extract_tasks(w)
                        chk.expect(w.datatype == "ObserverTasks" and got == t.get_tasks(), f"{key}:prepared", f"tasks prepared for {t.observer} differ", rep)
                        chk.step()
                try:
                    prepare_task(f, "lab99")
                    chk.fail(f"{key}:prepared-unknown", "tasks for unknown observer", rep)
                except ValueError:
                    pass
                w = prepare_task(f)
                chk.expect(extract_tasks(w, no_task_sets=False) == [tbt], f"{key}:whole", "whole task set differs", rep)
                try:
                    extract_tasks(w)
                    chk.fail(f"{key}:whole-allowed", "task set was accepted", rep)
                except ValueError:
                    pass
                for t in tbt.observer_tasks[0].get_tasks():
                    w = prepare_task(t)
                    chk.expect(extract_tasks(w) == [t], f"{key}:single", "single task differs", rep)


def cfg_for(i, k, custom=None):
    """Rotating settings, so that neighbours differ in everything."""
    return ((i,), custom, FWS[i][k % 2], k % 3, (k + 1) % 3, k % 4, (k + 2) % 4)


def selections(chk: Check, sel):
    info, _ = ready()
    if len({info[i]["obs"] for i in sel}) < len(sel):
        return
    with chk.tmp() as d:
        variants = range(4) if chk.thorough else range(2) if len(sel) < 3 else (sum(sel) % 2,)
        for v in variants:
            for cus in ("none", "all", "mixed", "edge"):
                cfgs = []
                for k, i in enumerate(sel):
                    c = ((0, 65535, 32768, 1)[k],) if cus == "edge" else (1000 + 7 * k + v,) if cus == "all" or (cus == "mixed" and k % 2 == 0) else None
                    if c and v == 1:
                        c = (*c, 3)  # more than needed
                    cfgs.append(cfg_for(i, k + v, c))
                nodes = [info[i]["tbid"] if c[1] is None else c[1][0] for i, c in zip(sel, cfgs)]
                if len(set(nodes)) < len(nodes):
                    continue
                xkw = {"name": f"my xp {v}", "time_start": FUT if v == 0 else None, "owner_id": v or None}
                handle(chk, "sel", xkw, cfgs, files=cus == "mixed" and (len(sel) < 3 or chk.thorough), d=d)


def grouped(chk: Check, item):
    """Several targets share one configuration."""
    sel, custom = item
    info, _ = ready()
    if len({info[i]["obs"] for i in sel}) < len(sel):
        return
    with chk.tmp() as d:
        for fw in (("nrf52_demo_rf", None), ("nrf52_testable", "msp430_testable")):
            if custom is None and len({info[i]["tbid"] for i in sel}) < len(sel):
                continue
            if fw[1] and 42 in sel:
                continue
            handle(chk, "group", {"name": "grp", "time_start": FUT}, [(sel, custom, fw, 1, 1, 2, 3)], files=True, d=d)
            if 44 not in sel and info[44]["tbid"] not in (custom or ()):
                handle(chk, "group2", {"name": "grp", "time_start": FUT}, [(sel, custom, fw, 1, 1, 2, 3), cfg_for(44, 1)], d=d)


def settings(chk: Check, item):
    """All combinations of the experiment-level and target-level settings for one target."""
    tid, ee, src = item
    with chk.tmp() as d:
        for pt, gt, f in it.product(range(4), range(4), (0, 1)):
            handle(chk, "set", {"name": "s", "time_start": FUT}, [((tid,), None, FWS[tid][f], ee, src, pt, gt)], files=chk.thorough, d=d)
        if ee == 0 and src == 0 and (tid == 43 or chk.thorough):
            tz = dt.timezone(dt.timedelta(hours=5, minutes=30))
            for start, dur, abort, email, owner, log in it.product((None, FUT, FUT.replace(tzinfo=dt.timezone.utc), FUT.replace(tzinfo=tz)), (None, dt.timedelta(seconds=0), dt.timedelta(seconds=1.5), dt.timedelta(days=2)), (False, True), (False, True), (None, 0, 77), (None, {"ptp": False}, {"dmesg": False, "shepherd": False})):
                xkw = {"name": "s_t", "time_start": start, "duration": dur, "abort_on_error": abort, "email_results": email, **({} if owner is None else {"owner_id": owner}), **({} if log is None else {"sys_logging": log})}
                handle(chk, "xpset", xkw, [cfg_for(tid, 1)], d=d)
        from shepherd_core.data_models import Experiment, TargetConfig
        from shepherd_core.data_models.task import TestbedTasks
        _, tb = ready()
        act = {"events": [{"delay": 1, "gpio": {"name": "GPIO0"}, "level": "H"}]}
        with chk.case("actuation", tid):
            xp = Experiment(name="a", target_configs=[TargetConfig(target_IDs=[tid], energy_env={"name": EENV[ee]}, firmware1={"name": FWS[tid][0][0]}, gpio_actuation=act)])
            try:
                TestbedTasks.from_xp(xp, tb)
                chk.fail("actuation", "actuation is silently dropped", tid)
            except ValueError:
                chk.step()


def clocks(chk: Check, item):
    """The clock jumps to another second at the n-th look at it."""
    sel, n, base = item
    real = dt.datetime
    calls = [0]

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __subclasscheck__(cls, x):
            return issubclass(x, real)

    class Clock(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            calls[0] += 1
            t = base + dt.timedelta(microseconds=100 * calls[0]) + dt.timedelta(seconds=1 if calls[0] > n else 0)
            return t.astimezone(tz) if tz is not None else t

        @classmethod
        def utcnow(cls):
            return cls.now()

    from shepherd_core.data_models import Experiment
    from shepherd_core.data_models.task import TestbedTasks
    info, tb = ready()
    cfgs = [cfg_for(i, k) for k, i in enumerate(sel)]
    xkw = {"name": "asap"}
    rep = {"targets": sel, "second changes at look": n, "clock": base}
    with chk.case("clock", rep):
        xp = Experiment(**xkw, target_configs=[tcfg(*c) for c in cfgs])
        mods = [(m, k) for name, m in list(sys.modules.items()) if name.startswith("shepherd_core") for k, v in list(vars(m).items()) if v is real]
        for m, k in mods:
            setattr(m, k, Clock)
        try:
            tbt = TestbedTasks.from_xp(xp, tb)
        finally:
            for m, k in mods:
                setattr(m, k, real)
        chk.step(max(1, calls[0]))
        verify(chk, xp, xkw, cfgs, tbt, tb, info, rep)
        preps = {t.time_prep for t in tbt.observer_tasks}
        chk.expect(max(preps) - min(preps) < dt.timedelta(seconds=1), "clock:prep", f"preparation times {preps}", rep)
        chk.ev((len(sel), n, repr(base), calls[0]))
        chk.count("clock schedules")


def run(chk: Check):
    top = 4 if chk.thorough else 3
    sels = [p for n in range(1, top + 1) for p in it.permutations(USE, n)]
    chk.parallel(selections, sels)
    g = (41, 43, 65578, 42)
    items = [(p, c) for n in (1, 2, 3) for p in it.permutations(g, n) for c in (None, tuple(range(9, 9 + n)), tuple(range(60000, 60000 - n - 2, -1)))]
    chk.parallel(grouped, items)
    chk.parallel(settings, list(it.product((41, 43, 44, 52), range(3), range(3))))
    bases = [dt.datetime(2026, 1, 1, 12, 0, 0), dt.datetime(2026, 1, 1, 23, 56, 59, 999_000), dt.datetime(2026, 12, 31, 23, 56, 59, 500_000)]
    chk.parallel(clocks, [(s, n, b) for s in ((41, 42, 44), (52, 51, 43, 41)) for n in range(20) for b in bases])
    chk.sample({"targets": sels[20], "custom ids": "mixed"})
