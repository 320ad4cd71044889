"""E01: target configurations and experiments over menus, acceptance compared with a reference predicate."""
import datetime as dt
import itertools as it

from mc import lab
from mc.lib import Check

RULE = ("enumerated on a lab testbed with all special cases (two targets per observer, ids equal modulo 2^16, explicit node ids, inactive target/observer/cape, missing cape, missing second controller, unfitting default firmware, target outside of the testbed): "
        "all id lists up to length 3 x custom id lists, all firmware pairs x targets, all pairs (and triples of small ones) of target configurations, tracing and time settings at their borders and all their combinations, energy environments (valid or not, local, type, duration, energy, own or shipped), own firmware for equal and similar controllers. "
        "Oracle: reference acceptance predicate; for accepted ones the configuration of each target is the one naming it. distinct = distinct (request, verdict)")
ASSUME = ["firmware for a controller a target does not have is ignored (shared configurations for different targets)", "a rejected request raises ValueError, or NotImplementedError for announced features"]

NRF, MSP = {"name": "nrf52_demo_rf"}, {"name": "msp430_deep_sleep"}
EENV = {"name": "eenv_static_2000mV_10mA_3600s"}
IDS = (41, 42, 65578, 43, 44, 45, 46, 47, 48, 49, 99_999)
REJECT = (ValueError, NotImplementedError)
FW = {"nRF52": NRF, "MSP430FR": MSP}
_c = {}


def ready():
    if "info" not in _c:
        _c["info"] = lab.setup()
    return _c["info"]


def tc_ok(info, ids, custom, fw1, fw2, eenv=EENV):
    """Reference for one target configuration."""
    if eenv["name"] == "nuclear" or not ids or custom == []:
        return False
    for i in ids:
        t = info.get(i)
        if t is None:
            return False
        for n, fw in ((1, fw1), (2, fw2)):
            mcu = t[f"mcu{n}"]
            if mcu is None:
                continue
            if fw is None:
                if mcu == "oddmcu":
                    return False
            elif fw is not FW.get(mcu):
                return False
    return custom is None or (len(set(custom)) >= len(set(ids)) and all(0 <= c < 65536 for c in custom))


def node_ids(info, ids, custom):
    return list(custom[: len(ids)]) if custom is not None else [info[i]["tbid"] for i in ids]


def xp_ok(info, cfgs):
    """Reference for a list of accepted configurations (ids, custom)."""
    ids = [i for c in cfgs for i in c[0]]
    if len(set(ids)) < len(ids):
        return False
    nodes = [n for c in cfgs for n in node_ids(info, *c)]
    if len(nodes) < len(ids) or len(set(nodes)) < len(ids):
        return False
    if not all(info[i]["usable"] for i in ids):
        return False
    obs = [info[i]["obs"] for i in ids]
    return len(set(obs)) == len(obs)


def build(chk, key, rep, exp, func):
    try:
        res = func()
    except REJECT as xcp:
        chk.step()
        chk.expect(not exp, f"{key}:refused", f"valid request was refused: {str(xcp)[:400]}", rep)
        chk.ev((key, repr(rep), False))
        return None
    chk.step()
    chk.expect(exp, f"{key}:accepted", "invalid request was accepted", rep)
    chk.ev((key, repr(rep), True))
    return res


def mk_tc(ids, custom=None, fw1=NRF, fw2=None, eenv=EENV, **kw):
    from shepherd_core.data_models import TargetConfig
    return TargetConfig(target_IDs=list(ids), custom_IDs=None if custom is None else list(custom), energy_env=eenv, firmware1=fw1, **({} if fw2 is None else {"firmware2": fw2}), **kw)


def mk_xp(tcs, **kw):
    from shepherd_core.data_models import Experiment
    return Experiment(name="xp", target_configs=tcs, **kw)


def check_xp(chk, info, key, cfgs, tcs):
    """cfgs: (ids, custom) and the accepted instances."""
    rep = {"target configurations (ids, custom ids)": cfgs}
    with chk.case(key, rep):
        xp = build(chk, key, rep, xp_ok(info, cfgs), lambda: mk_xp(tcs))
        if xp is not None:
            all_ids = [i for c in cfgs for i in c[0]]
            chk.expect(xp.get_target_ids() == all_ids, f"{key}:ids", f"ids are {xp.get_target_ids()}", rep)
            for (ids, custom) in cfgs:
                for pos, i in enumerate(ids):
                    got = xp.get_target_config(i)
                    chk.expect(list(got.target_IDs) == list(ids) and got.get_custom_id(i) == (None if custom is None else custom[pos]), f"{key}:config", f"target {i} finds configuration of {got.target_IDs} with custom id {got.get_custom_id(i)}", rep)
            for i in IDS:
                if i not in all_ids:
                    try:
                        xp.get_target_config(i)
                        chk.fail(f"{key}:config-none", f"target {i} finds a configuration", rep)
                    except ValueError:
                        pass
        chk.state(repr(cfgs))
        chk.trace()


def one(chk: Check, item):
    """Id lists x custom id lists in one configuration."""
    info = ready()
    ids, customs = item
    for custom in customs:
        rep = {"ids": ids, "custom": custom}
        fw1, fw2 = (MSP, NRF) if set(ids) <= {44} else (NRF, None)
        with chk.case("one", rep):
            tc = build(chk, "one", rep, tc_ok(info, ids, custom, fw1, fw2), lambda: mk_tc(ids, custom, fw1, fw2))
            if tc is not None:
                chk.expect(list(tc.target_IDs) == list(ids), "one:ids", f"{tc.target_IDs}", rep)
                for i in IDS if len(set(ids)) == len(ids) else ():  # repeated targets are refused by the experiment
                    e = custom[ids.index(i)] if custom is not None and i in ids else None
                    chk.expect(tc.get_custom_id(i) == e, "one:custom", f"custom id of {i} is {tc.get_custom_id(i)} instead of {e}", rep)
                check_xp(chk, info, "one:xp", [(ids, custom)], [tc])


def firmwares(chk: Check, item):
    info = ready()
    ids, = item
    for fw1, fw2, eenv in it.product((NRF, MSP), (None, NRF, MSP), (EENV, {"name": "nuclear"})):
        rep = {"ids": ids, "fw1": fw1["name"], "fw2": fw2 and fw2["name"], "env": eenv["name"]}
        with chk.case("firmware", rep):
            build(chk, "firmware", rep, tc_ok(info, ids, None, fw1, fw2, eenv), lambda: mk_tc(ids, None, fw1, fw2, eenv))
        chk.state(repr(rep))


CFG = [((41,), None), ((42,), None), ((65578,), None), ((43,), None), ((44,), None), ((45,), None), ((46,), None), ((47,), None), ((49,), None),
       ((41,), (42,)), ((43,), (777,)), ((44,), (41,)), ((44,), (65535,)), ((41, 65578), None), ((65578, 41), (7, 8)), ((42, 41), None), ((42, 41), (43, 42)), ((41, 43), (5, 5, 6)), ((65578,), (42, 43)), ((42,), (9, 777)),
       ((42, 65578), None), ((43, 41), (7, 41)), ((65578,), (0,)), ((42,), (0,))]


def inst(cfg):
    if cfg not in _c:
        ids, custom = cfg
        fw1, fw2 = (MSP, NRF) if 44 in ids else (NRF, None)
        _c[cfg] = mk_tc(ids, custom, fw1, fw2)
    return _c[cfg]


def combos(chk: Check, item):
    info = ready()
    cfgs = [CFG[i] for i in item]
    with chk.case("combo", {"cfgs": cfgs}):
        tcs = [inst(c) for c in cfgs]
        check_xp(chk, info, "combo", cfgs, tcs)


def settings(chk: Check, item):
    """Tracing and times."""
    from shepherd_core import data_models as m
    kind = item
    td = dt.timedelta
    DEL = (None, 0, 0.5, 3, td(seconds=-1), td(microseconds=-1), td(days=2), -1)

    def pos(x):
        return x is None or (x if isinstance(x, (int, float)) else x.total_seconds()) >= 0

    if kind == "power":
        for delay, dur, dc, dv, calc, rate in it.product(DEL[1:], DEL, (False, True), (False, True), (False, True), (None, 9, 10, 11, 1000, 100_000, 100_001, 0, -10)):
            if chk.thorough or rate in (None, 9, 100_000) or (delay == 0 and dur is None):
                kw = {"delay": delay, "duration": dur, "discard_current": dc, "discard_voltage": dv, "calculate_power": calc, **({} if rate is None else {"samplerate": rate})}
                exp = pos(delay) and pos(dur) and not (dc and dv) and not calc and (rate is None or 10 <= rate <= 100_000)
                with chk.case("power", kw):
                    build(chk, "power", kw, exp, lambda: m.PowerTracing(**kw))
                chk.state(repr(kw))
    elif kind == "gpio":
        for delay, dur, mask, baud in it.product(DEL[1:], DEL, (None, -1, 0, 1, 2**9, 2**10 - 1, 2**10), (None, 2399, 2400, 115_200, 921_600, 921_601)):
            kw = {"delay": delay, "duration": dur, **({} if mask is None else {"mask": mask}), **({} if baud is None else {"uart_baudrate": baud})}
            exp = pos(delay) and pos(dur) and (mask is None or 0 < mask < 1024) and (baud is None or 2400 <= baud <= 921_600)
            with chk.case("gpio", kw):
                build(chk, "gpio", kw, exp, lambda: m.GpioTracing(**kw))
            chk.state(repr(kw))
    elif kind == "env":
        ready()
        for by, valid, local, dtype, dur, en in it.product(("own", EENV["name"]), (None, False, True), (None, False, True), (None, "ivsample", "ivcurve", "isc_voc", "voltage"), (None, 0, -1, 1e-3, 3600, float("inf")), (None, 0, -1, 1e-6, float("nan"))):
            if (dur is not None or en is not None) and dtype not in (None, "ivcurve") and not chk.thorough:
                continue
            kw = {k: v for k, v in (("valid", valid), ("data_local", local), ("data_type", dtype), ("duration", dur), ("energy_Ws", en)) if v is not None}
            if by == "own":
                kw = {"data_path": "/d/x.h5", "data_type": "ivsample", "duration": 5, "energy_Ws": 2, **kw}
                usable = valid is True
            else:
                usable = valid is not False  # shipped one is valid
            kw = {"name": by, **kw}
            exp = usable and dtype != "voltage" and (dur is None or 0 < dur < 1e9) and (en is None or en > 0)
            with chk.case("env", kw):
                tc = build(chk, "env", kw, exp, lambda: m.TargetConfig(target_IDs=[41], energy_env=m.EnergyEnvironment(owner="o", group="g", **kw), firmware1=NRF))
                if tc is not None:
                    got = tc.energy_env.model_dump()
                    chk.expect(all(str(got[k]) == str(v) or got[k] == v for k, v in kw.items()), "env:values", f"{got}", kw)
            with chk.case("env:dict", kw):
                build(chk, "env:dict", kw, exp, lambda: mk_tc([41], eenv={"owner": "o", "group": "g", **kw}))
            chk.state(repr(kw))
    elif kind == "firmware":
        from shepherd_core.data_models.testbed import MCU
        info = ready()
        mcus = ({"name": "nRF52"}, {"name": "MSP430FR"}, {"name": "oddmcu"}, {**MCU(name="nRF52").model_dump(), "id": 7777, "name": "twin"}, {**MCU(name="nRF52").model_dump(), "prog_datarate": 1000}, {**MCU(name="nRF52").model_dump(), "name": "MSP430FR"})
        want = MCU(name="nRF52").id
        for mcu, dtype, ids, env in it.product(mcus, ("path_elf", "path_hex"), ((41,), (42,), (43,), (41, 42)), (EENV, {"name": "SolarSunny"})):
            rep = {"mcu": mcu["name"], "mcu id": mcu.get("id"), "type": dtype, "ids": ids}
            with chk.case("own-fw", rep):
                fw = m.Firmware(name="own", mcu=MCU(**mcu), data="/fw/x", data_type=dtype, owner="o", group="g")
                exp = fw.mcu.id == want
                if any(info[i]["mcu1"] != "nRF52" or info[i]["mcu2"] == "oddmcu" for i in ids):
                    continue
                tc = build(chk, "own-fw", rep, exp, lambda: mk_tc(ids, None, fw, None, env))
                chk.expect(tc is None or tc.firmware1 == fw, "own-fw:kept", "firmware was exchanged", rep)
            chk.state(repr(rep))
    elif kind == "xp":
        ready()
        tc = inst(CFG[0])
        for dur, start in it.product(DEL, (None, dt.datetime(2999, 1, 1), dt.datetime(2999, 1, 1, tzinfo=dt.timezone.utc), dt.datetime(2000, 1, 1))):
            kw = {"duration": dur, "time_start": start}
            with chk.case("xp", kw):
                xp = build(chk, "xp", kw, pos(dur), lambda: mk_xp([tc], **kw))
                if xp is not None:
                    e = None if dur is None else (dur if isinstance(dur, td) else td(seconds=dur))
                    chk.expect(xp.duration == e and xp.time_start == start, "xp:values", f"{xp.duration} {xp.time_start}", kw)
            chk.state(repr(kw))
        for n in (0, 128, 129):
            with chk.case("xp:len", n):
                build(chk, "xp:len", n, False, lambda: mk_xp([tc] * n))  # empty, or the same target several times
        for ids in ([], list(range(129)), [-1], [2**128]):
            with chk.case("tc:len", ids):
                build(chk, "tc:len", len(ids), False, lambda: mk_tc(ids))
        for c in ([-1], [65536], [], [1] * 129):
            with chk.case("tc:custom", c):
                build(chk, "tc:custom", (len(c), c[:1]), False, lambda: mk_tc([41], c))
        for c in ([0], [65535], [1] * 128):
            with chk.case("tc:custom", c):
                build(chk, "tc:custom", (len(c), c[:1]), True, lambda: mk_tc([41], c))
        for dl, good in (([0], True), ([5], True), ([1] * 128, True), ([], False), ([-1], False), ([3, -1], False), ([1] * 129, False)):
            with chk.case("tc:delays", dl):
                x = build(chk, "tc:delays", (len(dl), dl[:2]), good, lambda: mk_tc([41], target_delays=dl))
                chk.expect(x is None or x.target_delays == dl, "tc:delays:value", "delays changed", dl)
        # a fitting firmware is enough, the faulty default of the controller does not matter then
        from shepherd_core.data_models import Firmware
        odd = Firmware(id=9101, name="fw-odd", mcu={"name": "oddmcu"}, data="/fw/odd.elf", data_type="path_elf", owner="o", group="g")
        for fw2, good in ((odd, True), (None, False), (MSP, False)):
            with chk.case("tc:odd-default", good):
                build(chk, "tc:odd-default", repr(fw2), good, lambda: mk_tc([48], None, NRF, fw2))


def run(chk: Check):
    lists = [()] + [p for n in (1, 2) for p in it.product(IDS, repeat=n)]
    sub = IDS if chk.thorough else (41, 42, 65578, 43, 44)
    lists += list(it.product(sub, repeat=3))
    cus = [None] + [p for n in (1, 2) for p in it.product((1, 42, 777), repeat=n)] + [(1, 2, 3), (1, 1, 2), (2, 1, 1), (1, 2, 1), (5, 6, 5, 6), (5, 5, 5, 6), (1, 1, 2, 3), (65535, 0, 65535), (0, 65535)]
    items = []
    for ls in lists:
        few = len(ls) == 3 and not chk.thorough
        items.append((ls, [None, (1, 2, 3), (1, 1, 2), (1, 2), (42, 777, 1), (1, 1, 2, 3)] if few else cus))
    chk.parallel(one, items)
    chk.parallel(firmwares, [(p,) for n in (1, 2) for p in it.permutations(IDS, n)])
    pairs = list(it.product(range(len(CFG)), repeat=2))
    trip = list(it.product(range(len(CFG)), repeat=3)) if chk.thorough else list(it.product((0, 1, 2, 3, 4, 9, 10, 11, 14), repeat=3))
    chk.parallel(combos, pairs + trip)
    chk.parallel(settings, ["power", "gpio", "xp", "env", "firmware"])
    chk.sample({"ids": [42, 65578], "custom": None})
