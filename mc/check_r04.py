"""R04: settings over histories of sessions vs a dictionary."""
import itertools

import h5py
import numpy as np
from mc import h5
from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.data_models.base.calibration import CalibrationHarvester
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.base.calibration import CalibrationSeries
from shepherd_core.data_models.content.energy_environment import EnergyDType
from shepherd_core.data_models.task import Compression
from shepherd_core.reader import Reader
from shepherd_core.writer import Writer

RULE = ("session 1 over the full product of the settings menus, sessions 2 and 3 over one-at-a-time and selected combinations; state = the resulting "
        "settings; plus every voltage series of length <= 4 (5) over a 4-value alphabet for the derived step; distinct = distinct final settings")
ASSUME = ["strings that look like numbers are excluded from the metadata dump comparison (it parses YAML by design)"]


def pair(g, o=0.0):
    return CalibrationPair(gain=g, offset=o)


SER = CalibrationSeries(voltage=pair(2e-6, 0.1), current=pair(3e-9, -0.2), time=pair(1e-9, 4.0))
HRV = CalibrationHarvester(dac_V_Hrv=pair(1e-5, .1), dac_V_Sim=pair(2e-5, .2), adc_V_Sense=pair(3e-5, .3), adc_C_Hrv=pair(4e-8, -.4))
EMU = CalibrationEmulator(dac_V_A=pair(1e-5, .5), dac_V_B=pair(2e-5, .6), adc_C_A=pair(3e-8, .7), adc_C_B=pair(4e-8, -.8))
CALS = {
    None: None,
    "series": (SER, {"voltage": (2e-6, 0.1), "current": (3e-9, -0.2), "time": (1e-9, 4.0)}),
    "hrv": (HRV, {"voltage": (3e-5, .3), "current": (4e-8, -.4), "time": (1e-9, 0)}),
    "emu": (EMU, {"voltage": (1e-5, .5), "current": (3e-8, .7), "time": (1e-9, 0)}),
}
DEFAULT_CAL = {"voltage": (3 * 1e-9, 0), "current": (250e-12, 0), "time": (1e-9, 0)}
CONFIGS = (None, {"virtual_harvester": {"voltage_step_mV": 12.5, "name": "cv"}, "list": [1, 2, 3]}, {"other": "x", "deep": {"er": None}}, {})
ALLOWED = {"harvester": ("ivsample", "ivcurve", "isc_voc"), "emulator": ("ivsample",)}


def session(chk, path, first, model, s, replay):
    mode, dtype, window, cal, host, config, attr = s
    kw = dict(mode=mode, datatype=dtype, window_samples=window, cal_data=CALS[cal][0] if cal else None)
    m, dt, w = (mode or model["mode"], (dtype.name if isinstance(dtype, EnergyDType) else dtype) or model["datatype"],
                model["window"] if window is None else window)
    usable = dt in ALLOWED[m] and not (dt == "ivcurve" and w < 1)
    try:
        wr = Writer(path, modify_existing=not first, compression=Compression.null, verbose=False, **kw)
    except ValueError as xcp:
        chk.expect(not usable, "session:rejected", f"usable settings rejected: {xcp}", replay)
        return False
    with wr:
        chk.expect(usable, "session:accepted", "unusable settings accepted", replay)
        model.update(mode=m, datatype=dt, window=w)
        if cal:
            model["cal"] = dict(CALS[cal][1])
        if host is not None:
            wr.store_hostname(host)
            model["host"] = host
        if config is not None:
            wr.store_config(config)
            model["config"] = config
        if attr is not None:
            wr["note"] = attr
            model["attr"] = attr
        if first:
            wr.append_iv_data_raw(np.arange(10_000, dtype="u8") * 10_000, np.arange(10_000, dtype="u4") * 3, np.arange(10_000, dtype="u4"))
        observe(chk, wr, model, replay, "during")
    return True


def observe(chk, r, model, replay, when):
    got = {
        "mode": r.get_mode(), "datatype": r.get_datatype(), "window": r.get_window_samples(), "host": r.get_hostname(), "config": r.get_config(),
    }
    exp = {"mode": model["mode"], "datatype": EnergyDType[model["datatype"]], "window": model["window"], "host": model["host"] or "unknown", "config": model["config"] or {}}
    if when == "during" and model["host"] is None:
        got.pop("host"), exp.pop("host")
    for k in exp:
        chk.expect(got.get(k, exp[k]) == exp[k], f"{when}:{k}", f"{k} = {got.get(k)!r}, expected {exp[k]!r}", replay)
    if when == "during":
        return
    cal = r.get_calibration_data()
    gotc = {k: (cal[k].gain, cal[k].offset) for k in h5.DSETS}
    chk.expect(gotc == model["cal"], f"{when}:cal", f"calibration {gotc}, expected {model['cal']}", replay)
    chk.expect(r["mode"] == model["mode"], f"{when}:item", "item access differs", replay)
    if model["attr"] is not None:
        chk.expect(r["note"] == model["attr"], f"{when}:attr", f"attribute {r['note']!r}, expected {model['attr']!r}", replay)
    step = (model["config"] or {}).get("virtual_harvester", {}).get("voltage_step_mV")
    exp_step = step * 1e-3 if step is not None else 3 * model["cal"]["voltage"][0]
    got_step = r.get_voltage_step()
    chk.expect(abs(got_step - exp_step) <= 1e-12 * abs(exp_step) + 1e-15, f"{when}:step", f"voltage step {got_step}, expected {exp_step}", replay)
    hc = r.get_hrv_config()
    chk.expect(hc == {"datatype": exp["datatype"], "window_samples": model["window"], "voltage_step_V": got_step}, f"{when}:hrvcfg", f"{hc}", replay)
    meta = r.get_metadata()
    chk.expect(meta.get("mode") == model["mode"] and meta["data"].get("datatype") == model["datatype"] and meta["data"].get("window_samples") == model["window"],
               f"{when}:meta", "metadata dump differs", replay)
    chk.expect(meta.get("hostname") == model["host"] and meta.get("config", None) == model["config"] and meta.get("note") == model["attr"],
               f"{when}:meta2", f"metadata dump differs: {meta.get('hostname')!r} {meta.get('config')!r} {meta.get('note')!r}", replay)
    for k in h5.DSETS:
        chk.expect((meta["data"][k]["gain"], meta["data"][k]["offset"]) == model["cal"][k], f"{when}:meta-cal", f"metadata calibration of {k}", replay)


def history(chk, hist):
    with chk.tmp() as d:
        path = d / "rec.h5"
        model = {"mode": "harvester", "datatype": "ivsample", "window": 0, "cal": dict(DEFAULT_CAL), "host": None, "config": None, "attr": None}
        replay = {"sessions": hist}
        with chk.case("history", replay):
            for i, s in enumerate(hist):
                ok = session(chk, path, i == 0, model, s, replay)
                chk.step()
                if i == 0 and not ok:
                    chk.ev()
                    return
                with Reader(path, verbose=False) as r:
                    observe(chk, r, model, replay, "stored")
                chk.state(tuple(sorted((k, repr(v)) for k, v in model.items())))
            chk.trace()
            chk.ev(tuple(sorted((k, repr(v)) for k, v in model.items())))
            chk.sample(replay)


def steps(chk, item):
    with chk.tmp() as d, chk.case("step", item):
        volts, gain, off = item
        n = len(volts)
        f = h5.make(d / "rec.h5", np.arange(n) * 10_000, volts, np.zeros(n), cal={"voltage": (gain, off)})
        diffs = [abs(a - b) for a, b in zip(volts, volts[1:]) if a != b]
        exp = min(diffs) * gain if diffs else None
        with Reader(f, verbose=False) as r:
            got = r.get_voltage_step()
        if exp is None:
            chk.expect(got is None or got == 0, "step:static", f"step {got} for a constant voltage", item)
        else:
            chk.expect(got is not None and abs(got - exp) < 1e-9 * exp, "step:data", f"step {got}, expected {exp}", item)
        chk.step()
        chk.ev(("step", volts, gain))


HOSTS = ("sheep0.testbed.org", "a b", " lead", "x" * 300, "ünïcödé-⤷", "12", "1e3", "yes", "null", "", "UPPER-lower_9", "a/b", "a;b,c", "tab\there", "#hash", "- item", "{a: b", "sheep-a.")
CFGS = ({"a": "yes", "b": "12", "c": "1e3", "d": "2020-01-01", "e": "", "f": "null"}, {"text": "line one\nline two\n"}, {"long": "word " * 60}, {"ü": "⤷ ö"},
        {"deep": {"er": {"est": [1, [2, [3.25, None, True]], {"k": False}]}}}, {"f": [1e-12, 1e30, -0.1, 3.0]}, {"12": 1, "no": 2, "a: b": 3}, {"virtual_harvester": {"name": "cv", "voltage_step_mV": 0.125}},
        {"virtual_harvester": {}}, {str(i): i for i in range(300)}, {"z": 1, "a": 2, "m": 3})
ATTRS = (0, -5, 2**40, 1.5e-9, "a.b", "text with space", True)


def values(chk, item):
    """Exactly the stored value comes back, also after it was stored a second time in the same or a later session."""
    host, cfg, attr, key, how = item
    replay = {"values": item}
    with chk.tmp() as d, chk.case("values", replay):
        f = d / "rec.h5"
        with Writer(f, compression=Compression.null, verbose=False) as w:
            if how != "once":
                w.store_hostname("first.host")
                w.store_config({"virtual_harvester": {"voltage_step_mV": 1000.0}, "old": 1})
                w[key] = 99
            if how in ("once", "same"):
                w.store_hostname(host)
                w.store_config(cfg)
                w[key] = attr
        if how == "later":
            with Writer(f, modify_existing=True, verbose=False) as w:
                w.store_hostname(host)
                w.store_config(cfg)
                w[key] = attr
        with Reader(f, verbose=False) as r:
            chk.expect(r.get_hostname() == host, "values:host", f"host name {r.get_hostname()!r}, stored {host!r}", replay)
            chk.expect(r.get_config() == cfg and list(r.get_config()) == list(cfg), "values:config", f"configuration {r.get_config()!r}, stored {cfg!r}", replay)
            chk.expect(r[key] == attr, "values:attr", f"attribute {r[key]!r}, stored {attr!r}", replay)
            step = cfg.get("virtual_harvester", {}).get("voltage_step_mV")
            if step is not None:
                chk.expect(abs(r.get_voltage_step() - 1e-3 * step) < 1e-15, "values:step", f"step {r.get_voltage_step()}", replay)
            if not isinstance(attr, str):
                chk.expect(r.get_metadata(minimal=True).get(key) == attr, "values:meta", "metadata dump differs", replay)
        chk.step()
        chk.trace()
        chk.ev(("values", repr(item)))


def run(chk):
    vals = [(h, c, 5, "note", how) for h in HOSTS for c in (CFGS if chk.thorough else CFGS[:1]) for how in ("once", "same", "later")]
    vals += [("h", c, 5, "note", how) for c in CFGS for how in ("once", "same", "later")]
    vals += [("h", {"a": 1}, a, k, how) for a in ATTRS for k in ("note", "ds_factor", "note.x", "n ö", "count") for how in ("once", "same", "later")]
    chk.parallel(values, vals)
    modes = (None, "harvester", "emulator")
    dtw = ((None, None), ("ivsample", None), ("ivcurve", 7), (EnergyDType.isc_voc, None), ("ivcurve", None), (None, 5))
    cals = tuple(CALS)
    hosts = (None, "sheep-a")
    attrs = (None, 5)
    full = [(mo, dt, w, ca, ho, co, at) for mo, (dt, w), ca, (ho, at), co in itertools.product(modes, dtw, cals, ((None, None), ("sheep-a", 5)), CONFIGS[:3])]
    nothing = (None,) * 7
    later = [nothing]
    for mo in modes[1:]:
        later.append((mo, *nothing[1:]))
    for dt, w in dtw[1:]:
        later.append((None, dt, w, None, None, None, None))
    for ca in cals[1:]:
        later.append((None, None, None, ca, None, None, None))
    later += [(None, None, None, None, "sheep-b", None, None), (None, None, None, None, None, CONFIGS[2], None), (None, None, None, None, None, {}, None), (None,) * 6 + (7,)]
    later.append(("harvester", "isc_voc", 0, "series", "c", CONFIGS[1], 9))
    hists = [[s] for s in full]
    seconds = later if chk.thorough else later[::1]
    firsts = full if chk.thorough else full[::3]
    hists += [[s, l] for s in firsts for l in seconds]
    base = [full[0], ("harvester", "ivcurve", 7, "series", "sheep-a", CONFIGS[1], 5), ("emulator", "ivsample", None, "emu", "sheep-a", CONFIGS[2], None)]
    hists += [[s, a, b] for s in base for a in later for b in later]
    chk.parallel(history, hists)
    alpha = (0, 10, 13, 4_000_000_000)
    items = [(v, g, o) for n in range(1, 6 if chk.thorough else 5) for v in itertools.product(alpha, repeat=n) for g, o in ((3e-9, 0), (1e-6, 0.5))]
    items += [(tuple([5] * 1998 + [9, 9, 9]), 1e-6, 0.0), (tuple([5] * 1999 + [9]), 1e-6, 0.0)]
    chk.parallel(steps, items)
