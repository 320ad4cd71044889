"""V04: stepping of the whole source and offline simulation of recordings."""
import itertools as it
import math

import numpy as np

from mc import h5
from mc.check_v03 import Ref as Harvester
from mc.lib import Check
from mc.ref_vsrc import ADC_OFFSETS, custom
from mc.ref_vsrc import Ref as Converter

RULE = ("enumerated: (a) every stream of (voltage, current, target current) words up to a depth through the real source model for a menu of sources, compared per sample with the composition of the harvester and converter references; "
        "(b) every recording that is a word of a length over a sample alphabet x buffer sizes x sources x targets x input types, simulated with and without output file and compared per sample with stepping the source, incl. output files of earlier runs in place; "
        "(c) every sequence of measured currents for the compensation of negative readings. distinct = distinct words x configurations")
ASSUME = ["recordings consist of whole buffers (the reader drops the rest) and have no gaps where energy is compared", "buffer size is shrunk through its class-attribute", "calibration of recordings uses powers of two, so that conversions are exact"]

GV, GC = 2.0**-20, 2.0**-27
SMALL = dict(custom())


def sources():
    own = {k: {"name": "own", **kw} for k, kw in SMALL.items()}
    out = [{"name": n} for n in ("direct", "dio_cap", "dio_res_cap", "BQ25504s", "BQ25570s")]
    for k in ("boost buck", "feedback res", "pass", "diode cap", "startup"):
        out.append(own[k])
    out.append(own["feedback"] | {"harvester": {"name": "own", "algorithm": "mppt_voc", "interval_ms": 0.2, "duration_ms": 0.05}})
    out.append(own["boost"] | {"harvester": {"name": "own", "algorithm": "mppt_po", "interval_ms": 0.2}})
    out.append(own["boost leak drop"] | {"harvester": {"name": "own", "algorithm": "cv", "voltage_mV": 1000}})
    return out


def targets():
    from shepherd_core.vsource import target_model as t
    return [t.ResistiveTarget(330), t.ResistiveTarget(1000, controlled=True), t.ConstantCurrentTarget(5e-3, 1e-6), t.ConstantPowerTarget(9e-3, 1e-6), t.DiodeTarget(2.0, 20e-3, 100, controlled=True)]


class Reference:
    """Composition of both reference parts."""

    def __init__(self, kw, dtype, win, step, cal):
        from shepherd_core.data_models import EnergyDType, VirtualSourceConfig
        from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
        from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
        c = VirtualSourceConfig(**kw)
        d = EnergyDType[dtype]
        self.h = Harvester(HarvesterPRUConfig.from_vhrv(c.harvester, for_emu=True, dtype_in=d, window_size=win, voltage_step_V=step))
        self.c = Converter(ConverterPRUConfig.from_vsrc(c, dtype_in=d), cal.adc_C_A, cal.dac_V_A)
        self.adc, self.dac = cal.adc_C_A, cal.dac_V_A
        self.w_in = self.w_out = 0.0

    def step(self, v, i, out):
        v, i = self.h.feed(v, i)
        self.w_in += round(self.c.inp(v, i))
        self.w_out += round(self.c.out(round(max(0.0, (out * 1e-9 - self.adc.offset) / self.adc.gain))))
        mid = self.c.step_store()
        raw = self.c.switch()
        if self.c.feedback:
            self.h.target = self.c.request
        return (raw * self.dac.gain + self.dac.offset) * 1e6, self.c.good, mid


def stepping(chk: Check, item):
    kw, dt, off, log = item
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import CalibrationPair, EnergyDType, VirtualSourceConfig
    from shepherd_core.vsource import VirtualSourceModel
    win, step = (6, 0.5) if dt == "ivcurve" else (0, 0.5)
    cal = CalibrationEmulator()
    if off is not None:
        cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=cal.adc_C_A.gain, offset=off))
    hi = [(int(5e5 * k), int(3e6 * max(0, 7 - k))) for k in range(1, 7)]
    words = ([[(v, i, 0) for v, i in hi], [(v, i, 3_000_000) for v, i in hi[::-1]], [(v, i // 300, 20_000_000) for v, i in hi], [(v, 0, 50_000) for v, i in hi]] if dt == "ivcurve" else
             [[(3_000_000, 30_000_000, 0)], [(3_000_000, 30_000_000, 0)] * 7, [(0, 0, 20_000_000)] * 4, [(1_000_000, 2_000_000, 500_000)] * 3, [(2_700_000, 40_000_000, 7_000)], [(0, 0, 0)]])
    cfg = VirtualSourceConfig(**kw)
    with chk.case("stepping", [kw, dt]):
        for word in it.product(range(len(words)), repeat=(5 if dt == "ivcurve" else 4) if chk.thorough else 3):
            src = VirtualSourceModel(cfg, cal, dtype_in=EnergyDType[dt], window_size=win, voltage_step_V=step, log_intermediate=log)
            ref = Reference(kw, dt, win, step, cal)
            stream = [s for k in word for s in words[k]]
            for n, s in enumerate(stream):
                got = src.iterate_sampling(*s)
                v, good, mid = ref.step(*s)
                if ref.c.risky:
                    break
                rep = {"source": kw, "input": dt, "stream (uV, nA, target nA)": stream[:n + 1], "adc offset": off, "log intermediate": log}
                want = round(mid) if log else v
                ok = chk.expect(abs(got - want) <= 1, "step:voltage", f"sample {n} gives {got} uV instead of {want}", rep)
                ok &= chk.expect(src.cnv.get_power_good() == good, "step:power-good", f"power-good {src.cnv.get_power_good()}", rep)
                ok &= chk.expect(abs(src.W_inp_fWs - ref.w_in) <= 1e-9 * ref.w_in + 2 * n + 2 and abs(src.W_out_fWs - ref.w_out) <= 1e-9 * ref.w_out + 2 * n + 2, "step:energy", f"energies {src.W_inp_fWs}, {src.W_out_fWs} instead of {ref.w_in}, {ref.w_out}", rep)
                if not ok:
                    return
            chk.step(len(stream))
            chk.trace()
            chk.ev((repr(kw), dt, off, log, word))
            chk.state((repr(kw), dt, off, log, got, ref.w_in, ref.w_out))


def defaults(chk: Check):
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.vsource import VirtualSourceModel
    cal = CalibrationEmulator()
    with chk.case("default", None):
        a, b = VirtualSourceModel(None, cal), VirtualSourceModel(VirtualSourceConfig(name="neutral"), cal)
        for w in it.product(((0, 0, 0), (3_000_000, 1000, 0), (2_000_000, 5, 20_000_000)), repeat=4):
            for s in w:
                chk.expect(a.iterate_sampling(*s) == b.iterate_sampling(*s), "default", "default source is not the neutral one", w)
            chk.ev(("default", w))
        chk.expect(a.iterate_sampling() == b.iterate_sampling(0, 0, 0), "default", "default sample", None)


def residue(chk: Check, off):
    """Emitted currents are non-negative and their sum follows the readings."""
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import CalibrationPair
    from shepherd_core.vsource import PruCalibration
    gain = 2e-7
    zero = round(-off / gain) if off < 0 else 0
    cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=gain, offset=off))
    al = [max(0, zero + d) for d in (0, -1, 1, -4, 5, -250, 300)] + [0, 2**18 - 1]
    with chk.case("residue", off):
        for w in it.product(sorted(set(al)), repeat=6 if chk.thorough else 5):
            p = PruCalibration(cal)
            total = emitted = pend = 0.0
            capped = False
            for raw in w:
                si = (raw * gain + off) * 1e9
                got = p.conv_adc_raw_to_nA(raw)
                total += si
                emitted += got
                pend += got - si
                if off < 0 and pend >= 60_000 - 1e-6:
                    capped, pend = True, 60_000.0
                rep = {"offset": off, "gain": gain, "readings": w}
                if not chk.expect(got >= 0 and got <= max(0.0, si) + 1e-6, "residue:range", f"emitted current {got} for {si}", rep):
                    return
                chk.step()
            if off >= 0:
                chk.expect(abs(emitted - total) < 1e-3, "residue:none", f"sum {emitted} instead of {total}", rep)
            elif not capped:
                chk.expect(-1e-3 <= emitted - total <= 60_000 + 1e-3 and abs(emitted - total - pend) < 1e-3, "residue:sum", f"sum {emitted}, exact {total}", rep)
                q = PruCalibration(cal)
                s = sum(q.conv_adc_raw_to_nA(x) for x in (*w, 2**18 - 1, 2**18 - 1))
                want = total + 2 * ((2**18 - 1) * gain + off) * 1e9
                chk.expect(abs(s - want) < 1e-3, "residue:settled", f"sum {s} instead of {want} after positive readings", rep)
            chk.trace()
            chk.ev((off, w))
    for uv in (0, 1, 38, 39, 1_000_000, 4_999_961, 5_000_000, 9_000_000, 2_500_000.4):
        p = PruCalibration()
        want = min(65535, round((uv * 1e-6 - p.cal.dac_V_A.offset) / p.cal.dac_V_A.gain))
        chk.expect(p.conv_uV_to_dac_raw(uv) == want, "dac", f"{uv} uV is converted to {p.conv_uV_to_dac_raw(uv)} instead of {want}", uv)
    chk.expect(abs(PruCalibration().conv_adc_raw_to_nA(1000) - 1000 * 1.25 * 4.096 / 2**18 / 96 * 1e9) < 1, "adc", "default calibration", None)


def simulate(chk: Check, item):
    kw, ti, dt, words, sizes = item
    from shepherd_core import CalibrationEmulator, Reader, Writer
    from shepherd_core.data_models import EnergyDType, VirtualSourceConfig
    from shepherd_core.vsource import VirtualSourceModel, simulate_source
    cfg = VirtualSourceConfig(**kw)
    cal = CalibrationEmulator()
    size0 = Reader.samples_per_buffer
    with chk.tmp() as d:
        try:
            for word in words:
                t, v, i = word_arrays(word, dt)
                win, vs = (6, 0.5) if dt == "ivcurve" else (0, None)
                p = h5.make(d / "in.h5", t, v, i, datatype=dt, window=win, cal={"voltage": (GV, 0.0), "current": (GC, 0.0)}, config={"virtual_harvester": {"voltage_step_mV": 500}} if dt == "ivcurve" else None)
                before = h5.digest(p)
                # stepping
                src = VirtualSourceModel(cfg, cal, dtype_in=EnergyDType[dt], window_size=win, voltage_step_V=0.5 if dt == "ivcurve" else vs)
                tgt, i_out, exp_v, exp_i = targets()[ti], 0, [], []
                for a, b in zip(v, i):
                    vo = src.iterate_sampling(int(1e6 * (int(a) * GV)), int(1e9 * (int(b) * GC)), i_out)
                    i_out = tgt.step(int(vo), pwr_good=src.cnv.get_power_good())
                    exp_v.append(vo)
                    exp_i.append(i_out)
                for n_buf in sizes:
                    Reader.samples_per_buffer = n_buf
                    n = len(v) // n_buf * n_buf
                    if n == 0:
                        continue
                    rep = {"source": kw, "target": type(tgt).__name__, "input": dt, "samples (raw V, raw I)": list(zip(v.tolist(), i.tolist())), "buffer": n_buf}
                    with chk.case("simulate", rep):
                        e0 = simulate_source(cfg, targets()[ti], p)
                        out = d / "out.h5"
                        e1 = simulate_source(cfg, targets()[ti], p, out)
                        energy = sum(a * b for a, b in zip(exp_v[:n], exp_i[:n])) * 1e-15 * 1e-5
                        for e in (e0, e1):
                            chk.expect(abs(e - energy) <= 1e-9 * abs(energy) + 1e-18, "simulate:energy", f"energy {e} Ws instead of {energy}", rep)
                        with Reader(out, verbose=False) as r:
                            c = r.get_calibration_data()
                            same = r.ds_time.shape[0] == r.ds_voltage.shape[0] == r.ds_current.shape[0] == n and (r.ds_time[:] == t[:n]).all()
                            chk.expect(same, "simulate:time", f"output has {r.ds_time.shape[0]} samples for {n} of input, or other times", rep)
                            if same:
                                dv = np.abs(c.voltage.raw_to_si(r.ds_voltage[:]) - np.clip(np.array(exp_v[:n]), 0, None) * 1e-6)
                                di = np.abs(c.current.raw_to_si(r.ds_current[:]) - np.array(exp_i[:n], dtype=float) * 1e-9)
                                chk.expect((dv <= 0.51 * c.voltage.gain).all(), "simulate:voltage", f"voltages differ by {dv.max()} V from stepping", rep)
                                chk.expect((di <= 0.51 * c.current.gain).all(), "simulate:current", f"currents differ by {di.max()} A from stepping", rep)
                            chk.expect(r.get_mode() == "emulator" and r.get_datatype() == "ivsample" and r.get_hostname() == f"emu_sim_{cfg.name}", "simulate:meta", f"{r.get_mode()} {r.get_datatype()} {r.get_hostname()}", rep)
                        chk.expect(h5.digest(p) == before, "simulate:input", "input was changed", rep)
                        chk.step(2 * n)
                        chk.trace()
                        chk.ev((repr(kw), ti, dt, word, n_buf))
        finally:
            Reader.samples_per_buffer = size0


LETTERS = [(3.0, 0.03), (0.0, 0.0), (1.0, 0.002), (2.5, 0.0005)]


def word_arrays(word, dt):
    pts = []
    for k in word:
        v, i = LETTERS[k]
        pts += [(v, i)] if dt != "ivcurve" else [(0.5 * s, i * max(0, 6 - s) / 6) for s in range(6)]
    v = np.array([round(a / GV) for a, _ in pts], dtype="u4")
    i = np.array([round(b / GC) for _, b in pts], dtype="u4")
    return np.arange(len(pts), dtype="u8") * np.uint64(10_000) + np.uint64(5_000_000_000), v, i


def harvest(chk: Check, item):
    kw, words, sizes = item
    from shepherd_core import Reader
    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource import VirtualHarvesterModel, simulate_harvester
    cfg = VirtualHarvesterConfig(**kw)
    pru = HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=6, voltage_step_V=0.5)
    size0 = Reader.samples_per_buffer
    with chk.tmp() as d:
        try:
            for word in words:
                t, v, i = word_arrays(word, "ivcurve")
                p = h5.make(d / "in.h5", t, v, i, datatype="ivcurve", window=6, cal={"voltage": (GV, 0.0), "current": (GC, 0.0)})
                m = VirtualHarvesterModel(pru)
                exp = np.array([m.ivcurve_sample(int(1e6 * (int(a) * GV)), int(1e9 * (int(b) * GC))) for a, b in zip(v, i)], dtype=float)
                for n_buf in sizes:
                    Reader.samples_per_buffer = n_buf
                    n = len(v) // n_buf * n_buf
                    if n == 0:
                        continue
                    rep = {"harvester": kw, "samples (raw V, raw I)": list(zip(v.tolist(), i.tolist())), "buffer": n_buf}
                    with chk.case("harvest", rep):
                        e0 = simulate_harvester(cfg, p)
                        e1 = simulate_harvester(cfg, p, d / "out.h5")
                        energy = float((exp[:n, 0] * exp[:n, 1]).sum()) * 1e-15 * 1e-5
                        for e in (e0, e1):
                            chk.expect(abs(e - energy) <= 1e-9 * abs(energy) + 1e-18, "harvest:energy", f"energy {e} Ws instead of {energy}", rep)
                        with Reader(d / "out.h5", verbose=False) as r:
                            c = r.get_calibration_data()
                            same = r.ds_time.shape[0] == r.ds_voltage.shape[0] == r.ds_current.shape[0] == n and (r.ds_time[:] == t[:n]).all()
                            chk.expect(same, "harvest:time", f"output has {r.ds_time.shape[0]} samples for {n} of input, or other times", rep)
                            if same:
                                dv = np.abs(c.voltage.raw_to_si(r.ds_voltage[:]) - exp[:n, 0] * 1e-6)
                                di = np.abs(c.current.raw_to_si(r.ds_current[:]) - exp[:n, 1] * 1e-9)
                                chk.expect((dv <= 0.51 * c.voltage.gain).all() and (di <= 0.51 * c.current.gain).all(), "harvest:values", f"values differ by {dv.max()} V, {di.max()} A from stepping", rep)
                            chk.expect(r.get_mode() == "harvester" and r.get_datatype() == "ivsample" and r.get_hostname() == f"hrv_sim_{cfg.name}", "harvest:meta", f"{r.get_mode()} {r.get_datatype()} {r.get_hostname()}", rep)
                        chk.step(2 * n)
                        chk.trace()
                        chk.ev((repr(kw), word, n_buf))
        finally:
            Reader.samples_per_buffer = size0


def plain(chk: Check, gap):
    """Unmodified buffer size, with internals monitored."""
    from shepherd_core import Reader
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.vsource import simulate_source
    n = Reader.samples_per_buffer
    with chk.tmp() as d, chk.case("plain", gap):
        t, v, i = word_arrays([0, 1, 2, 3, 0, 0, 1] * (2 * n // 7 + 1), "ivsample")
        t, v, i = t[:2 * n], v[:2 * n], i[:2 * n]
        if gap:
            t = t.copy()
            t[n:] += np.uint64(gap)
        p = h5.make(d / "in.h5", t, v, i, cal={"voltage": (GV, 0.0), "current": (GC, 0.0)})
        cfg = VirtualSourceConfig(name="BQ25570s")
        es = [simulate_source(cfg, targets()[0], p, d / f"out{int(k)}.h5", monitor_internals=k) for k in (True, False)]
        chk.expect(es[0] == es[1], "plain:energy", f"energies {es} with and without monitoring", gap)
        with Reader(d / "out1.h5", verbose=False) as a, Reader(d / "out0.h5", verbose=False) as b:
            ok = a.ds_time.shape[0] == b.ds_time.shape[0] == 2 * n and (a.ds_time[:] == t).all() and (a.ds_voltage[:] == b.ds_voltage[:]).all() and (a.ds_current[:] == b.ds_current[:]).all()
            chk.expect(ok, "plain:output", "outputs differ with monitoring", gap)
        chk.step(4 * n)
        chk.ev(("plain", gap))


def run(chk: Check):
    defaults(chk)
    chk.parallel(residue, [0.0, 1e-6, -1e-6, -2e-6, -5e-7, -1e-4])
    chk.parallel(plain, [0, 140_000_000, 90_000_000])
    ss = sources()
    chk.parallel(stepping, [(s, d, ADC_OFFSETS[k % 2], log) for k, s in enumerate(ss) for d in ("ivsample", "ivcurve") for log in (False, True)])
    nt = len(targets())
    depth = 4 if chk.thorough else 3
    words = list(it.product(range(4), repeat=depth))
    sizes = (1, 3) if chk.thorough else (2, 3)
    jobs = []
    for k, s in enumerate(ss):
        for d in ("ivsample", "ivcurve"):
            for ti in range(nt) if chk.thorough else (k % nt, (k + 2) % nt):
                jobs += [(s, ti, d, words[a::8] if chk.thorough else words[(k + ti) % 8::8], sizes if d == "ivsample" else (4, 9)) for a in (range(8) if chk.thorough else (0,))]
    chk.parallel(simulate, jobs)
    hs = [{"name": "own", "algorithm": a, "interval_ms": 0.2, "duration_ms": 0.05, "voltage_mV": 1000} for a in ("cv", "mppt_voc", "mppt_po", "mppt_opt")] + [{"name": n} for n in ("cv20", "mppt_opt", "mppt_po", "mppt_bq_solar")]
    chk.parallel(harvest, [(h, words[a::4], (5, 6, 9)) for h in hs for a in (range(4) if chk.thorough else (0,))])
    chk.sample({"source": "BQ25570s", "word": [0, 1, 2, 3]})
