"""Reference of the emulated converter, written from its documented behaviour (one sample = inp, out, store, switch)."""
import copy
import io
import math
import pickle

DT_US = 10  # 100 kHz


class Ref:
    """State of one converter; all voltages uV, currents nA, powers fW."""

    def __init__(self, cfg, adc, dac):
        self.c, self.adc, self.dac = cfg, adc, dac
        m = cfg.converter_mode
        self.store, self.boost, self.buck, self.log_mid, self.feedback = (bool(m >> k & 1) for k in range(5))
        self.r_kohm = cfg.R_input_kOhm_n22 / 2**22
        self.k = cfg.Constant_us_per_nF_n28 / 2**28
        self.v_mid = float(cfg.V_intermediate_init_uV)
        self.request = float(cfg.V_intermediate_init_uV)
        self.v_out = float(cfg.V_output_uV)
        self.p_in = self.p_out = 0.0
        self.drain_left = cfg.interval_startup_delay_drain_n
        self.on, self.good, self.since = False, True, None
        self.pending = 0.0
        self.dv = float(cfg.dV_enable_output_uV)
        self.thr_on = float(max(cfg.V_enable_output_threshold_uV, cfg.dV_enable_output_uV))
        self.v_in = 0.0
        self.risky = False

    def copy(self):
        return copy.copy(self)

    # --- input
    def usable_input(self, v, i):
        c = self.c
        v = max(0.0, min(max(0.0, v) - c.V_input_drop_uV, c.V_input_max_uV))
        i = max(0.0, min(i, c.I_input_max_nA))
        return v, i

    def inp(self, v, i):
        c = self.c
        v, i = self.usable_input(v, i)
        self.v_in = v
        if not self.store:
            self.v_mid, self.p_in = v, 0.0
        elif self.boost:
            if v < c.V_input_boost_threshold_uV:
                v = 0.0
            row = min(11, math.floor(v / 2**c.LUT_input_V_min_log2_uV))
            self.p_in = c.LUT_inp_efficiency_n8[row][octave(i, c.LUT_input_I_min_log2_nA)] / 256 * v * i
        else:
            drop = i * self.r_kohm
            if self.feedback:
                self.request = self.v_mid + drop + c.V_input_drop_uV
                # the harvester is asked for the requested voltage, the point used is not below the storage
                self.p_in = (self.v_mid if drop > max(0.0, v - self.v_mid) else v - drop) * i
            else:
                self.p_in = max(v - drop, self.v_mid) * i if v >= self.v_mid else 0.0
        return self.p_in

    # --- output
    def current(self, raw):
        raw = max(0, min(2**18 - 1, raw))
        i = (raw * self.adc.gain + self.adc.offset) * 1e9
        if self.adc.offset < 0:  # negative readings are noise around zero and are compensated later
            if i > self.pending:
                i, self.pending = i - self.pending, 0.0
            else:
                i, self.pending = 0.0, min(self.pending - i, 60_000.0)
        return i

    def out(self, raw):
        c = self.c
        i = self.current(raw)
        inv = c.LUT_out_inv_efficiency_n4[octave(i, c.LUT_output_I_min_log2_nA)] / 16 if self.buck else 1.0
        self.p_out = inv * self.v_out * i + self.v_mid * c.I_intermediate_leak_nA
        if self.drain_left > 0:
            self.drain_left -= 1
            self.p_out = 0.0
        return self.p_out

    # --- storage
    def step_store(self):
        self.dv_step = 0.0
        if self.store:
            self.dv_step = (self.p_in - self.p_out) / max(1.0, self.v_mid) * self.k
            self.v_mid += self.dv_step
        self.v_mid = max(1.0, min(self.v_mid, float(self.c.V_intermediate_max_uV)))
        return self.v_mid

    # --- switches
    def switch(self):
        c = self.c
        v = self.v_mid
        self.since = None if self.since is None else self.since + 1
        check = self.since is None or self.since >= c.interval_check_thresholds_n
        self.risky = any(0 < abs(v - t) < 1e-3 for t in (self.thr_on, c.V_disable_output_threshold_uV, c.V_pwr_good_enable_threshold_uV, c.V_pwr_good_disable_threshold_uV, c.V_output_uV + c.V_buck_drop_uV))
        if check:
            self.since = 0
            if self.on:
                self.on = v >= c.V_disable_output_threshold_uV
            elif v >= self.thr_on:
                self.on = True
                self.v_mid -= self.dv  # charging the output-capacitor
        if check or c.immediate_pwr_good_signal:
            if self.good and v <= c.V_pwr_good_disable_threshold_uV:
                self.good = False
            elif not self.good and v >= c.V_pwr_good_enable_threshold_uV:
                self.good = self.on
        if self.on or self.drain_left > 0:
            self.v_out = max(0.0, self.v_mid - c.V_buck_drop_uV)
            if self.buck:
                self.v_out = min(self.v_out, float(c.V_output_uV))
        else:
            self.v_out = 0.0
        return self.raw(self.v_out) if self.v_out > 0 else (self.raw(0.0) if self.on or self.drain_left > 0 else 0)

    def raw(self, uv):
        return min(65535, round(max(0.0, (uv * 1e-6 - self.dac.offset) / self.dac.gain)))


def octave(x, log2_min):
    """Column of a table with steps at 2^(min+1), 2^(min+2), .."""
    return max(0, min(11, math.floor(x / 2**log2_min).bit_length() - 1))


class _P(pickle.Pickler):
    def __init__(self, fd, shared):
        super().__init__(fd)
        self.shared = shared

    def persistent_id(self, obj):
        return self.shared.get(id(obj))


def clone(model, shared):
    return copy.deepcopy(model, {id(o): o for o in shared})


def key(model, shared):
    fd = io.BytesIO()
    _P(fd, {id(o): k for k, o in enumerate(shared)}).dump(model.__dict__)
    return fd.getvalue()


# --------------------------------------------------------------------------- configurations
SHIPPED = ("neutral", "direct", "diode+capacitor", "dio_cap", "diode+resistor+capacitor", "dio_res_cap", "BQ25504", "BQ25504s", "BQ25504-Schmitt", "BQ25570", "BQ25570s", "BQ25570-Schmitt", "default")


def custom():
    """Small capacitors, so that few samples cross every threshold."""
    steps = [[round(0.05 * (r + 1) + 0.03 * k, 3) for k in range(12)] for r in range(12)]
    out_eff = [0.3, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 1.0]
    base = {"V_intermediate_init_mV": 2500, "V_intermediate_enable_threshold_mV": 2600, "V_intermediate_disable_threshold_mV": 2300, "V_pwr_good_enable_threshold_mV": 2800, "V_pwr_good_disable_threshold_mV": 2400,
            "V_output_mV": 2200, "C_output_uF": 0.05, "V_intermediate_max_mV": 3600, "I_input_max_mA": 50, "V_input_max_mV": 3000}
    lut = {"LUT_input_efficiency": steps, "LUT_input_V_min_log2_uV": 18, "LUT_input_I_min_log2_nA": 13, "LUT_output_efficiency": out_eff, "LUT_output_I_min_log2_nA": 13}
    yield "boost", base | lut | {"enable_boost": True, "C_intermediate_uF": 1, "V_input_boost_threshold_mV": 130}
    yield "boost leak drop", base | lut | {"enable_boost": True, "C_intermediate_uF": 1, "V_input_drop_mV": 250, "I_intermediate_leak_nA": 5_000_000}
    yield "boost buck", base | lut | {"enable_boost": True, "enable_buck": True, "C_intermediate_uF": 1, "V_input_boost_threshold_mV": 100, "V_buck_drop_mV": 150}
    yield "boost buck low", base | lut | {"enable_boost": True, "enable_buck": True, "C_intermediate_uF": 2, "V_output_mV": 3000, "V_buck_drop_mV": 200, "interval_check_thresholds_ms": 0.03}
    yield "buck only", base | lut | {"enable_buck": True, "V_buck_drop_mV": 100, "V_intermediate_max_mV": 2900}
    yield "buck cap", base | lut | {"enable_buck": True, "C_intermediate_uF": 1, "V_buck_drop_mV": 100, "V_input_drop_mV": 100, "R_input_mOhm": 20_000, "immediate_pwr_good_signal": False, "interval_check_thresholds_ms": 0.02}
    yield "diode cap", base | {"C_intermediate_uF": 1, "V_input_drop_mV": 300}
    yield "diode res cap", base | {"C_intermediate_uF": 1, "V_input_drop_mV": 300, "R_input_mOhm": 47_000, "C_output_uF": 0}
    yield "feedback", base | {"C_intermediate_uF": 1, "V_input_drop_mV": 300, "enable_feedback_to_hrv": True}
    yield "feedback res", base | {"C_intermediate_uF": 1, "R_input_mOhm": 47_000, "enable_feedback_to_hrv": True, "I_intermediate_leak_nA": 1_000_000}
    yield "pass", base | {"V_input_drop_mV": 120, "V_intermediate_max_mV": 2750}
    yield "pass interval", base | {"interval_check_thresholds_ms": 0.03, "immediate_pwr_good_signal": False}
    yield "startup", base | lut | {"enable_boost": True, "enable_buck": True, "C_intermediate_uF": 1, "interval_startup_delay_drain_ms": 0.03, "V_intermediate_init_mV": 2000}
    yield "startup pass", base | {"interval_startup_delay_drain_ms": 0.02, "immediate_pwr_good_signal": False, "interval_check_thresholds_ms": 0.02}
    yield "big output cap", base | lut | {"enable_boost": True, "C_intermediate_uF": 1, "C_output_uF": 0.9, "V_intermediate_enable_threshold_mV": 2250}
    yield "output cap larger", base | {"enable_boost": True, "C_intermediate_uF": 1, "C_output_uF": 3}
    yield "swapped thresholds", base | {"enable_boost": True, "C_intermediate_uF": 1, "V_intermediate_enable_threshold_mV": 2200, "V_intermediate_disable_threshold_mV": 2600, "V_pwr_good_enable_threshold_mV": 2000, "V_pwr_good_disable_threshold_mV": 2700}
    yield "equal thresholds", base | {"enable_boost": True, "C_intermediate_uF": 1, "C_output_uF": 0, "V_intermediate_enable_threshold_mV": 2500, "V_intermediate_disable_threshold_mV": 2500, "V_pwr_good_enable_threshold_mV": 2500, "V_pwr_good_disable_threshold_mV": 2500}
    yield "zero thresholds", base | {"enable_boost": True, "C_intermediate_uF": 1, "C_output_uF": 0, "V_intermediate_enable_threshold_mV": 0, "V_intermediate_disable_threshold_mV": 0, "V_pwr_good_enable_threshold_mV": 0, "V_pwr_good_disable_threshold_mV": 0}


ADC_OFFSETS = (None, -2e-6, 1e-6)


def configs():
    """[(name, VirtualSourceConfig-arguments, dtype)]."""
    out = [(n, {"name": n}, d) for n in SHIPPED for d in ("ivsample", "ivcurve")]
    for n, kw in custom():
        out.append((n, {"name": "own", **kw}, "ivcurve" if "feedback" in n else "ivsample"))
    return out


def make(kw, dtype, adc_offset=None, log=False):
    """-> (real converter, reference, shared immutable objects)."""
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import CalibrationPair, EnergyDType, VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    from shepherd_core.vsource import PruCalibration, VirtualConverterModel
    cal = CalibrationEmulator()
    if adc_offset is not None:
        cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=cal.adc_C_A.gain, offset=adc_offset))
    src = VirtualSourceConfig(**kw)
    cfg = ConverterPRUConfig.from_vsrc(src, dtype_in=EnergyDType[dtype], log_intermediate_node=log)
    return VirtualConverterModel(cfg, PruCalibration(cal)), Ref(cfg, cal.adc_C_A, cal.dac_V_A), (cfg, cal)
