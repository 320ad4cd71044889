"""V03: harvesting algorithms on every stream of small windows."""
import itertools as it

from mc.lib import Check

RULE = ("enumerated: (a) every stream of samples up to a depth over a grid of voltages and currents, (b) every sequence of up to 3 (thorough 4) windows from a menu of curves (sawtooth up, down, triangle; low, high, steep, dark), (c) every static curve over an alphabet of currents repeated until settled; "
        "each on the real model with every algorithm x set point x limits x extrapolation x interval menus. Oracle: reference algorithms per sample, plus for settled curves the operating point computed from the definition (nearest to set point, fraction of open-circuit voltage, maximum power). distinct = distinct (configuration, stream)")
ASSUME = ["windows of 4 to 8 samples", "a set point is only tracked when the curve passes it with steps below four times the configured step; otherwise the last point is held", "extrapolated points may differ from recorded ones, but stay non-negative"]


class Ref:
    """Harvester following its description; one call per sample."""

    def __init__(self, c):
        self.c = c
        self.alg = next((n for n, b in (("opt", 14), ("po", 13), ("voc", 12), ("cv", 8)) if c.algorithm >= 1 << b), "pass")
        if c.window_size <= 1:
            self.alg = "pass"
        self.target = c.voltage_uV + 1
        self.tick = c.interval_n - 2 * c.window_size if c.interval_n > 2 * c.window_size else 2**30
        self.prev, self.below = (0, 0), 0
        self.hold, self.slope = (0, 0), (0, 0)
        self.extra = bool(c.hrv_mode & 4)
        self.up = bool(c.hrv_mode & 2)
        self.gait = c.voltage_step_uV
        self.best = 0
        # two candidate stores: the valid one and the next one, each with its age
        self.now, self.nxt = ([0, c.voltage_max_uV], [0, c.voltage_max_uV]) if self.alg == "voc" else ([0, (0, 0)], [0, (0, 0)])

    def feed(self, v, i):
        return (v, i) if self.alg == "pass" else getattr(self, self.alg)(v, i)

    def cv(self, v, i):
        below = v < self.target
        reach = 4 * self.c.voltage_step_uV
        if below != self.below and abs(v - self.prev[0]) < reach:
            d, dp = abs(v - self.target), abs(self.prev[0] - self.target)
            if min(d, dp) < reach:
                self.hold = (v, i) if d < dp else self.prev
                self.slope = (v - self.prev[0], i - self.prev[1])
        elif self.extra:
            sv, si = self.slope
            if (self.hold[0] < self.target) == (sv > 0):
                self.hold = (max(0, self.hold[0] + sv), max(0, self.hold[1] + si))
            else:
                self.hold = (max(0, self.hold[0] - sv), max(0, self.hold[1] - si))
        self.prev, self.below = (v, i), below
        return self.hold

    def clock(self):
        self.tick = self.tick + 1 if self.tick + 1 < self.c.interval_n else 0

    def voc(self, v, i):
        c = self.c
        self.clock()
        self.now[0] += 1
        self.nxt[0] += 1
        if i < c.current_limit_nA and max(1000, c.voltage_min_uV) <= v <= c.voltage_max_uV and v < self.nxt[1]:
            self.nxt = [0, v]
        if self.now[0] > 2 * c.window_size or self.nxt[1] <= self.now[1]:
            self.now, self.nxt = self.nxt, [0, c.voltage_max_uV]
        out = self.cv(v, i)
        if self.tick < c.duration_n:
            self.target = self.now[1]
        elif self.tick == c.duration_n:
            self.target = self.now[1] * c.setpoint_n8 // 256
        return out

    def po(self, v, i):
        c = self.c
        self.clock()
        out = self.cv(v, i)
        if self.tick:
            return out
        p = out[0] * out[1]
        if p > self.best:
            self.target += self.gait if self.up else -self.gait
            self.gait *= 2
        else:
            self.gait = c.voltage_step_uV
            if p <= 0 and self.target > 0:
                self.up = True
                self.target -= 4 * c.voltage_step_uV
            else:
                self.up = not self.up
                self.target += self.gait if self.up else -self.gait
        self.best = p
        for lim, hit, up in ((c.voltage_max_uV, self.target >= c.voltage_max_uV, False), (c.voltage_min_uV, None, True), (c.voltage_step_uV, None, True)):
            if hit if hit is not None else self.target <= lim:
                self.target, self.up, self.gait = lim, up, c.voltage_step_uV
        return out

    def opt(self, v, i):
        c = self.c
        self.now[0] += 1
        self.nxt[0] += 1
        if c.voltage_min_uV <= v <= c.voltage_max_uV and v * i >= self.nxt[1][0] * self.nxt[1][1]:
            self.nxt = [0, (v, i)]
        if self.now[0] > 2 * c.window_size or self.nxt[1][0] * self.nxt[1][1] >= self.now[1][0] * self.now[1][1]:
            self.now, self.nxt = self.nxt, [0, (0, 0)]
        return self.now[1]


def menu(thorough):
    """Configurations: arguments of the harvester."""
    cv = [{"algorithm": "cv", "voltage_mV": v, "enable_linear_extrapolation": e} for v in (0, 400, 1000, 1499.999, 1500, 2500, 4900) for e in (True, False)]
    voc = [{"algorithm": "mppt_voc", "setpoint_n": s, "interval_ms": iv, "duration_ms": du, "current_limit_uA": cl, "voltage_min_mV": lo, "voltage_max_mV": hi, "voltage_mV": 2000, "enable_linear_extrapolation": e}
           for s in (0.5, 0.76, 1.0) for iv, du in ((0.3, 0.05), (0.1, 0.1), (10, 0.2)) for cl, lo, hi in ((1, 0, 5000), (300, 0, 5000), (1, 1500, 3500)) for e in (True, False)]
    po = [{"algorithm": "mppt_po", "interval_ms": iv, "voltage_min_mV": lo, "voltage_max_mV": hi, "voltage_mV": v, "rising": r, "enable_linear_extrapolation": e}
          for iv in (0.01, 0.2, 0.3) for lo, hi, v in ((0, 5000, 2500), (1000, 3000, 1000), (0, 5000, 0), (0, 3000, 3000)) for r in (True, False) for e in (True, False)]
    opt = [{"algorithm": "mppt_opt", "voltage_min_mV": lo, "voltage_max_mV": hi, "voltage_mV": 2000} for lo, hi in ((0, 5000), (1000, 3000), (1500, 2000))]
    both = [{"algorithm": "neutral"}]
    return (cv + voc + po + opt + both)


def build(kw, win, step_uV, dtype="ivcurve"):
    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    c = VirtualHarvesterConfig(name="own", **kw)
    return HarvesterPRUConfig.from_vhrv(c, dtype_in=EnergyDType[dtype], window_size=win, voltage_step_V=step_uV * 1e-6, for_emu=True)


STEP = 500_000


def play(chk, cfg, stream, kw, how, ref=True):
    """Feed the stream; returns outputs or None after a violation."""
    from shepherd_core.vsource import VirtualHarvesterModel
    m, r = VirtualHarvesterModel(cfg), Ref(cfg)
    outs = []
    alg = r.alg
    pts = {(0, 0)}
    for n, (v, i) in enumerate(stream):
        got = m.ivcurve_sample(v, i)
        want = r.feed(v, i)
        outs.append(got)
        pts.add((v, i))
        rep = None
        if tuple(got) != want or got[0] < 0 or got[1] < 0 or (tuple(got) not in pts and (alg in ("pass", "opt") or not kw.get("enable_linear_extrapolation", True))):
            rep = {"harvester": kw, "window": cfg.window_size, "stream (uV, nA)": stream[:n + 1], "output": got, "expected": want}
            if got[0] < 0 or got[1] < 0:
                chk.fail(f"negative:{alg}", f"output {got} is negative", rep)
            elif tuple(got) != want:
                chk.fail(f"{how}:{alg}", f"{alg} puts out {got} instead of {want} for sample {n}", rep)
            else:
                chk.fail(f"invented:{alg}", f"{alg} puts out {got}, which is not part of the input", rep)
            return None
    chk.step(len(stream))
    chk.trace()
    return outs


def samples(chk: Check, item):
    """Every stream over a grid."""
    kw, part = item
    cfg = build(kw, 4, STEP)
    vs, cs = (0, 1_000_000, 1_500_000, 2_500_000), (0, 1_500, 400_000)
    al = list(it.product(vs, cs))
    with chk.case("stream", kw):
        n = 5 if chk.thorough else 4
        if kw["algorithm"] == "mppt_opt" or kw.get("voltage_mV") == 1500:
            n = 5
        for head in al[part::4]:
            for tail in it.product(al, repeat=n - 1):
                if play(chk, cfg, [head, *tail], kw, "stream") is None:
                    return
                chk.ev((repr(kw), head, tail))


def curve(voc, isc, knee, vs):
    """Simple cell: constant current up to the knee, linear down to the open-circuit voltage."""
    out = []
    for v in vs:
        i = isc if v <= knee else (0 if v >= voc else isc * (voc - v) // (voc - knee))
        out.append((v, int(i)))
    return out


def curves(win):
    top = STEP * (win - 1)
    up = [STEP * k for k in range(win)]
    tri = [STEP * abs(2 * k - (win - 1)) // 1 for k in range(win)]
    shapes = ((top // 2, 300_000, top // 4), (top - STEP, 1_000_000, top // 2), (top, 2_000, 0), (0, 0, 0), (top + STEP, 500_000, top // 2))
    out = []
    for s in shapes:
        out.append(curve(*s, up))
        out.append(curve(*s, up[::-1]))
    out.append(curve(*shapes[1], tri))
    out.append([(1_000_000, 100_000)] * win)
    return out


def windows(chk: Check, kw):
    with chk.case("windows", kw):
        win = 8
        cfg = build(kw, win, STEP)
        menu_ = curves(win)
        for n in range(1, 5 if chk.thorough else 4):
            for word in it.product(range(len(menu_)), repeat=n):
                stream = [s for k in word for s in menu_[k]]
                if play(chk, cfg, stream, kw, "windows") is None:
                    return
                chk.ev((repr(kw), word))
        # long walks: one change after the tracker settled
        for a, b in it.product(range(len(menu_)), repeat=2):
            stream = menu_[a] * 12 + menu_[b] * 12
            if play(chk, cfg, stream, kw, "walk") is None:
                return
            chk.ev((repr(kw), "walk", a, b))
            chk.state((repr(kw), a, b))


def settled(chk: Check, item):
    """Static curves: result from the definition of the algorithm alone."""
    kw, down = item
    alg = kw["algorithm"]
    win = 6
    cfg = build(kw, win, STEP)
    with chk.case("settled", kw):
        for cs in it.product((0, 900, 1_500, 200_000, 700_000) if chk.thorough else (0, 1_500, 200_000, 700_000), repeat=win - 1):
            cs = sorted(cs, reverse=True)
            pts = [(STEP * k, i) for k, i in enumerate([*cs, 0])]
            stream = (pts[::-1] if down else pts) * (24 if alg == "mppt_voc" else 6)
            outs = play(chk, cfg, stream, kw, "settled")
            if outs is None:
                return
            last = outs[-win:]
            rep = {"harvester": kw, "curve": pts, "falling": down, "last window": last}
            if alg == "cv" and STEP // 2 < cfg.voltage_uV < pts[-1][0]:
                d = min(abs(v - cfg.voltage_uV) for v, _ in pts)
                ok = [p for p in pts if abs(abs(p[0] - cfg.voltage_uV) - d) <= 2]
                if not kw["enable_linear_extrapolation"]:
                    chk.expect(all(tuple(o) in ok for o in last), "settled-cv", f"{last} instead of {ok}", rep)
                else:
                    chk.expect(all(abs(o[0] - cfg.voltage_uV) <= STEP + 2 for o in last), "settled-cv", f"{last} is more than a step from the set point", rep)
            elif alg == "mppt_opt":
                fit = [p for p in pts if cfg.voltage_min_uV <= p[0] <= cfg.voltage_max_uV]
                best = max(v * i for v, i in fit)
                chk.expect(all(o[0] * o[1] == best for o in last), "settled-opt", f"{last} instead of power {best}", rep)
                chk.expect(all(tuple(o) in fit for o in last if best), "settled-opt", f"{last} is not part of the curve or outside of limits", rep)
            chk.ev((repr(kw), down, tuple(cs)))
            chk.state((repr(kw), down, tuple(cs)))


def voc_point(chk: Check, item):
    """Open-circuit tracking on static curves with distinct open-circuit voltage, observed after the sampling phase."""
    s, down = item
    win = 12
    kw = {"algorithm": "mppt_voc", "setpoint_n": s, "interval_ms": 1.2, "duration_ms": 0.24, "current_limit_uA": 1, "voltage_mV": 2000, "enable_linear_extrapolation": False}
    cfg = build(kw, win, 400_000)
    from shepherd_core.vsource import VirtualHarvesterModel
    with chk.case("voc-point", kw):
        for voc in range(2, win):
            pts = [(400_000 * k, 0 if k >= voc else 900_000 - 50_000 * k) for k in range(win)]
            m = VirtualHarvesterModel(cfg)
            outs = [m.ivcurve_sample(*p) for p in (pts[::-1] if down else pts) * 40]
            aim = 400_000 * voc * cfg.setpoint_n8 / 256
            d = min(abs(v - aim) for v, _ in pts)
            ok = [p for p in pts if abs(abs(p[0] - aim) - d) <= 1]
            # last window before a new measurement (interval 120 samples = 10 windows)
            tail = outs[-win * 5:-win * 3]
            chk.expect(all(tuple(o) in ok for o in tail), "voc-point", f"{sorted(set(map(tuple, tail)))} instead of {ok}", {"harvester": kw, "curve": pts, "falling": down})
            chk.step(len(outs))
            chk.ev(("vp", s, down, voc))


def limits(chk: Check, kw):
    """Perturb-and-observe: settled operating points stay within the limits (one step of the curve tolerated)."""
    from shepherd_core.vsource import VirtualHarvesterModel
    win = 8
    cfg = build(kw, win, STEP)
    lo, hi = max(cfg.voltage_min_uV, cfg.voltage_step_uV), cfg.voltage_max_uV
    with chk.case("limits", kw):
        for k, c in enumerate(curves(win)):
            m = VirtualHarvesterModel(cfg)
            outs = []
            for s in c * 30:
                outs.append(m.ivcurve_sample(*s))
            chk.step(len(outs))
            if not kw["enable_linear_extrapolation"]:
                bad = [o for o in outs[win * 4:] if tuple(o) != (0, 0) and not lo - STEP <= o[0] <= hi + STEP]
                chk.expect(not bad, "limits:po", f"operating points {bad[:3]} outside of {lo}..{hi}", {"harvester": kw, "curve": c})
            chk.ev((repr(kw), "limits", k))


def floor(chk: Check, lo):
    """Voltages around the lowest one that counts as open-circuit voltage."""
    for s, ext in it.product((0.5, 1.0), (True, False)):
        kw = {"algorithm": "mppt_voc", "setpoint_n": s, "interval_ms": 0.1, "duration_ms": 0.1, "current_limit_uA": 1, "voltage_min_mV": lo, "voltage_max_mV": 5000, "voltage_mV": 2000, "enable_linear_extrapolation": ext}
        with chk.case("floor", kw):
            cfg = build(kw, 4, STEP)
            vs = sorted({0, 1, 500, 999, 1000, 1001, *(max(0, round(lo * 1000) + d) for d in (-1, 0, 1)), 2_000_000})
            for word in it.product(vs, repeat=3):
                for i in (0, 5000):
                    if play(chk, cfg, [(v, i if k == 1 else 0) for k, v in enumerate(word * 4)], kw, "floor") is None:
                        return
                    chk.ev((repr(kw), word, i))


def passing(chk: Check, _):
    """Without windows (already harvested input) every algorithm passes the samples."""
    from shepherd_core.vsource import VirtualHarvesterModel
    for kw in menu(False):
        for win in (0, 1):
            with chk.case("pass", kw):
                cfg = build(kw, win, STEP, "ivsample")
                m = VirtualHarvesterModel(cfg)
                for v, i in it.product((0, 1, 500_000, 4_999_999, -3), (0, 1, 50_000_000, -9)):
                    got = m.ivcurve_sample(v, i)
                    chk.expect(tuple(got) == (v, i), "pass", f"{kw['algorithm']} changes harvested sample {(v, i)} to {got}", {"harvester": kw, "window": win})
                    chk.step()
                    chk.ev(("pass", repr(kw), win, v, i))


def run(chk: Check):
    passing(chk, None)
    kws = menu(chk.thorough)
    chk.parallel(voc_point, [(s, d) for s in (0.3, 0.5, 0.7, 0.76, 0.9, 1.0) for d in (False, True)])
    chk.parallel(floor, [0, 0.3, 0.999, 1, 1.001, 5, 1000])
    chk.parallel(limits, [k for k in kws if k["algorithm"] == "mppt_po"])
    chk.parallel(settled, [(k, d) for k in kws for d in (False, True)])
    chk.parallel(windows, kws)
    ks = kws if chk.thorough else kws[::3] + [k for k in kws if k["algorithm"] == "mppt_opt"]
    chk.parallel(samples, [(k, p) for k in ks for p in range(4)])
    chk.sample({"harvester": {"algorithm": "mppt_opt"}, "windows": curves(8)[0]})
