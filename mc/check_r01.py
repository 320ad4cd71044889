"""R01: write histories on the real Writer vs a plain list model."""
import itertools

import numpy as np
from shepherd_core.data_models.base.calibration import CalibrationPair
from shepherd_core.data_models.base.calibration import CalibrationSeries
from shepherd_core.data_models.task import Compression
from shepherd_core.reader import Reader
from shepherd_core.writer import Writer

BUF = 10_000
RULE = ("every history = sequence of append operations (form x length) with optional close+reopen between them, "
        "per start time / sample interval / calibration; state = (stored length, phase to buffer, sessions, interval); "
        "a history is non-trivial if it stored at least one sample; distinct = distinct final contents")
ASSUME = ["sample contents are position-coded and boundary values, not all values",
          "single writer process, no crash inside a session"]

CALS = {
    "default": CalibrationSeries(),
    "pow2": CalibrationSeries(voltage=CalibrationPair(gain=2**-20, offset=-0.5), current=CalibrationPair(gain=2**-25, offset=0.25),
                              time=CalibrationPair(gain=1e-9)),
}
VMAX = 2**32 - 1


class Model:
    def __init__(self, interval):
        self.t, self.v, self.c = [np.empty(0, "u8") for _ in range(3)]
        self.interval = interval
        self.next_t = None
        self.sess_interval = 10_000  # what a start time alone expands with
        self.counter = 0

    @property
    def n(self):
        return len(self.v)

    def add(self, t, v, c):
        n = min(len(t), len(v), len(c))
        self.t = np.concatenate([self.t, t[:n]])
        self.v = np.concatenate([self.v, v[:n]])
        self.c = np.concatenate([self.c, c[:n]])

    def close(self):
        if self.n >= 2 and self.interval != 10_000:
            return
        keep = self.n // BUF * BUF
        self.t, self.v, self.c = self.t[:keep], self.v[:keep], self.c[:keep]

    def reopen(self):
        if self.n >= 2:
            self.sess_interval = self.interval


def content(m, n):
    """Position-coded unique raw values, incl. extreme ones."""
    idx = np.arange(m.counter, m.counter + n, dtype="u8")
    m.counter += n
    v = (idx * np.uint64(7919) + np.uint64(5)) % np.uint64(2**31)
    c = (idx * np.uint64(104729) + np.uint64(11)) % np.uint64(2**31)
    if n:
        v[-1], c[0] = VMAX, VMAX
        if n > 2:
            v[n // 2] = 0
    return v, c


def apply(w, m, form, n, cal, start):
    t0 = start if m.n == 0 else int(m.t[-1]) + m.interval
    nv, nc, nt = n, n, n
    if form == "arr_cshort":
        nc = n - 1
    elif form == "arr_vshort":
        nv = n - 1
    elif form == "arr_tshort":
        nt = n - 1
    elif form == "sc_cshort":
        nc = n - 1
    v, c = content(m, max(nv, nc))
    v, c = v[:nv], c[:nc]
    t = np.uint64(t0) + np.uint64(m.interval) * np.arange(nt, dtype="u8")
    k = min(nv, nc)
    tsc = np.uint64(t0) + np.uint64(m.sess_interval) * np.arange(k, dtype="u8")
    before = (t.copy(), v.copy(), c.copy())
    if form.startswith("arr"):
        w.append_iv_data_raw(t, v, c)
        m.add(t, v, c)
    elif form.startswith("sc"):
        w.append_iv_data_raw(int(t0), v, c)
        m.add(tsc, v, c)
    elif form == "float":
        w.append_iv_data_raw(float(t0), v, c)
        m.add(tsc, v, c)
    elif form in ("si_arr", "si_sc"):
        v_si = cal.voltage.gain * v.astype("f8") + cal.voltage.offset
        c_si = cal.current.gain * c.astype("f8") + cal.current.offset
        keep = (v_si.copy(), c_si.copy())
        if form == "si_arr":
            w.append_iv_data_si(t.astype("f8") * 1e-9, v_si, c_si)
            m.add(t, v, c)
        else:
            w.append_iv_data_si(float(t0) * 1e-9, v_si, c_si)
            m.add(tsc, v, c)
        assert np.array_equal(keep[0], v_si) and np.array_equal(keep[1], c_si), "caller's data was changed"
    return before, (t, v, c)


def compare(chk, key, where, fd, m, replay):
    got = [fd[k][:] for k in ("time", "voltage", "current")]
    exp = [m.t, m.v, m.c]
    lens = [len(g) for g in got]
    if not chk.expect(lens == [m.n] * 3, f"{key}:{where}:len", f"lengths of time/voltage/current {lens}, expected {m.n}", replay):
        return
    for name, g, e in zip(("time", "voltage", "current"), got, exp):
        bad = np.flatnonzero(g.astype("u8") != e)
        chk.expect(bad.size == 0, f"{key}:{where}:{name}",
                   lambda: f"{name}[{bad[0]}] = {g[bad[0]]}, expected {e[bad[0]]} ({bad.size} differ of {len(e)})", replay)


def run_history(chk, item):
    interval, start, calname, hist = item
    cal = CALS[calname]
    key = "history"
    replay = {"interval_ns": interval, "start": start, "cal": calname, "ops": hist}
    with chk.tmp() as d, chk.case(key, replay):
        path = d / "rec.h5"
        m = Model(interval)
        w = Writer(path, cal_data=cal, compression=Compression.null, verbose=False)
        w.__enter__()
        sessions = 1
        for op in hist:
            chk.step()
            if op == "reopen":
                w.__exit__()
                m.close()
                with Reader(path, verbose=False) as r:
                    compare(chk, key, "reopened", r.h5file["data"], m, replay)
                w = Writer(path, modify_existing=True, compression=Compression.null, verbose=False)
                w.__enter__()
                m.reopen()
                sessions += 1
            else:
                form, n = op
                before, after = apply(w, m, form, n, cal, start)
                chk.expect(all(np.array_equal(a, b) for a, b in zip(before, after)), f"{key}:caller-data",
                           "the caller's arrays were modified", replay)
                compare(chk, key, "appended", w.h5file["data"], m, replay)
            chk.state((m.n, m.interval, m.sess_interval, sessions, calname))
        w.__exit__()
        m.close()
        with Reader(path, verbose=False) as r:
            compare(chk, key, "closed", r.h5file["data"], m, replay)
            if m.n:
                buf = list(r.read_buffers(is_raw=True))
                tot = np.concatenate([b[1] for b in buf]) if buf else np.empty(0)
                chk.expect(np.array_equal(tot, m.v[:m.n // BUF * BUF]), f"{key}:buffers", "reading back the buffers differs", replay)
        chk.trace()
        chk.ev((m.n, int(m.t[-1]) if m.n else 0, interval, calname, sessions))
        chk.sample(replay)


def histories(alpha, depth, max_reopen):
    """All sequences of appends with a choice of close+reopen before each (but the first)."""
    for k in range(1, depth + 1):
        for ops in itertools.product(alpha, repeat=k):
            for cuts in itertools.product((0, 1), repeat=k - 1):
                if sum(cuts) > max_reopen:
                    continue
                h = [ops[0]]
                for cut, op in zip(cuts, ops[1:]):
                    if cut:
                        h.append("reopen")
                    h.append(op)
                yield h


def run(chk):
    forms = ["arr", "sc", "float", "si_arr", "si_sc", "arr_cshort", "arr_vshort", "arr_tshort", "sc_cshort"]
    items = []
    lens = [1, 5000, 9999, 10000, 10001, 25000]
    if chk.thorough:
        lens = [1, 2, 4999, 5000, 5001, 9999, 10000, 10001, 20000, 25000]
    # A) every form x every length, every form after every form (depth 2), with and without reopening
    a_alpha = [(f, n) for f in forms for n in (lens if chk.thorough else [1, 5000, 10001])]
    for h in histories(a_alpha, 2 if chk.thorough else 1, 1):
        items.append((10_000, 0, "default", h))
    small = [(f, n) for f in forms for n in (1, 10001)]
    for h in histories(small, 2, 1):
        items.append((10_000, 0, "pow2", h))
    # B) deeper histories over a reduced alphabet
    b_alpha = [("arr", 1), ("arr", 9999), ("arr", 10000), ("sc", 1), ("sc", 5000), ("sc", 10000)]
    for h in histories(b_alpha, 4 if chk.thorough else 3, 3):
        items.append((10_000, 0, "default", h))
    # C) realistic start (epoch in ns), raw forms
    c_alpha = [("arr", 10000), ("sc", 10000), ("arr", 1), ("sc", 9999)]
    for h in histories(c_alpha, 3, 2):
        items.append((10_000, 1_700_000_000_123_456_789, "default", h))
    # D) other sample intervals: whole arrays in the first session, then any form after reopening
    for interval in (20_000, 5_000, 100_000, 1_000_000, 3_333, 9_999, 10_001):
        for n in (2, 9999, 10000, 10001):
            items.append((interval, 1_000, "default", [("arr", n)]))
            for op in [("arr", 7), ("sc", 7), ("float", 7), ("sc", 10000), ("si_sc", 3)]:
                items.append((interval, 1_000, "default", [("arr", n), "reopen", op]))
                items.append((interval, 1_000, "default", [("arr", n), "reopen", op, "reopen", ("sc", 5)]))
                if op[0] == "arr":
                    items.append((interval, 1_000, "default", [("arr", n), op, "reopen", ("sc", 5)]))
    # E) nothing appended, empty sessions
    items += [(10_000, 0, "default", h) for h in ([("arr", 0)], ["reopen"], ["reopen", ("sc", 10000)], [("arr", 9999), "reopen", "reopen", ("sc", 10000)],
                                                  [("arr", 10000), "reopen", "reopen", ("sc", 1), "reopen"])]
    chk.count("histories", len(items))
    chk.parallel(run_history, items)
