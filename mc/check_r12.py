"""R12: appends that are interrupted or given unusable data: every point of interruption x history around it."""
import itertools as it
import os
import sys

import h5py
import numpy as np
from shepherd_core.reader import Reader
from shepherd_core.writer import Compression
from shepherd_core.writer import Writer

from mc.lib import Check

RULE = ("crash points = every line event of the writer, its parents and of h5py's dataset layer during an append (exhaustive, stateless: one fault per run) x kind of exception x appends before x form of append x what the caller does (leave the session, continue, retry, reopen and continue); "
        "unusable data = menu of malformed arrays at each of the three places x the same histories. Oracle: list model in which an append is either there as a whole or not at all. distinct = distinct (history, point, content afterwards)")
ASSUME = ["one fault per session; faults while the session is being closed and death of the process (no chance to close the container) are out of scope",
          "data that is accepted without exception only has to keep the columns equally long and everything before unchanged"]

T0 = 1_700_000_000_000_000_000
TRACED = None


def traced():
    global TRACED
    if TRACED is None:
        import h5py._hl.dataset as hd
        TRACED = {sys.modules[Writer.__module__].__file__, sys.modules[Reader.__module__].__file__, hd.__file__,
                  sys.modules["shepherd_core.data_models.base.calibration"].__file__}
    return TRACED


class Cut(BaseException):
    """Stands for a signal that raises (like a shutdown request)."""


class Inject:
    """Raises at the k-th line event of the traced files (k < 0: only counts)."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.hit = k, exc, 0, None

    def __call__(self, frame, event, _arg):
        if frame.f_code.co_filename not in traced():
            return None
        if event == "line" and self.hit is None:
            if self.n == self.k:
                self.hit = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise self.exc
            self.n += 1
        return self


def values(idx, n):
    k = np.arange(n, dtype="u8") + np.uint64(idx * 1_000 + 1)
    return (k * np.uint64(7919)) % np.uint64(2**31) + np.uint64(1), (k * np.uint64(104729)) % np.uint64(2**31) + np.uint64(1)


class Session:
    def __init__(self, interval, n):
        self.interval, self.n, self.idx = interval, n, 0
        self.parts = []

    def make(self):
        self.idx += 1
        t = np.uint64(T0 + sum(len(p[0]) for p in self.parts) * self.interval) + np.uint64(self.interval) * np.arange(self.n, dtype="u8")
        return (t, *values(self.idx, self.n))

    def append(self, w, form, data):
        t, v, c = data
        if form == "array":
            w.append_iv_data_raw(t, v.astype("u4"), c.astype("u4"))
        elif form == "start":
            w.append_iv_data_raw(int(t[0]), v.astype("u4"), c.astype("u4"))
        else:
            w.append_iv_data_si((t.astype("f8") * 1e-9), v * 3e-9, c * 250e-12)

    def cols(self):
        return [np.concatenate([np.empty(0, "u8"), *[p[k] for p in self.parts]]) for k in range(3)]


def same(col, exp, form):
    got = [np.asarray(c).astype("u8") for c in col]
    if len({len(g) for g in got}) != 1 or len(got[0]) != len(exp[0]):
        return f"{[len(g) for g in got]} entries in time / voltage / current instead of {len(exp[0])}"
    for name, g, e in zip(("time", "voltage", "current"), got, exp):
        d = np.abs(g.astype("i8") - e.astype("i8"))
        bad = np.flatnonzero(d > (0 if form != "si" else 512 if name == "time" else 1))
        if bad.size:
            return f"{name}[{bad[0]}] is {g[bad[0]]} instead of {e[bad[0]]}"
    return None


def follow(chk, key, d, s, w, form, after, pend, rep):
    """The fault has happened; the caller goes on."""
    why = same((w.ds_time[:], w.ds_voltage[:], w.ds_current[:]), s.cols(), form)
    if why and pend is not None:  # as a whole is fine, too
        s.parts.append(pend)
        if same((w.ds_time[:], w.ds_voltage[:], w.ds_current[:]), s.cols(), form) is None:
            why, pend = None, None
        else:
            s.parts.pop()
    chk.expect(why is None, f"{key}:open", f"after the fault: {why}", rep)
    if after == "continue":
        data = s.make()
        s.append(w, form, data)
        s.parts.append(data)
    elif after == "retry" and pend is not None:
        s.append(w, form, pend)
        s.parts.append(pend)


def closed(chk, key, path, s, form, align, rep):
    exp = s.cols()
    if align:
        k = len(exp[0]) // 10_000 * 10_000
        exp = [e[:k] for e in exp]
    with h5py.File(path, "r+") as f:  # r+ is refused while still opened for writing
        got = [f["data"][k][:] for k in ("time", "voltage", "current")]
    why = same(got, exp, form)
    chk.expect(why is None, f"{key}:closed", f"stored file: {why}", rep)
    if len(exp[0]) >= 10:
        with Reader(path, verbose=False) as r:
            chk.expect(r.is_valid(), f"{key}:valid", "file is not valid", rep)
    return [len(g) for g in got]


def session(chk, key, item, fault, rep):
    """before appends - fault - reaction - close (- next session)."""
    interval, n, before, form, after = item
    s = Session(interval, n)
    with chk.tmp() as d, chk.case(key, rep):
        path = d / "a.h5"
        out = None
        w = Writer(path, compression=Compression.null, verbose=False)
        try:
            with w:
                if before == 1:
                    w.max_elements = n // 3  # appends are larger than one block of the library
                for _ in range(before):
                    data = s.make()
                    s.append(w, form, data)
                    s.parts.append(data)
                pend = s.make()
                try:
                    out = fault(s, w, pend)
                except (Cut, KeyboardInterrupt, MemoryError, OSError, Exception) as e:
                    if isinstance(e, Exception) and key == "point" and not isinstance(e, (MemoryError, OSError)):
                        raise
                    out = "raised"
                    if after in ("leave", "reopen"):
                        why = same((w.ds_time[:], w.ds_voltage[:], w.ds_current[:]), s.cols(), form)
                        if why:
                            s.parts.append(pend)
                            if same((w.ds_time[:], w.ds_voltage[:], w.ds_current[:]), s.cols(), form):
                                s.parts.pop()
                        raise Cut from e
                    follow(chk, key, d, s, w, form, after, pend, rep)
                else:
                    if key == "point":
                        s.parts.append(pend)
                    else:  # accepted: columns equal, what was there is still there
                        cols = [w.ds_time[:], w.ds_voltage[:], w.ds_current[:]]
                        m = before * n
                        chk.expect(len({len(x) for x in cols}) == 1 and same([x[:m] for x in cols], s.cols(), form) is None, f"{key}:accepted", "earlier samples were altered or columns differ in length", rep)
                        return "accepted"
        except Cut:
            pass
        chk.expect(not w.h5file, f"{key}:still-open", "file is still open after leaving the session", rep)
        align = len(s.cols()[0]) < 2 or interval == 10_000
        lens = closed(chk, key, path, s, form, align, rep)
        if after == "reopen":
            s.parts = [[c[:lens[0]] for c in s.cols()]]
            with Writer(path, modify_existing=True, verbose=False) as w:
                data = s.make()
                s.append(w, "array", data)
                s.parts.append(data)
            lens = closed(chk, key, path, s, form, len(s.cols()[0]) < 2 or interval == 10_000, rep)
        chk.trace()
        chk.step()
        chk.state((item, tuple(lens), repr(rep)))
        chk.ev((key, item, repr(rep), tuple(lens)))
    return out


def points(chk: Check, item):
    shape, exc, part = item

    def run(k):
        inj = Inject(k, exc("injected"))

        def fault(s, w, data):
            old = sys.gettrace()
            sys.settrace(inj)
            try:
                s.append(w, shape[3], data)
            finally:
                sys.settrace(old)
        session(chk, "point", shape, fault, {"history": shape, "point": k, "exception": exc.__name__})
        return inj

    total = run(-1).n
    chk.expect(total > 10, "point:count", f"only {total} points", shape)
    for k in range(part, total, 4):
        inj = run(k)
        chk.expect(inj.hit is not None, "point:reached", f"point {k} of {total} was not reached", shape)


BAD = {
    "2d": lambda n: np.ones((2, n), "u4"), "2d-cut": lambda n: np.ones((n, 2), "u4"), "text": lambda n: np.array(["x"] * n), "object": lambda n: np.array([None] * n), "complex": lambda n: np.ones(n, "c8"),
    "0d": lambda n: np.array(5), "none": lambda n: None, "list": lambda n: [1] * n, "number": lambda n: 3, "struct": lambda n: np.zeros(n, [("a", "u4")]), "datetime": lambda n: np.zeros(n, "M8[ns]"), "str": lambda n: "abc", "bytes": lambda n: b"abc", "void": lambda n: np.zeros(n, "V4"),
}


def unusable(chk: Check, item):
    shape, place, bad = item

    def fault(s, w, data):
        d = [data[0], data[1].astype("u4"), data[2].astype("u4")]
        if shape[3] == "start":
            d[0] = int(d[0][0])
        for p in place:
            d[p] = BAD[bad](shape[1])
        (w.append_iv_data_si if shape[3] == "si" else w.append_iv_data_raw)(*d)
    session(chk, "unusable", shape, fault, {"history": shape, "place": place, "data": bad})


def run(chk: Check) -> None:
    forms, afters = ("array", "start", "si"), ("leave", "continue", "retry", "reopen")
    shapes = [(20_000, 12, b, f, a) for b, f, a in it.product((0, 1, 2) if chk.thorough else (0, 2), forms, afters) if f != "start" or b == 0]
    shapes = [(10_000 if s[3] == "start" else s[0], 10_000 if s[3] == "start" else s[1], *s[2:]) for s in shapes]
    shapes += [(10_000, 10_000, 1, "array", a) for a in afters] + [(10_000, 6_000, 2, "array", a) for a in afters] + [(10_000, 10_000, 1, f, a) for f in ("start", "si") for a in afters]
    excs = (KeyboardInterrupt, OSError, MemoryError, Cut) if chk.thorough else (KeyboardInterrupt, OSError)
    chk.sample({"history": shapes[0], "point": 7})
    chk.parallel(points, [(s, e, p) for s in shapes for e in excs for p in range(4)])
    chk.parallel(unusable, it.product(shapes, ((0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)), BAD))
