"""R09: CSV and log exports contain every stored entry once, correctly converted.

Every group shape from a menu (columns with/without calibration, one- and two-dimensional, sub-groups,
time scale, length, separator, raw) is written with h5py directly, exported by the real Reader, and the
file is parsed back by an independent parser.
"""
import datetime as dt
import itertools as it

import h5py
import numpy as np

from mc import h5
from mc.lib import Check

RULE = ("enumerated: all subsets of the column menu x entry counts x separators x raw flag x time scale x internal or external "
        "group for CSV; all column subsets x entry counts x timestamp flag for logs; all level sequences up to the depth x "
        "thresholds for the counters; each repeated with the output present. Oracle: stored arrays re-read with h5py, converted with "
        "Python arithmetic. distinct = distinct exported contents and counts")
ASSUME = ["time zone of the check is UTC (set by run.sh); times compared to 2 us (float resolution of the epoch)",
          "separators are printable characters; the exporter pads them with a blank",
          "all columns of a group are as long as its time column (as the recorder writes them)"]

T0 = 1_700_000_000_123_456_000
EPOCH = dt.datetime(1970, 1, 1)

# name -> (factory(n), gain, offset, description)
COLS = {
    "alpha": (lambda n: np.arange(n, dtype="u4") * 7 + 3, 0.5, -2.0, "alpha [V]"),
    "beta": (lambda n: np.arange(n, dtype="i8") * -5 + 11, None, None, "beta, raw count"),
    "cell": (lambda n: np.arange(2 * n, dtype="u2").reshape(n, 2) + 9, None, None, "core_a, core_b"),
    "delta": (lambda n: np.arange(n) * 1.25 - 2.5, 4.0, None, "delta"),
    "eps": (lambda n: np.arange(n, dtype="u1") + 200, None, 3.5, "eps"),
    "zulu": (lambda n: np.arange(n, dtype="u4")[::-1] * 1000, 1e-3, 0.25, "zulu [A]"),
}


def stamp(txt):
    return (dt.datetime.strptime(txt, "%Y-%m-%d %H:%M:%S.%f") - EPOCH) / dt.timedelta(microseconds=1)


def make_csv(fd, name, cols, n, tgain, sub):
    g = fd.create_group(name)
    scale = 1 if tgain is None else round(1e-9 / tgain)
    tns = np.array([T0 + i * 1_300_000 for i in range(n)], dtype="u8")
    t = g.create_dataset("time", data=tns if scale == 1 else (tns * np.uint64(scale) if scale > 1 else tns))
    t.attrs["description"] = "time [s], system"
    if tgain is not None:
        t.attrs["gain"] = tgain
    for c in cols:
        fac, gain, off, desc = COLS[c]
        d = g.create_dataset(c, data=fac(n))
        d.attrs["description"] = desc
        if gain is not None:
            d.attrs["gain"] = gain
        if off is not None:
            d.attrs["offset"] = off
    if sub:
        g.create_group("sub").create_dataset("time", data=[1, 2])
        g.create_group("aaa")
    return [T0 + i * 1_300_000 for i in range(n)]


def csv_case(chk: Check, item):
    from shepherd_data import Reader
    cols, n, sep, raw, tgain, sub, ext, gname = item
    rep = {"columns": cols, "entries": n, "separator": sep, "raw": raw, "time_gain": tgain, "subgroup": sub, "external": ext, "group": gname}
    with chk.tmp() as d, chk.case("csv", rep):
        main = h5.make(d / "rec.h5", *h5.ramp(20))
        src = d / "other.h5" if ext else main
        with h5py.File(src, "a") as fd:
            tns = make_csv(fd, gname, cols, n, tgain, sub)
        with Reader(main, verbose=False) as r:
            if ext:
                with h5py.File(src, "r") as fx:
                    cnt = r.save_csv(fx[gname], sep, raw=raw)
            else:
                cnt = r.save_csv(r[gname], sep, raw=raw)
        out = d / f"rec.{gname}.csv"
        chk.step()
        others = {p.name for p in d.iterdir()} - {"rec.h5", "other.h5"}
        if n == 0:
            chk.expect(cnt == 0 and not others, "csv:empty", f"empty group gave count {cnt}, files {others}", rep)
            chk.ev(("empty", cols))
            return
        if not chk.expect(others == {out.name}, "csv:files", f"files {others}", rep):
            return
        chk.expect(cnt == n, "csv:count", f"reported {cnt} rows for {n} entries", rep)
        lines = out.read_text(encoding="utf-8-sig").split("\n")
        chk.expect(lines[-1] == "", "csv:end", "last row not terminated", rep)
        rows = [[f.strip() for f in ln.split(sep)] for ln in lines[:-1]]
        order = sorted(cols)
        head = ["time [s]", "system"] + sum((COLS[c][3].split(", ") for c in order), [])
        chk.expect(rows[0] == head, "csv:header", f"header {rows[0]} instead of {head}", rep)
        if not chk.expect(len(rows) == n + 1, "csv:rows", f"{len(rows) - 1} rows instead of {n}", rep):
            return
        for i, row in enumerate(rows[1:]):
            exp = []
            for c in order:
                fac, gain, off, _ = COLS[c]
                val = fac(n)[i]
                for x in (val.tolist() if np.ndim(val) else [val.item()]):
                    exp.append(x if raw else x * (1.0 if gain is None else gain) + (0.0 if off is None else off))
            got = [float(x) for x in row[1:]]
            chk.expect(len(got) == len(exp) and all(abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(got, exp)),
                       "csv:values", f"row {i}: {got} instead of {exp}", rep)
            chk.expect(abs(stamp(row[0]) - tns[i] / 1000) <= 2, "csv:time", f"row {i}: {row[0]} for {tns[i]} ns", rep)
        # existing output stays
        out.write_text("mine")
        with Reader(main, verbose=False) as r:
            if not ext:
                cnt = r.save_csv(r[gname], sep, raw=raw)
                chk.expect(cnt == 0 and out.read_text() == "mine", "csv:existing", "existing csv was touched", rep)
        chk.trace()
        chk.ev((cols, rows))
        chk.sample({"csv": rows[:2], **rep})


LCOLS = ("level", "message", "zone", "number")
MSGS = ["plain", "two\nlines", "tab\there", "üñí", "", "b'quoted'"]


def log_case(chk: Check, item):
    from shepherd_data import Reader
    cols, n, ts, sub, gname = item
    rep = {"columns": cols, "entries": n, "timestamp": ts, "subgroups": sub, "group": gname}
    with chk.tmp() as d, chk.case("log", rep):
        main = h5.make(d / "rec.h5", *h5.ramp(20))
        vals = {"level": np.arange(n, dtype="u1") * 10, "message": [MSGS[i % len(MSGS)] for i in range(n)],
                "zone": [f"z{i}" for i in range(n)], "number": np.arange(n, dtype="i4") - 1}
        with h5py.File(main, "a") as fd:
            g = fd.create_group(gname)
            g.create_dataset("time", data=np.array([T0 + i * 7_000_000 for i in range(n)], dtype="u8"))
            for c in cols:
                v = vals[c]
                g.create_dataset(c, data=np.array(v, dtype=h5py.string_dtype()) if isinstance(v, list) else v)
            for s in range(sub):
                g.create_group(("apart", "zzz")[s])
        with Reader(main, verbose=False) as r:
            cnt = r.save_log(r[gname], add_timestamp=ts)
        chk.step()
        out = d / f"rec.{gname}.log"
        others = {p.name for p in d.iterdir()} - {"rec.h5"}
        if n == 0:
            chk.expect(cnt == 0 and not others, "log:empty", f"empty group gave count {cnt}, files {others}", rep)
            chk.ev(("empty", cols))
            return
        if not chk.expect(others == {out.name} and cnt == n, "log:files", f"files {others}, count {cnt} of {n}", rep):
            return
        lines = out.read_text(encoding="utf-8-sig").split("\n")
        if not chk.expect(len(lines) == n + 1 and lines[-1] == "", "log:lines", f"{len(lines) - 1} lines for {n} entries", rep):
            return
        for i, line in enumerate(lines[:-1]):
            head, *fields = line.split("\t")
            if ts:
                chk.expect(head.endswith(":") and abs(stamp(head[:-1]) - (T0 / 1000 + 7000 * i)) <= 2, "log:time", f"line {i}: {line!r}", rep)
            else:
                chk.expect(head == "", "log:no-time", f"line {i}: {line!r}", rep)
            if not chk.expect(len(fields) == len(cols), "log:columns", f"line {i} has {len(fields)} columns, not {len(cols)}: {line!r}", rep):
                continue
            for c, f in zip(sorted(cols), fields):
                v = vals[c][i]
                ok = {v, str(v.encode())} if isinstance(v, str) else {str(v)}
                chk.expect(f in ok, "log:values", f"line {i}: column {c} is {f!r} instead of {v!r}", rep)
        out.write_text("mine")
        with Reader(main, verbose=False) as r:
            cnt = r.save_log(r[gname], add_timestamp=ts)
        chk.expect(cnt == 0 and out.read_text() == "mine", "log:existing", "existing log was touched", rep)
        chk.trace()
        chk.ev((cols, lines))


def fault_case(chk: Check, item):
    """Some elements of a log cannot be read: these are marked, everything else is still there."""
    from shepherd_data import Reader
    cols, n, faulty = item
    rep = {"columns": cols, "entries": n, "unreadable (column, entry)": faulty}
    vals = {"level": [10 * k + 7 for k in range(n)], "message": [f"text {k}" for k in range(n)], "number": [1000 + k for k in range(n)]}
    orig = h5py.Dataset.__getitem__

    def get(self, key, *a, **kw):
        if isinstance(key, (int, np.integer)) and (self.name.rsplit("/", 1)[-1], int(key) % max(1, n)) in faulty:
            raise OSError("cannot be read")
        return orig(self, key, *a, **kw)

    with chk.tmp() as d, chk.case("fault", rep):
        main = h5.make(d / "rec.h5", *h5.ramp(20))
        with h5py.File(main, "a") as fd:
            g = fd.create_group("sheep")
            g.create_dataset("time", data=np.array([T0 + i * 7_000_000 for i in range(n)], dtype="u8"))
            for c in cols:
                g.create_dataset(c, data=np.array(vals[c], dtype=h5py.string_dtype() if c == "message" else "u2"))
        with Reader(main, verbose=False) as r:
            h5py.Dataset.__getitem__ = get
            try:
                cnt = r.save_log(r["sheep"])
            finally:
                h5py.Dataset.__getitem__ = orig
        lines = (d / "rec.sheep.log").read_text(encoding="utf-8-sig").split("\n")
        if chk.expect(cnt == n and len(lines) == n + 1 and lines[-1] == "", "fault:lines", f"{cnt} entries, {len(lines) - 1} lines for {n}", rep):
            for i, line in enumerate(lines[:-1]):
                fields = line.split("\t")[1:]
                for c, f in zip(sorted(cols), fields if len(fields) == len(cols) else [None] * len(cols)):
                    good = f is not None and (f in (str(vals[c][i]), str(str(vals[c][i]).encode())))
                    chk.expect(good or (f is not None and (c, i) in faulty and "faulty" in f), "fault:values", f"line {i}: column {c} is {f!r}", rep)
        chk.step()
        chk.ev(item)


def level_case(chk: Check, item):
    from shepherd_data import Reader
    seqs, depth = item
    with chk.tmp() as d:
        for levels in seqs:
            rep = {"levels": levels}
            with chk.case("levels", rep):
                n = len(levels)
                f = h5.make(d / "lv.h5", *h5.ramp(3), logs={
                    "sheep": ([T0 + i for i in range(n)], levels, [f"m{i}" for i in range(n)]),
                    "kernel": ([T0], None, ["x"]), "uart": ([T0, T0 + 1], [50, 10], ["a", "b"])})
                with Reader(f, verbose=False) as r:
                    for lim in (0, 10, 11, 30, 40, 41, 50, 51):
                        exp = sum(x >= lim for x in levels)
                        got = (r.count_errors_in_log("sheep", lim), r.warn_logs("sheep", lim, show=False),
                               r.warn_logs("sheep", lim, limit=1, show=True))
                        chk.step(3)
                        chk.expect(got == (exp,) * 3, "levels:count", f"{levels} at threshold {lim}: {got} instead of {exp}", rep)
                        chk.ev((len(levels), exp))
                    exp = sum(x >= 40 for x in levels), sum(x >= 30 for x in levels)
                    got = r.count_errors_in_log(), r.warn_logs(show=False)
                    chk.expect(got == exp, "levels:default", f"{levels} with default thresholds: {got} instead of {exp}", rep)
                    chk.expect((r.count_errors_in_log("kernel"), r.warn_logs("kernel", 0), r.count_errors_in_log("none"), r.warn_logs("none", 0),
                                r.count_errors_in_log("uart"), r.warn_logs("uart", 10)) == (0, 0, 0, 0, 1, 2),
                               "levels:groups", "counts of other groups are wrong", rep)
                    chk.state(levels)


def run(chk: Check):
    names = sorted(COLS)
    k = len(names) if chk.thorough else 3
    items = []
    for size in range(k + 1):
        for cols in it.combinations(names, size):
            for n, sep, raw in it.product((0, 1, 3), (";", ",", "|"), (False, True)):
                if n == 0 and (sep != ";" or raw):
                    continue
                small = size <= 1 or chk.thorough
                for tgain, sub, ext in (it.product((None, 1e-9, ), (False, True), (False, True)) if small
                                        else ((1e-9, size % 2 == 0, False),)):
                    items.append((cols, n, sep, raw, tgain, sub, ext, "ptp" if size % 2 else "sys_util"))
    chk.parallel(csv_case, items)
    items = [(cols, n, ts, sub, g) for size in range(len(LCOLS) + 1) for cols in it.combinations(LCOLS, size)
             for n in (0, 1, 2, 6) for ts in (False, True) for sub in (0, 1, 2) for g in ("sheep", "dmesg")]
    chk.parallel(log_case, items)
    items = []
    for cols in it.chain.from_iterable(it.combinations(("level", "message", "number"), k) for k in (1, 2, 3)):
        for n in (1, 2, 3) if chk.thorough else (2,):
            cells = list(it.product(cols, range(n)))
            items += [(cols, n, bad) for k in range(min(len(cells), 4) + 1) for bad in it.combinations(cells, k)]
    chk.parallel(fault_case, items)
    depth = 5 if chk.thorough else 3
    seqs = [s for n in range(depth + 1) for s in it.product((10, 20, 30, 40, 50), repeat=n)]
    chk.parallel(level_case, [(seqs[i::32], depth) for i in range(32)])
