"""R11: data and figures of plots over all ranges, lengths, rates and reductions."""
import itertools as it

import numpy as np

from mc import h5
from mc.lib import Check

RULE = ("enumerated: lengths (few samples to several buffers, also no multiple of 0.1 s) x sample intervals x calibrations x menus of start and end (also missing, outside, inverted, integer) x allowed plot sizes x relative / absolute time; signals constant, ramp, step; "
        "figures for 1-3 recordings x options x every line drawn; the plot command for all of these. Oracle: direct evaluation of the stored samples. distinct = distinct (recording, range, size)")
ASSUME = ["values are compared after the low-pass has settled (its start is a known transient), exactly when nothing is reduced", "the reduced size may exceed the allowed one by less than a factor of two (whole factors)"]

T0 = 1_700_000_000 * 10**9
CAL = ({}, {"voltage": (2e-8, -0.05), "current": (1e-10, 3e-6), "time": (1e-9, 0.0)})


def signals(n):
    i = np.arange(n)
    return {"ramp": (10**6 + i * 50, 10**7 + i * 400), "const": (np.full(n, 700_000), np.full(n, 5_000_000)), "step": (np.where(i < n // 2, 10**5, 9 * 10**5), np.where(i < n // 2, 10**7, 2 * 10**6))}


def data(chk: Check, item):
    from shepherd_data import Reader
    n, step, cidx, sig = item
    cal = {"voltage": (3e-9, 0.0), "current": (250e-12, 0.0), "time": (1e-9, 0.0), **CAL[cidx]}
    t = T0 + np.arange(n, dtype="u8") * np.uint64(step)
    v, c = signals(n)[sig]
    dur, sps = n * step / 1e9, 1e9 / step
    V, A = (x * cal[k][0] + cal[k][1] for x, k in ((v, "voltage"), (c, "current")))
    V, A = np.asarray(V, "f8"), np.asarray(A, "f8")
    marks = [None, 0, 0.0, -1, dur / 4, dur / 3 + 1e-7, dur / 2, dur * 0.999, dur, dur + 5, 4 / sps, 5 / sps, 6 / sps, dur - 5 / sps, dur - 4 / sps]
    with chk.tmp() as d, chk.case("data:open", item):
        path = h5.make(d / "a.h5", t, v, c, cal=CAL[cidx], hostname="sheep7")
        with Reader(path, verbose=False) as r:
            sizes = (r.max_elements, max(n // 7, 3), 500, 40)
            for s, e, size, rel in it.product(marks, marks, sizes, (True, False)):
                if not rel and size != 500 and not chk.thorough:
                    continue
                rep = {"samples": n, "interval_ns": step, "cal": cidx, "signal": sig, "start": s, "end": e, "size": size, "relative": rel}
                with chk.case("data", rep):
                    r.max_elements = size
                    got = r.generate_plot_data(s, e, relative_timestamp=rel)
                    lo, hi = max(0, 0 if s is None else s), min(dur, dur if e is None else e)
                    a, b = lo * sps, hi * sps
                    chk.step()
                    chk.ev((n, step, cidx, s, e, size, rel, got is None))
                    chk.state((n, step, s, e, size))
                    if b - a < 4.49:
                        chk.expect(got is None, "data:small", f"range of {b - a} samples is plotted", rep)
                        continue
                    if got is None:
                        chk.expect(b - a < 5.01, "data:skipped", f"range of {b - a} samples is skipped", rep)
                        continue
                    a, b = round(a), round(b)
                    chk.expect(got["name"] == "sheep7", "data:name", f"{got['name']}", rep)
                    chk.expect(abs(got["start_s"] - lo) < 1e-6 and abs(got["end_s"] - hi) < 1e-6, "data:range", f"{got['start_s']} to {got['end_s']} instead of {lo} to {hi}", rep)
                    tt, vv, cc = (np.asarray(got[k], "f8") for k in ("time", "voltage", "current"))
                    if not chk.expect(len(tt) == len(vv) == len(cc) and len(tt) > 0, "data:length", f"{len(tt)}, {len(vv)}, {len(cc)} entries", rep):
                        continue
                    base = 0 if rel else T0 / 1e9
                    pos = (tt - base) * sps  # sample positions
                    k = (b - a) / len(tt) if len(tt) == 1 else pos[1] - pos[0]
                    chk.expect(abs(k - round(k)) < 0.05 + 1e-6 * sps and round(k) >= 1, "data:spacing", f"spacing of {k} samples", rep)
                    k = max(1, round(k))
                    chk.expect(np.allclose(pos, a + np.arange(len(tt)) * k, atol=0.05 + 1e-6 * sps), "data:time", lambda: f"times {tt[:3]} .. {tt[-2:]} do not start at sample {a} in steps of {k}", rep)
                    chk.expect(a + (len(tt) + 1) * k > b and a + (len(tt) - 1) * k < b, "data:cover", f"{len(tt)} entries in steps of {k} for samples {a} to {b}", rep)
                    chk.expect(len(tt) < 2 * size + 2, "data:size", f"{len(tt)} entries for a size of {size}", rep)
                    chk.expect(k == 1 or (b - a) / k >= size * 0.45, "data:coarse", f"{len(tt)} entries for a size of {size}", rep)
                    if k == 1:
                        chk.expect(np.allclose(vv, V[a:a + len(tt)], rtol=1e-9, atol=1e-12) and np.allclose(cc, A[a:a + len(tt)], rtol=1e-9, atol=1e-15), "data:values", "values differ from the recorded ones", rep)
                    elif len(tt) > 40 and sig != "step":
                        idx = a + np.arange(len(tt)) * k
                        for nm, x, ref in (("voltage", vv, V), ("current", cc, A)):
                            late = np.abs(np.diff(ref[:2])).max() * k * 12 + abs(ref[0]) * 1e-4
                            chk.expect(np.abs(x[30:] - ref[idx][30:]).max() <= late, f"data:{nm}", lambda nm=nm, x=x, ref=ref, idx=idx: f"{nm} {x[30:33]} instead of {ref[idx][30:33]}", rep)
    chk.trace()


def figure(chk: Check, item):
    import matplotlib.pyplot as plt
    from shepherd_data import Reader
    count, only = item
    i = np.arange(50) / 10
    sets = [{"name": f"h{k}", "time": i + k, "voltage": 1 + k + i, "current": (2 + k - i / 9) * 1e-3, "start_s": 0, "end_s": 5} for k in range(count)]
    for w, h, form in it.product((3, 20), (2, 10), ("list", "tuple") + (("dict",) if count == 1 else ())):
        rep = {"recordings": count, "only_power": only, "size": (w, h), "form": form}
        with chk.case("figure", rep):
            arg = {"list": sets, "tuple": tuple(sets), "dict": sets[0]}[form]
            fig = Reader.assemble_plot(arg, w, h, only_pwr=only)
            axs = fig.axes
            want = [[(s["time"], s["voltage"] * s["current"] * 1e3, s["name"]) for s in sets]]
            if not only:
                want = [[(s["time"], s["voltage"], s["name"]) for s in sets], [(s["time"], s["current"] * 1e3, s["name"]) for s in sets], *want]
            ok = chk.expect(len(axs) == len(want) and [len(a.lines) for a in axs] == [count] * len(want), "figure:lines", f"{[len(a.lines) for a in axs]} lines", rep)
            if ok:
                for a, ws in zip(axs, want):
                    for ln, (x, y, nm) in zip(a.lines, ws):
                        chk.expect(np.allclose(ln.get_xdata(), x) and np.allclose(ln.get_ydata(), y) and ln.get_label() == nm, "figure:data", f"line {ln.get_label()} differs", rep)
                words = [a.get_ylabel().lower() for a in axs]
                names = ["power"] if only else ["voltage", "current", "power"]
                units = ["[mw]"] if only else ["[v]", "[ma]", "[mw]"]
                chk.expect(all(n in x and u in x for n, u, x in zip(names, units, words)), "figure:labels", f"{words}", rep)
                chk.expect("time" in axs[-1].get_xlabel(), "figure:xlabel", axs[-1].get_xlabel(), rep)
                leg = [t.get_text() for a in axs if a.get_legend() for t in a.get_legend().get_texts()]
                chk.expect(leg == ([] if count == 1 else [s["name"] for s in sets]), "figure:legend", f"{leg}", rep)
                chk.expect(tuple(fig.get_size_inches()) == (w, h), "figure:size", f"{fig.get_size_inches()}", rep)
            plt.close(fig)
            chk.step()
            chk.ev((count, only, w, h, form))
    chk.trace()


def command(chk: Check, item):
    """The command gives a picture for every recording that is long enough, and only for these."""
    from click.testing import CliRunner
    from shepherd_data.cli import cli
    lens, multi, s, e = item
    with chk.tmp() as d:
        for k, n in enumerate(lens):
            t = T0 + np.arange(n, dtype="u8") * np.uint64(10_000)
            h5.make(d / f"f{k}.h5", t, np.arange(n) % 999, np.arange(n) % 777, hostname=f"h{k}")
        rep = {"lengths": lens, "multiplot": multi, "start": s, "end": e}
        with chk.case("command", rep):
            args = ["plot", "-w", "3", "-h", "2", "-p", *(() if s is None else ("-s", str(s))), *(() if e is None else ("-e", str(e))), *(("--multiplot",) if multi else ()), str(d)]
            before = {p.name for p in d.parent.iterdir()}
            res = CliRunner().invoke(cli, args)
            chk.expect(res.exit_code == 0 and not res.exception, "command:exit", f"{res.exception!r}", rep)
            good = [k for k, n in enumerate(lens) if round(min(n / 1e5, n / 1e5 if e is None else e) * 1e5) - round((s or 0) * 1e5) >= 5]
            got = sorted(p.name for p in d.glob("*.png"))
            extra = [p for p in d.parent.glob(f"{d.name}.*") if p.name not in before]
            if multi and len(lens) > 1:
                chk.expect(not got and len(extra) == bool(good), "command:multi", f"{got} {extra}", rep)
            else:
                chk.expect(sorted(int(x[1]) for x in got) == good and not extra, "command:files", f"{got} for {good}", rep)
            for p in extra:
                p.unlink()
            chk.step()
            chk.ev((lens, multi, s, e))
    chk.trace()


def stored(chk: Check, item):
    """Pictures of different ranges get different names (with the range), existing ones stay as they are."""
    from shepherd_data import Reader
    n, ranges, power = item
    with chk.tmp() as d:
        t = T0 + np.arange(n, dtype="u8") * np.uint64(10_000)
        h5.make(d / "rec.1.h5", t, np.arange(n) % 999, np.arange(n) % 777, hostname="h")
        before = (d / "rec.1.h5").read_bytes()
        rep = {"samples": n, "ranges": ranges, "only_pwr": power}
        with chk.case("stored", rep), Reader(d / "rec.1.h5", verbose=False) as r:
            known = set()
            for s, e in ranges:
                lo, hi = 0 if s is None else s, n / 1e5 if e is None else min(n / 1e5, e)
                part = f"{lo:.3f}_to_{hi:.3f}".replace(".", "s") + ".png"
                one, many = f"rec.1.plot_{part}", f"all.multiplot_{part}"
                r.plot_to_file(s, e, width=3, height=2, only_pwr=power)
                data = r.generate_plot_data(s, e, relative_timestamp=True)
                got = Reader.multiplot_to_file([data, data], d / "all", 3, 2, only_pwr=power)
                chk.expect((got is None) == (many in known) and (got is None or (got.name, got.parent) == (many, d)), "stored:multi", f"returns {got} for {many}, stored before {sorted(known)}", rep)
                now = {p.name for p in d.glob("*.png")}
                chk.expect(now == known | {one, many}, "stored:names", f"{sorted(now)} instead of {sorted(known | {one, many})}", rep)
                for x in now:
                    raw = (d / x).read_bytes()
                    chk.expect(raw == b"mine" if x in known else raw[:4] == b"\x89PNG", "stored:content", f"{x} " + ("was overwritten" if x in known else "is no picture"), rep)
                    (d / x).write_bytes(b"mine")
                known |= now
                chk.step()
                chk.state((n, power, tuple(sorted(known))))
                chk.ev((n, s, e, power, tuple(sorted(known))))
            chk.expect(Reader.multiplot_to_file([], d / "none") is None and not list(d.glob("none*")), "stored:empty", "plot without data", rep)
        chk.expect((d / "rec.1.h5").read_bytes() == before, "stored:recording", "recording was changed", rep)
    chk.trace()


def run(chk: Check) -> None:
    lens = (3, 5, 999, 12_345, 20_000) + ((6, 40, 4_000, 10_000, 123_456) if chk.thorough else ())
    items = [(n, step, cal, sig) for n, step, cal, sig in it.product(lens, (10_000, 1_000_000, 5_000), (0, 1), ("ramp", "const", "step"))]
    items = [x for x in items if chk.thorough or (x[3] != "step" and (x[2] == 0 or x[1] == 10_000))]
    chk.sample(items[-1])
    chk.parallel(data, items)
    chk.parallel(figure, it.product((1, 2, 3), (True, False)))
    chk.parallel(command, it.product(((4,), (5,), (4_000,), (14_000,), (4, 3), (4, 4_000), (4_000, 14_000), (20_000, 4, 14_000)), (False, True), (None, 0.01), (None, 0.05, 0.3)))
    rng = [(None, None), (0, 0.1), (0.05, None), (0.05, 0.1), (0.1, 0.15), (0, 0.15), (0.05, 0.15), (0.1, 7)]
    chk.parallel(stored, [(15_000, rs, pw) for rs in it.permutations(rng, 3 if chk.thorough else 2) for pw in (False, True)] + [(15_000, [*rng, *rng], False)])
