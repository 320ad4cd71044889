"""R05: validity verdict under every combination of structural faults."""
import itertools

import h5py
import numpy as np
from mc import h5
from shepherd_core.data_models.task import Compression
from shepherd_core.reader import Reader
from shepherd_core.writer import Writer

RULE = ("base recording kind x every set of up to 3 (thorough: 4) faults from the menu (removed groups/series/attributes, bad values, soft defects); "
        "outcome = (verdict, fault classes); verdict compared with the property's definition, file bytes compared before/after")
ASSUME = ["faults are structural (names, attributes, lengths), not corrupted HDF5 containers"]

KINDS = [("harvester", "ivsample", 0), ("harvester", "ivcurve", 5), ("harvester", "isc_voc", 0), ("emulator", "ivsample", 0), ("harvester", "ivcurve", 1)]


def rm(node, name):
    if name in node:
        del node[name]


def rma(node, name):
    if node is not None and name in node.attrs:
        del node.attrs[name]


def data(fd, name=None):
    g = fd.get("data")
    if not isinstance(g, h5py.Group) or name is None:
        return g
    return g.get(name)


def seta(node, name, val):
    if node is not None:
        node.attrs[name] = val


def move(src, dst, name):
    """Attribute is put to another node."""
    if src is not None and name in src.attrs:
        dst.attrs[name] = src.attrs[name]
        del src.attrs[name]


def resize(fd, name, n):
    if isinstance(data(fd, name), h5py.Dataset) and data(fd, name).chunks:
        data(fd, name).resize((n,))


def sheep(fd):
    if isinstance(fd.get("sheep"), h5py.Dataset):
        del fd["sheep"]
    rm(fd.require_group("sheep"), "level")
    return fd["sheep"]


def logs(fd, levels=(40, 50)):
    g = sheep(fd)
    g.create_dataset("level", data=np.array(levels, dtype="u1"))


FAULTS = {
    "no-data-group": lambda fd: rm(fd, "data"),
    "no-mode": lambda fd: rma(fd, "mode"),
    "bad-mode": lambda fd: fd.attrs.__setitem__("mode", "nonsense"),
    **{f"mode-{m!r}": (lambda fd, m=m: fd.attrs.__setitem__("mode", m)) for m in ("", "emu", "harveste", "Harvester", "emulator ", "ivsample", "harvester,emulator")},
    "mode-emulator": lambda fd: fd.attrs.__setitem__("mode", "emulator"),
    "mode-harvester": lambda fd: fd.attrs.__setitem__("mode", "harvester"),
    "no-window": lambda fd: rma(data(fd), "window_samples"),
    "window-0": lambda fd: seta(data(fd), "window_samples", 0),
    **{f"window{m!r}'": (lambda fd, m=m: seta(data(fd), "window_samples", m)) for m in (-1, -5)},
    "window-9": lambda fd: seta(data(fd), "window_samples", 9),
    "no-datatype": lambda fd: rma(data(fd), "datatype"),
    "bad-datatype": lambda fd: seta(data(fd), "datatype", "nonsense"),
    **{f"datatype-{m!r}": (lambda fd, m=m: seta(data(fd), "datatype", m)) for m in ("", "iv", "IVsample", "ivsampl", "isc")},
    "datatype-curve": lambda fd: seta(data(fd), "datatype", "ivcurve"),
    "datatype-isc": lambda fd: seta(data(fd), "datatype", "isc_voc"),
    **{f"no-{ds}": (lambda fd, ds=ds: rm(fd["data"], ds) if isinstance(data(fd), h5py.Group) else None) for ds in h5.DSETS},
    **{f"no-{ds}-{a}": (lambda fd, ds=ds, a=a: rma(data(fd, ds), a)) for ds in h5.DSETS for a in ("gain", "offset")},
    # attributes and series at another place are none
    "root-window": lambda fd: (rma(data(fd), "window_samples"), seta(fd, "window_samples", 5)),
    "root-datatype": lambda fd: move(data(fd), fd, "datatype"),
    "data-mode": lambda fd: data(fd) is not None and move(fd, data(fd), "mode"),
    **{f"root-{ds}'": (lambda fd, ds=ds: data(fd, ds) is not None and fd.move(f"data/{ds}", ds)) for ds in h5.DSETS},
    **{f"up-{ds}-{a}'": (lambda fd, ds=ds, a=a: move(data(fd, ds), data(fd), a)) for ds in h5.DSETS for a in ("gain", "offset")},
    # something else has the name
    **{f"group-{ds}'": (lambda fd, ds=ds: data(fd, ds) is not None and (rm(fd["data"], ds), fd["data"].create_group(ds).attrs.update({"gain": 1.0, "offset": 0.0}))) for ds in h5.DSETS},
    **{f"link-{ds}'": (lambda fd, ds=ds: data(fd, ds) is not None and (rm(fd["data"], ds), fd["data"].__setitem__(ds, h5py.SoftLink("/nowhere")))) for ds in h5.DSETS},
    "data-dataset'": lambda fd: (rm(fd, "data"), fd.__setitem__("data", np.arange(5))),
    "soft-level-group'": lambda fd: sheep(fd).create_group("level"),
    "soft-level-scalar'": lambda fd: sheep(fd).__setitem__("level", 50),
    "soft-log-dataset'": lambda fd: (rm(fd, "sheep"), fd.__setitem__("sheep", np.arange(5))),
    # soft ones
    "soft-unaligned": lambda fd: [resize(fd, k, 7) for k in h5.DSETS],
    "soft-empty": lambda fd: [resize(fd, k, 0) for k in h5.DSETS],
    "soft-short-current": lambda fd: resize(fd, "current", 3),
    "soft-short-time": lambda fd: resize(fd, "time", 3),
    "soft-no-host": lambda fd: rma(fd, "hostname"),
    "soft-errors": logs,
    "soft-log-empty'": lambda fd: logs(fd, ()),
    "soft-log-none'": sheep,
    "soft-host-empty'": lambda fd: seta(fd, "hostname", ""),
}
MODES = {"harvester": ("ivsample", "ivcurve", "isc_voc"), "emulator": ("ivsample",)}


def verdict(path) -> bool:
    """The property's definition, from the bytes of the file."""
    with h5py.File(path, "r") as fd:
        if not isinstance(fd.get("data"), h5py.Group) or fd.attrs.get("mode") not in MODES:
            return False
        g = fd["data"]
        if "window_samples" not in g.attrs or g.attrs.get("datatype") not in MODES[fd.attrs["mode"]]:
            return False
        for ds in h5.DSETS:
            if not isinstance(g.get(ds), h5py.Dataset) or "gain" not in g[ds].attrs or "offset" not in g[ds].attrs:
                return False
        return g.attrs["datatype"] != "ivcurve" or int(g.attrs["window_samples"]) >= 1


def judge(chk, item):
    kind, comp, faults = item
    replay = {"kind": kind, "compression": comp, "faults": faults}
    with chk.tmp() as d:
        good = h5.make(d / "good.h5", *h5.ramp(10_000))
        f = h5.make(d / "rec.h5", *h5.ramp(20), mode=kind[0], datatype=kind[1], window=kind[2], comp=comp)
        with h5py.File(f, "r+") as fd:
            for name in faults:
                FAULTS[name](fd)
        before = h5.digest(f)
        exp = verdict(f)
        chk.step()
        chk.state((kind, comp, tuple(sorted(faults))))
        with chk.case("judge", replay):
            # 1) judged through a reader that is already open (no constructor restrictions), 2) through opening it
            with Reader(good, verbose=False) as r:
                own = r.h5file
                with h5py.File(f, "r") as fd:
                    r.h5file = fd
                    got = r.is_valid()
                    again = r.is_valid()
                r.h5file = own
            chk.expect(got is exp or got == exp, f"judge:{'accepts' if got else 'rejects'}", f"verdict {got}, expected {exp}", replay)
            chk.expect(bool(again) == bool(got), "judge:unstable", "second verdict differs", replay)
            if exp:
                with Reader(f, verbose=False) as r:
                    chk.expect(r.is_valid(), "judge:open", "verdict differs after opening", replay)
            chk.expect(h5.digest(f) == before, "judge:changed", "judging changed the file", replay)
            chk.ev((exp, kind, tuple(sorted(faults))))
            chk.trace()
            chk.sample({**replay, "valid": exp})


def written(chk, item):
    """Whatever the writer accepts and closes is judged valid."""
    mode, dtype, window, n, comp = item
    replay = {"writer": item}
    with chk.tmp() as d, chk.case("written", replay):
        with Writer(d / "w.h5", mode, dtype, window, compression=comp, verbose=False) as w:
            if n:
                w.append_iv_data_raw(0, np.zeros(n, "u4"), np.zeros(n, "u4"))
        with Reader(d / "w.h5", verbose=False) as r:
            chk.expect(r.is_valid(), "written:invalid", "a recording made by the writer is judged invalid", replay)
        chk.ev(("written", mode, dtype, window, n))
        chk.step()
        chk.trace()


def run(chk):
    names = list(FAULTS)
    main = [n for n in names if "'" not in n]  # variants of bad values are combined with one other fault only
    depth = 3
    items = []
    for kind in KINDS[: 5 if chk.thorough else 4]:
        for k in range(depth + 1):
            for faults in itertools.combinations(names if k < 3 else main, k):
                if k == 3 and not chk.thorough and kind[1] == "isc_voc":
                    continue
                items.append((kind, None, faults))
        if chk.thorough:  # order matters where faults touch the same attribute
            for faults in itertools.permutations(names, 2):
                items.append((kind, None, faults))
    for comp in ("gzip", "lzf"):
        for kind in KINDS:
            for f in names:
                items.append((kind, comp, (f,)))
    chk.parallel(judge, items)
    items = [(m, dt, w, n, c) for m, dts in MODES.items() for dt in (None, *dts) for w in (None, 1, 8) for n in (0, 10_000, 10_001)
             for c in (Compression.null, Compression.lzf, Compression.gzip1) if not (dt == "ivcurve" and w is None)]
    chk.parallel(written, items)
