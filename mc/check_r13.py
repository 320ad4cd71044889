"""R13: recordings with generated trees of groups, datasets and attributes; metadata in all forms vs an own walk through the file."""
import datetime as dt
import hashlib
import itertools as it
import math

import h5py
import numpy as np
import yaml
from mc import h5
from mc.lib import Check
from shepherd_core.reader import Reader

RULE = ("enumerated: every attribute value of the menu (texts that look like YAML, numbers of all types and limits, arrays) at every place of the tree, all pairs of values in one node; all trees of groups up to depth 3 (thorough 4) x kinds of datasets (types, sizes, dimensions, compression) in them; "
        "all compressions with all levels x filters x chunk sizes; partial trees (also exported) from every node, minimal and full form, text form and export with and without a file in its place. Oracle: own walk through the file with h5py and numpy. distinct = distinct (tree, values)")
ASSUME = ["attributes are texts, numbers or arrays of these; no name is used twice (attribute and member) in one node; texts do not use explicit YAML tags", "a text that is YAML is shown as what it stands for, any other as it is", "statistics with tolerance 1e-9 (deviation 1e-6) relative to the largest value"]

TEXTS = ("plain", "", " ", "two words", "1", "1.20", "007", "0x1F", "0b_", "0x_", "1_000", "1e3", "1:30", ".inf", "nan", "~", "null", "yes", "No", "on", "true", "a: 1", "a: 1\nb: [1, 2]", "- 1\n- 2", "{a: {b: c}}", "[1, 2", "{a", "a: b: c", "x: [", "\"q\"", "'q", "\"open",
         "# comment", "a # b", "*alias", "&anchor", "&a 5", "%x", "@x", "`x", "|", ">", "-", "?", ":", ",", "!", "=", "<<", "2024-02-29", "2024-02-30", "2024-13-01", "2024-01-01 12:00:00", "2024-01-01 25:61:00", "2024-01-01T12:00:00Z", "\t", "a\tb", "\tb", "line1\nline2", "line1\r\nline2",
         "caf\u00e9", "\u20ac", "\U0001f411", "\u2028", "\ufeff", "\x7f", "a\x1bb", "---", "---\na", "a\n---\nb", "...", "key:", "k: |\n  text\n  more", "s1: c\ns2: 0.5\n", "value = raw * gain + (offset)", "[V]", "x" * 600, ("word " * 300).strip())
NUMBERS = (0, 1, -1, 2**31, 2**63 - 1, -2**63, np.uint64(2**64 - 1), np.uint8(255), np.int8(-128), np.int16(-5), np.uint32(7), 0.0, -0.0, 0.5, 1e-300, 1e300, 5e-324, math.pi, math.inf, -math.inf, math.nan, np.float32(0.1), np.float32(3e38), np.float16(0.25), True, False, np.bool_(1))
ARRAYS = ([1, 2, 3], [0.5, 1.5], [7], [2.5], [], [[1, 2], [3, 4]], ["a", "b"], ["1", ""], np.array([255, 0], "u1"), np.array([2**64 - 1], "u8"), np.array([0.1], "f4"), [True, False])
PLACES = ("/", "/data", "/data/time", "/data/voltage", "/own", "/own/deep", "/own/deep/ints", "/own/texts", "/own/floats")


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


def value(v):
    """What an attribute stands for."""
    if isinstance(v, str):
        try:
            return yaml.safe_load(v)
        except (yaml.YAMLError, ValueError):
            return v
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v.item() if hasattr(v, "item") else v


def walk(node, minimal):
    """Own tree; computed parts are kept apart."""
    out = {}
    for k in node.attrs:
        out[k] = value(node.attrs[k])
    if isinstance(node, h5py.Group):
        for k in node:
            out[k] = walk(node[k], minimal)
    elif not minimal:
        out["_dataset_info"] = {"datatype": str(node.dtype), "shape": str(node.shape), "chunks": str(node.chunks), "compression": str(node.compression), "compression_opts": str(node.compression_opts)}
    return out


def one_value(a, b):
    """Array of one element may be shown as its element."""
    if isinstance(b, list) and len(b) == 1 and not isinstance(a, list):
        b = b[0]
    return same(a, b)


def compare(chk, key, got, want, node, rep, path=""):
    """got: tree of the code under test, want: own tree."""
    comp = {"_group_info"} if isinstance(node, h5py.Group) else set()
    names = set(got) - comp
    if not chk.expect(names == set(want), f"{key}:names", f"{path or '/'}: lists {sorted(map(str, names ^ set(want)))} too much or too few", rep):
        return
    for k in want:
        if k == "_dataset_info":
            info = dict(got[k])
            stats, diffs = info.pop("statistics", None), info.pop("time_diffs_s", None)
            chk.expect(info == want[k], f"{key}:dataset", f"{path}: {info} instead of {want[k]}", rep)
            arr = node[...]
            if node.name == "/data/time":
                chk.expect(isinstance(diffs, list), f"{key}:timediffs", f"{path}: no steps of time", rep)
            elif node.dtype.kind in "iu" and node.shape[0] > 0 and chk.expect(bool(stats), f"{key}:stats", f"{path}: statistics are missing", rep):
                gain, off = (float(node.attrs["gain"]), float(node.attrs["offset"])) if "gain" in node.attrs and "offset" in node.attrs else (1, 0)
                arr = arr.astype("f8") * gain + off
                amp = float(np.abs(arr).max()) or 1.0
                exp = {"mean": arr.mean(), "min": arr.min(), "max": arr.max(), "std": arr.std()}
                for n, e in exp.items():
                    chk.expect(abs(stats[n] - e) <= (1e-6 if n == "std" else 1e-9) * amp, f"{key}:stats:{n}", f"{path}: {n} {stats[n]} instead of {e}", rep)
                chk.expect(stats["si_converted"] == ("gain" in node.attrs and "offset" in node.attrs), f"{key}:stats:unit", f"{path}: unit of statistics", rep)
        elif isinstance(want[k], dict) and k in (node if isinstance(node, h5py.Group) else ()):
            compare(chk, key, got[k], want[k], node[k], rep, f"{path}/{k}")
        else:
            chk.expect(one_value(got[k], want[k]), f"{key}:value", f"{path}@{k} is {got[k]!r} instead of {want[k]!r}", rep)


def nodes(f):
    out = [f]
    f.visititems(lambda _, n: out.append(n))
    return out


def judge(chk, key, path, rep, full=True):
    before = hashlib.sha3_224(path.read_bytes()).hexdigest()
    with Reader(path, verbose=False) as r:
        for minimal in (True, False):
            got = r.get_metadata(minimal=minimal)
            compare(chk, f"{key}:{'minimal' if minimal else 'full'}", got, walk(r.h5file, minimal), r.h5file, rep)
            chk.step()
            if minimal:
                chk.expect("_group_info" not in got["data"], f"{key}:minimal", "computed values in minimal form", rep)
                txt = repr(r)
                chk.expect(same(yaml.safe_load(txt), yaml.safe_load(yaml.safe_dump(got))), f"{key}:text", "text form differs", rep)
            else:
                info = got["data"]["_group_info"]
                n = r.ds_voltage.shape[0]
                chk.expect(set(info) >= {"energy_Ws", "runtime_s", "data_rate_KiB_s", "file_size_MiB", "valid"} and info["valid"] == r.is_valid() and abs(info["file_size_MiB"] - path.stat().st_size / 2**20) < 6e-4 and abs(info["runtime_s"] - n / r.samplerate_sps) < 0.06,
                           f"{key}:summary", f"summary {info}", rep)
                whole = got
        if full:
            for node in nodes(r.h5file):
                part = r.get_metadata(node)
                sub = whole
                for k in node.name.strip("/").split("/") if node.name != "/" else ():
                    sub = sub[k]
                chk.expect(same(part, sub), f"{key}:part", f"tree from {node.name} differs from that part of the whole", rep)
                chk.step()
        out = path.with_suffix(".yaml")
        for node in nodes(r.h5file) if full else ():
            sub = whole
            for k in node.name.strip("/").split("/") if node.name != "/" else ():
                sub = sub[k]
            ret = r.save_metadata(node)
            chk.expect(same(ret, sub) and same(yaml.safe_load(out.read_bytes().decode("utf-8-sig")), sub), f"{key}:export-part", f"export of {node.name} is not its part of the metadata", rep)
            out.unlink()
        ret = r.save_metadata()
        text = out.read_bytes().decode("utf-8-sig")
        chk.expect(same(ret, whole) and same(yaml.safe_load(text), yaml.safe_load(yaml.safe_dump(whole))) and same(yaml.safe_load(text), whole), f"{key}:export", "export differs from metadata", rep)
        chk.expect(r.save_metadata() == {} and out.read_bytes().decode("utf-8-sig") == text, f"{key}:export-again", "existing export is changed", rep)
        out.write_text("mine")
        r.save_metadata()
        chk.expect(out.read_text() == "mine", f"{key}:export-own", "file of the user is changed", rep)
        out.unlink()
    chk.expect(hashlib.sha3_224(path.read_bytes()).hexdigest() == before, f"{key}:changed", "recording is changed", rep)


def base(path, n=7):
    t, v, c = h5.ramp(n)
    h5.make(path, t, v % 1000, c % 1000)
    with h5py.File(path, "a") as f:
        g = f.create_group("own/deep")
        g["ints"] = np.array([3, -4, 5], "i2")
        f["own"]["texts"] = np.array(["a", "b"], dtype=h5py.string_dtype())
        f["own"]["floats"] = np.array([0.5, 2.5])
    return path


def attributes(chk: Check, item):
    place, part = item
    vals = [*TEXTS, *NUMBERS, *ARRAYS]
    with chk.tmp() as d:
        p = base(d / "a.h5")
        for k in range(part, len(vals), 4):
            v = vals[k]
            rep = {"place": place, "value": repr(v)}
            with chk.case("attr", rep):
                with h5py.File(p, "a") as f:
                    f[place].attrs["my attr"] = v if not (isinstance(v, list) and v and isinstance(v[0], str)) else np.array(v, dtype=h5py.string_dtype())
                judge(chk, "attr", p, rep, full=k % 8 == 0)
                chk.ev((place, k))
                chk.state((place, k))
                chk.trace()


def pairs(chk: Check, part):
    vals = ("plain", "1.20", "a: 1", "[1", "2024-02-30", "", 5, 0.5, -2**63, math.nan, [1, 2], ["a", "b"])
    with chk.tmp() as d:
        p = base(d / "a.h5")
        for k, (a, b) in enumerate(it.product(range(len(vals)), repeat=2)):
            if k % 8 != part:
                continue
            rep = {"values": [repr(vals[a]), repr(vals[b])]}
            with chk.case("pair", rep):
                with h5py.File(p, "a") as f:
                    for name, x in (("first", vals[a]), ("second", vals[b])):
                        x = np.array(x, dtype=h5py.string_dtype()) if isinstance(x, list) and isinstance(x[0], str) else x
                        for place in ("/", "/own/deep/ints"):
                            f[place].attrs[name] = x
                judge(chk, "pair", p, rep, full=False)
                chk.ev(("pair", a, b))
                chk.state(("pair", a, b))


def kinds():
    k = np.arange(23)
    big = (k * 7919) % 251
    yield "none", None
    for t in ("u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8"):
        yield t, (big - (100 if t[0] == "i" else 0)).astype(t)
    yield "f4", big.astype("f4")
    yield "f8", big / 7
    yield "bool", big % 2 == 0
    yield "text", np.array(["a", "b: c", ""], dtype=h5py.string_dtype())
    yield "empty", np.empty(0, "u4")
    yield "one", np.array([5], "u4")
    yield "top", np.array([2**64 - 1, 0, 2**63], "u8")
    yield "low", np.array([-2**63, 2**63 - 1], "i8")
    yield "2d", big[:20].reshape(10, 2).astype("i4")
    yield "3d", big[:16].reshape(4, 2, 2).astype("u2")


def shapes(depth):
    """All trees of groups with up to two branches per level."""
    if depth == 0:
        return [()]
    sub = shapes(depth - 1)
    return [(), *[(a,) for a in sub], *[(a, b) for a, b in it.combinations_with_replacement(sub, 2)]]


def trees(chk: Check, item):
    kind, depth = item
    data = dict(kinds())[kind]
    with chk.tmp() as d:
        for n, shape in enumerate(shapes(depth)):
            for opts in ({}, {"compression": "lzf", "maxshape": True}, {"compression": "gzip", "compression_opts": 3, "maxshape": True}):
                rep = {"dataset": kind, "tree": repr(shape), "storage": repr(opts)}
                with chk.case("tree", rep):
                    p = d / f"t{n}.h5"
                    t, v, c = h5.ramp(5)
                    h5.make(p, t, v % 1000, c % 1000, logs={"sheep": ([1, 2], [20, 50], ["m", "n"])} if n % 2 else None)
                    with h5py.File(p, "a") as f:
                        def grow(g, s, lvl):
                            g.attrs["level"] = lvl
                            if data is not None:
                                o = dict(opts)
                                if o.pop("maxshape", None):
                                    o["maxshape"] = (None, *data.shape[1:])
                                ds = g.create_dataset("set", data=data, **o)
                                if lvl % 2 and data.dtype.kind in "iu":
                                    ds.attrs["gain"], ds.attrs["offset"] = 0.25, -3.0
                                elif lvl == 2:
                                    ds.attrs["gain"] = 2.0  # incomplete
                            for k, x in enumerate(s):
                                grow(g.create_group("ab"[k]), x, lvl + 1)
                        grow(f.create_group("tree"), shape, 0)
                    for m in (None, 4):
                        with Reader(p, verbose=False) as r:
                            if m:
                                r.max_elements = m  # longer than one block of the library
                                compare(chk, "tree:blocks", r.get_metadata(), walk(r.h5file, False), r.h5file, rep)
                    judge(chk, "tree", p, rep, full=not opts)
                    chk.ev((kind, n, repr(opts)))
                    chk.state((kind, n, repr(opts)))
                    chk.trace()
                    p.unlink()


def storage(chk: Check, kind):
    """All ways to store a dataset: compression with each level, filters, chunks."""
    data = dict(kinds())[kind]
    opts = [{}, {"compression": "lzf"}, *[{"compression": "gzip", "compression_opts": k} for k in range(10)], *[{"compression": k} for k in range(0, 10, 3)]]
    with chk.tmp() as d:
        p = d / "s.h5"
        t, v, c = h5.ramp(5)
        h5.make(p, t, v % 1000, c % 1000)
        for opt, filt, chunk in it.product(opts, ({}, {"shuffle": True}, {"fletcher32": True}), (None, 1, 3)):
            if chunk and not data.size or (kind == "text" and "fletcher32" in filt):
                continue
            o = {**opt, **filt}
            if chunk:
                o["chunks"] = tuple(min(chunk, k) for k in data.shape)
            rep = {"dataset": kind, "storage": repr(o)}
            with chk.case("storage", rep):
                with h5py.File(p, "a") as f:
                    if "set" in f:
                        del f["set"]
                    f.create_dataset("set", data=data, **o)
                with Reader(p, verbose=False) as r:
                    got = r.get_metadata(r.h5file["set"])
                    compare(chk, "storage", got, walk(r.h5file["set"], False), r.h5file["set"], rep)
                chk.ev((kind, repr(o)))
                chk.state((kind, repr(o)))


def run(chk: Check) -> None:
    chk.sample({"place": "/own", "value": "2024-02-30", "date": dt.date(2024, 2, 29).isoformat()})
    chk.parallel(attributes, [(p, k) for p in PLACES for k in range(4)])
    chk.parallel(pairs, range(8))
    chk.parallel(trees, [(k, 3 if chk.thorough else 2) for k, _ in kinds()])
    chk.parallel(storage, [k for k, x in kinds() if x is not None])
