"""N01: fleets of inventories over menus of item values; the comparison against an independent one; file round trip; collection in modelled environments."""
import contextlib
import datetime as dt
import itertools as it
import re
import sys
import types

from mc.lib import Check

RULE = ("enumerated: all fleets of up to 3 (thorough 4) inventories x value menus (missing included) for every compared item, alone and in pairs; uptimes and clock readings around the limits in all combinations and orders; "
        "nested items (interfaces, lists) in all combinations; hosts with equal names; round trip through files for every menu entry; collection with every combination of present and missing tools. "
        "Oracle: set comparison written from the property. distinct = distinct (fleet, report)")
ASSUME = ["a report names a host or a version if its text contains it as a whole word", "a missing item is no mismatch by itself, only differing values are", "limits: 30 h uptime, 10 s behind the earliest clock reading"]

ITEMS = ("h5py", "numpy", "pydantic", "python", "shepherd_core", "shepherd_sheep", "yaml", "zstandard")
VERS = (None, "1.2.3", "1.2.30", "2.0")
T0 = dt.datetime(2026, 5, 4, 3, 2, 1)
BASE = {"uptime": 100, "timestamp": T0, "system": "Linux", "release": "6", "version": "1", "machine": "arm", "processor": "", "created": T0}
NEAR = ("1.2.3", "1.2.3+build7", "1.2.3+build8", "1.2.3rc1", "1.2.3-1", "1.2.3.post1", "1.2.3.dev0", "1.2.03", "1.2", "1.2.0", "v1.2.3", "1.2.3-RC1", "1.2.3 (x)", "2.2.3", "1.3.3", "1.2.4", "")
HOSTS = ("alpha", "bravo", "chris", "delta")


def make(**kw):
    from shepherd_core.inventory import Inventory
    return Inventory(**{**BASE, **{k: v for k, v in kw.items() if v is not None}})


def words(text):
    return set(re.findall(r"[A-Za-z0-9][A-Za-z0-9._-]*", str(text)))


def compare(chk, fleet, rep, key):
    """fleet: list of argument dicts."""
    from shepherd_core.inventory import InventoryList
    full = [{**BASE, **f} for f in fleet]
    lst = InventoryList(elements=[make(**f) for f in fleet])
    dump = lst.model_dump()
    got = lst.warn()
    chk.step()
    exp = {}
    for item in ITEMS:
        vals = {f[item] for f in full if f.get(item) is not None}
        if len(vals) > 1:
            exp[item] = (vals, {f["hostname"] for f in full if f.get(item) is not None})
    late = {f["hostname"] for f in full if f["uptime"] > 30 * 3600}
    if late:
        exp["uptime"] = (set(), late)
    early = min(f["created"].timestamp() for f in full)
    off = {f["hostname"] for f in full if f["created"].timestamp() - early > 10}
    if off:
        exp["time_delta"] = (set(), off)
    if not chk.expect(set(got) == set(exp), f"{key}:report", f"reports {sorted(got)} instead of {sorted(exp)}", rep):
        return
    names = {f["hostname"] for f in full}
    for k, (vals, hosts) in exp.items():
        w = words(got[k])
        chk.expect(w & names == hosts, f"{key}:hosts:{'version' if vals else k}", f"{k}: names {sorted(w & names)} instead of {sorted(hosts)}: {got[k]}", rep)
        chk.expect(w & set(VERS[1:]) == vals & set(VERS[1:]), f"{key}:values", f"{k}: values {sorted(w & set(VERS[1:]))} instead of {sorted(vals)}", rep)
    chk.expect(lst.model_dump() == dump, f"{key}:changed", "comparison changed the inventories", rep)
    again = lst.warn()
    chk.expect(again == got, f"{key}:again", "second report differs", rep)
    chk.ev((key, repr(sorted(got.items())), len(fleet)))


def versions(chk: Check, item):
    name, n = item
    for vals in it.product(VERS, repeat=n):
        fleet = [{"hostname": HOSTS[k], name: v} for k, v in enumerate(vals)]
        rep = {"fleet": fleet}
        with chk.case("version", rep):
            compare(chk, fleet, rep, "version")
            chk.state((name, vals))
    if n == 2:  # near misses: any difference counts
        for a, b in it.product(NEAR, repeat=2):
            fleet = [{"hostname": HOSTS[k], name: v} for k, v in enumerate((a, b))]
            rep = {"fleet": fleet}
            with chk.case("near", rep):
                from shepherd_core.inventory import InventoryList
                got = InventoryList(elements=[make(**f) for f in fleet]).warn()
                chk.step()
                chk.expect(set(got) == ({name} if a != b else set()), "near:report", f"reports {sorted(got)} for {a!r} and {b!r}", rep)
                if a != b and got:
                    txt = str(got.get(name))
                    chk.expect(a in txt and b in txt and HOSTS[0] in txt and HOSTS[1] in txt, "near:values", f"versions or hosts are missing in {txt!r}", rep)
                chk.state((name, a, b))
    if n == 3:  # equal host names
        for hosts in it.product(("alpha", "bravo"), repeat=3):
            for vals in it.product(VERS[:3], repeat=3):
                fleet = [{"hostname": h, name: v} for h, v in zip(hosts, vals)]
                with chk.case("same-name", {"fleet": fleet}):
                    compare(chk, fleet, {"fleet": fleet}, "same-name")


def two_items(chk: Check, item):
    a, b = item
    for va in it.product(VERS[:3], repeat=2):
        for vb in it.product(VERS[:3], repeat=2):
            fleet = [{"hostname": HOSTS[k], a: va[k], b: vb[k]} for k in range(2)]
            with chk.case("two-items", {"fleet": fleet}):
                compare(chk, fleet, {"fleet": fleet}, "two-items")


UP = (0, 1, 107_999, 108_000, 108_001, 10**9)
UTC = dt.timezone.utc
CRE = (0, 1e-6, 5, 10, 10.000001, 11, 3600, 1e7)


def clocks(chk: Check, item):
    n, shard = item
    for k, (ups, offs) in enumerate(it.product(it.product(UP, repeat=n), it.product(CRE, repeat=n))):
        if k % 8 != shard or (n == 3 and not chk.thorough and len(set(ups)) > 2):
            continue
        fleet = [{"hostname": HOSTS[j], "uptime": ups[j], "created": T0.replace(tzinfo=UTC) + dt.timedelta(seconds=offs[j])} for j in range(n)]
        if k % 3 == 0:  # same instants in other zones
            for j, f in enumerate(fleet):
                f["created"] = f["created"].astimezone(dt.timezone(dt.timedelta(hours=3 * j - 4)))
        with chk.case("clock", {"fleet": fleet}):
            compare(chk, fleet, {"fleet": fleet}, "clock")


IFS = (None, {}, {"lo": ("::1", "127.0.0.1")}, {"eth0": ("fe80::1", "10.0.0.1"), "lo": ("::1", "127.0.0.1")})
LISTS = (None, [], ["a", "b, c"], ["x"])


def nested(chk: Check, item):
    from shepherd_core.inventory import Inventory, InventoryList
    ifs, fsr = item
    with chk.tmp() as d:
        for bea, tg, cape, ptp in it.product(LISTS[:3], LISTS[:3], (None, "c1"), (None, "", "v4")):
            one = {"hostname": "alpha", "interfaces": ifs, "fs_root": fsr, "beagle": bea, "targets": tg, "cape": cape, "ptp": ptp, "numpy": "1.2.3"}
            rep = {"inventory": one}
            with chk.case("nested", rep):
                for two in (one, {**one, "interfaces": IFS[2], "targets": ["x"], "numpy": "2.0"}, {"hostname": "bravo"}):
                    fleet = [one, {**two, "hostname": "bravo"}]
                    compare(chk, fleet, {"fleet": fleet}, "nested")
                inv = make(**one)
                for kw in ({"minimal": True}, {"minimal": False}):
                    lst = InventoryList(elements=[inv, make(hostname="bravo", uptime=5)])
                    for m in (inv, lst):
                        m2 = type(m).from_file(m.to_file(d / "inv.yaml", **kw))
                        chk.step()
                        chk.expect(m2 == m and m2.get_hash() == m.get_hash(), f"file:{type(m).__name__}", f"loaded inventory differs: {m2!r:.300} vs {m!r:.300}", rep)
                csv = d / "inv.csv"
                lst = InventoryList(elements=[inv, make(hostname="bravo"), make(hostname="chris", numpy="2.0")])
                lst.to_csv(csv)
                lines = csv.read_text().splitlines()
                lines = [x for x in lines if x]
                chk.expect(len(lines) == 4 and [x.strip() for x in lines[0].split(",")] == list(Inventory.model_fields), "csv:shape", f"{len(lines)} lines, header {lines[0]}", rep)
                for line, e in zip(lines[1:], lst.elements):
                    pos = 0
                    for k, v in e.model_dump().items():
                        if v not in (None, "") and not isinstance(v, dt.datetime):
                            pos = line.find(str(v), pos)
                            if not chk.expect(pos >= 0, "csv:value", f"{k} = {v} is missing (or out of order) in {line}", rep):
                                break
                            pos += len(str(v))
                chk.ev(("nested", repr(one)))
        sub = d / "sub"
        sub.mkdir()
        with chk.case("csv-dir"):
            InventoryList(elements=[make(hostname="x")]).to_csv(sub)
            chk.expect(len(list(sub.iterdir())) == 1, "csv:dir", f"{list(sub.iterdir())}", "directory")


def collect(chk: Check, item):
    """The machine is replaced by stand-ins; nothing is executed."""
    import pathlib
    import platform
    import subprocess
    import time
    from unittest import mock

    import psutil
    from shepherd_core.inventory import Inventory, InventoryList, PythonInventory, SystemInventory, TargetInventory
    from shepherd_core.inventory import system as mod
    ps, up, tools, names, mods = item
    rep = {"psutil": ps, "uptime": up, "tools": tools, "node": names, "modules": mods}
    if ps == "missing" and not hasattr(mod, "psutil"):
        return

    class Addr:
        def __init__(self, address):
            self.address = address

    table = {"missing": {}, "none": {}, "lo": {"lo": [Addr("127.0.0.1"), Addr("::1")]}, "mixed": {"lo": [Addr("127.0.0.1"), Addr("::1"), Addr("x")], "can0": [], "usb0": [Addr("aa:bb")], "eth0": [Addr("10.0.0.2"), Addr("00:11")]}}
    real = pathlib.Path.is_file

    def run(cmd, **_kw):
        return types.SimpleNamespace(stdout=b"" if tools == "silent" else b"line one\nline two\n", stderr=b"", returncode=1 if tools == "silent" else 0)

    def is_file(self):
        if self.name in ("df", "beagle-version", "ptp4l"):
            return tools in ("all", "silent") or (tools == "df" and self.name == "df")
        return real(self)

    env = contextlib.ExitStack()
    env.enter_context(mock.patch.object(subprocess, "run", run))
    env.enter_context(mock.patch.object(pathlib.Path, "is_file", is_file))
    env.enter_context(mock.patch.object(psutil, "net_if_addrs", lambda: table[ps]))
    env.enter_context(mock.patch.object(psutil, "boot_time", lambda: time.time() - up))
    for k, v in {"system": "Linux", "release": "6.1", "version": "#1 SMP", "machine": "armv7l", "processor": "" if names == "" else "cpu", "node": names}.items():
        env.enter_context(mock.patch.object(platform, k, lambda v=v: v))
    if ps == "missing":
        env.enter_context(mock.patch.object(mod, "psutil", None))
    keep = {k: sys.modules.get(k) for k in ("shepherd_sheep", "zstandard")}
    try:
        if mods == "sheep":
            sys.modules["shepherd_sheep"] = types.SimpleNamespace(__version__="0.9.9")
        elif mods == "no-zstd":
            sys.modules["zstandard"] = None
        with chk.case("collect", rep), chk.tmp() as d:
            for cls in (PythonInventory, SystemInventory, TargetInventory, Inventory):
                inv = cls.collect()
                chk.step()
                again = cls.from_file(inv.to_file(d / "x.yaml"))
                chk.expect(again == inv and again.get_hash() == inv.get_hash(), "collect:file", f"collected {cls.__name__} differs after loading", rep)
                if cls is PythonInventory:
                    import h5py
                    import numpy
                    chk.expect(inv.python == platform.python_version() and inv.numpy == numpy.__version__ and inv.h5py == h5py.__version__, "collect:versions", f"{inv}", rep)
                    chk.expect(inv.shepherd_sheep == ("0.9.9" if mods == "sheep" else None) and (inv.zstandard is None) == (mods == "no-zstd"), "collect:modules", f"{inv}", rep)
                if cls in (SystemInventory, Inventory):
                    chk.expect(abs(inv.uptime - (0 if ps == "missing" else up)) <= 1.5 and inv.hostname == names, "collect:system", f"{inv}", rep)
                    chk.expect(set(inv.interfaces) == {"missing": set(), "none": set(), "lo": {"lo"}, "mixed": {"lo", "eth0"}}[ps], "collect:interfaces", f"{inv.interfaces}", rep)
                    chk.expect(bool(inv.fs_root) == (tools in ("df", "all", "silent")) or tools == "silent", "collect:fs", f"{inv.fs_root}", rep)
                if cls is Inventory:
                    chk.expect(inv.created == inv.timestamp, "collect:created", "creation time differs from time stamp", rep)
                    w = InventoryList(elements=[inv, inv]).warn()
                    chk.expect(set(w) == ({"uptime"} if inv.uptime > 108_000 else set()), "collect:warn", f"{w}", rep)
            chk.ev(item)
    finally:
        env.close()
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def run(chk: Check):
    top = 4 if chk.thorough else 3
    chk.parallel(versions, [(i, n) for i in ITEMS for n in range(1, top + 1)])
    chk.parallel(two_items, list(it.combinations(ITEMS, 2)))
    chk.parallel(clocks, [(n, s) for n in (1, 2, 3) for s in range(8)] if chk.thorough else [(n, s) for n in (1, 2) for s in range(8)])
    if not chk.thorough:
        chk.parallel(trios, [0])
    chk.parallel(nested, list(it.product(IFS, LISTS)))
    chk.parallel(collect, list(it.product(("missing", "none", "lo", "mixed"), (0.2, 1, 5.5, 108_001), ("none", "df", "all", "silent"), ("sheep01", ""), ("plain", "sheep", "no-zstd"))))
    chk.sample({"hostname": "alpha", "numpy": "1.2.3"})


def trios(chk: Check, _):
    for ups in it.product((1, 108_001), repeat=3):
        for offs in it.product((0, 10, 11, 12), repeat=3):
            fleet = [{"hostname": HOSTS[j], "uptime": ups[j], "created": T0 + dt.timedelta(seconds=offs[j])} for j in range(3)]
            with chk.case("clock", {"fleet": fleet}):
                compare(chk, fleet, {"fleet": fleet}, "clock")
