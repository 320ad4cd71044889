"""A01: the scripts in extra/, run as copies in a scratch directory."""
import io
import itertools as it
import os
import pathlib
import re
import runpy
import shutil
import urllib.request
import zipfile
from collections import Counter
from contextlib import contextmanager
from xml.etree import ElementTree as ET

import numpy as np

from mc import elf
from mc.lib import REPO, Check

RULE = ("enumerated: link-visualizer: all matrices of 3 nodes (6 directed links) over a menu of strengths, all strengths x all differences of both directions for the width, log layouts (text around, end of file, column widths, two-digit nodes, fractions); firmware generator: all states of two firmwares in two successive releases; "
        "database priming: all subsets of a menu of content files, two runs; each other script on the shipped definitions. Oracle: own reading of matrix, files and definitions. distinct = distinct inputs")
ASSUME = ["matrices are square, right-aligned and of nodes on the floor plan", "scripts run as copies; download and recording of samples are replaced, there is no /var/shepherd", "linked ELF firmware in the content directory"]

SVG = "{http://www.w3.org/2000/svg}"


def visual():
    return runpy.run_path(str(pathlib.Path(REPO) / "extra/link-visualizer/create_link_svg.py"), run_name="visual")


def render(nodes, rssi, width=5, pre=(), post=("\n", "done 1 2 3\n"), end=True, title="Link matrix:"):
    num = lambda v: "" if v is None else f"{v:g}"  # noqa: E731
    out = [*pre, title + "\n", " " * 5 + "".join(f"{n:{width}d}" for n in nodes) + "\n", " " * 4 + "-" * (width * len(nodes) + 1) + "\n"]
    out += [f"{a:3d} |" + "".join(f"{num(rssi.get((a, b))):>{width}}" for b in nodes) + "\n" for a in nodes]
    txt = "".join([*out, *post])
    return txt if end else txt.rstrip("\n")


def want_width(a, b):
    a, b = (b - 10 if a is None else a), (a - 10 if b is None else b)
    return int(max(1, min(10, (104 + (a + b) // 2) // 5)))


def want_links(rssi):
    out = {}
    for a, b in {(min(k), max(k)) for k in rssi}:
        out[(a, b)] = want_width(rssi.get((a, b)), rssi.get((b, a)))
    return out


def drawn(path):
    """-> [(x1, y1, x2, y2, width)], position of nodes, order of elements."""
    root = ET.fromstring(path.read_text())
    lines = [(*(float(e.get(k)) for k in ("x1", "y1", "x2", "y2")), re.search(r"stroke-width:\s*([^;]+)", e.get("style")).group(1)) for e in root.iter(SVG + "line")]
    nodes = Counter()
    for e in root.iter(SVG + "text"):
        x, y = re.search(r"translate\(([^,]+),([^)]+)\)", e.get("transform")).groups()
        nodes[(int(e.text), float(x), float(y))] += 1
    return lines, nodes, [e.tag for e in root.iter() if e.tag in (SVG + "line", SVG + "circle", SVG + "image")], dict(root.attrib)


def compare(chk, key, ns, path, rssi, rep, with_nodes=False):
    lines, nodes, order, attrs = drawn(path)
    pos = ns["NODES"]
    want = Counter()
    for (a, b), w in want_links(rssi).items():
        want[(frozenset([tuple(map(float, pos[a])), tuple(map(float, pos[b]))]), str(w))] += 1
    got = Counter((frozenset([(x1, y1), (x2, y2)]), w) for x1, y1, x2, y2, w in lines)
    chk.expect(got == want, f"{key}:lines", f"drawn {dict(got)} instead of {dict(want)}", rep)
    chk.expect(order[:1] == [SVG + "image"] and order.count(SVG + "image") == 1, f"{key}:image", "base picture is not the lowest or missing", rep)
    if with_nodes:
        chk.expect(nodes == Counter((n, float(x), float(y)) for n, (x, y) in pos.items()), f"{key}:nodes", f"nodes {dict(nodes)}", rep)
        k = [i for i, t in enumerate(order) if t.endswith("line")], [i for i, t in enumerate(order) if t.endswith("circle")]
        chk.expect(not k[0] or max(k[0]) < min(k[1]), f"{key}:order", "links cover nodes", rep)
    chk.expect(attrs.get("width") == "819", f"{key}:base", "base picture changed", rep)


def links(chk: Check, item):
    """All matrices over a menu."""
    nodes, menu, part, parts = item
    ns = visual()
    base = pathlib.Path(REPO) / "extra/link-visualizer/floorplan.svg"
    keys = [(a, b) for a in nodes for b in nodes if a != b]
    with chk.tmp() as d:
        for k, vals in enumerate(it.product(menu, repeat=len(keys))):
            if k % parts != part:
                continue
            rssi = {kk: float(v) for kk, v in zip(keys, vals) if v is not None}
            rep = {"nodes": nodes, "rssi": {f"{a}->{b}": v for (a, b), v in rssi.items()}}
            with chk.case("links", rep):
                log = d / "trx.log"
                log.write_text(render(nodes, rssi))
                got = ns["extract_rssi_data"](log)
                chk.expect(got == rssi, "links:read", f"read {got} instead of {rssi}", rep)
                out = d / "o.svg"
                before = base.read_bytes()
                ns["add_links"](base, out, dict(rssi))
                compare(chk, "links", ns, out, rssi, rep)
                chk.expect(base.read_bytes() == before, "links:source", "floor plan was changed", rep)
                chk.step(2)
                chk.trace()
                chk.state((nodes, vals))
                chk.ev((nodes, vals))


def layouts(chk: Check, _):
    """Shapes of the log, whole script."""
    ns = visual()
    src = pathlib.Path(REPO) / "extra/link-visualizer"
    sets = [(1, 2), (1, 2, 3), (8, 10, 12), (10, 13, 14), (1, 10), tuple(ns["NODES"])]
    pres = [(), ("TrafficBench\n", "\n", "nodes: 1 2 3\n"), ("  1 | -50\n",), ("\n",) * 3]
    posts = [(), ("\n",), ("\n", "more\n", "  1 | 5 6\n"), ("   \n", "link quality:\n", "  1  2\n")]
    for nodes, pre, post, width, end, title in it.product(sets, pres, posts, (5, 6, 8), (True, False), ("Link matrix:", "link matrix: [dBm]", "== RSSI LINK MATRIX: ==")):
        rssi = {(a, b): -40.0 - ((a * 7 + b * 3) % 60) - (0.5 if width > 5 and a % 2 else 0) for a in nodes for b in nodes if a != b and (a * b + a) % 5}
        rep = {"nodes": nodes, "text before": pre, "after": post, "width": width, "newline at end": end, "title": title}
        with chk.tmp() as d, chk.case("layout", rep):
            (d / "trx.log").write_text(render(nodes, rssi, width, pre, post, end, title))
            got = ns["extract_rssi_data"](d / "trx.log")
            chk.expect(got == rssi, "layout:read", f"read {got} instead of {rssi}", rep)
            chk.step()
            chk.ev((nodes, pre, post, width, end, title))
    for nodes, extra in it.product(sets, ("", "log")):
        rssi = {(a, b): -55.0 - (a + b) for a in nodes for b in nodes if a != b and (a + 2 * b) % 4}
        rep = {"nodes": nodes, "log": extra}
        with chk.tmp() as d, chk.case("script", rep):
            for f in ("create_link_svg.py", "floorplan.svg"):
                shutil.copy(src / f, d / f)
            if extra:
                (d / "trx_data.log").write_text(render(nodes, rssi))
            before = {p.name: p.read_bytes() for p in d.iterdir()}
            runpy.run_path(str(d / "create_link_svg.py"), run_name="__main__")
            after = {p.name: p.read_bytes() for p in d.iterdir()}
            new = [n for n in after if n not in before]
            chk.expect(len(new) == 1 and all(after[n] == b for n, b in before.items()), "script:files", f"new {new}, or a source was changed", rep)
            compare(chk, "script", ns, d / new[0], rssi if extra else {}, rep, with_nodes=True)
            chk.step()
            chk.trace()
            chk.ev((nodes, extra, "script"))


def widths(chk: Check, _):
    ns = visual()
    base = pathlib.Path(REPO) / "extra/link-visualizer/floorplan.svg"
    with chk.tmp() as d:
        for a in (k / 4 for k in range(-520, 1)):  # quarters are exact
            for diff in (None, 0, 1, 3, 6, 7, 20, 50) if a == int(a) else (0, 1, 2.5, 0.25):
                rssi = {(2, 5): a} | ({} if diff is None else {(5, 2): a - diff})
                both = []
                for r in (rssi, {(y, x): v for (x, y), v in rssi.items()}):
                    with chk.case("width", rssi):
                        ns["add_links"](base, d / "o.svg", r)
                        compare(chk, "width", ns, d / "o.svg", r, {"rssi": str(r)})
                        both.append([x[4] for x in drawn(d / "o.svg")[0]])
                        chk.step()
                chk.expect(len(both) == 2 and both[0] == both[1], "width:direction", f"width depends on direction: {both}", {"rssi": str(rssi)})
                chk.ev((a, diff))


# --------------------------------------------------------------------------- scripts on definitions
@contextmanager
def replaced(*subs):
    old = [(o, n, getattr(o, n)) for o, n, _ in subs]
    try:
        for o, n, v in subs:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def copy_extra(d):
    """Layout of the repository around the scripts, in d."""
    shutil.copytree(pathlib.Path(REPO) / "extra", d / "extra", ignore=shutil.ignore_patterns("content", "temp", "__pycache__"))
    (d / "shepherd_core/shepherd_core/data_models/content").mkdir(parents=True)
    return d / "extra"


def script(x, name):
    runpy.run_path(str(x / name), run_name="__main__")


def table(chk: Check, _):
    from shepherd_core.data_models.testbed import Testbed
    from shepherd_core.testbed_client.fixtures import Fixtures
    with chk.tmp() as d, chk.case("layout-table"):
        x = copy_extra(d)
        for _k in range(2):  # again over the existing one
            script(x, "gen_testbed_layout.py")
        rows = [r.split("; ") for r in (x / "content/testbed_layout.csv").read_text().splitlines()]
        head, got = rows[0], Counter(map(tuple, rows[1:]))
        want = Counter()
        for f in Fixtures()["Testbed"]:
            tb = Testbed(id=f["id"])
            for o in tb.observers:
                for t in (o.target_a, o.target_b):
                    if t is not None:
                        want[tuple(map(str, (tb.id, tb.name, t.id, t.name, o.cape.id, o.cape.name, o.id, o.name, o.room, o.description, o.eth_port, o.latitude, o.longitude)))] += 1
        chk.expect(head == ["tb_id", "tb_name", "target_id", "target_name", "cape_id", "cape_name", "observer_id", "observer_name", "room", "observer_description", "eth_port", "lat", "long"], "layout-table:head", str(head))
        chk.expect(got == want, "layout-table:rows", f"missing {dict(want - got)}, too much {dict(got - want)}")
        chk.step(sum(want.values()))
        chk.ev(sorted(want))


FW = {1: elf.build([(".text", 0x0, bytes(range(40))), (".data", 0x2000, bytes(8))], [("main", 0x0, 4, 1), ("SHEPHERD_NODE_ID", 0x2004, 2, 2)], "arm"),
      2: elf.build([(".text", 0x4000, bytes(range(40))), (".vec", 0xFFFE, b"\x00\x40")], [("main", 0x4000, 4, 1), ("SHEPHERD_NODE_ID", 0x4010, 2, 1)], "msp430", entry=0x4000)}


def version(n, v):
    return FW[n] + bytes([v]) * 3  # trailing bytes do not matter for ELF


STATES = ("absent", "listed", "folder", "elf", "elf+hex", "two")


def release(d, states, v):
    b = io.BytesIO()
    names = {1: "nrf52_a", 2: "msp430_b"}
    with zipfile.ZipFile(b, "w") as z:
        meta = ["metadata:"]
        for n, s in states:
            if s == "absent":
                continue
            meta.append(f"  {names[n]}: release {v} of {names[n]}")
            if s == "folder":
                z.writestr(f"content/{names[n]}/readme.txt", "x")
            if s in ("elf", "elf+hex", "two"):
                z.writestr(f"content/{names[n]}/build.elf", version(n, v))
            if s == "elf+hex":
                z.writestr(f"content/{names[n]}/build.hex", b":00000001FF\n")
            if s == "two":
                z.writestr(f"content/{names[n]}/other.elf", version(n, v))
        if len(meta) == 1:
            meta = ["metadata: {}"]
        z.writestr("content/metadata_fw.yaml", "\n".join(meta) + "\n")
    return b.getvalue(), names


def firmwares(chk: Check, item):
    from shepherd_core.data_models.content import Firmware
    from shepherd_core.fw_tools import file_to_hash
    for runs in item:
        rep = {"releases": runs}
        with chk.tmp() as d, chk.case("firmwares", rep):
            x = copy_extra(d)
            had = set()
            for v, states in enumerate(runs, 1):
                data, names = release(d, states, v)
                with replaced((urllib.request, "urlopen", lambda *_a, data=data, **_k: io.BytesIO(data))):
                    script(x, "gen_firmwares.py")
                root = x / "content/fw/nes_lab"
                for n, s in states:
                    sub = root / names[n]
                    models = sorted(sub.glob("*.yaml")) if sub.exists() else []
                    if s not in ("elf", "elf+hex", "two"):
                        chk.expect(not models or n in had, "firmwares:extra", f"model without firmware for {names[n]}", rep)
                        continue
                    if not chk.expect(models, "firmwares:missing", f"no model for {names[n]} of release {v}", rep):
                        continue
                    had.add(n)
                    ok = []
                    for p in models:
                        f = Firmware.from_file(p)
                        src = pathlib.Path(f.data)
                        ok.append(f.name == names[n] and f.description == f"release {v} of {names[n]}" and src.exists() and src.parent == sub and src.read_bytes() == version(n, v)
                                  and f.data_hash == file_to_hash(src) and f.mcu.name.lower().startswith(names[n].split("_")[0]) and f.data_type == "path_elf" and f.data_local)
                    chk.expect(any(ok), "firmwares:model", f"model of {names[n]} in release {v} does not describe its firmware", rep)
                    chk.step()
            chk.ev(runs)
            chk.state(runs)
            chk.trace()


def prime(chk: Check, item):
    from shepherd_core.data_models.content import EnergyEnvironment, Firmware
    from shepherd_core.data_models.testbed import MCU
    from shepherd_core.testbed_client.fixtures import Fixtures
    own = {"owner": "o", "group": "g"}
    for turn, runs in item:
        rep = {"files": runs, "turn": turn}
        with chk.tmp() as d, chk.case("prime", rep):
            x = copy_extra(d)
            base = x / "content"
            for files in runs:
                shutil.rmtree(base, ignore_errors=True)
                want = {}
                for k, f in enumerate(files):
                    sub = base / ("fw/nes_lab/a", "fw/b", "eenv/nes_lab", "", "deep/er/x")[(k + turn) % 5]
                    sub.mkdir(parents=True, exist_ok=True)
                    if f in ("fw1", "fw2"):
                        n = int(f[2])
                        (sub / "build.elf").write_bytes(version(n, 1))
                        m = Firmware.from_firmware(sub / "build.elf", embed=False, name=f, description="some", visible2group=n > 1, **own)
                        m.to_file(sub / "build.yaml", minimal=n > 1)
                        want[("Firmware", f)] = m.model_dump() | {"data": "/var/shepherd/" + (sub / "build.elf").relative_to(x).as_posix(), "data_hash": None, "data_local": False}
                    elif f == "eenv":
                        p = sub / "ee.h5"
                        m = EnergyEnvironment(name="ee", description="d", data_path=p.as_posix(), data_type="ivcurve", duration=77, energy_Ws=1.25, valid=True, indoor=True, location="L", visible2all=True, **own)
                        m.to_file(sub / "ee.yaml", minimal=False)
                        want[("EnergyEnvironment", "ee")] = m.model_dump() | {"data_path": pathlib.PurePosixPath("/var/shepherd") / p.relative_to(x), "data_local": False}
                    elif f == "mcu":
                        MCU(name="nRF52").to_file(sub / "mcu.yaml")
                    elif f == "text":
                        (sub / "notes.txt").write_text("datatype: Firmware")
                script(x, "prime_database.py")
                out = d / "shepherd_core/shepherd_core/data_models/content/_external_fixtures.yaml"
                fx = Fixtures(out) if want else None
                got = {}
                for kind, cls in (("Firmware", Firmware), ("EnergyEnvironment", EnergyEnvironment)):
                    for e in (fx[kind] if fx is not None and kind.lower() in {c.lower() for c in fx.components} else ()):
                        got[(kind, e["name"])] = cls(**e).model_dump()
                if chk.expect(got.keys() == want.keys(), "prime:entries", f"entries {sorted(got)} instead of {sorted(want)}", rep):
                    for k, w in want.items():
                        diff = {f: (got[k].get(f), v) for f, v in w.items() if str(got[k].get(f)) != str(v)}
                        chk.expect(not diff, "prime:content", f"{k}: {diff}", rep)
                chk.step()
            chk.ev((turn, runs))
            chk.state((turn, runs))
            chk.trace()


def environments(chk: Check, _):
    """Recording itself is replaced: what would be appended is checked instead."""
    from shepherd_core import Reader, Writer
    from shepherd_core.data_models import EnergyEnvironment
    seen: dict = {}
    real = Writer.append_iv_data_si

    def append(self, t, v, c):
        key = str(self.file_path)
        t, v, c = np.asarray(t), np.asarray(v), np.asarray(c)
        e = seen.setdefault(key, {"n": 0, "end": 0.0, "bad": []})
        n = len(t)
        if not n == len(v) == len(c):
            e["bad"].append("unequal lengths")
        if n and abs(t[0] - e["end"]) > 1e-6:
            e["bad"].append(f"gap at {e['end']} s: continues at {t[0]}")
        if n and abs((t[-1] - t[0]) - (n - 1) * 1e-5) > 1e-6:
            e["bad"].append("uneven spacing")
        if not e["n"]:
            e["v"], e["c"] = (float(v.min()), float(v.max())), (float(c.min()), float(c.max()))
            if n > 1 and np.abs(np.diff(t[:200_000]) - 1e-5).max() > 1e-8:
                e["bad"].append("uneven spacing")
            real(self, t[:20_000], v[:20_000], c[:20_000])
        elif n and ((float(v[0]), float(v[-1])) != e["v"] or (float(c[0]), float(c[-1])) != e["c"]):
            e["bad"].append("level changed")
        e["n"] += n
        e["end"] = (float(t[-1]) + 1e-5) if n else e["end"]

    with chk.tmp() as d, chk.case("environments", limit=600):
        x = copy_extra(d)
        with replaced((Writer, "append_iv_data_si", append)):
            script(x, "gen_energy_envs.py")
        if not seen:
            chk.count("environments are recorded differently")
            return
        metas = sorted((x / "content").rglob("*.yaml"))
        files = sorted((x / "content").rglob("*.h5"))
        chk.expect(len(seen) == len(files) == len(metas) and {f.stem for f in files} == {m.stem for m in metas}, "environments:files", f"{len(seen)} recordings, {len(metas)} models")
        for m in metas:
            e = EnergyEnvironment.from_file(m)
            s = seen.get(str(e.data_path))
            if not chk.expect(s is not None, "environments:path", f"{m.name} links to {e.data_path}", m.name):
                continue
            mv, ma, sec = map(int, re.search(r"(\d+)mV_(\d+)mA_(\d+)s", m.stem).groups())
            chk.expect(not s["bad"], "environments:gaps", f"{m.stem}: {s['bad'][:3]}", m.name)
            chk.expect(s["n"] == sec * 100_000 and e.duration == sec, "environments:duration", f"{m.stem} has {s['n']} samples, model says {e.duration} s", m.name)
            chk.expect(all(abs(a - mv / 1e3) < 1e-9 for a in s["v"]) and all(abs(a - ma / 1e3) < 1e-9 for a in s["c"]), "environments:level", f"{m.stem}: {s['v']} V, {s['c']} A", m.name)
            with Reader(e.data_path, verbose=False) as r:
                chk.expect(e.energy_Ws == r.energy() and e.name == m.stem and e.data_type == r.get_datatype() and e.valid, "environments:model", f"{m.stem}: energy {e.energy_Ws}", m.name)
            chk.step(s["n"] // 6_000_000)
            chk.ev(m.stem)


def experiments(chk: Check, _):
    from shepherd_core.data_models.content import Firmware
    from shepherd_core.data_models.task import TestbedTasks
    from shepherd_core.data_models.testbed import Testbed
    with chk.tmp() as d, chk.case("experiments"):
        x = copy_extra(d)
        fw = x / "content/fw/nes_lab/nrf52_rf_survey"
        fw.mkdir(parents=True)
        (fw / "build.elf").write_bytes(version(1, 1))
        script(x, "gen_target_tests_testbed.py")
        script(x, "gen_rf_survey.py")
        tb = Testbed(name="shepherd_tud_nes")
        want = {tb.get_observer(t).name: k for k, t in enumerate(range(1, 12))}
        files = {"target_device_test1_testbed": ("nrf52_testable", "msp430_testable", False), "target_device_test2_testbed": ("nrf52_rf_test", "msp430_deep_sleep", False),
                 "target_device_test3_testbed": ("nrf52_deep_sleep", "msp430_deep_sleep", False), "tasks_rf_survey": (None, "msp430_deep_sleep", True)}
        got = {p.stem for p in (x / "content").glob("*.yaml")}
        chk.expect(got == set(files), "experiments:files", f"files {sorted(got)}")
        for f, (n1, n2, custom) in files.items():
            t = TestbedTasks.from_file(x / f"content/{f}.yaml")
            chk.expect(Counter(o.observer for o in t.observer_tasks) == Counter(list(want)), "experiments:observers", f"{f}: {[o.observer for o in t.observer_tasks]}", f)
            for o in t.observer_tasks:
                d1 = str(fw / "build.elf") if n1 is None else str(Firmware(name=n1).data)
                chk.expect(o.emulation is not None and o.fw1_prog is not None and o.fw2_prog is not None and str(o.fw1_mod.data) == d1 and str(o.fw2_mod.data) == str(Firmware(name=n2).data), "experiments:firmware", f"{f}: firmware on {o.observer}", f)
                if custom:
                    chk.expect(o.fw1_mod.custom_id == 1 + want[o.observer], "experiments:ids", f"{f}: node id {o.fw1_mod.custom_id} on {o.observer}", f)
                chk.step()
            chk.ev(f)


def other(chk: Check, fn):
    {"layouts": layouts, "widths": widths, "table": table, "environments": environments, "experiments": experiments}[fn](chk, None)


def run(chk: Check):
    if os.path.exists("/var/shepherd"):
        raise RuntimeError("there is a real server directory, scripts would write to it")
    chk.parallel(other, ["environments", "layouts", "widths", "table", "experiments"])
    menu = (None, -97, -75, -40) if not chk.thorough else (None, -110, -97, -75, -60.5, -40)
    chk.parallel(links, [(n, menu, p, 16) for n in ((1, 2, 3), *(((3, 10, 14), (14, 7, 1)) if chk.thorough else ())) for p in range(16)])
    small = STATES if chk.thorough else ("absent", "folder", "elf")
    rel = [((1, a), (2, b)) for a in STATES for b in small]
    runs = [(a, b) for a in rel for b in rel]
    chk.parallel(firmwares, [runs[k::32] for k in range(32)])
    menu = ("fw1", "fw2", "eenv", "mcu", "text")
    subsets = [s for n in range(len(menu) + 1) for s in it.combinations(menu, n)]
    runs = [(t, (a, b)) for k, a in enumerate(subsets) for b in (subsets if chk.thorough else [subsets[j] for j in (0, 3, 31)]) for t in (range(5) if chk.thorough or len(a) == 1 else (k % 5,))]
    chk.parallel(prime, [runs[k::32] for k in range(32)])
    chk.sample({"rssi": {"1->2": -97, "2->1": -75}})
