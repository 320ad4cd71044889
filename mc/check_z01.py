"""Z01: the same instants in every time zone and season: all zone rules x seasons x ways to write an instant."""
import datetime as dt
import itertools as it
import os
import re
import time

import numpy as np

from mc import h5, lab
from mc.check_r02 import uart_edges
from mc.lib import Check

RULE = ("enumerated: zone rules (offsets x sizes of daylight saving, also negative) x season (daylight saving in effect now or not) x time of day near midnight; in each zone: all instants of a menu (past and future, in both seasons, around now) x all forms to write them x all models with a start; "
        "files written in one zone and read in every other; ages of files around the limit; exported logs, tables and uart. Oracle: the C library (epoch seconds and gmtoff). distinct = distinct (zone, form, instant)")
ASSUME = ["the season is chosen by the rule of the zone, not by changing the clock", "instants less than an hour away from a change of the season are left out (naive times are ambiguous there)",
          "local times in exports are judged for instants of the current season only"]

DAY = 86400
UTC = dt.timezone.utc


def hm(minutes: int) -> str:
    """POSIX offset (positive is west)."""
    a = abs(minutes)
    return f"{'-' if minutes > 0 else ''}{a // 60}:{a % 60:02}"


def zones(thorough: bool):
    """Zone rules that are in or out of daylight saving right now."""
    offs = (-720, -480, -210, 0, 60, 345, 720, 840) if thorough else (-720, -210, 0, 60, 345)
    out = []
    doy = time.gmtime().tm_yday
    for off, save in it.product(offs, (None, 60, 30, -60)):
        name = f"<S{off % 1440:04}>{hm(off)}"
        if save is None:
            out.append((name, False))
            continue
        for a, b, dst in ((-60, 60, True), (60, 120, False), (-120, -60, False)):
            s, e = ((doy + x - 1) % 365 + 1 for x in (a, b))
            out.append((f"{name}<D{off % 1440:04}>{hm(off + save)},J{s}/12,J{e}/12", dst))
    # local time close to midnight, with and without daylight saving in effect
    now = time.gmtime()
    mins = now.tm_hour * 60 + now.tm_min
    for target, save in it.product((5, 35, 1405, 1435), (None, 60, -60)):
        off = (target - mins) % 1440
        off -= 1440 if off > 720 else 0
        s, e = ((doy + x - 1) % 365 + 1 for x in (60, 120))
        rule = "" if save is None else f"<D>{hm(off + save)},J{s}/12,J{e}/12"
        out.append((f"<S>{hm(off)}{rule}", False))
    return out


def enter(tz: str):
    os.environ["TZ"] = tz
    time.tzset()


def near_change(t: float) -> bool:
    return len({time.localtime(t + d).tm_gmtoff for d in (-7300, -3700, 0, 3700, 7300)}) > 1


def local(t: float) -> dt.datetime:
    """Naive local time by the C library."""
    g = time.gmtime(t)
    return dt.datetime(*g[:6]) + dt.timedelta(seconds=time.localtime(t).tm_gmtoff)


def forms(t: int):
    """All ways to write down an instant."""
    u = dt.datetime.fromtimestamp(t, UTC)
    east, west = dt.timezone(dt.timedelta(hours=5, minutes=45)), dt.timezone(-dt.timedelta(hours=11))
    yield "int", t
    yield "float", t + 0.0
    yield "aware-utc", u
    yield "aware-east", u.astimezone(east)
    yield "aware-west", u.astimezone(west)
    yield "text-utc", u.isoformat()
    yield "text-z", u.strftime("%Y-%m-%dT%H:%M:%SZ")
    yield "text-east", u.astimezone(east).isoformat(" ")
    yield "text-west", u.astimezone(west).isoformat()
    if not near_change(t):
        yield "naive", local(t)
        yield "text-naive", local(t).isoformat()
        yield "text-naive-space", local(t).isoformat(" ")


def season(t: float) -> bool:
    return time.localtime(t).tm_gmtoff == time.localtime().tm_gmtoff


def helpers(chk: Check, item):
    from shepherd_core import local_now, local_tz
    from shepherd_core.data_models.base.timezone import local_iso_date
    tz, _ = item
    enter(tz)
    with chk.case("local", tz):
        off = time.localtime().tm_gmtoff
        chk.expect(local_tz().utcoffset(None) == dt.timedelta(seconds=off), "local-tz", lambda: f"{local_tz().utcoffset(None)} instead of {off} s", tz)
        a = time.time()
        now = local_now()
        b = time.time()
        chk.expect(now.tzinfo is not None and a - 1e-3 <= now.timestamp() <= b + 1e-3, "local-now:instant", f"{now}", tz)
        chk.expect(abs((now.replace(tzinfo=None) - local(b)).total_seconds()) < 5, "local-now:local", f"{now} is not the local time {local(b)}", tz)
        a, got, b = time.strftime("%Y-%m-%d"), local_iso_date(), time.strftime("%Y-%m-%d")
        chk.expect(got in (a, b), "local-date", f"{got} instead of {a}", tz)
        chk.step(3)
        chk.ev((tz, off))
        chk.state((tz, off))
    from shepherd_core.data_models.base.calibration import CapeData
    with chk.case("cal-date", tz):
        a, got, b = time.strftime("%Y-%m-%d"), CapeData(serial_number="1").cal_date, time.strftime("%Y-%m-%d")
        chk.expect(got in (a, b), "cal-date", f"{got} instead of {a}", tz)


def starts(chk: Check, item):
    from shepherd_core.data_models.task import EmulationTask, HarvestTask
    tz, _ = item
    enter(tz)
    now = int(time.time())
    future = [now + d for d in (900, 7200, DAY, 30 * DAY, 80 * DAY, 100 * DAY, 200 * DAY)]
    past = [now - d for d in (3, 900, 7200, DAY, 90 * DAY, 200 * DAY)]
    for (cls, kw), t in it.product(((HarvestTask, {"output_path": "/o"}), (EmulationTask, {"input_path": "/i"})), future + past):
        for name, val in forms(t):
            rep = {"zone": tz, "model": cls.__name__, "form": name, "value": str(val), "epoch": t}
            with chk.case("start", rep):
                try:
                    got = cls(time_start=val, **kw).time_start
                except ValueError as xcp:
                    chk.expect(t < now, "start:rejected", f"a start {t - now} s ahead is rejected: {str(xcp)[:200]}", rep)
                else:
                    chk.expect(t >= now, "start:past", f"a start {now - t} s in the past is accepted", rep)
                    chk.expect(got.tzinfo is not None and got.timestamp() == t, "start:instant", f"{got} is off by {got.timestamp() - t} s", rep)
                chk.step()
                chk.ev((tz, name, t > now, cls.__name__))
                chk.state((tz, name, t - now, cls.__name__))
    with chk.case("start:none", tz):
        chk.expect(HarvestTask(output_path="/o").time_start is None and EmulationTask(input_path="/i", time_start=None).time_start is None, "start:none", "asap has a start time", tz)
    chk.trace()


def files(chk: Check, item):
    """Aware times written in one zone are the same instants in another one."""
    from shepherd_core.data_models.task import HarvestTask
    (tz, _), others = item
    now = int(time.time())
    with chk.tmp() as d:
        made = []
        enter(tz)
        for k, t in enumerate((now + 900, now + 90 * DAY, now + 200 * DAY)):
            for name, val in forms(t):
                for minimal in (True, False):
                    with chk.case("file:write", (tz, name)):
                        m = HarvestTask(output_path="/o", time_start=val, duration=3)
                        a = time.time()
                        made.append((m, m.to_file(d / f"{k}_{name}_{minimal}", minimal=minimal), t, a, time.time()))
        import yaml
        for (tz2, _), (m, path, t, a, b) in it.product(others, made):
            rep = {"written in": tz, "read in": tz2, "file": path.name}
            enter(tz2)
            with chk.case("file", rep):
                got = HarvestTask.from_file(path)
                chk.expect(got.time_start.timestamp() == t, "file:instant", f"{got.time_start} is off by {got.time_start.timestamp() - t} s", rep)
                chk.expect(got.get_hash() == m.get_hash(), "file:hash", "hash depends on the zone", rep)
                made_at = yaml.safe_load(path.read_text()).get("created")
                chk.expect(isinstance(made_at, dt.datetime) and made_at.tzinfo is not None and a - 1 <= made_at.timestamp() <= b + 1, "file:created", f"created {made_at}", rep)
                chk.step()
                chk.ev((tz, tz2, path.name))
    chk.trace()


def ages(chk: Check, item):
    from shepherd_core.testbed_client.fixtures import file_older_than
    tz, _ = item
    enter(tz)
    with chk.tmp() as d:
        f = d / "f"
        f.write_text("x")
        for limit, k, delta in it.product((0, 60, 3600, 7200, DAY, 30 * DAY, 150 * DAY), (0, 0.5, 1), (-30, 30, -1790, 1790, -3700, 3700, -7300, 7300)):
            age = limit + delta
            if age < -DAY:
                continue
            with chk.case("age", (tz, limit, age)):
                t = time.time() - age
                os.utime(f, (t, t))
                got = file_older_than(f, dt.timedelta(seconds=limit))
                chk.expect(bool(got) == (age > limit), "age", f"a file {age} s old counts as {'older' if got else 'younger'} than {limit} s", {"zone": tz, "limit": limit, "age": age})
                chk.step()
                chk.ev((tz, limit, delta))
            del k
    chk.trace()


STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}")


def exports(chk: Check, item):
    from shepherd_data import Reader
    from click.testing import CliRunner
    from shepherd_data.cli import cli
    tz, _ = item
    enter(tz)
    now = int(time.time())
    t = [x for x in (now - 50 * DAY, now - 3 * DAY, now - 7200, now - 60) if season(x) and not near_change(x)]
    ns = [x * 10**9 + 123_456_000 for x in t]
    want = [f"{local(x):%Y-%m-%d %H:%M:%S}" for x in t]
    rep = {"zone": tz, "epoch": t}

    def stamps(path, key):
        text = path.read_text(encoding="utf-8-sig")
        got = [s.split(".") for s in STAMP.findall(text)]
        ok = [a for a, _ in got] == want and all(abs(int(b) - 123456) <= 1 for _, b in got)
        chk.expect(ok, key, lambda: f"{got} instead of {want}", rep)
        chk.step()

    with chk.tmp() as d, chk.case("export", rep):
        iv = h5.ramp(10_000, ns[0])
        path = h5.make(d / "a.h5", *iv, logs={"sheep": (ns, [20] * len(ns), ["m"] * len(ns)), "kernel": (ns, None, ["k"] * len(ns))})
        import h5py
        with h5py.File(path, "r+") as fd:
            g = fd.create_group("ptp")
            g["time"] = np.array(ns, "u8")
            g["time"].attrs["description"] = "t"
            g["values"] = np.arange(len(ns))
            g["values"].attrs["description"] = "v"
        with Reader(path, verbose=False) as r:
            r.save_log(r.h5file["sheep"])
            r.save_csv(r.h5file["ptp"])
        stamps(path.with_suffix(".sheep.log"), "export:log")
        stamps(path.with_suffix(".ptp.csv"), "export:csv")
        # a line of text received at each of these instants
        for x in t:
            ts, lv = uart_edges(b"hi\n")
            first = ts[1]
            u = h5.make(d / f"u{x}.h5", *iv, gpio=([y - first + x * 10**9 + 123_456_000 for y in ts], lv, "0:\n  name: uart\n"))
            res = CliRunner().invoke(cli, ["extract-uart", str(u)])
            chk.expect(res.exit_code == 0, "export:uart-exit", f"{res.exception!r}", rep)
            text = u.with_suffix(".uart_from_wf.log").read_text()
            got = STAMP.findall(text)
            chk.expect(len(got) == 1 and got[0][:-7] == f"{local(x):%Y-%m-%d %H:%M:%S}", "export:uart", f"{text!r} for {local(x)}", rep)
            chk.step()
        chk.ev((tz, len(t)))
    chk.trace()


def experiments(chk: Check, item):
    from shepherd_core.data_models.experiment import Experiment, TargetConfig
    from shepherd_core.data_models.task import TestbedTasks
    tz, _ = item
    enter(tz)
    now = int(time.time())
    for t in (now + 900, now + 90 * DAY, now + 200 * DAY):
        for name, val in forms(t):
            rep = {"zone": tz, "form": name, "epoch": t}
            with chk.case("xp", rep):
                xp = Experiment(name="xp", time_start=val, duration=30, target_configs=[TargetConfig(target_IDs=[41], energy_env={"name": "SolarSunny"}, firmware1={"name": "nrf52_demo_rf"})])
                tb = TestbedTasks.from_xp(xp)
                ot = tb.observer_tasks[0]
                chk.expect(ot.emulation.time_start.timestamp() == t, "xp:start", f"emulation starts at {ot.emulation.time_start}, off by {ot.emulation.time_start.timestamp() - t} s", rep)
                if not near_change(t - 240):
                    chk.expect(ot.time_prep.timestamp() == t - 240, "xp:prep", f"preparation at {ot.time_prep}", rep)
                chk.step()
                chk.ev((tz, name, t - now))
    chk.trace()


def run(chk: Check) -> None:
    lab.setup()
    zs = zones(chk.thorough)
    keep = os.environ.get("TZ", "UTC")
    try:
        chk.parallel(helpers, zs)
        chk.parallel(starts, zs)
        chk.parallel(ages, zs)
        chk.parallel(exports, zs)
        some = zs if chk.thorough else zs[::3]
        chk.parallel(files, [(z, zs[::5]) for z in (zs if chk.thorough else zs[::4])])
        chk.parallel(experiments, some)
    finally:
        enter(keep)
    for z in zs[:3]:
        chk.sample(z)
