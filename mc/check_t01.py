"""T01: all topologies of up to three observers over menus of identities, plugged capes and targets and activity flags; boundary menus of the parts."""
import itertools as it

from mc.lib import Check

RULE = ("enumerated: two observers with every combination of same/different id, name, address (several notations), ethernet port, cape and targets (none, own, shared, shared with other content); three observers with every single and double collision at every pair of places; "
        "all activity flags (observer, cape, target) x wiring for every lookup; every shipped observer/target; boundary values of gpios, controllers, addresses and locations. "
        "Oracle: reference predicate over ids and normalised addresses, reference wiring table. distinct = distinct topologies or settings")
ASSUME = ["observers without network collisions but in the same room etc. are fine", "the definition of the storage paths is not judged"]


def target(tid, alt=False, active=True):
    return {"id": tid, "name": f"tt{tid}", "version": "1", "description": "other" if alt else "d", "mcu1": {"name": "nRF52"}, "mcu2": None, "active": active, "created": "2022-02-02 02:02:02" if not alt else "2023-02-02 02:02:02"}


def cape(cid, alt=False, active=True):
    return {"id": cid, "name": f"cc{cid}", "version": "1", "description": "other" if alt else "d", "active": active, "created": "2022-02-02 02:02:02" if not alt else "2023-02-02 02:02:02"}


def observer(n, **kw):
    d = {"id": 600 + n, "name": f"ob{n}", "description": "d", "ip": f"10.8.0.{n}", "mac": f"0a:00:00:00:0b:{n:02}", "room": "r", "eth_port": f"e{n}", "active": True, "cape": cape(800 + n), "target_a": None, "target_b": None, "created": "2022-02-02 02:02:02"}
    return {**d, **kw}


def norm_mac(m):
    return m.upper().replace("-", ":")


def dup(xs):
    xs = list(xs)
    return len(set(xs)) < len(xs)


def good(obs):
    """Reference: unambiguous?"""
    import ipaddress
    ts = [o[t]["id"] for o in obs for t in ("target_a", "target_b") if o[t]]
    return not (dup(o["id"] for o in obs) or dup(o["name"] for o in obs) or dup(ipaddress.ip_address(o["ip"]) for o in obs) or dup(norm_mac(o["mac"]) for o in obs) or dup(o["eth_port"] for o in obs)
                or dup(o["cape"]["id"] for o in obs if o["cape"]) or dup(ts) or any((o["target_a"] or o["target_b"]) and not o["cape"] for o in obs))


def make(obs, **kw):
    from shepherd_core.data_models.testbed import Testbed
    return Testbed(**{"id": 77, "name": "tbx", "description": "d", "observers": obs, "data_on_server": "/srv", "data_on_observer": "/obs", **kw})


def judge(chk: Check, key, obs, lookups=True):
    ref = good(obs)
    short = [{k: (v["id"], v["description"], v["active"]) if isinstance(v, dict) else v for k, v in o.items() if k not in ("description", "room", "created")} for o in obs]
    with chk.case(key, short):
        try:
            tb = make(obs)
        except ValueError as xcp:
            chk.expect(not ref, f"{key}:rejected", f"unambiguous testbed is rejected: {str(xcp)[:200]}", short)
            chk.ev((key, repr(short)))
            return
        chk.step()
        chk.ev((key, repr(short)))
        chk.state(repr(short))
        if not chk.expect(ref, f"{key}:accepted", "ambiguous testbed is accepted", short) or not lookups:
            return
        wires = {o[f"target_{p}"]["id"]: (o, p) for o in obs for p in "ab" if o[f"target_{p}"]}
        for tid in (*wires, 5, 0, 1999):
            place = wires.get(tid)
            use = place is not None and place[0]["active"] and place[0]["cape"]["active"] and place[0][f"target_{place[1]}"]["active"]
            try:
                got = tb.get_observer(tid)
                if chk.expect(use, f"{key}:found", f"target {tid} is found at {got.name} although out of service or unknown", short):
                    chk.expect(got.id == place[0]["id"], f"{key}:observer", f"target {tid} found at {got.name}", short)
                    chk.expect(got.get_target_port(tid) == place[1].upper(), f"{key}:port", f"port of target {tid} is {got.get_target_port(tid)}", short)
                    t = got.get_target(tid)
                    chk.expect(t.id == tid and t.name == f"tt{tid}", f"{key}:target", f"target {tid} gives {t}", short)
            except ValueError:
                chk.expect(not use, f"{key}:lost", f"target {tid} is not found", short)
            for o in tb.observers:
                here = place is not None and place[0]["id"] == o.id and place[0][f"target_{place[1]}"]["active"]
                chk.expect(o.has_target(tid) == here, f"{key}:has", f"has_target({tid}) of {o.name}", short)
                for f in (o.get_target, o.get_target_port):
                    try:
                        f(tid)
                        chk.expect(here, f"{key}:get", f"{f.__name__}({tid}) of {o.name}", short)
                    except KeyError:
                        chk.expect(not here, f"{key}:get-lost", f"{f.__name__}({tid}) of {o.name}", short)
            chk.step()


def two(chk: Check, item):
    capes1, ta1, tb1 = item
    first = observer(1, cape=capes1, target_a=ta1, target_b=tb1)
    ident = list(it.product((602, 601), ("ob2", "ob1"), ("10.8.0.2", "10.8.0.1"), ("0a:00:00:00:0b:02", "0a:00:00:00:0b:01", "0A:00:00:00:0B:01", "0a-00-00-00-0b-01", "0A-00-00-00-0b-01"), ("e2", "e1")))
    if not chk.thorough:
        ident = [i for i in ident if sum(a != b for a, b in zip(i, ident[0])) < 2]
    plugs = list(it.product((None, cape(801), cape(801, True), cape(802)), (None, target(901), target(901, True), target(903)), (None, target(902), target(902, True), target(904), target(901))))
    for (i, n, ip, mac, eth), (c, a, b) in it.product(ident, plugs):
        judge(chk, "two", [first, observer(2, id=i, name=n, ip=ip, mac=mac, eth_port=eth, cape=c, target_a=a, target_b=b)], lookups=i == 602)


FIELDS = {"id": 600, "name": "ob", "ip": "10.8.0.", "mac": None, "eth_port": "e", "cape": None, "target_a": None, "target_b": None, "cross": None}


def apply(obs, f, src, dst):
    o = [dict(x) for x in obs]
    if f == "cross":  # target of one at the other port of the other
        o[dst]["target_b"] = dict(o[src]["target_a"], created="2021-01-01 01:01:01")
    elif f in ("cape", "target_a", "target_b"):
        o[dst][f] = dict(o[src][f], created="2021-01-01 01:01:01")
    elif f == "mac":
        o[dst]["mac"] = o[src]["mac"].upper().replace(":", "-")
    else:
        o[dst][f] = o[src][f]
    return o


def three(chk: Check, item):
    n = item
    obs = [observer(k, target_a=target(900 + 2 * k), target_b=target(901 + 2 * k)) for k in range(n)]
    judge(chk, "many", obs)
    changes = [(f, a, b) for f in FIELDS for a, b in it.permutations(range(n), 2)]
    for c in changes:
        judge(chk, "many", apply(obs, *c))
        for d in changes if chk.thorough or n < 4 else ():
            judge(chk, "many2", apply(apply(obs, *c), *d), lookups=False)
    for c in changes:  # collisions of parts that are out of service
        _, a, b = c
        for oa, ob, ca, cb, ta, tb in it.product((True, False), repeat=6):
            mod = apply(obs, *c)
            for k, (oo, cc, tt) in {a: (oa, ca, ta), b: (ob, cb, tb)}.items():
                mod[k]["active"] = oo
                for part, act in (("cape", cc), ("target_a", tt), ("target_b", tt)):
                    mod[k][part] = dict(mod[k][part], active=act)
            judge(chk, "idle", mod, lookups=False)
        if n < 4:
            mod = apply(obs, *c)
            for pat in it.product((True, False), repeat=n):
                for k, act in enumerate(pat):
                    mod[k]["active"] = act
                judge(chk, "idle", mod, lookups=False)
    for k in range(n):
        bad = [dict(o) for o in obs]
        bad[k]["target_b"] = dict(bad[k]["target_a"])
        judge(chk, "both-ports", bad)
        bad[k]["cape"] = None
        judge(chk, "no-cape", bad)


def flags(chk: Check, item):
    """All activity flags x wirings of up to three observers."""
    wire = item
    n = len(wire)
    for act, cact, tact in it.product(it.product((True, False), repeat=n), it.product((True, False, None), repeat=n), it.product((True, False), repeat=sum(len(w) for w in wire))):
        obs, k = [], 0
        for j, w in enumerate(wire):
            o = observer(j, active=act[j], cape=None if cact[j] is None else cape(800 + j, active=cact[j]))
            for p in w:
                o[f"target_{p}"] = target(900 + k, active=tact[k])
                k += 1
            obs.append(o)
        judge(chk, "flags", obs)


def parts(chk: Check, _):
    from shepherd_core.data_models.testbed import GPIO, MCU, Observer, Target

    def verdict(key, cls, kw, ok):
        with chk.case(key, kw):
            try:
                x = cls(**kw)
                chk.expect(ok, f"{key}:accepted", f"{kw} is accepted", kw)
                chk.ev((key, repr(kw)))
                return x
            except ValueError:
                chk.expect(not ok, f"{key}:rejected", f"{kw} is rejected", kw)
                chk.ev((key, repr(kw)))
            return None

    for rp, pp, rs, ps in it.product((None, "r31_00"), (None, "P8_45"), (None, 0, 26), (None, "P8_14")):
        for name, d in it.product(("GPIO99", "gpio98", "LED_1", "SWDIO"), ("IN", "OUT", "IO", "INOUT")):
            kw = {"id": 5, "name": name, "direction": d, "reg_pru": rp, "pin_pru": pp, "reg_sys": rs, "pin_sys": ps}
            g = verdict("gpio", GPIO, kw, d != "INOUT" and ((rp is not None and pp is not None) or (rs is not None and ps is not None)))
            if g is not None:
                chk.expect(g.user_controllable() == (d in ("OUT", "IO") and "gpio" in name.lower()), "gpio:controllable", f"controllable: {name} {d}", kw)
    for reg in (-1, 0, 5):
        verdict("gpio-reg", GPIO, {"id": 5, "name": "GPIO9", "reg_sys": reg, "pin_sys": "P1"}, reg >= 0)
    m = {"id": 5, "name": "m", "description": "d", "platform": "p", "core": "c", "prog_protocol": "SWD", "fw_name_default": "f"}
    for v, r, p in it.product((1, 1.8, 5, 0.99, 5.01), (1, 1_000_000, 0, 1_000_001), ("SWD", "SBW", "JTAG", "UART", "USB")):
        verdict("mcu", MCU, {**m, "prog_voltage": v, "prog_datarate": r, "prog_protocol": p}, 1 <= v <= 5 and 0 < r <= 1_000_000 and p != "USB")
    hexs = ("0a:0b:0c:0d:0e:0f", "0A-0b-0C-0d-0E-0f", "FF:ff:FF:ff:FF:ff")
    bad = ("0a:0b:0c:0d:0e", "0a:0b:0c:0d:0e:0f:01", "0g:0b:0c:0d:0e:0f", "0a0b0c0d0e0f", "", "a:b:c:d:e:f", "0a:0b:0c:0d:0e:0f:")
    for mac in (*hexs, *bad):
        verdict("mac", Observer, observer(3, mac=mac), mac in hexs)
    for ip, ok in (("10.0.0.1", True), ("::1", True), ("fe80::1", True), ("10.0.0.256", False), ("host", False), ("", False)):
        verdict("ip", Observer, observer(3, ip=ip), ok)
    for lat, lon in it.product((-90, 90, 0, -90.1, 90.1), (-180, 180, 0, -180.1, 180.1)):
        verdict("place", Observer, observer(3, latitude=lat, longitude=lon), abs(lat) <= 90 and abs(lon) <= 180)
    for c, a, b in it.product((None, cape(5)), (None, target(6)), (None, target(7))):
        o = verdict("plug", Observer, observer(3, cape=c, target_a=a, target_b=b), c is not None or (a is None and b is None))
        if o is not None:
            for tid in (6, 7):
                chk.expect(o.has_target(tid) == ((a if tid == 6 else b) is not None), "plug:has", f"has {tid}", (c, a, b))
    # node ids of targets
    base = target(6)
    for tid, given in it.product((0, 1, 65535, 65536, 65537, 131071, 2**64, 2**128 - 1, 2**128, -1, None, "12", "x"), (None, 0, 1, 65535, 65536, -1, "absent")):
        kw = {**base, "id": tid, "testbed_id": given}
        if tid is None:
            kw.pop("id")
        if given == "absent":
            kw.pop("testbed_id")
            given = None
        ok = tid is not None and tid != "x" and 0 <= int(tid) < 2**128 and (given is None or 0 <= given < 65536)
        t = verdict("node-id", Target, kw, ok)
        if t is not None and ok:
            chk.expect(t.id == int(tid) and t.testbed_id == (int(tid) % 65536 if given is None else given), "node-id:value", f"target {tid} has node id {t.testbed_id}", kw)
    for mcu, ok in (({"name": "nRF52"}, True), ("nrf52", True), ("MSP430FR", True), ("nope", False), ({"name": "nope"}, False), ({"id": 99999}, False)):
        verdict("mcu1", Target, {**base, "mcu1": mcu}, ok)
        verdict("mcu2", Target, {**base, "mcu2": mcu}, ok)
    o = observer(1)
    for n in (0, 1, 127, 128, 129):
        obs = [observer(k, id=k, ip=f"10.8.{k // 100}.{k % 100}", mac=f"0a:00:00:00:{k // 100:02}:{k % 100:02}", cape=None) for k in range(n)]
        with chk.case("size", n):
            try:
                make(obs)
                chk.expect(1 <= n <= 128, "size", f"{n} observers are accepted", n)
            except ValueError:
                chk.expect(not 1 <= n <= 128, "size", f"{n} observers are rejected", n)
            chk.ev(("size", n))
    for k, v, ok in (("prep_duration", 0, True), ("prep_duration", -1, False), ("prep_duration", 300, True), ("shared_storage", False, False), ("shared_storage", True, True), ("url", "not a url", False), ("url", "https://a.de", True)):
        with chk.case("settings", (k, v)):
            try:
                make([o], **{k: v})
                chk.expect(ok, "settings", f"{k}={v} is accepted", (k, v))
            except ValueError:
                chk.expect(not ok, "settings", f"{k}={v} is rejected", (k, v))
            chk.ev((k, v))


def shipped(chk: Check, _):
    """Every way to reuse a shipped target or cape by its name in two observers."""
    from shepherd_core.data_models.testbed import Testbed
    from shepherd_core.testbed_client import tb_client
    tb = Testbed()
    wires = {}
    for o in tb.observers:
        for p, t in (("A", o.target_a), ("B", o.target_b)):
            if t is not None:
                wires[t.id] = (o, p, t)
    for tid in tb_client.query_ids("Target"):
        with chk.case("shipped", tid):
            w = wires.get(tid)
            use = w is not None and w[0].active and w[0].cape.active and w[2].active
            try:
                o = tb.get_observer(tid)
                chk.expect(use and o.id == w[0].id and o.get_target_port(tid) == w[1] and o.get_target(tid).id == tid, "shipped:wire", f"target {tid} at {o.name}", tid)
            except ValueError:
                chk.expect(not use, "shipped:lost", f"target {tid} not found", tid)
            chk.ev(("shipped", tid))
    names = tb_client.query_names("Target")
    for n, port, late in it.product(names, ("target_a", "target_b"), (0, 1)):
        with chk.case("shipped-twice", n):
            obs = [observer(k) for k in range(3)]
            obs[0]["target_a"] = {"name": n}
            obs[1 + late][port] = {"name": n}
            try:
                make(obs)
                chk.fail("shipped-twice", f"target {n} can be plugged into two observers", (n, port))
            except ValueError:
                chk.step()
    for n in tb_client.query_names("Cape"):
        with chk.case("shipped-twice-cape", n):
            try:
                make([observer(1, cape={"name": n}), observer(2, cape={"name": n})])
                chk.fail("shipped-twice-cape", f"cape {n} can be plugged into two observers", n)
            except ValueError:
                chk.step()


def run(chk: Check):
    parts(chk, None)
    shipped(chk, None)
    chk.parallel(two, list(it.product((None, cape(801)), (None, target(901)), (None, target(902)))))
    chk.parallel(three, (1, 2, 3, 4))
    w = ((), ("a",), ("b",), ("a", "b"))
    chk.parallel(flags, [x for n in (1, 2) for x in it.product(w, repeat=n)] + ([x for x in it.product(w[:3], repeat=3)] if not chk.thorough else list(it.product(w, repeat=3))))
    chk.sample({"first": {"cape": 801, "target_a": 901}, "second": {"mac": "0A-00-00-00-0b-01"}})
