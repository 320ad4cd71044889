"""C01: names, descriptions, ids and visibility of every model that has them."""
import datetime as dt
import itertools as it
import string
import uuid

from mc import lab
from mc.lib import Check

RULE = ("enumerated: every model x every name / text field x every ASCII character (and for one field of each kind every code point up to U+2FFF, thorough: all of Unicode) at start, middle, end and alone x lengths around the limits x surrounding whitespace; "
        "all combinations of visibility and description; ids at their borders in every form; repeated creation. Oracle: character sets and limits of the documentation. distinct = distinct (model, field, value class, verdict)")
ASSUME = ["control and non-ASCII characters in names are unspecified (the comment says ASCII, the library accepts e.g. umlauts)", "texts longer than 512 characters are refused by the base of all models"]

PRINT = [chr(k) for k in range(32, 127)]
BAD = set('<>:;,?"*|/\\')


def table():
    from shepherd_core import data_models as dm
    from shepherd_core.data_models import content as c
    from shepherd_core.data_models import task as tk
    from shepherd_core.data_models import testbed as tb
    from shepherd_core.data_models.experiment import Experiment
    from shepherd_core.data_models.experiment import TargetConfig
    from shepherd_core.testbed_client.user_model import User
    mcu = {"id": 4, "name": "chip", "description": "d", "platform": "p", "core": "c", "prog_protocol": "SWD", "fw_name_default": "f"}
    cape = {"id": 5, "name": "cape", "version": "1", "description": "d"}
    target = {"id": 6, "name": "tgt", "version": "1", "description": "d", "mcu1": mcu}
    obs = {"id": 7, "name": "obs", "description": "d", "ip": "127.0.0.1", "mac": "00:11:22:33:44:55", "room": "r", "eth_port": "e1", "cape": cape, "target_a": target}
    env = {"name": "env", "data_path": "/tmp/x.h5", "data_type": "ivsample", "duration": 1, "energy_Ws": 1}
    fw = {"name": "fw", "mcu": mcu, "data": "/tmp/x.elf", "data_type": "path_elf", "data_local": False}
    xp = {"name": "xp", "target_configs": [TargetConfig(target_IDs=[41], energy_env={"name": "SolarSunny"}, firmware1={"name": "nrf52_demo_rf"})]}
    tbd = {"id": 1, "name": "tb", "description": "d", "observers": [obs], "data_on_server": "/a", "data_on_observer": "/b"}
    usr = {"name": "joe", "group": "lab", "email": "a@example.org"}
    own = ("owner", "group")
    # model, values, name fields, text fields, kind of id, has own __str__, content
    return {
        "MCU": (tb.MCU, mcu, ("name", "platform", "core"), ("description", "comment"), "int", True, False),
        "Cape": (tb.Cape, cape, ("name", "version"), ("description", "comment"), "int", True, False),
        "GPIO": (tb.GPIO, {"id": 3, "name": "gpio", "direction": "IO", "dir_switch": None, "reg_pru": "r31_00", "pin_pru": "P8_45"}, ("name",), ("description", "comment"), "int", True, False),
        "Target": (tb.Target, target, ("name", "version"), ("description", "comment"), "int", True, False),
        "Observer": (tb.Observer, obs, ("name", "room", "eth_port"), ("description", "comment"), "int", True, False),
        "Testbed": (tb.Testbed, tbd, ("name",), ("description", "comment"), "int", False, False),
        "EnergyEnvironment": (c.EnergyEnvironment, env, ("name", *own), ("description", "comment"), "any", True, True),
        "Firmware": (c.Firmware, fw, ("name", *own), ("description", "comment"), "any", True, True),
        "VirtualHarvesterConfig": (c.VirtualHarvesterConfig, {"name": "hrv", "algorithm": "mppt_voc"}, ("name", *own), ("description", "comment"), "any", True, True),
        "VirtualSourceConfig": (c.VirtualSourceConfig, {"name": "src", "C_intermediate_uF": 0}, ("name", *own), ("description", "comment"), "any", True, True),
        "Experiment": (Experiment, xp, ("name",), ("description", "comment"), "any", False, False),
        "User": (User, usr, ("name", "name_full", "group"), ("description", "comment"), "any", False, False),
        "ProgrammingTask": (tk.ProgrammingTask, {"firmware_file": "/tmp/a.hex", "mcu_type": "nrf52", "protocol": "SWD"}, (), ("mcu_type",), None, False, False),
        "Wrapper": (dm.Wrapper, {"datatype": "X", "parameters": {}}, (), ("comment",), None, False, False),
    }


def make(cls, base, **kw):
    """(instance | None, error)."""
    try:
        return cls(**{**base, **kw}), None
    except ValueError as e:
        return None, e
    except TypeError as e:
        return None, f"{type(e).__name__} {e}"


def allowed(kind, text):
    """True / False / None (unspecified)."""
    t = text.strip() if kind != "raw" else text
    if kind == "name":
        if not t or len(t) > 32 or set(t) & BAD:
            return False
        return True if set(t) <= set(PRINT) else None
    if not t:
        return False
    if not set(t) <= set(PRINT):
        return False
    return len(t) <= 512


def verdict(chk, name, spec, field, kind, text):
    cls, base = spec[0], spec[1]
    rep = {"model": name, "field": field, "value": text}
    with chk.case("text", rep):
        want = allowed(kind, text)
        got, err = make(cls, base, **{field: text})
        chk.step()
        chk.expect(not isinstance(err, str), f"{kind}:error", f"{name}.{field} = {text!r}: {err}", rep)
        if want is not None:
            chk.expect((got is not None) == want, f"{kind}:{'refused' if want else 'accepted'}", f"{name}.{field} = {text!r} is {'accepted' if got is not None else 'refused'}", rep)
        if got is not None:
            chk.expect(getattr(got, field) == text.strip(), f"{kind}:value", f"{name}.{field} = {text!r} became {getattr(got, field)!r}", rep)
        chk.ev((name, field, kind, text if len(text) < 6 else len(text), got is not None))


def texts(chk: Check, item):
    name, field, kind, part = item
    spec = table()[name]
    samples = []
    for k in range(part, 128, 4):
        ch = chr(k)
        if ch.isspace() and ch != " ":
            continue  # stripped or not, depending on place
        samples += [ch, ch + "ab", "a" + ch + "b", "ab" + ch] if ch != " " else ["a b", " ab", "ab ", "  a  b "]
    if part == 0:
        limit = 32 if kind == "name" else 512
        samples += ["", " ", "\t\n ", *("x" * k for k in (1, 2, 31, 32, 33, 34, 64, 100, 511, 512, 513, 600)), " " + "y" * limit + "  ", " " * 600, "a" * (limit - 1) + " b", string.ascii_letters[:26], "..", ".", "a/../b", "a\nb"]
        samples = [s for s in samples if "\n" not in s or kind == "text" or not s.strip()]
    for s in samples:
        if name == "Wrapper" and (s != s.strip() or len(s) > 500 or not s):
            continue  # no limits, no stripping
        if name == "VirtualSourceConfig" and field == "name" and s.strip().lower() in ("neutral", "bq25504"):
            continue
        verdict(chk, name, spec, field, kind, s)
    chk.trace()


def points(chk: Check, item):
    """Every code point in one field of each kind."""
    lo, hi = item
    t = table()
    for k in range(lo, hi):
        ch = chr(k)
        if 0xD800 <= k < 0xE000 or ch.isspace():
            continue
        verdict(chk, "MCU", t["MCU"], "comment", "text", "a" + ch + "b")
        if k < 128:
            verdict(chk, "MCU", t["MCU"], "core", "name", "a" + ch + "b")


def visible(chk: Check, name):
    cls, base, names, _, idk, has_str, content = table()[name]
    for g, a, d in it.product((None, False, True), (None, False, True), (None, "text", "")):
        if not content:
            break
        kw = {k: v for k, v in (("visible2group", g), ("visible2all", a), ("description", d)) if v is not None}
        rep = {"model": name, **kw}
        with chk.case("visible", rep):
            want = d != "" and not ((g or a) and d is None)
            got, err = make(cls, base, **kw)
            chk.expect((got is not None) == want, "visible:verdict", f"{kw} of {name} is {'refused' if want else 'accepted'}: {err}", rep)
            if got is not None:
                chk.expect((got.visible2group, got.visible2all, got.description) == (bool(g), bool(a), d), "visible:values", f"{name} {kw} became {got.visible2group} {got.visible2all} {got.description}", rep)
            chk.step()
            chk.ev((name, g, a, d))
    with chk.case("identity", name):
        x = cls(**base)
        if has_str:
            chk.expect(str(x) == base["name"], "str", f"text of {name} is {x!s}", name)
        if content:
            chk.expect((x.owner, x.group) == ("unknown", "unknown"), "owner:default", f"{x.owner} {x.group}", name)
            for o, g in it.product((None, "me"), (None, "us")):
                y = cls(**base, **{k: v for k, v in (("owner", o), ("group", g)) if v})
                chk.expect((y.owner, y.group) == (o or "unknown", g or "unknown"), "owner:given", f"{o} {g} became {y.owner} {y.group}", name)
                chk.ev((name, "owner", o, g))
        b = {k: v for k, v in base.items() if k != "id"}
        if idk == "any":
            t0 = dt.datetime.now()
            many = [cls(**b) for _ in range(20)]
            t1 = dt.datetime.now()
            chk.expect(len({str(m.id) for m in many}) == 20, "id:unique", f"{name} repeats its id", name)
            for stamp in ("created", "updated_last"):
                if stamp in cls.model_fields:
                    chk.expect(all(t0 <= m[stamp].replace(tzinfo=None) <= t1 for m in many), "id:created", f"{stamp} of {name} is not the moment of creation", name)
            u = uuid.uuid4()
            for val, want in ((0, 0), (5, 5), (2**128 - 1, 2**128 - 1), (u, u), (str(u), u), (u.hex, u)):
                if val in (0, 5) and name in ("VirtualHarvesterConfig", "VirtualSourceConfig", "Firmware", "EnergyEnvironment"):
                    val = want = 900_000_000 + val  # small ones are shipped definitions
                y, err = make(cls, b, id=val)
                chk.expect(y is not None and y.id == want, "id:given", f"id {val!r} of {name}: {y.id if y else err}", name)
                chk.step()
                chk.ev((name, "id", repr(type(val)), val == want))
            for val in ("nope", 1.5, [], uuid.uuid1(), "x" * 36):
                chk.expect(make(cls, b, id=val)[0] is None, "id:form", f"id {val!r} of {name} is accepted", name)
        elif idk == "int":
            known = {"MCU", "Cape", "GPIO", "Target", "Observer", "Testbed"}
            assert name in known
            for val, ok in ((0, True), (987_654, True), (2**64, True), (2**128 - 1, True), (2**128, False), (-1, False), (1.5, False), ("x", False), (None, False)):
                y, err = make(cls, b, id=val)
                chk.expect((y is not None) == ok and (not ok or y.id == val), "id:range", f"id {val!r} of {name}: {err}", name)
                chk.step()
                chk.ev((name, "id", repr(val)))
            chk.expect(make(cls, b)[0] is None, "id:missing", f"{name} without id is accepted", name)
        for n in names:
            if n in ("owner", "group", "name_full") and name != "User" or n == "name_full":
                continue
            c = {k: v for k, v in base.items() if k not in (n, "id", "inherit_from")}
            y, err = make(cls, {**c, **({"id": 912_345} if idk == "int" else {})})
            chk.expect(y is None, "name:missing", f"{name} without {n} is accepted", name)
            chk.ev((name, "missing", n))
    chk.trace()


def secrets(chk: Check, _):
    """Tokens and passwords: unique, never shown."""
    from shepherd_core.testbed_client.user_model import User
    from shepherd_core.testbed_client.user_model import hash_password
    base = table()["User"][1]
    with chk.case("token", None):
        us = [User(**base) for _ in range(50)]
        tok = [u.token.get_secret_value() for u in us]
        chk.expect(len(set(tok)) == 50 and all(len(t) >= 100 and t.startswith("shepherd_token_") for t in tok), "token:generated", f"{tok[0]}", None)
        for given in ("abc", "shepherd_token_1", "x" * 500):
            for pw in (None, b"secret-hash"):
                u = User(**base, token=given, **({"pw_hash": pw} if pw else {}))
                chk.expect(u.token.get_secret_value() == given, "token:given", f"token {given} is replaced", given)
                shown = [repr(u), repr(u.model_dump()), u.model_dump_json(), repr(u.model_dump(mode="json")), repr(list(u.items())), f"{u.token} {u.pw_hash}"]
                chk.expect(not any((given in s and given != "shepherd_token_1") or "secret-hash" in s or "shepherd_token_1" in s for s in shown), "token:shown", "secret is visible", given)
                chk.step(len(shown))
                chk.ev(("token", len(given), pw))
        chk.expect(not any(t in repr(u) or t in u.model_dump_json() for t, u in zip(tok, us)), "token:shown", "generated token is visible", None)
        chk.expect(all(make(User, base, email=e)[0] is None for e in ("", "a", "a@", "@b.org", "a b@c.org")), "email", "wrong address is accepted", None)
    with chk.case("password", None):
        for n in (0, 1, 19, 101, 102):
            try:
                hash_password("p" * n)
                chk.fail("password:length", f"password with {n} characters is accepted", n)
            except ValueError:
                chk.ev(("pw", n))
        got = {p: hash_password(p) for p in ("p" * 20, "p" * 19 + "q", "q" + "p" * 19, "P" * 20, *(("p" * 21, "p" * 100, "\u00e4" * 20) if chk.thorough else ()))}
        chk.expect(len(set(got.values())) == len(got) and all(len(v) == 128 for v in got.values()), "password:distinct", "hashes collide", None)
        chk.expect(hash_password("p" * 20) == got["p" * 20], "password:repeat", "hash is not repeatable", None)
        chk.expect(not any(k.encode() in v for k, v in got.items()), "password:clear", "password is contained", None)
        chk.step(len(got))
    # the slow derivation is shortened, so that every position can be tried
    import hashlib

    from shepherd_core.testbed_client import user_model
    real, calls = hashlib.pbkdf2_hmac, []

    def short(hash_name, password, salt, iterations, dklen=None):
        calls.append(iterations)
        return real(hash_name, password, salt, 2, dklen)

    places = [(m, k) for m in (hashlib, user_model) for k, v in vars(m).items() if v is real]
    for m, k in places:
        setattr(m, k, short)
    try:
        with chk.case("password-each", None):
            hash_password("p" * 20)
            if calls:
                got = {}
                for n in range(20, 101):
                    one = "".join(chr(33 + (7 * k + n) % 90) for k in range(n))
                    words = [one, *(one[:k] + c + one[k + 1:] for k in range(n) for c in ("~", chr(ord(one[k]) ^ 32 | 1 if one[k].isalpha() else 0x7B), "\u00e9", " "))]
                    for w in words:
                        h = hash_password(w)
                        chk.expect(got.setdefault(h, w) == w, "password:same-hash", "two passwords have one hash", [w, got[h]])
                        chk.expect(len(h) == 128, "password:size", f"hash with {len(h)} byte", w)
                        chk.step()
                    chk.ev(("pw-each", n))
                chk.expect(hash_password("q" * 20) != hash_password("q" * 21), "password:longer", "two passwords have one hash", None)
                chk.expect(len(set(calls)) == 1, "password:effort", f"effort depends on password: {set(calls)}", None)
    finally:
        for m, k in places:
            setattr(m, k, real)
    chk.trace()


def run(chk: Check) -> None:
    lab.setup()
    t = table()
    items = [(n, f, kind, p) for n, s in t.items() for kind, fs in (("name", s[2]), ("text", s[3])) for f in fs for p in range(4)]
    chk.sample(items[0])
    chk.parallel(texts, items)
    chk.parallel(visible, list(t)[:12])
    top = 0x110000 if chk.thorough else 0x3000
    chk.parallel(points, [(k, min(top, k + 0x400)) for k in range(0, top, 0x400)])
    secrets(chk, None)
