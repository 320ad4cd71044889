"""M03: the whole shipped definition set, every lookup way, every pairwise file order."""
import collections
import datetime as dt
import itertools as it
import pathlib

import yaml

from mc.lib import Check

RULE = ("enumerated: every entry of every shipped definition file (raw yaml read by the harness); for each: instance by name (as written, upper, lower case), by id, and rebuilt from its own full content; "
        "both loading orders of every pair of definition files. Oracle: reference resolver over the raw yaml (own values over ancestors'), uniqueness of name and id per type, equal instances. "
        "distinct = distinct resolved contents")
ASSUME = ["the harvester-definition 'neutral' is an abstract ancestor and deliberately refuses to be instantiated",
          "nested definitions (cape of an observer etc.) are compared by the fields the yaml names"]

ABSTRACT = {("virtualharvesterconfig", "neutral")}


def resolve(defs, name):
    d = dict(defs[name.lower()])
    par = d.pop("inherit_from", None)
    return {**(resolve(defs, par) if par is not None else {}), **d}


def models():
    from shepherd_core.data_models import ShpModel
    import shepherd_core.data_models.content, shepherd_core.data_models.testbed, shepherd_core.data_models.experiment  # noqa: F401, E401
    todo, out = [ShpModel], {}
    while todo:
        for c in todo.pop().__subclasses__():
            out[c.__name__.lower()] = c
            todo.append(c)
    return out


def close(a, b, v_yaml):
    """Is dumped value b what the yaml says?"""
    if isinstance(v_yaml, dict):
        if not isinstance(b, dict):
            return False
        return all(close(None, b.get(k), v) for k, v in v_yaml.items() if k != "inherit_from")
    if isinstance(v_yaml, list):
        return isinstance(b, (list, tuple)) and len(b) == len(v_yaml) and all(close(None, y, x) for x, y in zip(v_yaml, b))
    if isinstance(b, dt.datetime) and isinstance(v_yaml, dt.date) and not isinstance(v_yaml, dt.datetime):
        return b.date() == v_yaml
    if isinstance(b, dt.timedelta):
        return b.total_seconds() == v_yaml
    if isinstance(v_yaml, str) and isinstance(b, str) and hasattr(b, "lower"):
        return b == v_yaml.strip() or b.lower() == v_yaml.lower()
    if isinstance(v_yaml, str):
        return str(b).rstrip("/").lower() == v_yaml.rstrip("/").lower()
    return b == v_yaml


def run(chk: Check):
    import shepherd_core
    root = pathlib.Path(shepherd_core.__file__).parent / "data_models"
    from shepherd_core.testbed_client import tb_client
    from shepherd_core.testbed_client.fixtures import Fixtures
    files = sorted(root.glob("**/*.yaml"))
    raw = collections.defaultdict(list)
    per_file = {}
    for f in files:
        content = [e for e in yaml.safe_load(f.read_text()) if isinstance(e, dict)]
        per_file[f] = content
        for e in content:
            raw[e["datatype"].lower()].append((f.name, e["parameters"]))
    chk.expect(sum(map(len, raw.values())) > 100, "set", "definitions are missing", {t: len(v) for t, v in raw.items()})
    cls = models()
    for typ, entries in raw.items():
        names = collections.Counter(str(p["name"]).lower() for _, p in entries)
        ids = collections.Counter(p["id"] for _, p in entries)
        chk.step()
        for n, c in names.items():
            chk.expect(c == 1, f"dup-name:{typ}:{n}", f"{typ} name {n} is defined {c} times")
        for i, c in ids.items():
            chk.expect(c == 1, f"dup-id:{typ}:{i}", f"{typ} id {i} is defined {c} times")
        chk.expect({str(n).lower() for n in tb_client.query_names(typ)} == set(names), f"listed-names:{typ}", "names known to the client differ from the shipped ones", typ)
        chk.expect(set(tb_client.query_ids(typ)) == set(ids), f"listed-ids:{typ}", "ids known to the client differ from the shipped ones", typ)
        chk.expect(typ in cls, f"type:{typ}", "no model of this type", typ)
    for typ, entries in raw.items():
        if typ not in cls:
            continue
        defs = {str(p["name"]).lower(): p for _, p in entries}
        model = cls[typ]
        for fname, p in entries:
            name, uid = str(p["name"]), p["id"]
            rep = {"file": fname, "type": typ, "name": name, "id": uid}
            key = f"{typ}:{name}"
            if (typ, name) in ABSTRACT:
                for kw in ({"name": name}, {"name": name.upper()}, {"id": uid}):
                    try:
                        model(**kw)
                        chk.fail(f"{key}:abstract", f"abstract definition was instantiated with {kw}", rep)
                    except ValueError:
                        chk.step()
                continue
            with chk.case(key, rep):
                par = p.get("inherit_from")
                if par is not None and not chk.expect(str(par).lower() in defs, f"{key}:parent", f"unknown parent {par}", rep):
                    continue
                inst = [model(name=name), model(id=uid), model(name=name.lower()), model(name=name.upper())]
                chk.step(4)
                dumps = [m.model_dump() for m in inst]
                chk.expect(inst[0] == inst[1] and dumps[0] == dumps[1] and inst[0].get_hash() == inst[1].get_hash(), f"{key}:lookup",
                           lambda: f"by name and by id differ: { {k: (v, dumps[1][k]) for k, v in dumps[0].items() if v != dumps[1][k]} }", rep)
                for m in inst[2:]:
                    chk.expect({k: v for k, v in m.model_dump().items() if k != "name"} == {k: v for k, v in dumps[0].items() if k != "name"}, f"{key}:case", "lookup depends on upper or lower case", rep)
                d = dumps[0]
                chk.expect(d["id"] == uid and d["name"].lower() == name.lower(), f"{key}:identity", f"definition {name} ({uid}) gives {d['name']} ({d['id']})", rep)
                for k, v in resolve(defs, name).items():
                    if not (k == "description" and v is None):
                        chk.expect(k in d and close(None, d[k], v), f"{key}:value:{k}", f"{k} = {d.get(k)!r} instead of {v!r}", rep)
                again = model(**d)
                chk.step()
                chk.expect(again == inst[0] and again.model_dump() == d, f"{key}:again", lambda: f"rebuilding changes values: { {k: (v, again.model_dump()[k]) for k, v in d.items() if v != again.model_dump()[k]} }", rep)
                chk.ev((typ, repr(d)))
                chk.state((typ, name))
                chk.trace()
    # references from mcu to its default firmware (by name), from the testbed to its parts
    fws = {str(p["name"]).lower() for _, p in raw["firmware"]}
    for _, p in raw["mcu"]:
        chk.expect(str(p["fw_name_default"]).lower() in fws, f"mcu-firmware:{p['name']}", f"default firmware {p['fw_name_default']} is not defined", p)
        with chk.case("mcu-firmware", p):
            fw = cls["firmware"](name=p["fw_name_default"])
            chk.expect(fw.mcu.name.lower() == str(p["name"]).lower(), f"mcu-firmware:{p['name']}", f"default firmware of {p['name']} is for {fw.mcu.name}", p)
        chk.step()
    for typ, field in (("target", "testbed_id"), ):
        seen = {}
        for _, p in raw[typ]:
            d = cls[typ](name=p["name"])
            if d.active:
                chk.expect(d[field] not in seen, f"{typ}:{field}:{d[field]}", f"active targets {d.name} and {seen.get(d[field])} share {field}", p)
                seen[d[field]] = d.name
            chk.step()

    # order of files: every ordered pair, and the reversed whole
    cache = {}
    orig = yaml.safe_load

    def content(order):
        db = Fixtures(file_path=order[0], reset=True)
        for f in order[1:]:
            db.insert_file(f)
        return {t: (dict(db[t].elements_by_name), dict(db[t].elements_by_id)) for t in db.keys()}

    def memo(fd):
        key = getattr(fd, "name", None)
        if key not in cache:
            cache[key] = orig(fd)
        import copy
        return copy.deepcopy(cache[key])

    yaml.safe_load = memo
    try:
        for a, b in it.combinations(files, 2):
            with chk.case("order", [a.name, b.name]):
                chk.expect(content([a, b]) == content([b, a]), f"order:{a.name}:{b.name}", "content depends on the order of these files", [a.name, b.name])
                chk.step(2)
                chk.ev((a.name, b.name))
        with chk.case("order", "all"):
            chk.expect(content(files) == content(files[::-1]), "order:all", "content depends on the order of files", None)
    finally:
        yaml.safe_load = orig
    chk.sample({"types": {t: len(v) for t, v in raw.items()}})
