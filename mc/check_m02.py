"""M02: every inheritance graph over up to n definitions resolved by the real database and by a reference resolver."""
import copy
import itertools as it

import yaml

from mc.lib import Check

RULE = ("enumerated: every parent assignment (none, each definition, unknown) over the definitions x which fields each sets x insertion orders x entry points "
        "(name in any case, id, name plus own values, inline with and without name, unknown) ; every resolution is repeated. Oracle: chain-walking resolver over plain dicts. "
        "distinct = distinct (entry, resolved values / error)")
ASSUME = ["names and ids within a type are unique", "a definition inherits at most from one parent (as in the file format)"]

NAMES = ("Alpha", "beta", "GAMMA", "delta 4")
IDS = (0, 4, 10, 2000)
FIELDS = ("f1", "f2", "f3")
# which fields a definition sets: several patterns, so that shadowing of each distance occurs
PATTERNS = (
    (("f1",), ("f2",), ("f3",), ("f1", "f2", "f3")),
    (("f1", "f2"), ("f2", "f3"), ("f1", "f3"), ()),
    ((), ("f1",), ("f1", "f2"), ("f1", "f2", "f3")),
)


class Err(Exception):
    pass


def resolve(defs, entry, seen=()):
    """Values by the rule: own values over those of the parent."""
    values = dict(entry)
    parent = values.pop("inherit_from", None)
    if parent is None:
        return values
    key = parent.lower()
    if key in seen or key not in defs:
        raise Err
    base = resolve(defs, defs[key], (*seen, key))
    return {**base, **values}


def expected(defs, ids, entry):
    """Reference for all entry points."""
    if set(entry) == {"id"}:
        if entry["id"] not in ids:
            raise Err
        entry = ids[entry["id"]]
        return resolve(defs, entry, (entry["name"].lower(),))
    name = str(entry.get("name", "")).lower()
    if "inherit_from" in entry:
        return resolve(defs, entry, (name,) if name else ())
    if name in defs:
        return {**resolve(defs, defs[name], (name,)), **entry}
    if set(entry) == {"name"}:
        raise Err
    if entry.get("id") in ids:
        d = ids[entry["id"]]
        return {**resolve(defs, d, (d["name"].lower(),)), **entry}
    return dict(entry)


def norm(values):
    return {k: (str(v).lower() if k == "name" else v) for k, v in values.items() if k != "name" or v is not None}


def build(parents, pattern):
    defs = []
    for i, par in enumerate(parents):
        d = {"id": IDS[i], "name": NAMES[i], **{f: [f"{NAMES[i]}.{f}"] for f in PATTERNS[pattern][i]}}
        if par is not None:
            d["inherit_from"] = {"lower": str.lower, "upper": str.upper}[("lower", "upper")[i % 2]](NAMES[par]) if par >= 0 else "missing"
        defs.append(d)
    return defs


def entries(n):
    for i in range(n):
        yield {"name": NAMES[i]}
        yield {"name": NAMES[i].swapcase()}
        yield {"id": IDS[i]}
        yield {"name": NAMES[i].upper(), "f2": "mine", "extra": 1}
        yield {"id": IDS[i], "f3": None}
        yield {"inherit_from": NAMES[i].lower(), "f1": "own"}
        yield {"name": "inline", "id": 7, "inherit_from": NAMES[i], "f2": ["own"]}
    yield {"name": "inline", "f1": 1}
    yield {"name": "unknown"}
    yield {"id": 999}
    yield {"name": "inline", "inherit_from": "missing"}
    yield {"name": "inline", "inherit_from": "INLINE"}


def ask(client, entry):
    try:
        return client.try_completing_model("thing", entry)
    except ValueError:
        return None


def lookup(chk: Check, db, client, defs, rep):
    """Every way to look up a stored definition gives it, for every spelling of name and id."""
    fix = db["thing"]
    names = {x["name"].lower(): x for x in defs}
    idx = {x["id"]: x for x in defs}
    for x in defs:
        nm = x["name"]
        keys = [nm, nm.lower(), nm.upper(), nm.title(), x["id"], *((str(x["id"]),) if str(x["id"]) not in names else ())]
        for k in keys:
            try:
                got = [fix[k], db["THING"][k], client.query_item("Thing", name=k) if isinstance(k, str) and k.lower() in names else client.query_item("thing", uid=int(k))]
            except ValueError as e:
                got = [repr(e)]
            chk.expect(all(g == x for g in got), "lookup:item", f"lookup of {k!r} gives {got}", rep)
    for k in ("nope", "", "-1", "1e3", 987654, -1, "987654", None):
        if k in idx or (isinstance(k, str) and k in names):
            continue
        try:
            chk.fail("lookup:unknown", f"lookup of {k!r} gives {fix[k]}", rep)
        except ValueError:
            pass
    chk.expect(list(fix.keys()) == client.query_names("Thing") and sorted(fix.keys()) == sorted(names), "lookup:names", f"names {list(fix.keys())}", rep)
    chk.expect(sorted(client.query_ids("THING")) == sorted(idx), "lookup:ids", f"ids {client.query_ids('Thing')}", rep)
    chk.expect(fix.refs() == {x["id"]: x["name"] for x in defs}, "lookup:refs", f"{fix.refs()}", rep)
    for _ in range(2):
        chk.expect([e["id"] for e in fix] == [names[n]["id"] for n in fix.keys()], "lookup:iter", "iteration skips elements", rep)  # noqa: SIM118
    chk.step()


def graph(chk: Check, item):
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client.client_abc_fix import FixturesClient
    from shepherd_core.testbed_client.fixtures import Fixtures
    parents_list, n, workdir = item
    first = None
    with chk.tmp() as d:
        for parents in parents_list:
            for pattern in range(len(PATTERNS)):
                defs = build(parents, pattern)
                by_name = {x["name"].lower(): x for x in defs}
                by_id = {x["id"]: x for x in defs}
                orders = list(it.permutations(range(n))) if n < 4 or chk.thorough else [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)]
                for k, order in enumerate(orders):
                    rep = {"definitions": defs, "order": order}
                    with chk.case("graph", rep):
                        if first is None:  # loader once per worker, then definitions are inserted directly
                            f = d / "things.yaml"
                            f.write_text(yaml.safe_dump([{"datatype": "Thing", "parameters": defs[i]} for i in order]))
                            first = Fixtures(file_path=f)
                            db = first
                        else:
                            db = copy.copy(first)
                            db.components = {}
                            for i in order:
                                db.insert_model(Wrapper(datatype="Thing", parameters=copy.deepcopy(defs[i])))
                        client = FixturesClient.__new__(FixturesClient)
                        client._fixtures = db  # noqa: SLF001
                        stored = copy.deepcopy([db["thing"].query_name(x["name"]) for x in defs])
                        for entry in entries(n):
                            erep = {**rep, "entry": entry}
                            try:
                                exp = expected(by_name, by_id, entry)
                            except Err:
                                exp = None
                            given = copy.deepcopy(entry)
                            try:
                                got = [ask(client, entry), ask(client, entry)]
                            except RecursionError:
                                chk.fail("graph:recursion", f"endless recursion for {entry} on parents {parents}", erep)
                                continue
                            chk.step(2)
                            vals = [None if g is None else norm(g[0]) for g in got]
                            want = None if exp is None else norm(exp)
                            if want is not None and "name" not in want and vals[0]:
                                vals = [{k2: v for k2, v in x.items() if k2 != "name"} for x in vals]
                            chk.expect(vals[0] == want, "graph:values", f"{entry} gives {vals[0]} instead of {want}", erep)
                            chk.expect(vals[0] == vals[1], "graph:repeat", f"second lookup of {entry} gives {vals[1]} after {vals[0]}", erep)
                            chk.expect(entry == given, "graph:input", f"request {given} was changed to {entry}", erep)
                            chk.ev((repr(sorted(entry.items(), key=str)), repr(want)))
                        now = [db["thing"].query_name(x["name"]) for x in defs]
                        chk.expect(now == stored and [db["thing"].query_id(x["id"]) for x in defs] == stored, "graph:stored", "stored definitions were changed by lookups", rep)
                        chk.expect(stored == defs, "graph:insert", "stored definitions differ from the inserted ones", rep)
                        lookup(chk, db, client, defs, rep)
                        chk.state((parents, pattern, order))
                        chk.trace()
    chk.sample({"parents": parents_list[0], "n": n})


def run(chk: Check):
    items = []
    for n in (1, 2, 3, 4):
        allp = list(it.product([None, -1, *range(n)], repeat=n))
        items += [(allp[i::16], n, None) for i in range(16) if allp[i::16]]
    items.reverse()
    chk.parallel(graph, items)
