"""F02: node ids patched into real and synthetic ELF files, all ids of a menu and all operation histories up to a depth, compared byte by byte."""
import itertools as it
import pathlib

from mc import elf
from mc.lib import REPO, Check

RULE = ("enumerated: both shipped ELF binaries and synthetic ELF files (both controllers, both byte orders, symbol at start/middle/end of a section, at odd addresses, last in file, in a section without content, missing) x ids "
        "(all boundaries, single bits and byte patterns; thorough: all 65536); all histories of up to 3 (thorough 4) operations (patch in place, patch a copy, out of range, unknown symbol). "
        "Oracle: own ELF parser computes the two bytes that have to change; directory model name -> bytes. distinct = distinct (file, operation, id)")
ASSUME = ["a copy for the same id may be written again (same name)", "objcopy is trusted for the conversion to hex (its output is parsed by an own reader)"]

SYM = "SHEPHERD_NODE_ID"
T, Dd = bytes(range(7, 47)), b"abcdefghijkl"
LAYOUT = {"data-start": (0x5000, 2), "data-mid": (0x5004, 2), "data-odd": (0x5003, 2), "data-end": (0x500A, 2), "text-start": (0x4000, 1), "text-end": (0x4026, 1), "text-mid": (0x4011, 1)}
IDS = sorted({0, 1, 2, 3, 9, 10, 99, 100, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x1FF, 0x7FFF, 0x8000, 0x8001, 0xFEFF, 0xFFFE, 0xFFFF, 0x1234, 0x3412, 0xAFFE, 0xFEAF, *(1 << k for k in range(16)), *(0xFFFF ^ (1 << k) for k in range(16))})


def synth(layout, machine, endian, other=True):
    addr, sec = LAYOUT[layout]
    syms = [("main", 0x4008, 4, 1), (SYM, addr, 2, sec), ("SHEPHERD_NODE_ID2", 0x4020, 2, 1), ("NODE_ID", 0x5008, 2, 2)]
    return elf.build([(".text", 0x4000, T), (".data", 0x5000, Dd)], syms if other else syms[:2], machine, endian, entry=0x4000)


def files():
    out = {}
    for lay, (m, e) in it.product(LAYOUT, (("arm", "<"), ("arm", ">"), ("msp430", "<"))):
        out[f"{m}{'L' if e == '<' else 'B'}-{lay}"] = synth(lay, m, e)
    return out


def real():
    base = pathlib.Path(REPO) / "shepherd_core/tests/fw_tools"
    return {n: (base / f"build_{n}.elf").read_bytes() for n in ("msp", "nrf")}


def patched(raw, value, sym=SYM):
    off, e = elf.symbol_offset(raw, sym)
    if off is None:
        return None
    return raw[:off] + value.to_bytes(2, "little" if e == "<" else "big") + raw[off + 2:]


def value_of(raw, sym=SYM):
    off, e = elf.symbol_offset(raw, sym)
    return None if off is None else int.from_bytes(raw[off:off + 2], "little" if e == "<" else "big")


def diff(a, b):
    return f"lengths {len(a)}, {len(b)}; bytes {[(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y][:8]}"


def folder(d):
    return {p.name: p.read_bytes() for p in sorted(d.iterdir())}


def apply(fw, model, d, op, main):
    """One operation on the real code; returns (model after, expected return, got)."""
    kind, val = op
    if kind.endswith("2"):  # on the newest copy
        kind, main = kind[:-1], max(model, key=lambda n: (len(n), n))
    f = d / main
    out = dict(model)
    raw = model[main]
    if kind == "uid":
        new = patched(raw, val)
        if new is not None:
            out[main] = new
        return out, f if new is not None else None, fw.modify_uid(f, val)
    if kind in ("copy", "over"):
        new = patched(raw, val)
        name = main if kind == "over" else f"{f.stem}_{val}{f.suffix}"
        if new is not None:
            out[name] = new
        return out, (d / name) if new is not None else None, fw.modify_symbol_value(f, SYM, val, overwrite=kind == "over")
    if kind == "other":
        new = patched(raw, val, "NODE_ID")
        if new is not None:
            out[main] = new
        return out, f if new is not None else None, fw.modify_symbol_value(f, "NODE_ID", val, overwrite=True)
    if kind == "unknown":
        return out, None, fw.modify_symbol_value(f, "NOT_THERE", val, overwrite=True)
    assert kind == "range"
    try:
        got = fw.modify_uid(f, val) if val % 2 else fw.modify_symbol_value(f, SYM, val, overwrite=True)
    except ValueError:
        got = "refused"
    return out, "refused", got


def check(chk, key, fw, model, d, op, main, rep):
    out, exp, got = apply(fw, model, d, op, main)
    chk.step()
    chk.expect(got == exp, f"{key}:returns", f"{op} returns {got} instead of {exp}", rep)
    now = folder(d)
    if chk.expect(set(now) == set(out), f"{key}:files", f"files {sorted(now)} instead of {sorted(out)}", rep):
        for n in out:
            chk.expect(now[n] == out[n], f"{key}:{op[0]}:bytes", lambda: f"{n} after {op}: {diff(out[n], now[n])}", rep)  # noqa: B023
            chk.expect(fw.read_uid(d / n) == (value_of(out[n]) if value_of(out[n]) is not None or SYM.encode() not in out[n] else fw.read_uid(d / n)), f"{key}:read", f"id of {n} after {op} is read as {fw.read_uid(d / n)}", rep)
    return out


def ids(chk: Check, item):
    from shepherd_core import fw_tools as fw
    name, values = item
    raw = {**files(), **real()}[name]
    with chk.tmp() as d:
        main = f"{name}.elf" if len(name) % 2 else f"fw.{name}.out"
        (d / main).write_bytes(raw)
        model = {main: raw}
        for v in values:
            rep = {"file": name, "id": v}
            with chk.case("id", rep):
                model = check(chk, "id", fw, model, d, ("uid", v), main, rep)
                chk.expect(fw.read_uid(d / main) == v, "id:readback", f"id {v} is read as {fw.read_uid(d / main)}", rep)
                chk.ev((name, v))
        chk.trace()


def history(chk: Check, item):
    from shepherd_core import fw_tools as fw
    name, first, depth, main = item
    raw = {**files(), **real()}[name]
    ops = (("uid", 5), ("uid", 0xFFFF), ("copy", 5), ("copy", 258), ("over", 0), ("other", 513), ("unknown", 1), ("range", 65536), ("range", -1), ("copy2", 5), ("copy2", 258), ("uid2", 5), ("over2", 6))

    def rec(model, hist):
        if len(hist) >= depth:
            return
        for op in ops if hist else (first,):
            h = [*hist, op]
            with chk.tmp() as d:
                for n, b in model.items():
                    (d / n).write_bytes(b)
                with chk.case("history", {"file": name, "history": h}):
                    out = check(chk, "history", fw, model, d, op, main, {"file": name, "history": h})
                    chk.trace()
                    chk.ev((name, tuple(h)))
                    if chk.state((name, len(hist) + 1, tuple(sorted((n, b[-500:], value_of(b)) for n, b in out.items())))):
                        rec(out, h)

    rec({main: raw}, [])


def symbols(chk: Check, name):
    """Any symbol of any length is read as the number that is stored at its place."""
    from shepherd_core import fw_tools as fw
    raw = {**files(), **real()}[name]
    with chk.tmp() as d:
        (d / "a.elf").write_bytes(raw)
        for sym, n in it.product((SYM, "SHEPHERD_NODE_ID2", "NODE_ID", "main"), range(1, 9)):
            off, e = elf.symbol_offset(raw, sym)
            if off is None or not elf.in_section(raw, sym, n):
                continue
            with chk.case("symbol", {"file": name, "symbol": sym, "length": n}):
                want = int.from_bytes(raw[off:off + n], "little" if e == "<" else "big")
                for got in (fw.read_symbol(d / "a.elf", sym, n), fw.read_symbol(file_elf=d / "a.elf", symbol=sym, length=n), *((fw.read_symbol(d / "a.elf", sym),) if n == 2 else ())):
                    chk.expect(got == want, "symbol:value", f"{sym} with {n} bytes of {name} is {got} instead of {want}", {"file": name, "symbol": sym, "length": n})
                chk.expect(fw.find_symbol(d / "a.elf", sym), "symbol:find", f"{sym} is not found", name)
                chk.step()
                chk.ev(("symbol", name, sym, n))
        chk.expect(folder(d) == {"a.elf": raw}, "symbol:changed", "file was changed by reading", name)
    chk.trace()


def refused(chk: Check, _):
    from shepherd_core import fw_tools as fw
    good = synth("data-mid", "arm", "<")
    bad = {"empty": b"", "text": b"hello", "hex": b":00000001FF\n", "magic": b"\x7fELF", "no-symbol": elf.build([(".text", 0x4000, T)], [("main", 0x4000, 4, 1)]), "similar": elf.build([(".text", 0x4000, T)], [("SHEPHERD_NODE_ID2", 0x4000, 2, 1), ("shepherd_node_id", 0x4004, 2, 1), ("XSHEPHERD_NODE_ID", 0x4006, 2, 1)]),
           "no-content": elf.build([(".text", 0x4000, T), (".bss", 0x5000, 8)], [(SYM, 0x5002, 2, 2)]), "no-elf-magic": b"\x7fELG" + good[4:], "no-symbols": elf.build([(".text", 0x4000, T)], [])}
    for n, raw in bad.items():
        for v, over in it.product((0, 7, 65535), (True, False)):
            with chk.tmp() as d, chk.case("refused", {"file": n, "id": v, "overwrite": over}):
                (d / "x.elf").write_bytes(raw)
                rep = {"file": n, "id": v}
                try:
                    got = fw.modify_symbol_value(d / "x.elf", SYM, v, overwrite=over)
                    chk.expect(got is None, "refused:returns", f"{n} returns {got}", rep)
                    if n != "no-content":
                        chk.expect(fw.read_uid(d / "x.elf") is None, "refused:read", f"id of {n} is {fw.read_uid(d / 'x.elf')}", rep)
                    chk.expect(not fw.find_symbol(d / "x.elf", "nope"), "refused:find", "symbol found", rep)
                except ValueError:
                    chk.expect(n in ("magic", "empty"), "refused:raises", f"{n} raises", rep)
                chk.expect(folder(d) == {"x.elf": raw}, "refused:changed", f"{n} was changed", rep)
                chk.step()
                chk.ev((n, v, over))
    for v in (-1, 65536, 70000, 2**32, -65536, "x", None, 1.5):
        for over in (True, False):
            with chk.tmp() as d, chk.case("range", v):
                (d / "x.elf").write_bytes(good)
                for f in (lambda: fw.modify_symbol_value(d / "x.elf", SYM, v, overwrite=over), lambda: fw.modify_uid(d / "x.elf", v)):  # noqa: B023
                    try:
                        got = f()
                        chk.fail("range", f"id {v} is accepted: {got}", v)
                    except ValueError:
                        chk.step()
                chk.expect(folder(d) == {"x.elf": good}, "range:changed", f"file was changed by id {v}", v)
                chk.ev(("range", repr(v)))


def read_hex(p):
    mem, base = {}, 0
    for line in p.read_text().split():
        b = bytes.fromhex(line[1:])
        assert sum(b) % 256 == 0
        n, a, t = b[0], b[1] * 256 + b[2], b[3]
        if t == 0:
            mem.update({base + a + k: x for k, x in enumerate(b[4:4 + n])})
        elif t == 4:
            base = (b[4] * 256 + b[5]) << 16
        elif t == 2:
            base = (b[4] * 256 + b[5]) << 4
    return mem


def image(chk: Check, item):
    """The programmed image (hex) of a patched firmware differs in nothing but the id."""
    from shepherd_core import fw_tools as fw
    name, values = item
    allf = {**files(), **real()}
    raw = allf[name]
    with chk.tmp() as d:
        (d / "o.elf").write_bytes(raw)
        ref = read_hex(fw.firmware_to_hex(d / "o.elf"))
        addr = LAYOUT[name.split("-", 1)[1]][0] if "-" in name else {"msp": 0x4000, "nrf": 0x6C8}[name]
        for v in values:
            with chk.case("image", {"file": name, "id": v}):
                fw.modify_uid(d / "o.elf", v)
                hx = fw.firmware_to_hex(d / "o.elf")
                mem = read_hex(hx)
                order = "big" if raw[5] == 2 else "little"
                exp = {**ref, addr: v.to_bytes(2, order)[0], addr + 1: v.to_bytes(2, order)[1]}
                chk.expect(mem == exp, "image", lambda: f"image differs at {[hex(a) for a in sorted(mem.keys() | exp.keys()) if mem.get(a) != exp.get(a)][:6]}", {"file": name, "id": v})  # noqa: B023
                chk.expect(fw.firmware_to_hex(hx) == hx, "image:hex", "hex is converted", name)
                chk.step()
                chk.ev(("image", name, v))


def run(chk: Check):
    refused(chk, None)
    chk.parallel(symbols, [*files(), *real()])
    names = [*files()]
    fast = ["armL-data-mid", "armB-data-odd", "mspL-text-start" if "mspL-text-start" in names else "msp430L-text-start"]
    chk.parallel(ids, [(n, IDS) for n in names] + [(n, IDS[k::4]) for n in real() for k in range(4)])
    depth = 4 if chk.thorough else 3
    ops = (("uid", 5), ("uid", 0xFFFF), ("copy", 5), ("copy", 258), ("over", 0), ("other", 513), ("unknown", 1), ("range", 65536), ("range", -1), ("copy2", 5), ("copy2", 258), ("uid2", 5), ("over2", 6))
    chk.parallel(history, [(n, o, depth, "fw.elf") for n in fast for o in ops] + [(fast[0], o, 2, m) for o in ops for m in ("fw_5.elf", "fw_258", "5", "a.b_5.elf")] + [(n, o, 2, "fw.elf") for n in real() for o in ops])
    chk.parallel(image, [(n, IDS[::5]) for n in (*fast, *real())])
    if chk.thorough:
        chk.parallel(ids, [("armL-data-mid", range(k, 65536, 64)) for k in range(64)])
        chk.parallel(ids, [(n, range(k, 65536, 257 * 16)) for n in real() for k in range(0, 257 * 16, 257)])
    chk.sample({"file": "armB-data-odd", "history": [("uid", 5), ("copy", 258)]})
