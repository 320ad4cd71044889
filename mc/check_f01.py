"""F01: embedding, extraction, corruption at every point and recognition of firmware files."""
import base64
import hashlib
import itertools as it
import pathlib

from mc import elf
from mc.lib import REPO, Check

RULE = ("enumerated: all contents up to 2 (thorough 3) bytes over an alphabet, all single bytes, structured larger ones, both shipped binaries x embedded/linked x destination kinds x what is there before (nothing, shorter, longer, equal); of embedded firmware every bit flip, byte drop, byte doubling and truncation of the compressed data and "
        "every replaced, dropped, doubled character and truncation of its text form; every truncation and header corruption of ELF files, every damaged record of HEX files, all address layouts from a menu. "
        "Oracle: content equality and sha3-224 of the harness, own reading of ELF/HEX headers. distinct = distinct contents or damages")
ASSUME = ["damage of embedded data is decided against the stored hash (without one only the form can be judged)", "zstandard itself is trusted", "firmware that only links to a file is taken as it is"]

OWN = {"owner": "o", "group": "g"}


def sha(b):
    return hashlib.sha3_224(b).hexdigest()


def rec(addr, data, typ=0):
    b = bytes([len(data), addr >> 8 & 255, addr & 255, typ]) + data
    return ":" + (b + bytes([-sum(b) & 255])).hex().upper()


def make_hex(chunks):
    """chunks: [(address, bytes)]."""
    lines, up = [], 0
    for a, data in chunks:
        for k in range(0, len(data), 16):
            x = a + k
            if x >> 16 != up:
                up = x >> 16
                lines.append(rec(0, up.to_bytes(2, "big"), 4))
            lines.append(rec(x & 0xFFFF, data[k:k + 16]))
    return "\n".join([*lines, ":00000001FF", ""]).encode()


T = bytes(range(40))
HEX_MSP = make_hex([(0x4000, T), (0xFFFE, b"\x00\x40")])
HEX_NRF = make_hex([(0x0, T), (0x10000, T[::-1])])
ELF_MSP = elf.build([(".text", 0x4000, T), (".vec", 0xFFFE, b"\x00\x40")], [("main", 0x4000, 4, 1), ("SHEPHERD_NODE_ID", 0x4010, 2, 1)], "msp430", entry=0x4000)
ELF_NRF = elf.build([(".text", 0x0, T), (".data", 0x2000, T[:8])], [("main", 0x0, 4, 1), ("SHEPHERD_NODE_ID", 0x2004, 2, 2)], "arm")


def real():
    base = pathlib.Path(REPO) / "shepherd_core/tests/fw_tools"
    return {n: (base / f"build_{n}.elf").read_bytes() for n in ("msp", "nrf")}


def contents(chk):
    al = (0, 1, 0x0A, 0x28, 0x7F, 0xB5, 0xFF) if not chk.thorough else (0, 1, 0x0A, 0x0D, 0x20, 0x28, 0x2F, 0x7F, 0x80, 0xB5, 0xFD, 0xFF)
    out = [b"", *(bytes([k]) for k in range(256)), *(bytes(p) for p in it.product(al, repeat=2)), *(bytes(p) for p in it.product(al, repeat=3) if chk.thorough)]
    out += [HEX_MSP, HEX_NRF, ELF_MSP, ELF_NRF, bytes(1000), bytes(131072), bytes(range(256)) * 600, hashlib.shake_128(b"x").digest(70_000), b"\x28\xb5\x2f\xfd" * 9, HEX_MSP + HEX_MSP, HEX_MSP[:-1]]
    return out


def embed(chk: Check, items):
    """Content -> text -> model -> file, in all destination kinds."""
    from shepherd_core import fw_tools as fw
    from shepherd_core.data_models.content import Firmware, FirmwareDType
    with chk.tmp() as d:
        for k, c in enumerate(items):
            key = c[:30].hex() + f"..{len(c)}"
            with chk.case("embed", key):
                src = d / "src.bin"
                src.write_bytes(c)
                txt = fw.file_to_base64(src)
                chk.expect(txt.isascii() and fw.base64_to_hash(txt) == fw.file_to_hash(src) == sha(c), "embed:hash", "hash of content", key)
                for kind, suf in (("hex", ".hex"), ("elf", ".elf")):
                    for dt in (kind, FirmwareDType(kind)):
                        for h in (None, sha(c)):
                            f = Firmware(name="some fw", mcu={"name": "nRF52"}, data=txt, data_type=dt, data_hash=h, **OWN)
                            chk.expect(f.data == txt and f.data_type == kind and f.data_hash == h, "embed:model", "content of model", key)
                            chk.expect(f.compare_hash() and f.compare_hash(src), "embed:compare", "own content does not match", key)
                            chk.step()
                    sub = d / f"s{k}{kind}"
                    sub.mkdir()
                    f = f.model_copy()
                    dests = {sub: sub / f"some fw{suf}", sub / "plain": sub / f"plain{suf}", sub / "with.bin": sub / f"with{suf}", sub / "new" / "deep" / "x": sub / "new" / "deep" / f"x{suf}", sub / f"same{suf}": sub / f"same{suf}"}
                    for dst, want in dests.items():
                        got = f.extract_firmware(dst)
                        if chk.expect(got == want and want.is_file(), "extract:path", f"extracted to {got} instead of {want}", key):
                            chk.expect(want.read_bytes() == c, "extract:content", "extracted content differs", key)
                        chk.step()
                    # again, onto files that are longer, shorter or equal
                    for old in (b"", c[:-1], c, c + b"\0", bytes(300) + c, b"\xff" * (len(c) + 4097)):
                        dst, want = sub / "plain", sub / f"plain{suf}"
                        want.write_bytes(old)
                        got = f.extract_firmware(dst)
                        chk.expect(got == want and want.read_bytes() == c, "extract:replace", f"extraction onto an existing file of {len(old)} bytes differs", key)
                        chk.step()
                    n = sum(p.is_file() for p in sub.rglob("*"))
                    chk.expect(n == len(dests), "extract:files", f"{n} files after {len(dests)} extractions", key)
                    p = f.to_file(sub / "m.yaml")
                    chk.expect(Firmware.from_file(p) == f, "embed:yaml", "model differs after loading", key)
                    # hash of something else
                    for h in (sha(c + b"\0"), sha(c)[:-1], sha(c).upper() if sha(c).upper() != sha(c) else "0", ""):
                        try:
                            Firmware(name="x", mcu={"name": "nRF52"}, data=txt, data_type=kind, data_hash=h, **OWN)
                            chk.fail("embed:wrong-hash", f"hash {h!r} is accepted for {sha(c)}", key)
                        except ValueError:
                            chk.step()
                other = d / "other.bin"
                for c2 in (c + b"\0", c[:-1] if c else b"\1", bytes([c[0] ^ 1]) + c[1:] if c else b"\2"):
                    other.write_bytes(c2)
                    chk.expect(fw.file_to_hash(other) != sha(c) and fw.file_to_base64(other) != txt, "embed:distinct", "different contents look equal", key)
                    g = Firmware(name="x", mcu={"name": "nRF52"}, data=txt, data_type="elf", data_hash=sha(c), **OWN)
                    chk.expect(not g.compare_hash(other), "embed:compare-other", "other file is taken as equal", key)
                    for nm in ("noext", "x.hex", "x.elf", "x.bak", ".hidden", "X.HEX") if k % 8 == 0 else ():
                        for cc, same in ((c2, False), (c, True)):
                            (d / nm).write_bytes(cc)
                            chk.expect(bool(g.compare_hash(d / nm)) == same, "embed:compare-name", f"file {nm} is taken as {'different' if same else 'equal'}", key)
                            (d / nm).unlink()
                            chk.step()
                other.write_bytes(c)
                chk.expect(fw.file_to_hash(other) == sha(c) and fw.file_to_base64(other) == txt, "embed:path", "result depends on path", key)
                chk.expect(src.read_bytes() == c, "embed:source", "source was changed", key)
                chk.ev(key)
                chk.state(key)
                chk.trace()


NAMES = ("fw", "fw.", "fw.1", "fw.2", "fw.1.2", "v1.2.hexa", "v1", "1.2", ".2", ".", "..", "...", "a b.c", "fw.bins", "fw.hex.1", "fw.elf.1", "FW", "fw 1", "x.hex", "y.ELF")


def named(chk: Check, pair):
    """Firmwares of different names in one directory stay distinct, each inside of it and with the content it had."""
    from shepherd_core.data_models.content import Firmware
    from shepherd_core.fw_tools import file_to_base64
    for kinds in it.product(("hex", "elf", "path_hex", "path_elf"), repeat=2):
        rep = {"names": pair, "kinds": kinds}
        with chk.tmp() as d, chk.case("named", rep):
            (d / "src").mkdir()
            o = d / "o"
            o.mkdir()
            got = []
            for k, (n, dt) in enumerate(zip(pair, kinds)):
                src = d / "src" / f"{k}.{dt[-3:]}"
                src.write_bytes(bytes([65 + k]) * (9 + k))
                f = Firmware(name=n, mcu={"name": "nRF52"}, data=src if "path" in dt else file_to_base64(src), data_type=dt, **OWN)
                got.append(f.extract_firmware(o))
                chk.step()
            for k, p in enumerate(got):
                chk.expect(p.parent == o and p.resolve().parent == o.resolve() and p.suffix.lower() == f".{kinds[k][-3:]}", "named:where", f"{pair[k]!r} is extracted to {p}", rep)
                chk.expect(p.is_file() and p.read_bytes() == bytes([65 + k]) * (9 + k), "named:content", f"content of {pair[k]!r} in {p.name!r} is not its own", rep)
            chk.expect(len(list(d.rglob("*"))) == 2 + 2 + len(set(got)) and len(set(got)) == 2, "named:files", "stray or missing files", rep)
            chk.state((pair, kinds))
            chk.trace()


def linked(chk: Check, _):
    """Firmware that only refers to a file."""
    from shepherd_core.data_models.content import Firmware
    from shepherd_core.data_models.task import FirmwareModTask
    for (n, c, dt, suf, mcu), as_str, h in it.product((("a", ELF_MSP, "path_elf", ".elf", "MSP430FR"), ("b", HEX_NRF, "path_hex", ".hex", "nRF52"), ("c", ELF_NRF, "path_elf", ".elf", "nRF52")), (True, False), ("none", "right", "wrong")):
        rep = {"type": dt, "as string": as_str, "hash": h}
        with chk.tmp() as d, chk.case("linked", rep):
            src = d / f"{n}{suf}"
            src.write_bytes(c)
            f = Firmware(name="l", mcu={"name": mcu}, data=str(src) if as_str else src, data_type=dt, data_hash={"none": None, "right": sha(c), "wrong": sha(b"q")}[h], **OWN)
            ok = h != "wrong"
            chk.expect(f.compare_hash(src) == ok, "linked:compare", f"comparison with file gives {not ok}", rep)
            chk.expect(f.compare_hash() == ok, "linked:compare-own", f"comparison with linked file gives {not ok}", rep)
            (d / "o").mkdir()
            got = f.extract_firmware(d / "o")
            chk.expect(got == d / "o" / f"l{suf}" and got.read_bytes() == c and src.read_bytes() == c, "linked:extract", f"extracted {got}", rep)
            t = FirmwareModTask.from_firmware(f, firmware_file=d / "o")
            chk.expect(t.data == f.data and t.data_type == dt and t.firmware_file == d / "o" / "l.hex", "linked:task", f"task {t}", rep)
            src.unlink()
            if h != "none":
                chk.expect(not f.compare_hash(), "linked:gone", "missing file matches", rep)
            chk.step(6)
            chk.ev(repr(rep))
    for bad in (None, 5, b"\xff"):
        with chk.case("linked-bad", repr(bad)):
            try:
                f = Firmware(name="l", mcu={"name": "nRF52"}, data_type="path_elf", **({} if bad is None else {"data": bad}), **OWN)
                chk.fail("linked-bad", f"firmware {bad!r} is accepted", repr(bad))
            except ValueError:
                chk.step()


def damages(raw, thorough):
    for k in range(len(raw)):
        for b in range(8):
            yield raw[:k] + bytes([raw[k] ^ (1 << b)]) + raw[k + 1:]
        if thorough:
            for v in (0, 255, 0x28):
                yield raw[:k] + bytes([v]) + raw[k + 1:]
        yield raw[:k] + raw[k + 1:]
        yield raw[:k + 1] + raw[k:]
        yield raw[:k]
    for tail in (b"\0", b"\xff", raw, raw[:5], b"\x28\xb5\x2f\xfd"):
        yield raw + tail
        yield tail + raw


def text_damages(txt):
    al = "A/+=b9-_\n \u00e4*"
    for k in range(len(txt)):
        for c in al:
            yield txt[:k] + c + txt[k + 1:]
        yield txt[:k] + txt[k + 1:]
        yield txt[:k + 1] + txt[k:]
        yield txt[:k]
        yield txt[:k] + "*" + txt[k:]


def corrupt(chk: Check, item):
    from shepherd_core import fw_tools as fw
    from shepherd_core.data_models.content import Firmware
    what, part, parts = item
    c = {"small": b"shepherd!" * 3, "hex": HEX_MSP, "noise": hashlib.shake_128(b"y").digest(90), "elf": ELF_NRF}[what.split("-")[0]]
    with chk.tmp() as d:
        (d / "src").write_bytes(c)
        txt = fw.file_to_base64(d / "src")
        good = Firmware(name="x", mcu={"name": "nRF52"}, data=txt, data_type="elf", data_hash=sha(c), **OWN)
        yml = good.to_file(d / "m.yaml").read_text()
        chk.expect(txt in yml, "corrupt:yaml-form", "embedded data is not part of the yaml", None)
        gen = text_damages(txt) if what.endswith("text") else (base64.b64encode(x).decode() for x in damages(base64.b64decode(txt), chk.thorough))
        for k, bad in enumerate(gen):
            if k % parts != part or bad == txt:
                continue
            rep = {"content": what, "damaged data": bad}
            with chk.case("corrupt", rep):
                # with known hash
                try:
                    f = Firmware(name="x", mcu={"name": "nRF52"}, data=bad, data_type=("elf", "hex")[k % 2], data_hash=sha(c), **OWN)
                    got = f.extract_firmware(d / "ok")
                    chk.expect(got.read_bytes() == c, "corrupt:accepted", "damaged firmware is accepted and gives other content", rep)
                    chk.count("harmless damages")
                except ValueError:
                    chk.count("rejected damages")
                # without hash: extracted content is what the hash-function says, or an error and no file
                dst = d / "raw.bin"
                try:
                    h = fw.base64_to_hash(bad)
                except ValueError:
                    h = None
                try:
                    fw.base64_to_file(bad, dst)
                    chk.expect(h == sha(dst.read_bytes()), "corrupt:file", "extraction and hash-function disagree", rep)
                    dst.unlink()
                except ValueError:
                    chk.expect(h is None and not dst.exists(), "corrupt:leftover", "failed extraction left a file or hash-function accepted", rep)
                try:
                    f = Firmware(name="x", mcu={"name": "nRF52"}, data=bad, data_type=("elf", "hex")[k % 2], **OWN)
                    chk.expect(h is not None, "corrupt:form", "unreadable firmware is accepted", rep)
                except ValueError:
                    chk.expect(h is None or len(bad) < 3 or bad.strip() != bad, "corrupt:form-rejected", "readable firmware is rejected", rep)
                if k % 7 == 0 and bad.isascii() and bad.isprintable() and " " not in bad and "*" not in bad and bad:
                    (d / "n.yaml").write_text(yml.replace(txt, bad))
                    try:
                        f = Firmware.from_file(d / "n.yaml")
                        chk.expect(f.extract_firmware(d / "ok").read_bytes() == c, "corrupt:yaml", "damaged definition file is accepted and gives other content", rep)
                    except ValueError:
                        pass
                    chk.step()
                chk.step(4)
                chk.ev((what, bad))


def from_file(chk: Check, _):
    """Type and controller are recognised from the file."""
    from shepherd_core import fw_tools as fw
    from shepherd_core.data_models.content import Firmware
    r = real()
    good = [("m.elf", ELF_MSP, "elf", "MSP430FR"), ("n.elf", ELF_NRF, "elf", "nRF52"), ("m.hex", HEX_MSP, "hex", "MSP430FR"), ("n.ihex", HEX_NRF, "hex", "nRF52"), ("n.IHX", HEX_NRF, "hex", "nRF52"), ("N.ELF", ELF_NRF, "elf", "nRF52"),
            ("m.out", ELF_MSP, "elf", "MSP430FR"), ("m.o", ELF_MSP, "elf", "MSP430FR"), ("n.bin", ELF_NRF, "elf", "nRF52"), ("n.so", ELF_NRF, "elf", "nRF52"), ("msp.elf", r["msp"], "elf", "MSP430FR"), ("nrf.elf", r["nrf"], "elf", "nRF52")]
    for (n, c, dt, mcu), emb, kw in it.product(good, (True, False), ({}, {"name": "own"}, {"id": 9, "description": "d", "visible2all": True})):
        rep = {"file": n, "embed": emb, "arguments": kw}
        with chk.tmp() as d, chk.case("recognise", rep):
            p = d / n
            p.write_bytes(c)
            f = Firmware.from_firmware(p, embed=emb, **kw, **OWN)
            chk.expect(f.mcu.name.lower() == mcu.lower() and f.data_type == (dt if emb else f"path_{dt}") and f.name == kw.get("name", n) and f.data_hash == sha(c) and f.data_local == (not emb), "recognise",
                       f"recognised as {f.mcu.name}, {f.data_type}, {f.name}, local {f.data_local}", rep)
            for k, v in kw.items():
                chk.expect(f[k] == v, "recognise:arg", f"{k} is {f[k]}", rep)
            (d / "o").mkdir()
            e = f.extract_firmware(d / "o")
            chk.expect(e.read_bytes() == c and e.suffix == f".{dt}" and p.read_bytes() == c, "recognise:extract", f"extraction to {e}", rep)
            chk.expect(fw.determine_type(p) == f"path_{dt}" and fw.determine_arch(p) == ("msp430" if mcu == "MSP430FR" else "nrf52"), "recognise:determine", f"{fw.determine_type(p)}, {fw.determine_arch(p)}", rep)
            chk.expect(fw.is_elf(p) == (dt == "elf") and fw.is_hex(p) == (dt == "hex"), "recognise:is", "is_elf / is_hex", rep)
            chk.step(5)
            chk.ev(repr(rep))
            chk.trace()
    bad = {"text": b"something", "empty": b"", "eof-only": b":00000001FF\n", "zeros": bytes(64), "x86": elf.build([(".text", 0x4000, T)], [("main", 0x4000, 4, 1)], "x86"), "dynamic": elf.build([(".text", 0, T)], [("main", 0, 4, 1)], "arm", etype=3),
           "relocatable": elf.build([(".text", 0, T)], [("main", 0, 4, 1)], "arm", etype=1), "big-garbage": bytes(range(256)) * 9, "magic": b"\x7fELF", "latin": b":\xe4\xf6", "other-start": None}
    for (n, c), suf, kw in it.product(bad.items(), (".hex", ".elf", ".bin", ".o", ".txt", ""), ({}, {"mcu": {"name": "nRF52"}}, {"data_type": "elf"}, {"data_type": "hex"}, {"data_type": "elf", "mcu": {"name": "MSP430FR"}})):
        rep = {"content": n, "suffix": suf, "arguments": kw}
        with chk.tmp() as d, chk.case("foreign", rep):
            p = d / f"x{suf}"
            if c is not None:
                p.write_bytes(c)
            for emb in (True, False):
                try:
                    f = Firmware.from_firmware(p, embed=emb, **kw, **OWN)
                    chk.fail("foreign:accepted", f"{n} is accepted as {f.data_type} for {f.mcu.name}", rep)
                except ValueError:
                    chk.step()
            chk.ev(repr(rep))
    for (n, c, _dt, _), t in it.product(good[:4], ("elf", "hex")):
        if t == _dt:
            continue
        with chk.tmp() as d, chk.case("foreign-type", (n, t)):
            (d / n).write_bytes(c)
            try:
                f = Firmware.from_firmware(d / n, data_type=t, **OWN)
                chk.fail("foreign-type", f"{n} is accepted as {t}", (n, t))
            except ValueError:
                chk.step()


def hexes(chk: Check, _):
    """Layouts and damages of hex files."""
    from shepherd_core import fw_tools as fw
    starts, vecs, sizes = (0x0, 0x3FFF, 0x4000, 0x4001, 0x4400, 0x10000), (None, 0x0000, 0x3FFE, 0x4000, 0x4001, 0x8000, 0xFF7E, 0xFF80, 0xFFFE, 0xFFFF), (1, 40, 2000)
    with chk.tmp() as d:
        p = d / "x.hex"
        for s, v, n in it.product(starts, vecs, sizes):
            rep = {"start": hex(s), "reset vector": v if v is None else hex(v), "size": n}
            with chk.case("layout", rep):
                parts = [(s, bytes(n))] + ([] if v is None else [(0xFFFE, v.to_bytes(2, "little"))])
                p.write_bytes(make_hex(sorted(parts)))
                msp = s == 0x4000 and v is not None and 0x4000 <= v < 0xFF80
                chk.expect(fw.is_hex(p), "layout:hex", "hex is not recognised", rep)
                chk.expect(fw.is_hex_msp430(p) == msp, "layout:msp", f"is_hex_msp430 gives {not msp}", rep)
                chk.expect(fw.is_hex_nrf52(p), "layout:nrf", "nrf is not recognised", rep)
                chk.expect(fw.determine_arch(p) == ("msp430" if msp else "nrf52"), "layout:arch", f"architecture {fw.determine_arch(p)}", rep)
                chk.step(4)
                chk.ev(repr(rep))
        for n in (269_998, 269_999, 280_000):
            with chk.case("layout-size", n):
                blob = bytes(n - 0xBFFE)
                p.write_bytes(make_hex([(0x4000, bytes(0xBFFE)), (0xFFFE, b"\0\x40"), (0x10000, blob)]))
                chk.expect(fw.is_hex_msp430(p) == (n + 2 <= 270_000), "layout:size", f"size {n + 2}", n)
                chk.ev(("size", n))
        for raw in (HEX_MSP, HEX_NRF):
            for k in range(len(raw)):
                for c in b"0F:g\n":
                    bad = raw[:k] + bytes([c]) + raw[k + 1:]
                    if bad == raw:
                        continue
                    with chk.case("hex-damage", bad.decode()):
                        p.write_bytes(bad)
                        ok = True
                        seen = set()
                        for line in bad.decode().splitlines():
                            line = line.strip()
                            if not line:
                                continue
                            try:
                                b = bytes.fromhex(line[1:])
                                ok &= line[0] == ":" and len(b) >= 5 and len(b) == b[0] + 5 and sum(b) % 256 == 0 and b[3] in range(6)
                            except ValueError:
                                ok = False
                        del seen
                        got = fw.is_hex(p)
                        if not ok:
                            chk.expect(not got, "hex-damage", "damaged hex is accepted", bad.decode())
                        chk.step()
                        chk.ev(bad)


def elfs(chk: Check, item):
    """Truncated and damaged ELF files never become a firmware that can not be programmed; no other error than a value error."""
    from shepherd_core import fw_tools as fw
    from shepherd_core.data_models.content import Firmware
    name, part, parts = item
    raw = {"msp": ELF_MSP, "nrf": ELF_NRF}[name]
    cases = [raw[:k] for k in range(len(raw))] + [raw[:k] + bytes([v]) + raw[k + 1:] for k in range(20) for v in (0, 1, 2, 3, 0xFF) if raw[k] != v]
    with chk.tmp() as d:
        for c in cases[part::parts]:
            with chk.case("elf-damage", {"file": name, "bytes": c.hex()}):
                p = d / "x.elf"
                p.write_bytes(c)
                try:
                    f = Firmware.from_firmware(p, **OWN)
                    chk.expect(f.extract_firmware(d / "y").read_bytes() == c and f.data_hash == sha(c), "elf-damage:content", "content differs", c.hex())
                    chk.count("readable damaged ELF")
                except (ValueError, RuntimeError):
                    chk.count("rejected damaged ELF")
                ok = c[:4] == b"\x7fELF"
                if not ok:
                    try:
                        chk.expect(not fw.is_elf(p), "elf-damage:is", "file without magic number is taken as ELF", c.hex())
                    except ValueError:
                        pass
                chk.step()
                chk.ev((name, c))


def run(chk: Check):
    linked(chk, None)
    for a in it.permutations(NAMES, 2):
        named(chk, a)
    from_file(chk, None)
    hexes(chk, None)
    cs = contents(chk)
    chk.parallel(embed, [cs[k::40] for k in range(40)])
    kinds = ("small", "noise", "hex", "small-text", "noise-text") if not chk.thorough else ("small", "noise", "hex", "elf", "small-text", "noise-text", "hex-text", "elf-text")
    chk.parallel(corrupt, [(k, i, 16) for k in kinds for i in range(16)])
    chk.parallel(elfs, [(n, i, 8) for n in ("msp", "nrf") for i in range(8)])
    chk.sample({"content": HEX_MSP.decode(), "damage": "every bit of the compressed data"})
