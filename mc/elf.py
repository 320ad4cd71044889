"""Builds and parses small 32 bit ELF files, independent of the code under test."""
import struct

MACH = {"msp430": 105, "arm": 40, "x86": 3}


def build(sections, symbols, machine="arm", endian="<", etype=2, entry=0):
    """sections: [(name, vaddr, bytes | int for nobits)], symbols: [(name, vaddr, size, section index from 1)]."""
    e = endian
    ph_off, n = 52, len(sections)
    off = ph_off + 32 * n
    offs, body = [], b""
    for _, va, data in sections:
        pad = (va - off - len(body)) % 4
        body += bytes(pad)
        offs.append(off + len(body))
        if isinstance(data, bytes):
            body += data
    strtab, syms = b"\0", struct.pack(e + "IIIBBH", 0, 0, 0, 0, 0, 0)
    for name, va, size, sec in symbols:
        syms += struct.pack(e + "IIIBBH", len(strtab), va, size, 0x11, 0, sec)
        strtab += name.encode() + b"\0"
    body += bytes(-(off + len(body)) % 4)
    sym_off = off + len(body)
    body += syms
    str_off = off + len(body)
    body += strtab
    shstr, idx = b"\0", []
    for name in [s[0] for s in sections] + [".symtab", ".strtab", ".shstrtab"]:
        idx.append(len(shstr))
        shstr += name.encode() + b"\0"
    shs_off = off + len(body)
    body += shstr
    body += bytes(-(off + len(body)) % 4)
    sh_off = off + len(body)
    sh = bytes(40)
    for k, (_, va, data) in enumerate(sections):
        nob = not isinstance(data, bytes)
        sh += struct.pack(e + "10I", idx[k], 8 if nob else 1, 7, va, offs[k], data if nob else len(data), 0, 0, 1, 0)
    sh += struct.pack(e + "10I", idx[n], 2, 0, 0, sym_off, len(syms), n + 2, 1, 4, 16)
    sh += struct.pack(e + "10I", idx[n + 1], 3, 0, 0, str_off, len(strtab), 0, 0, 1, 0)
    sh += struct.pack(e + "10I", idx[n + 2], 3, 0, 0, shs_off, len(shstr), 0, 0, 1, 0)
    ident = b"\x7fELF" + bytes([1, 1 if e == "<" else 2, 1]) + bytes(9)
    head = ident + struct.pack(e + "HHIIIIIHHHHHH", etype, MACH[machine], 1, entry, ph_off, sh_off, 0, 52, 32, n, 40, n + 4, n + 3)
    phs = b""
    for k, (_, va, data) in enumerate(sections):
        ln = len(data) if isinstance(data, bytes) else 0
        phs += struct.pack(e + "8I", 1, offs[k], va, va, ln, len(data) if ln else (data if not isinstance(data, bytes) else 0), 7, 4)
    out = head + phs
    assert len(out) == off
    return out + body + sh


def symbol_offset(raw: bytes, name: str):
    """File offset of the content of a symbol (None: no such symbol or no content), endianness."""
    assert raw[:4] == b"\x7fELF" and raw[4] == 1
    e = "<" if raw[5] == 1 else ">"
    sh_off, = struct.unpack_from(e + "I", raw, 32)
    n, = struct.unpack_from(e + "H", raw, 48)
    secs = [struct.unpack_from(e + "10I", raw, sh_off + 40 * k) for k in range(n)]
    for s in secs:
        if s[1] != 2:
            continue
        strs = secs[s[6]]
        for k in range(s[5] // 16):
            nm, va, _, _, _, sec = struct.unpack_from(e + "IIIBBH", raw, s[4] + 16 * k)
            a = strs[4] + nm
            if raw[a:raw.index(b"\0", a)] == name.encode() and 0 < sec < n:
                if secs[sec][1] == 8:
                    return None, e
                return secs[sec][4] + va - secs[sec][3], e
    return None, e


def in_section(raw: bytes, name: str, count: int) -> bool:
    """That many bytes from the start of the symbol belong to its section."""
    e = "<" if raw[5] == 1 else ">"
    sh_off, = struct.unpack_from(e + "I", raw, 32)
    n, = struct.unpack_from(e + "H", raw, 48)
    secs = [struct.unpack_from(e + "10I", raw, sh_off + 40 * k) for k in range(n)]
    off, _ = symbol_offset(raw, name)
    return any(s[1] not in (0, 2, 3, 8) and s[4] <= off and off + count <= s[4] + s[5] for s in secs)
