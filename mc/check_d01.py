"""D01: an independent UART transmitter produces edge lists for every byte string within the bounds,
the real decoder has to give back exactly these bytes, start times, lines and text."""
import itertools as it
import re

import numpy as np

from mc import h5
from mc.lib import Check

RULE = ("enumerated: every byte; pairs of symbols of 1 to 16 bit; recordings up to 25 000 (thorough 250 000) bytes; every pair of bytes back-to-back; all strings up to the depth over a boundary alphabet x pauses between "
        "frames x polarity x baud rate x given/detected baud rate and polarity x redundant edges x input form (array, CSV file, recorded "
        "GPIO); all strings over {a, CR, LF} for lines. Oracle: the transmitted bytes. distinct = distinct decoded texts")
ASSUME = ["ideal edges (rounding to 1 ns); pauses are non-negative multiples of 0.1 bit; idle line of > 80 bits at the start (as needed for polarity detection)",
          "a run of the byte 0x55 before or after the tested bytes provides the 8 edges the decoder wants and single bits for baud detection",
          "detection of the baud rate is only asked for when more than 10 % of the pauses between edges are single bits (smallest step, robust to outliers)"]


def transmit(data, baud, pauses=(), invert=False, idle=200, t0=1.0, redundant=False, width=8):
    """Edge list (time [s], level), start times; first entry is the initial state."""
    tick = 1.0 / baud
    rows = [(t0, 1)]
    t = t0 + idle * tick
    starts = []
    for n, b in enumerate(data):
        starts.append(t)
        for i, bit in enumerate([0] + [(b >> k) & 1 for k in range(width)] + [1]):
            if rows[-1][1] != bit or redundant:
                rows.append((t + i * tick, bit))
        t += (width + 2 + (pauses[n % len(pauses)] if pauses else 0)) * tick
    arr = np.array(rows, dtype=float)
    arr[:, 0] = np.round(arr[:, 0], 9)
    if invert:
        arr[:, 1] = 1 - arr[:, 1]
    return arr, starts


def lines_of(text):
    return re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", text)


def judge(chk: Check, uart, data, starts, baud, rep, key):
    text = "".join(map(chr, data))
    sym = uart.get_symbols()
    got = "".join(str(s) for _, s in sym)
    chk.step()
    if not chk.expect(len(sym) == len(data) and got == text, f"{key}:symbols", f"decoded {got!r} instead of {text!r}", rep):
        return
    chk.expect(all(abs(float(t) - s) < 0.2 / baud for (t, _), s in zip(sym, starts)), f"{key}:times", "times of symbols differ from start bits", rep)
    exp = lines_of(text)
    lines = uart.get_lines()
    if chk.expect([str(x) for _, x in lines] == exp, f"{key}:lines", f"lines {[str(x) for _, x in lines]} instead of {exp}", rep):
        pos = 0
        for (t, _), ln in zip(lines, exp):
            chk.expect(abs(float(t) - starts[pos]) < 0.2 / baud, f"{key}:line-time", f"line {ln!r} has time {t}, not {starts[pos]}", rep)
            pos += len(ln)
    chk.expect(uart.get_text() == text, f"{key}:text", "text differs from symbols", rep)
    chk.ev(text)


def decode(chk: Check, data, *, baud=115_200, pauses=(), invert=False, explicit=True, redundant=False, t0=1.0, key="bytes", again=False, width=8):
    from shepherd_core.decoder_waveform import Uart
    rep = {"bytes": list(data), "baud": baud, "pauses": pauses, "inverted": invert, "given": explicit, "redundant": redundant, "t0": t0, "data bits": width}
    with chk.case(key, rep):
        arr, starts = transmit(data, baud, pauses, invert, t0=t0, redundant=redundant, width=width)
        before = arr.copy()
        kw = {"baud_rate": baud, "inversion": invert} if explicit else {}
        if width != 8:
            kw["frame_length"] = width
        uart = Uart(arr, **kw)
        judge(chk, uart, data, starts, baud, rep, key)
        chk.trace()
        if again:
            first = [(float(t), str(s)) for t, s in uart.get_symbols()]
            redo = [(float(t), str(s)) for t, s in uart.get_symbols(force_redo=True)]
            text = (uart.get_text(), uart.get_text(force_redo=True), "".join(str(x) for _, x in uart.get_lines(force_redo=True)))
            chk.expect(first == redo and len(set(text)) == 1, f"{key}:redo", "repeated decoding differs", rep)
            chk.expect(np.array_equal(arr, before), f"{key}:input", "the input of the caller was modified", rep)
            uart2 = Uart(arr, **kw)
            chk.expect(uart2.get_text() == text[0], f"{key}:twice", "second decoder on the same data differs", rep)


PRE = [0x55] * 3


def singles(chk: Check, b):
    for invert, explicit, baud, pause in it.product((False, True), (False, True), (9600, 115_200), (0, 1, 0.5, 9, 90)):
        for data in ([*PRE, b], [b, *PRE], [b, *PRE, b]):
            decode(chk, data, baud=baud, pauses=(pause,), invert=invert, explicit=explicit, key="single", again=pause == 0)
    for red in (False, True):
        decode(chk, [*PRE, b, b], redundant=red, t0=1.7e9, explicit=False, key="epoch")
        decode(chk, [*PRE, b, b], redundant=red, baud=1_000_000, explicit=False, key="fast")


def pairs(chk: Check, b):
    for c in range(256):
        decode(chk, [b, c, *PRE] if c % 2 else [*PRE, b, c], key="pair")


ALPHA = (0x00, 0x01, 0x55, 0x7F, 0x80, 0xC0, 0xFE, 0xFF, 0x0D, 0x61)
PAUSES = (0, 1, 0.5, 3, 7, 8, 12, 90)


def strings(chk: Check, item):
    first, depth = item
    for n in range(depth):
        for rest in it.product(ALPHA, repeat=n):
            data = [first, *rest]
            if n <= 1 or chk.thorough:
                for p, q in it.product(PAUSES, repeat=2):
                    decode(chk, [*data, *PRE[:2]], pauses=(p, q), key="string")
                    decode(chk, [*PRE, *data], pauses=(p, q), invert=True, explicit=False, key="string")
            else:
                for p in (PAUSES[1], PAUSES[4], PAUSES[5]):
                    decode(chk, [*PRE, *data], pauses=(p,), key="string")


def text_lines(chk: Check, item):
    first, depth = item
    for n in range(depth):
        for rest in it.product(b"a\r\n", repeat=n):
            decode(chk, [*PRE, first, *rest], key="line", again=True)
            decode(chk, [first, *rest, *PRE], key="line", pauses=(0, 30))


POOR = (0x33, 0x66, 0xCC, 0x00, 0xFC, 0x0F, 0x63)


def detect(chk: Check, item):
    """Few single bits: the baud rate has to be found nevertheless."""
    body, n, fill, invert, baud = item
    for pos in range(n + 1):
        data = [*[body] * pos, *fill, *[body] * (n - pos)]
        arr, _ = transmit(data, baud, (20,))
        steps = np.round(np.diff(arr[:, 0]) * baud)
        if len(steps) < 12 or (steps == 1).sum() < np.ceil(0.1 * (len(steps) - 1)) + 1 or (steps > 80).sum() == 0:
            chk.count("too_few_single_bits")
            continue
        decode(chk, data, baud=baud, pauses=(20,), invert=invert, explicit=False, key="detect")


def frames(chk: Check, item):
    """Other numbers of data bits."""
    width, part = item
    top = 1 << width
    alpha = range(top) if width <= 5 else sorted({0, 1, 2, top - 1, top - 2, top // 2, top // 2 - 1, 0x5555 % top, 0xAAAA % top, *(1 << k for k in range(width)), *(top - 1 - (1 << k) for k in range(width))})
    pre = [0x5555 % top] * 6
    for n, (a, b) in enumerate(it.product(alpha, repeat=2)):
        if n % 4 != part:
            continue
        for inv, expl, pauses in ((False, True, ()), (True, False, ()), (False, False, (0, 1, 3)), (True, True, (1.5, 30))):
            decode(chk, [a, b, *pre] if n % 2 else [*pre, a, b], pauses=pauses, invert=inv, explicit=expl, width=width, key="frames")


def long(chk: Check, item):
    """Long recordings are decoded to their end."""
    body, n, pause = item
    decode(chk, (list(body) * n)[:n], pauses=(pause, 0, 0), invert=bool(n % 2), explicit=bool(n % 3), key="long")


def files(chk: Check, item):
    """Same through a CSV file and through a recorded GPIO trace."""
    from shepherd_core.decoder_waveform import Uart
    from shepherd_data import Reader
    data, invert, pause = item
    rep = {"bytes": data, "inverted": invert, "pause": pause}
    full = [*PRE, *data]
    with chk.tmp() as d, chk.case("file", rep):
        arr, starts = transmit(full, 115_200, (pause,), invert)
        p = d / "wf.csv"
        p.write_text("timestamp [s],uart\n" + "".join(f"{t:.9f},{int(v)}\n" for t, v in arr))
        judge(chk, Uart(p), full, starts, 115_200, rep, "csv")
        t = np.round(arr[:, 0] * 1e9).astype("u8")
        for bit, name, noise in ((0, "uart", 2), (9, "uart_tx", 1), (15, "target uart", 0)):
            v = [int(x) << bit | ((i & 1) << noise if noise != bit else 0) for i, x in enumerate(arr[:, 1])]
            f = h5.make(d / f"g{bit}.h5", *h5.ramp(10), gpio=(t, v, f"{bit}:\n  name: {name}\n{noise + 1}:\n  name: other\n"))
            with Reader(f, verbose=False) as r:
                lines = r.gpio_to_uart()
            chk.step()
            exp = lines_of("".join(map(chr, full)))
            if chk.expect(lines is not None and [str(x) for _, x in lines] == exp, "gpio:lines", f"{lines} instead of {exp}", rep):
                chk.expect(abs(float(lines[0][0]) - starts[0]) < 1e-6, "gpio:time", "time of first line is off", rep)
                chk.ev((bit, tuple(exp)))


def run(chk: Check):
    chk.parallel(singles, range(256))
    chk.parallel(pairs, range(256))
    chk.parallel(strings, [(a, 4 if chk.thorough else 3) for a in ALPHA], chunks=10)
    chk.parallel(text_lines, [(a, 7 if chk.thorough else 5) for a in b"a\r\n"], chunks=3)
    chk.parallel(detect, [(b, n, f, inv, baud) for b in POOR for n in (1, 2, 3, 5, 8, 12) for f in ((), (0x55,), (0x32,), (0x9A,), (0x55, 0x55), (0x32, 0x34), (0x80, 0x01))
                          for inv in (False, True) for baud in (9600, 115_200)])
    chk.parallel(frames, [(w, k) for w in range(1, 17) if w != 8 for k in range(4)])
    chk.parallel(long, [(b, n, 0) for b in (b"U", b"hello\n", bytes(range(256)), b"U" * 300 + b"\r\n") for n in (100, 199, 1000, 9_999, 25_000, *((100_000, 250_001) if chk.thorough else ()))])
    menu = (0x00, 0x41, 0x80, 0xFF, 0x0A, 0x0D)
    chk.parallel(files, [(list(x), inv, p) for n in (1, 2) for x in it.product(menu, repeat=n) for inv in (False, True) for p in (0, 5, 100)])
    chk.sample({"bytes": [0, 255, 13], "edges": transmit([0, 255, 13], 9600)[0][:6].tolist()})
