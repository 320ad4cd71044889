"""Development helper: rewrites the generated tables of DESIGN.md (planted bugs, cost)."""
import json, re
from pathlib import Path

V = Path(__file__).parent.parent
MISSED = {"v01-request-drop": "voltage requested from the harvester compared", "v03-voc-min": "lower limits of open-circuit trackers", "r03-max-size": "recordings longer than the default block", "r08-factor-round": "empty ranges", "r09-log-multi": "unreadable log elements", "k03-tiny-offset": "all decades of offsets", "r10-flist-links": "names of files and directories", "a01-round": "fractions", "r13-opts": "every compression level",
          "r04-host-domain": "names with dots in the settings menu", "r05-neg-window": "negative windows as fault", "f01-local-swap": "linked and embedded content differ", "i01-runtime-round": "trim borders around half a second",
          "f02-length": "symbols of every length", "m04-id-key": "ids of one digit, lookups as text", "f01-tail": "extraction onto existing files", "m04-memo-name": "own sources of equal name, changed between loads", "p02-interval-trunc": "dense grid of register units (also P01)", "r02-unique-suffix": "long series of recordings under one name", "r12-exit": "file is closed after the session",
          "e01-valid-env": "invalid environments in the menu", "g01-gpio-case": "own pins with names of any case", "x01-aux-substring": "dense menu of words", "e02-mcu-default": "own controllers with extreme settings", "n01-local-version": "versions that are close to each other",
          "c01-pwhash": "every position of a password changed", "d01-events-1000": "long recordings", "r12-timestamps": "blocks smaller than one append", "i01-trim-runtime": "curves of very few points", "w01-file-strip": "all kinds of addresses", "r05-root-attr": "misplaced attributes and series"}
rows = ["| property | planted bug | what it breaks | strengthened after a miss |", "| --- | --- | --- | --- |"]
for s in sorted(V.glob("seeded/*/meta.json"), key=lambda p: (json.loads(p.read_text())["property"], p.parent.name)):
    m = json.loads(s.read_text())
    rows.append(f"| {m['property']} | {s.parent.name} | {m['what_it_breaks']} | {MISSED.get(s.parent.name, '')} |")
cost = ["| check | evaluations | distinct | states | transitions | seconds (quick, 8 cores idle) |", "| --- | --- | --- | --- | --- | --- |"]
for e in sorted(V.glob("evidence/*.json")):
    d = json.loads(e.read_text())
    if d["tier"] != "quick":
        continue
    c = d["coverage"]
    cost.append(f"| {d['property']} | {c.get('evaluations')} | {c.get('distinct_nontrivial')} | {c.get('states', '')} | {c.get('transitions', '')} | {round(d.get('wall_s', 0))} |")
p = V / "DESIGN.md"
t = p.read_text()
for name, tab in (("seeds", rows), ("cost", cost)):
    t = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + "\n".join(tab) + "\n" + m[2], t, flags=re.S)  # noqa: B023
p.write_text(t)
