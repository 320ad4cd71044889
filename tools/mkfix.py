"""Regenerate the fixed: lines of known_findings.txt from /repo's log (run by hand after a fix: commit).

usage: mkfix.py [<subject prefix>=<property> ...]   keeps known assignments, adds the given ones by order of new commits
"""
import pathlib
import subprocess
import sys

F = pathlib.Path(__file__).resolve().parents[1] / "known_findings.txt"
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
old = F.read_text().splitlines()
prop = {}
for line in old:
    if line.startswith("fixed: property="):
        pid, _, subj = line.removeprefix("fixed: property=").split(" ", 2)
        prop[subj] = pid
new = list(sys.argv[1:])
out = [line for line in old if line.startswith("#")]
for line in log:
    sha, subj = line.split(" ", 1)
    if subj.startswith("fix: "):
        subj = subj[5:]
        if subj not in prop:
            prop[subj] = new.pop(0)
        out.append(f"fixed: property={prop[subj]} {sha} {subj}")
out += [line for line in old if line.startswith("property=")]
F.write_text("\n".join(out) + "\n")
