#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from /repo's fix: commits.
Which property each belongs to is listed here; known: lines are kept."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {l.split(" ", 1)[1].strip(): l.split(" ", 1)[0] for l in open(os.path.join(V, "tools", "fixes.txt")) if l.strip()}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout.splitlines()
p = os.path.join(V, "known-findings.txt")
keep = [l for l in open(p).read().splitlines() if l.strip() and not l.startswith("fixed:")]
out = []
for l in log:
    h, s = l.split(" ", 1)
    s = s[5:]
    if s not in MAP:
        print("no property for:", s)
        continue
    out.append("fixed: property=%s %s %s" % (MAP[s], h, s))
open(p, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed,", len(keep), "kept")
