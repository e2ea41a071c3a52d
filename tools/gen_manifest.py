#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE  # noqa: E402
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": "runtime monitoring and sanitizers: " + PROPS[i]["technique"], "level": "exploration",
                       "level_note": PROPS[i].get("note") or "Holds on every generated execution the monitors observed (seeded, counted in the evidence); trusts the reference models in harness/ and the compiler's sanitizers. Not exhaustive."})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "its check is not finished yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py props.py && clang++ --version > /dev/null && ninja --version > /dev/null",
     "checks": checks, "not_applicable": na,
     "hooks": {"guard": "MFAST_VERIFY_ARENA", "enable": "run.py compiles the library with -DMFAST_VERIFY_ARENA in its AddressSanitizer flavours", "source_commits": ["7b74b44"]},
     "notes": "One hook in /repo (poisoned arena blocks); apart from it the monitors observe the library through its public interface and through sanitizer instrumentation of a build of its own made by run.py. Defects found are repaired in /repo by fix: commits or listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
