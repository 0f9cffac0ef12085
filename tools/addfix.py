#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.jsonl (a fixed entry suppresses nothing)"""
import json, os, sys
p, c, w = sys.argv[1:4]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
with open(path, "a") as f:
    f.write(json.dumps(dict(status="fixed", property=p, commit=c, what=w, line=f"fixed: property={p} {c} {w}")) + "\n")
