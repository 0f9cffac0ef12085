#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (run after editing them)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
from props import PROPS

K = "src/placo/kinematics/"
DATA = []


def P(id, title, statement, over, text, why, files, mech, claim=True, note="", na=None):
    DATA.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech]), note=note, na=na))


exec(open(os.path.join(HERE, "properties_text.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for d in DATA:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps({k: v for k, v in d.items() if k not in ("note", "na")}) + "\n")
    checks, na = [], []
    for d in DATA:
        if d["na"]:
            na.append(dict(property=d["id"], reason=d["na"]))
            continue
        if d["id"] not in PROPS:
            raise SystemExit("no check for " + d["id"])
        checks.append(dict(property=d["id"], quick_cmd=f"python3 tools/check.py {d['id']} quick",
                           thorough_cmd=f"python3 tools/check.py {d['id']} thorough",
                           technique="deterministic simulation with fault injection (seeded search, reference-model oracle)",
                           level=PROPS[d["id"]]["level"], level_note=d["note"]))
    exes = sorted({s["exe"] for p in PROPS.values() for s in p["scenarios"]})
    m = dict(version=1, setup_cmd="python3 tools/build.py " + " ".join(exes), checks=checks, not_applicable=na,
             notes="No hooks in /repo: every seam (allocator, QP solver, rand, file access, threads) is a symbol the simulator's "
                   "executable defines ahead of the shared libraries. /repo only has fix: commits (known_findings.jsonl).")
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
