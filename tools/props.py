#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json.

Run from /verif:  python3 tools/props.py
"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []          # properties
NA = {}         # id -> reason (property not claimed)
CK = {}         # id -> (technique, level, level_note)

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

def check(id, technique, level_note, level="other"):
    CK[id] = (technique, level, level_note)

def na(id, reason):
    NA[id] = reason

exec(open(os.path.join(V, "tools", "props_data.py")).read())
exec(open(os.path.join(V, "tools", "props_claims.py")).read())

def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for i in ids:
        assert (i in CK) != (i in NA), i
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1,
             setup_cmd="bash tools/setup.sh",
             checks=[dict(property=i,
                          quick_cmd="python3 tools/run.py %s" % i,
                          thorough_cmd="python3 tools/run.py %s --thorough" % i,
                          evidence_file="evidence/%s.json" % i,
                          technique=CK[i][0], level=CK[i][1], level_note=CK[i][2])
                     for i in ids if i in CK],
             not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
             notes="All checks are static: they parse, compile to LLVM IR, abstractly interpret or "
                   "disassemble /repo's current sources; nothing of /repo is executed.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
