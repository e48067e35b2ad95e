#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; checks do not use it)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/lib")
import props

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)), na))


exec(open(ROOT + "/lib/properties_text.py").read())

assert len({p["id"] for p, _ in P}) == len(P)
with open(ROOT + "/properties.jsonl", "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, reason in P:
    id = p["id"]
    if id in props.PROPS:
        s = props.PROPS[id]
        checks.append(dict(
            property=id, quick_cmd="python3 check.py %s --tier quick" % id, thorough_cmd="python3 check.py %s --tier thorough" % id,
            evidence_file="evidence/%s.json" % id,
            technique="symbolic execution of the compiled C++ (LLVM bitcode) with an SMT solver (z3) deciding every assertion and every branch over all bounded inputs",
            level="model_checking",
            level_note="Bounds: %s. Outside: %s. Trusts clang's bitcode, the executor in /verif/engine (cross-checked by native replay of sampled paths and of every counterexample) and z3."
                       % (s["bounds"], s["outside"])))
    else:
        na.append(dict(property=id, reason=reason or "no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks: /repo's sources are compiled as they are. See DESIGN.md."),
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
