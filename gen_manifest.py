#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json
import os

import plan

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, rest = [], []
for p in props:
    i = p["id"]
    if i not in plan.PLAN:
        rest.append(dict(property=i, reason="The check is not built yet."))
        continue
    pl = plan.PLAN[i]
    mods = sorted({j[0] for j in pl["quick"]})
    checks.append(dict(
        property=i,
        quick_cmd="python3 check.py %s --tier quick" % i,
        thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=pl.get("technique", "TLC model checking of the TLA+ module%s %s; every emitted behaviour is replayed into the crates"
                         % ("s" if len(mods) > 1 else "", ", ".join(mods))),
        level="model_checking",
        level_note=pl.get("note", "Exhaustive over the bounded state space of the configurations named in the evidence; the code is "
                          "compared on every behaviour TLC emits. Trusts TLC, the reading of X.690 in the specification, "
                          "and that the sampled octets and sizes represent the ones between them."),
    ))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=rest,
               notes="Specification in spec/, replay harness in harness/, runner check.py, plan in plan.py; see DESIGN.md. "
                     "No hooks: everything is observed through the public API."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
