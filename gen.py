#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os
import props, specs

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {"absint": "abstract interpretation of the LLVM IR under a most-general client",
        "types": "type-level encodings and compile-fail witnesses",
        "lint": "rules over every header or printf-style text, decided by the compiler front end and its IR"}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
checks, na = [], []
for p in props.PROPS:
    s = specs.SPECS.get(p["id"])
    if s is None:
        na.append(dict(property=p["id"], reason=p["na"] or "not decided yet: check under construction"))
        continue
    tech = s.get("technique") or "; ".join(TECH[k] for k in ("absint", "types", "lint") if s.get(k))
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique="static analysis: " + tech, level=s.get("level", "proof"),
                       level_note=s.get("note") or "Sound for the stated client over /repo's current source, within: " + "; ".join(
                           ["trusts clang's lowering to IR, the interpreter in engine/ and its models of the C and C++ library"] + s.get("assumptions", []))))
json.dump(dict(version=1, setup_cmd="make -s -j8 -C engine", checks=checks, not_applicable=na,
               notes="properties.jsonl and this file are generated by gen.py from props.py and specs.py; DESIGN.md says how each property is decided."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
