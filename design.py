#!/usr/bin/env python3
"""Writes DESIGN.md: design_text.md and a section per property (a development aid; no check runs it)."""
import glob, json, os, re, subprocess, collections
import props, specs
HERE = os.path.dirname(os.path.abspath(__file__))
fixes = json.load(open(os.path.join(HERE, "fixes.json")))
byprop = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    byprop[d["property"]].append((os.path.basename(os.path.dirname(f)), d))
fixed = collections.defaultdict(list)
for l in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    fixed[m[1]].append((m[2], m[3]))


def entries(s):
    out = []
    for a in s.get("absint", []):
        src = open(os.path.join(HERE, "witness", a["witness"])).read()
        es = a.get("entries") or re.findall(r"\b(vp_\w+)\s*\(", src)
        es = [e for e in dict.fromkeys(es) if e not in a.get("skip", []) and (not a.get("only") or e in a["only"])]
        out.append((a, es))
    return out


o = [open(os.path.join(HERE, "design_text.md")).read().rstrip(), "", "## 6. The properties", ""]
for p in props.PROPS:
    s = specs.SPECS.get(p["id"])
    o += ["### %s: %s" % (p["id"], p["title"]), "", p["statement"], ""]
    if s is None:
        o += ["*Not applicable.* " + p["na"], ""]
        continue
    rule = s["rule"].replace(specs.ABS, "")
    o += ["* **Quantified over**: " + p["quantifier"]["text"] + ".",
          "* **Decided by**: " + ("abstract interpretation (section 1). " if s.get("absint") else "type-level witnesses. " if s.get("types") else "front-end rules. ") + rule]
    if p["id"] == "C35":
        o += ["* **Witnesses**: those of every property decided by abstract interpretation, compiled with DEBUG_SPINE and the witnesses' legality assumptions, and `witness/debug.cpp` for the misuse that must trip."]
    else:
        for a, es in entries(s):
            t = a.get("thorough_only", [])
            o += ["* **Witness** `witness/%s`%s: %s" % (a["witness"], " (" + " ".join(x for x in a.get("flags", []) if x.startswith("-D")) + ")" if a.get("flags") else "",
                                                     ", ".join("`%s`%s" % (e[3:], " (thorough)" if e in t else "") for e in es))]
    if s.get("types"):
        o += ["* **Witness** `witness/units_types.cpp`, programs that must build or must be rejected, and type facts over all pairs of quantities."]
    if s.get("assumptions"):
        o += ["* **Within**: " + "; ".join(s["assumptions"]) + "."]
    o += ["* **Why not tests**: " + p["why_tests_cant"]]
    for i, d in byprop[p["id"]]:
        o += ["* **Planted bug** %s (caught): %s; needs %s." % (i, d["what_it_breaks"].rstrip("."), d["needs"].rstrip("."))]
    for h, t in fixed[p["id"]]:
        o += ["* **Defect found and repaired** %s: %s." % (h, t.rstrip("."))]
    o += [""]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o))
print(len(o), "lines")
