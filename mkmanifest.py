#!/usr/bin/env python3
"""writes MANIFEST.json from the check registry and the list of properties"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa")); sys.dont_write_bytecode = True
import checks
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
for p in props:
    try: checks.load(p["id"])
    except KeyError: pass
NA = {"C25": "quantifies over the values a serde implementation and the postcard format round-trip; the codec is an external crate and equality of arbitrary user values is a runtime quantity no static argument over this repository bounds",
      "C26": "liveness under fair scheduling of an external executor and of the transport; the static analysis covers safety of each path, not that external futures make progress"}
TECH = json.load(open(V + "/techniques.json")) if os.path.exists(V + "/techniques.json") else {}
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none: no hook was added to the repository; private items are reached through the compiler's MIR", "enable": "", "source_commits": []},
     "notes": "Every check rebuilds MIR facts of /repo's working tree with a rustc driver (cached by content hash) and decides by static analysis only; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.REG:
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
            "technique": TECH.get(i, "static analysis: path-sensitive abstract interpretation of the type-checked program's MIR (rustc driver), trace obligations on every abstract path"),
            "level": "other", "level_note": "sound-by-construction static analysis over all abstract paths of the anchored functions, within the stated models of external crates; fails closed when an obligation cannot be established"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
