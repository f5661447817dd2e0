#!/usr/bin/env python3
"""MANIFEST.json from vf/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        mods = sorted({m["module"] for m in p.get("models", []) + p.get("models_thorough", [])})
        gens = sorted({g["module"] for g in p.get("gens", [])})
        checks.append({
            "property": i,
            "quick_cmd": "bin/check %s quick" % i,
            "thorough_cmd": "bin/check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+/TLC: " + ("model checking of %s; " % ", ".join(mods) if mods else "")
                         + ("replay of behaviours TLC generates from %s in the real code; " % ", ".join(gens) if gens else "")
                         + "TLC trace validation of recorded executions against %s" % p["trace"],
            "level": "model_checking",
            "level_note": p.get("note", "Model checked exhaustively at small constants; the implementation is bound to it by "
                                "trace validation over the recorded executions (bounded inputs), not by proof."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none (no hooks: the drivers use the public interface only)", "enable": "not needed", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not applicable")
