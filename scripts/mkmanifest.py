#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the table below."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {
    "C50": "equality with Asciidoctor's output has no static oracle; it needs running both on inputs",
    "C51": "running time is a runtime quantity; no sound static bound on regex and rescan cost is in reach",
    "C52": "numeric equality of computed lines and columns with positions in the text is a runtime value property; C07/C08 decide the structural part (text and coordinates come from the same slicing operation)",
    "C53": "the text transformation is a value-level function of the title; deciding it needs evaluating it on strings",
    "C54": "path normalisation is a value-level string function; deciding it needs evaluating it on strings",
    "C55": "the decomposition of names is a value-level string function; deciding it needs evaluating it on strings",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for q in props:
    i = q["id"]
    f = os.path.join(ROOT, "checks", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "technique": "static analysis: " + m.TECH,
            "level": "other",
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1,
     "setup_cmd": "cd tool && cargo +nightly build --offline",
     "checks": checks, "not_applicable": na,
     "notes": "All checks read facts that a rustc driver (tool/) extracts from /repo's current source with cargo check; nothing of /repo is executed. The quick check is already exhaustive, so thorough is the same command."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
