#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
FLOW = "typestate dataflow over compiler RTL"
PAIR = "compile-time witnesses and path-wise comparison of RTL effects with library-free references"
STAT = "compile-time witnesses decided by the type checker"
TECH = {**{p: FLOW for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C28")},
        **{p: PAIR for p in ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C21", "C22", "C23", "C26", "C29")},
        **{p: STAT for p in ("C09", "C18", "C20", "C24")},
        "C30": "effect and lifetime analysis of compiler RTL",
        "C25": "compile-time witnesses and effect analysis of compiler RTL",
        "C27": "compile-time witnesses and symbol-table inspection"}
NOTE = {FLOW: "For each analysed shape of lazy function, every path through one call from every earlier state of its cache is examined, with all user code opaque; "
              "so the result covers all inputs and, by induction over calls, all histories for those shapes. Other shapes (more dependencies, deeper nesting) are covered only "
              "in so far as the templates treat them uniformly. Trusts GCC's lowering and the analyser.",
        PAIR: "For each enumerated combination of types and qualifiers, all inputs (values are opaque, all paths compared); types outside of the enumeration are covered only in so far "
              "as the templates treat them uniformly. Trusts GCC's type checker and lowering, and the analyser.",
        STAT: "Decided exactly by GCC's type checker for each enumerated combination of types; types outside of the enumeration only in so far as the templates treat them uniformly."}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    t = TECH[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": "static analysis: " + t, "level": "other",
                   "level_note": NOTE.get(t) or NOTE[PAIR if p in ("C25", "C30") else STAT]})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q lib", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks compile witness programs of their own against /repo/src."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
