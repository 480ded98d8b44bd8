#!/usr/bin/env python3-vt
"""BOUNDS.md: every scenario of every property with its bounds and tier"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = ["# Scenarios and bounds (generated by tools/mkbounds.py)", ""]
for i in range(1, 99):
    try:
        m = importlib.import_module("scen.c%02d" % i)
    except ImportError:
        continue
    out += ["## C%02d" % i, "", "Assumptions: " + "; ".join(getattr(m, "ASSUMPTIONS", [])) if getattr(m, "ASSUMPTIONS", None) else "", "",
            "| scenario | arguments | bounds | tier |", "|---|---|---|---|"]
    rows = {}
    for s in m.SCENARIOS:
        doc = (getattr(m, s["fn"]).__doc__ or "").strip().split("\n")[0]
        args = s.get("args", {})
        lengths = set(args) == {"n"} and s.get("bounds") == "length %d, any content" % args["n"]
        key = (s["fn"] + (" - " + doc if doc else ""), "" if lengths else ", ".join("%s=%s" % x for x in sorted(args.items())),
               "" if lengths else s.get("bounds", ""), s.get("tier", "quick"))
        rows.setdefault(key, []).append(args.get("n"))
    for (f, args, bounds, tier), ns in rows.items():
        if not args and not bounds and ns[0] is not None:
            args, bounds = "n=" + ", ".join(map(str, sorted(ns))), "those lengths, any content"
        out.append("| %s | %s | %s | %s |" % (f, args, bounds, tier))
    out.append("")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "BOUNDS.md"), "w").write("\n".join(out))
