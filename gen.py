#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import ALL
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in ALL:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["anchors"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
TRUST = " Trusts clang's -O0 bitcode of the harness and headers, the instrumentation pass, the symbolic runtime, z3/cvc5; real-arithmetic harnesses ignore rounding unless a tolerance or the IEEE theory is named."
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "technique": "symbolic execution of the compiled C++ (LLVM IR) with SMT-decided obligations (z3/cvc5), counterexamples replayed natively",
                 "level": "model_checking", "level_note": ("Bounded: " + p["bounds"] + ". Outside: " + p["outside"] + "." + TRUST)} for p in ALL if p["files"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"] or "check not built yet"} for p in ALL if not p["files"]],
     "notes": "No hooks: the harnesses compile the public headers of /repo unchanged. Fixes in /repo are listed in known_findings.json."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

D = os.path.join(H, "DESIGN.md"); d = open(D).read(); a, b = "<!-- generated by gen.py: begin -->", "<!-- generated by gen.py: end -->"
t = ""
for p in ALL:
    t += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["files"]:
        t += "* decided by: `harness/%s.cpp`%s\n* bounds: %s\n* outside: %s\n" % (".cpp`, `harness/".join(p["files"] + p.get("thorough_files", [])), " - " + p["how"] if p.get("how") else "", p["bounds"], p["outside"])
        if p["assumptions"]: t += "* assumes: %s\n" % "; ".join(p["assumptions"])
        t += "\n"
    else: t += "* not applicable: %s\n\n" % (p["na"] or "check not built yet")
d = d[:d.index(a) + len(a)] + "\n" + t + d[d.index(b):]
f = json.load(open(os.path.join(H, "known_findings.json")))
i = d.index("All were found by these checks"); j = d.index("## Planted changes"); first = d[i:].split("\n")[0]
d = d[:i] + first + "\n\n" + "".join("* %s\n" % x for x in f["fixed"]) + "".join("* known finding (not repaired): property=%s %s\n" % (x["property"], x["what"]) for x in f["findings"]) + "\n" + d[j:]
bugs = json.load(open(os.path.join(H, "tools", "bug_results.json"))) if os.path.exists(os.path.join(H, "tools", "bug_results.json")) else {}
rows = "| planted change | property | needs | caught by |\n|---|---|---|---|\n"
sd = os.path.join(H, "seeded")
for b_ in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m_ = json.load(open(os.path.join(sd, b_, "meta.json"))); rows += "| %s | %s | %s | %s |\n" % (b_, m_["property"], m_["needs"].replace("|", "/"), bugs.get(b_, "?"))
a, b = "<!-- bugs: begin -->", "<!-- bugs: end -->"
d = d[:d.index(a) + len(a)] + "\n" + rows + d[d.index(b):]
open(D, "w").write(d)
