#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness files."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
props = [json.loads(l) for l in open(check.VERIF + "/properties.jsonl")]
hs = check.parse_harnesses().values()
NA = {"C26": "Quantifies over programs that must (not) compile: the verdict is the compiler's type checker and the macro's parser on a given "
             "program text; there is no input variable of the crate's code a solver could range over. Left to the repository's compile-fail doc tests."}
checks, na = [], []
for p in props:
    i = p["id"]
    q = [h for h in hs if i in h["props"] and h["tier"] == "quick"]
    t = [h for h in hs if i in h["props"]]
    if i in NA or not q:
        na.append({"property": i, "reason": NA.get(i, "No check built yet (harnesses planned, see DESIGN.md).")}); continue
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "level": "model_checking",
        "technique": "solver-based bounded model checking of the compiled crate (Kani: Rust MIR to GOTO; CBMC: symbolic execution to SAT), counterexamples replayed natively",
        "level_note": "%d harnesses quick, %d thorough: each is decided by the SAT solver for every value of its symbolic inputs within the sizes, counts and history lengths "
            "written in it (see DESIGN.md, section %s, and the evidence file); loop and block-size bounds are asserted, not assumed. Trusts Kani's translation, CBMC and "
            "harness/memlib.c (allocator and memory-copy model). Says nothing beyond the bounds or about other instantiations of the generics." % (len(q), len(t), i)})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known_findings.txt."},
          open(check.VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
