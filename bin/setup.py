#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the harness crate is well-formed. Builds nothing: every check builds what it needs from /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for t in ("cbmc", "goto-cc", "goto-instrument"):
    if not os.path.exists(check.KBIN + "/" + t): sys.exit("missing " + t)
print(len(check.parse_harnesses()), "harnesses; Kani at", check.KANI)
