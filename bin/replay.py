#!/usr/bin/env python3
"""Re-executes a recorded counterexample on the real code: replay.py evidence/Cxx-replay.json
Exit 1 if the violation shows again, 0 if the property held for these inputs."""
import json, shutil, sys, tempfile, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1]))
h = check.parse_harnesses()[d["harness"]]
work = tempfile.mkdtemp(prefix="vp-replay-")
try:
    shutil.copytree(check.VERIF + "/harness", work + "/h", ignore=shutil.ignore_patterns("target"))
    v, t = check.Native(work).run(h, d["inputs"], d["profile"], d["fill"])
    print("%s: %s inputs %s: %s\n%s" % (d["property"], d["harness"], d["inputs"], v, t))
    sys.exit(1 if v == "violated" else 0 if v == "held" else 2)
finally:
    shutil.rmtree(work, ignore_errors=True)
