#!/usr/bin/env python3
"""replay.py FILE: replay a violation recorded by check.py on the real code.

With a failing input: builds the differential engine against /repo and
evaluates that one case.  Without one: prints the failed obligation and runs
the check of that property again."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
d = json.load(open(sys.argv[1]))
if "case" not in d:
    print(json.dumps(d["failed_obligations"], indent=1))
    sys.exit(subprocess.call([sys.executable, os.path.join(HERE, "check.py"), d["property"]]))
w = tempfile.mkdtemp(prefix="replay.", dir=os.environ.get("VERIF_WORK"))
try:
    n = check.Native(d["property"], w, 1)
    rc = 0
    for simd in ([False, True] if d["property"] == "C16" else [bool(d.get("simd"))]):
        n.build(simd)
        st, why = n.replay(d["case"], simd)
        print("simd" if simd else "portable", st, why)
        rc |= st == "fails"
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(rc)
