#!/usr/bin/env python3-vt
"""replay.py FILE   rebuild the contract against /repo and run it on the recorded input"""
import sys, os, json, tempfile, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "engine"))
import build
r = json.load(open(sys.argv[1]))
print("contract  ", r["proof"], "in", r["contract_file"]); print("obligation", r.get("obligation"))
if not r.get("tape"): print("no failing input recorded; verifier output:\n", json.dumps(r["failed_obligations"], indent=1), r["verifier_error"]); sys.exit(1)
d = tempfile.mkdtemp()
try:
    b = os.path.join(d, "b"); build.compile_native(os.path.join(HERE, r["contract_file"]), b)
    t = os.path.join(d, "tape"); open(t, "w").write("\n".join(r["tape"]) + "\n")
    p = subprocess.run([b, r["proof"], "tape", t]); print("exit", p.returncode, "(10 = violated, 0 = holds)"); sys.exit(1 if p.returncode == 10 else 0)
finally: shutil.rmtree(d, ignore_errors=True)
