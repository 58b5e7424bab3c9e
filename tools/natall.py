#!/usr/bin/env python3
# natall.py SRC|all [seconds]: compile the contract files natively and run every contract on random inputs (development aid)
import sys, os, glob, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/engine"); os.chdir(H)
import build
fs = sorted(glob.glob("contracts/*.cpp")) if sys.argv[1] == "all" else [sys.argv[1]]
secs = sys.argv[2] if len(sys.argv) > 2 else "3"
os.makedirs("/tmp/w", exist_ok=True)
for f in fs:
    o = "/tmp/w/nat_" + os.path.basename(f)[:-4]
    try: build.compile_native(f, o)
    except build.BuildError as ex: print(f, "NATIVE BUILD", str(ex)[-1500:]); continue
    names = subprocess.run([o], capture_output=True, text=True).stdout.split()
    ps = [(n, subprocess.Popen([o, n, "search", "7", secs, "/tmp/w/f_" + n], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd="/tmp/w")) for n in names]
    bad = 0
    for n, p in ps:
        so, se = p.communicate()
        if p.returncode: bad += 1; print(n, p.returncode, [l for l in se.split("\n") if "VC-FAIL" in l or "ERROR" in l or "runtime error" in l][:3])
        elif "-v" in sys.argv: print(n, so.strip())
    print(f, len(names), "contracts,", bad, "bad", flush=True)
