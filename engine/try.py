import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, irparse, re
from execu import *
import solve
def main():
    src = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else "."
    tree = "/tmp/w/tree"
    t0=time.time()
    build.extract(tree); d = build.compile_sym(src, tree, "/tmp/w/out.ll")
    print("compile", time.time()-t0); t0=time.time()
    m = irparse.parse_module(open("/tmp/w/out.ll", errors="surrogateescape").read())
    print("parse", time.time()-t0)
    from driver import run_proof
    for n in m.funcs:
        if n.startswith("PROOF_") and re.search(pat, n):
            r = run_proof(m, n, d, trace=int(os.environ.get("TRACE","0")), timeout_ms=int(os.environ.get("TMO","20000")), more={"wide": 2, "cells": 1} if os.environ.get("WIDE") else None)
            print(n, r["status"], "obl", r["nobl"], "time %.1f" % r["time"], "loops", [(l["func"][:40],l["candidates"],l["invariants"],l["user"]) for l in r["loops"]])
            for o in r["failed"]: print("   FAIL", o)
            if r.get("error"): print("   ERR", r["error"])
main()
