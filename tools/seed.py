#!/usr/bin/env python3
# seed.py SPECFILE [ids...]: confirms planted bugs (builds, stable tests pass, demo 0 -> nonzero) and writes seeded/<id>/
import sys, os, json, subprocess, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = []
def S(id, prop, file, edits, needs, breaks, demo, extra="", flags=""):
    spec.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, extra=extra, flags=flags))
runpy.run_path(sys.argv[1], {"S": S})
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout == ""
for s in spec:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
g++-10 -std=c++17 -O0 -g -w -fno-access-control -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=shift,nonnull-attribute,alignment %s -I/repo/include "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''' % (s["flags"], s["extra"]))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    ok = []
    r = sh("cd /repo && bash %s/demo.sh" % d); ok.append(r.returncode == 0)
    if r.returncode: print(s["id"], "demo on clean:", r.returncode, (r.stdout + r.stderr)[-1500:])
    es = s["edits"] if isinstance(s["edits"], list) else [s["edits"]]
    try:
        for e in es:
            f, a, b = e if len(e) == 3 else (s["file"], e[0], e[1])
            t = open("/repo/" + f, encoding="latin-1", newline="").read()
            assert t.count(a) == 1, (s["id"], t.count(a), a)
            open("/repo/" + f, "w", encoding="latin-1", newline="").write(t.replace(a, b))
        p = subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(p)
        r = sh("cd /repo && bash %s/demo.sh" % d); ok.append(r.returncode != 0 and r.returncode != 3)
        if not ok[-1]: print(s["id"], "demo on patched:", r.returncode, (r.stdout + r.stderr)[-800:])
        r = sh("bash /opt/vp/test.sh /tmp/w/seed.json"); j = json.load(open("/tmp/w/seed.json"))
        miss = sorted((base or set()) - set(j["passed"])); ok.append(len(j["passed"]) >= 62 and not miss)
        if not ok[-1]: print(s["id"], "tests:", miss, r.stdout[-300:] if not j["passed"] else "")
    finally:
        sh("git -C /repo checkout -- .")
    print(s["id"], "OK" if all(ok) else "REJECTED %s" % ok, flush=True)
