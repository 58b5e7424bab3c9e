#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]   decide one property by deductive verification of /repo's current sources.

exit 0: every obligation discharged.   exit 1 + VIOLATION line: an obligation fails.   exit 2: the check itself could not run.
"""
import sys, os, re, json, time, glob, shutil, tempfile, subprocess, atexit, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import multiprocessing as mp
import build, irparse

T0 = time.time()
def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def find_sources(prop):
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "contracts", "*.cpp"))):
        names = re.findall(r"^\s*PROOF\((%s_\w+)\)" % prop, open(p).read(), re.M)
        if names: out.append((p, names))
    return out

MODS = {}
def worker(task):
    src, name, kw = task
    try:
        import driver
        m, d = MODS[src]
        return src, name, driver.run_proof(m, "PROOF_" + name, d, **kw)
    except BaseException as ex:
        return src, name, {"proof": name, "status": "error", "error": "engine: %r %s" % (ex, traceback.format_exc()[-2000:]), "errkind": "engine", "nobl": 0, "discharged": 0, "failed": [],
                           "time": 0, "solver_time": 0, "queries": 0, "backends": {}, "kinds": {}, "loops": [], "paths": 0, "functions": [], "contracts": [], "assumed": {}, "labels": []}

def proc_main(q, task):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    q.put(worker(task))
    q.close(); q.join_thread()
    os._exit(0)

def dead(name, why, kind="budget"):
    return {"proof": name, "status": "error", "error": why, "errkind": kind, "nobl": 0, "discharged": 0, "failed": [], "time": 0, "solver_time": 0, "queries": 0,
            "backends": {}, "kinds": {}, "loops": [], "paths": 0, "functions": [], "contracts": [], "assumed": {}, "labels": []}

def run_all(tasks, jobs, deadline, on=None):
    """each proof in its own process; -> list of (src, name, result)"""
    ctx = mp.get_context("fork")
    res = []; run = []; todo = list(tasks)
    while todo or run:
        while todo and len(run) < jobs:
            t = todo.pop(0); q = ctx.SimpleQueue() if False else ctx.Queue()
            p = ctx.Process(target=proc_main, args=(q, t)); p.start(); run.append((p, q, t, time.time()))
        for it in list(run):
            p, q, t, s = it
            r = None
            try: r = q.get_nowait()
            except Exception: pass
            if r is None and not p.is_alive():
                try: r = q.get(timeout=0.5)
                except Exception: r = (t[0], t[1], dead(t[1], "verifier process ended (code %s)" % p.exitcode, "engine"))
            hard = min(deadline, s + t[2]["budget"] * 1.3 + 30)
            if r is None and time.time() > hard:
                p.kill(); r = (t[0], t[1], dead(t[1], "budget: verifier killed after %.0f s" % (time.time() - s)))
            if r is not None:
                p.join(1)
                if p.is_alive(): p.kill()
                run.remove(it); res.append(r)
                if on and on(r):
                    for p2, _, _, _ in run: p2.kill()
                    return res
        time.sleep(0.01)
    return res

class Native:
    def __init__(s, scratch): s.scratch = scratch; s.bins = {}
    def get(s, src):
        if src not in s.bins:
            out = os.path.join(s.scratch, "nat_" + os.path.basename(src)[:-4])
            try: build.compile_native(src, out); s.bins[src] = (out, None)
            except build.BuildError as ex: s.bins[src] = (None, str(ex))
        return s.bins[src]
    def replay(s, src, name, tape):
        b, err = s.get(src)
        if b is None: return None, err
        f = os.path.join(s.scratch, "tape_%s_%d" % (name, time.time_ns()))
        open(f, "w").write("\n".join(tape) + "\n")
        try: r = subprocess.run([b, name, "tape", f], capture_output=True, text=True, errors="replace", timeout=60, cwd=s.scratch)
        except subprocess.TimeoutExpired: return False, "timeout"
        m = re.search(r"VC-FAIL (.*)", r.stderr)
        return r.returncode == 10, (m.group(1) if m else "") + "\n" + r.stderr[-1500:]
    def search(s, src, name, seed, secs, n=8):
        b, err = s.get(src)
        if b is None: return None, err, None
        ps = []
        for i in range(n):
            o = os.path.join(s.scratch, "found_%s_%d" % (name, i))
            ps.append((o, subprocess.Popen([b, name, "search", str(seed * 1000 + i), str(secs), o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=s.scratch)))
        found = None; stats = ""
        for o, p in ps:
            try: so, se = p.communicate(timeout=secs + 40)
            except subprocess.TimeoutExpired: p.kill(); so, se = p.communicate()
            stats += so
            if found is None and os.path.exists(o):
                tape = [l for l in open(o).read().split("\n") if l[:2] in ("a ", "r ")]
                ok, out = s.replay(src, name, tape)
                if ok: found = (tape, out)
                if found:
                    for _, q in ps:
                        if q.poll() is None: q.kill()
        return (True, found[1], found[0]) if found else (False, stats, None)

def load_known():
    p = os.path.join(HERE, "known-findings.jsonl"); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                j = json.loads(l)
                if j.get("status") == "finding": out.append(j)
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    outdir = os.path.join(HERE, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    srcs = find_sources(prop)
    if not srcs: print("no contracts for", prop); sys.exit(2)
    tree = os.path.join(scratch, "tree")
    patched = build.extract(tree)
    native = Native(scratch)
    ce = {}
    total = 560 if tier == "quick" else 3000
    tasks = []; dirs = {}; nf = 0
    import driver
    for src, names in srcs:
        ll = os.path.join(scratch, os.path.basename(src)[:-4] + ".ll")
        try:
            d = build.compile_sym(src, tree, ll)
            m = irparse.parse_module(open(ll, errors="surrogateescape").read())
            m.dem = build.demangle(list(m.funcs) + list(m.decls)); m.root = tree
            MODS[src] = (m, d); dirs[src] = d
        except (build.BuildError, irparse.ParseError) as ex:
            ce[src] = str(ex)
            log("cannot bring", os.path.basename(src), "to the verifier:", str(ex)[-1500:])
            continue
        for n in names:
            kw = {"budget": 520 if tier == "quick" else 1500, "timeout_ms": 20000 if tier == "quick" else 120000, "maxfail": 3}
            for b in d.get("bounded", []):
                rx, k = b.split()
                if re.fullmatch(rx, n): kw["bounded"] = int(k)
            tasks.append((src, n, kw))
    w = {}
    for src in dirs:
        for o in dirs[src].get("opt", []):
            rx, kv = o.split(None, 1)
            mm = re.search(r"weight=(\d+)", kv)
            if mm:
                for _, n, _ in tasks:
                    if re.fullmatch(rx, n): w[n] = int(mm.group(1))
    tasks.sort(key=lambda t: -w.get(t[1], 1))
    log("%d contracts in %d files" % (len(tasks), len(srcs)))
    def show(r):
        x = r[2]
        log("%-34s %-7s %3d/%3d obligations %5.1fs solver %5.1fs" % (r[1], x["status"], x["discharged"], x["nobl"], x["time"], x["solver_time"]), (x["error"] or "").split("\n")[0][:160])
    known = [k for k in load_known() if k["property"] == prop]
    confirmed = {}; searched = set()
    def done(r):
        """a failed obligation whose model fails on the real code settles the matter"""
        show(r)
        src, name, x = r
        if any(k["proof"] == name for k in known): return False
        for f in x["failed"]:
            if f.get("tape"):
                ok, out = native.replay(src, name, f["tape"])
                if ok: confirmed[name] = ("verifier model", f["tape"], out, f["label"]); return True
        if x["status"] != "proved" and tier == "quick":
            ok, out, tape = native.search(src, name, seed, 4, 4); searched.add(name)
            if ok: confirmed[name] = ("random search", tape, out, x["failed"][0]["label"] if x["failed"] else x["error"]); return True
        return False
    res = run_all(tasks, jobs, T0 + total, done)
    if not confirmed and tier == "quick":
        # no failing input in sight: once more, with more solver time, fewer competitors and invariant templates over shifted and reversed loop variables
        again = [t for t in tasks for r in res if r[1] == t[1] and r[2]["status"] != "proved" and r[2].get("errkind") != "unsupported"]
        left = T0 + 760 - time.time()
        if again and left > 60:
            log("second attempt:", " ".join(t[1] for t in again))
            res2 = run_all([(s, n, dict(kw, budget=left - 10, timeout_ms=60000, more={"wide": 2, "cells": 1})) for s, n, kw in again for kw in [kw]], jobs, T0 + 760, done)
            good = {r[1] for r in res2 if r[2]["status"] == "proved"}
            res = [r for r in res if r[1] not in good] + [r for r in res2 if r[1] in good]
    bad = [r for r in res if r[2]["status"] != "proved"]
    violations = []; knownhits = []; broken = []
    deadline = T0 + 840 if tier == "quick" else T0 + 6000
    for src, msg in ce.items():
        names = [n for s, n in [(s, n) for s, ns in srcs for n in ns] if s == src]
        b, err = native.get(src)
        if b is None: broken.append("%s: neither verifier nor compiler accept the contract file\n%s\n%s" % (src, msg, err)); continue
        bad += [(src, n, dead(n, "extraction: " + msg[-600:], "extraction")) for n in names]
    for src, name, r in bad:
        rep = {"property": prop, "proof": name, "contract_file": os.path.relpath(src, HERE), "failed_obligations": r["failed"], "verifier_error": r["error"]}
        found = None
        if name in confirmed: found = confirmed[name][:3]
        elif confirmed: continue # one confirmed violation is enough
        # 1. replay the verifier's own models
        for f in r["failed"]:
            if f.get("tape") and not found:
                ok, out = native.replay(src, name, f["tape"])
                if ok: found = ("verifier model", f["tape"], out); break
        # 2. random inputs against the same contract
        if not found and time.time() < deadline - 40:
            ok, out, tape = native.search(src, name, seed, 20 if tier == "quick" else 120)
            if ok: found = ("random search", tape, out)
            elif ok is None: rep["native_build"] = out
        # 3. finite re-run of the same contracts: exact models
        if not found and src in MODS and time.time() < deadline - 150:
            kws = [{"budget": 60, "timeout_ms": 20000, "maxfail": 2, "bounded": k, "unroll": k + 2} for k in (2, 4)]
            for s2, n2, r2 in run_all([(src, name, kw) for kw in kws], jobs, time.time() + 100):
                for f in r2["failed"]:
                    if f.get("tape") and not found:
                        ok, out = native.replay(src, name, f["tape"])
                        if ok: found = ("bounded model", f["tape"], out); rep.setdefault("bounded_obligation", f)
        lab = [f["label"] for f in r["failed"]] or [r["error"]]
        if found and not any(k["proof"] == name for k in known): confirmed.setdefault(name, found + (lab[0],))
        rep["obligation"] = lab[0]
        if found:
            rep["counterexample_source"] = found[0]; rep["tape"] = found[1]; rep["replay_output"] = found[2]
        path = os.path.join(outdir, name + ".json")
        rep["replay_cmd"] = "python3-vt /verif/replay.py " + path
        kn = None
        for k in known:
            if k["proof"] == name and re.search(k["obligation"], lab[0] or "") and (not k.get("replay") or (found and re.search(k["replay"], found[2]))): kn = k
        json.dump(rep, open(path, "w"), indent=1)
        if kn: knownhits.append(kn); continue
        violations.append((name, path, bool(found), lab[0]))
    tot = sum(r[2]["nobl"] for r in res); dis = sum(r[2]["discharged"] for r in res)
    bounded = [t[1] for t in tasks if t[2].get("bounded")]
    nb = sum(r[2]["nobl"] for r in res if r[1] in bounded)
    extra = {}
    if tier == "thorough" and not violations and not broken:
        # agreement of contracts and compiled code: random executions of every contract
        runs = 0; comp = 0
        for src, names in srcs:
            for n in names:
                ok, out, tape = native.search(src, n, seed, 20)
                if ok:
                    path = os.path.join(outdir, n + ".json")
                    json.dump({"property": prop, "proof": n, "contract_file": os.path.relpath(src, HERE), "tape": tape, "replay_output": out, "obligation": "contract executed on random inputs"}, open(path, "w"), indent=1)
                    violations.append((n, path, True, out.split("\n")[0]))
                for a, b in re.findall(r"iterations (\d+) completed (\d+)", out or ""): runs += int(a); comp += int(b)
        extra["native_contract_executions"] = comp
    be = {}
    for r in res:
        for k, v in r[2]["backends"].items(): be[k] = be.get(k, 0) + v
    funcs = sorted({f for r in res for f in r[2]["functions"]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - T0, 2),
          "coverage": {"obligations": tot, "discharged": dis, "checker_cmd": "python3-vt check.py %s %s" % (prop, tier),
                       "trusted_base": TRUST, "contracts": [{"name": r[1], "status": r[2]["status"], "obligations": r[2]["nobl"], "discharged": r[2]["discharged"], "by_kind": r[2]["kinds"],
                                                            "solver_s": round(r[2]["solver_time"], 2), "bounded": r[1] in bounded,
                                                            "loops": [{"function": l["func"], "invariants": l.get("invariants"), "user": l.get("user")} for l in r[2]["loops"]],
                                                            "postconditions": r[2]["labels"], "callee_contracts_used": r[2]["contracts"]} for r in sorted(res, key=lambda r: r[1])],
                       "functions_verified": [f for f in funcs if "bss" in f or "::" not in f][:400], "functions_count": len(funcs),
                       "backends": be, "solver_s": round(sum(r[2]["solver_time"] for r in res), 2), "queries": sum(r[2]["queries"] for r in res),
                       "assumed": {k: v for r in res for k, v in r[2]["assumed"].items()}, "bounded_contracts": bounded, "bounded_obligations": nb,
                       "extraction_patches": patched, "violations": [v[0] + ": " + str(v[3])[:200] for v in violations], **extra}}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in knownhits: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if broken:
        print("\n".join(broken))
        if not violations:
            path = os.path.join(outdir, "contract-file.json")
            json.dump({"property": prop, "obligation": "the contract file matches the code", "verifier_error": broken}, open(path, "w"), indent=1)
            violations.append(("contract file", path, False, "the contracts no longer match the code's interface"))
    if violations:
        violations.sort(key=lambda v: not v[2])
        for n, p, f, lab in violations: print("obligation failed in %s: %s" % (n, str(lab).split("\n")[0][:300]))
        n, p, f, lab = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (prop, p, "" if f else " no-failing-input-found"))
        sys.exit(1)
    log("property %s holds: %d/%d obligations discharged in %d contracts" % (prop, dis, tot, len(res)))
    sys.exit(0)

TRUST = ["clang 18 front end and the LLVM passes sroa, simplifycfg, loop-simplify (IR semantics = source semantics)",
         "the verification condition generator in /verif/engine (path exploration, memory model, quantifier instantiation)",
         "z3 and cvc5", "the contract text in /verif/contracts (what the property means)",
         "configuration verified: NDEBUG with assert() turned into obligations; -fignore-exceptions (no exception propagates); malloc/realloc succeed",
         "signed overflow wraps unless an obligation says otherwise; sizes of containers at most 2^32 elements",
         "templates are verified for the instantiations named in the contracts"]

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    main()
