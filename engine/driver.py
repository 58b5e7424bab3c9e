import time, re, traceback
from terms import *
import terms, solve
from irparse import *
from sym import *
from execu import *
import build

def run_proof(m, name, d, trace=0, timeout_ms=20000, bounded=None, unroll=8, budget=300, maxfail=None, more=None):
    """verify one PROOF function -> result dict"""
    solve.STATS.update(queries=0, time=0.0, z3=0, cvc5=0, instances=0)
    terms.QATOMS.clear(); terms.BASES.clear(); terms._apps.clear()
    short = name[len("PROOF_"):]
    opts = {"trace": trace}
    for o in d.get("opt", []):
        p, kv = o.split(None, 1)
        if re.fullmatch(p, short):
            for x in kv.split():
                k, _, v = x.partition("="); opts[k] = int(v) if v else True
    opts.update(more or {})
    cls = EngineClass()
    e = cls(m, opts.get("timeout", timeout_ms), bounded, opts.get("bunroll", unroll), opts)
    if "maxfail" in opts: maxfail = opts["maxfail"]
    e.maxfail = maxfail
    t0 = time.time(); e.deadline = t0 + opts.get("budget", budget)
    err = None; kind = None
    if not m.__dict__.get("dem"):
        m.dem = build.demangle(list(m.funcs) + list(m.decls))
    e.demangled = m.dem
    for c in d.get("contract", []):
        pr, rx, stub = c.split("\t") if "\t" in c else re.match(r"(\S+)\s+(.*)\s+(\S+)$", c).groups()
        if re.fullmatch(pr, short):
            hit = 0
            for fn, dm in m.dem.items():
                if re.search(rx, dm) and fn != stub: e.subst[fn] = stub; hit += 1
            if not hit: e.assumed["contract-unmatched:" + rx] = "body used instead of the contract"
    ends = 0; vac = None
    try:
        st = State()
        res = e.call(st, name, [])
        ends = len(res)
        # vacuity: some path reaches the end and its path condition is satisfiable
        reach = False
        for s, _ in res:
            r, _, _ = solve.check(s.pc, 10000, rounds=1, use_cvc5=False, bounded=e.bounded)
            if r != "unsat": reach = True; break
        if not reach and not e.failed and not e.bounded: err = "vacuous: no feasible path reaches the end of the contract"; kind = "vacuous"
        for k, v in e.covers.items():
            if v == "unreachable": err = "vacuous: cover point %s not reachable" % k; kind = "vacuous"
    except Enough: pass
    except Unsupported as u:
        err = "unsupported: %s at %s" % (u, e.loc()); kind = "unsupported"
    except Budget as u:
        err = "budget: %s at %s" % (u, e.loc()); kind = "budget"
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, NotImplementedError, ParseError, ZeroDivisionError, ValueError) as u:
        err = "engine: %r at %s\n%s" % (u, e.loc(), traceback.format_exc()[-3000:]); kind = "engine"
    nob = len(e.obligs)
    if err is None and nob == 0: err = "vacuous: no obligation generated"; kind = "vacuous"
    failed = []
    for o in e.failed:
        l = o.loc
        failed.append({"label": o.label, "kind": o.kind, "status": o.status, "loc": "%s:%s %s" % ((l[0] or "").replace((m.__dict__.get("root") or "/tmp/w/tree") + "/", ""), l[1], l[2]) if l else None,
                       "tape": o.tape, "detail": (o.detail or "")[:800]})
    bk = {}
    for o in e.obligs: bk[o.backend] = bk.get(o.backend, 0) + 1
    kinds = {}
    for o in e.obligs: kinds[o.kind] = kinds.get(o.kind, 0) + 1
    return {"proof": short, "status": "error" if err else ("failed" if failed else "proved"), "error": err, "errkind": kind, "nobl": nob,
            "discharged": sum(1 for o in e.obligs if o.status == "proved"), "failed": failed, "time": time.time() - t0, "solver_time": solve.STATS["time"],
            "queries": solve.STATS["queries"], "backends": bk, "kinds": kinds, "loops": list(e.loops_info.values()), "paths": ends,
            "functions": sorted({m.dem.get(n, n) for n in e.funcs_seen if not n.startswith("PROOF_")}),
            "contracts": sorted({m.dem.get(n, n) for n in e.contracts_used}), "assumed": dict(e.assumed),
            "labels": sorted({o.label for o in e.obligs if o.kind == "assert"})}

def EngineClass():
    try:
        import heap
        return heap.HeapExec
    except ImportError:
        return Exec
