"""Discharging obligations: own quantifier instantiation to a quantifier-free problem, then z3 (cvc5 as second back end)."""
import re
import z3, time, subprocess, tempfile, os, itertools
from terms import *

STATS = {"queries": 0, "time": 0.0, "z3": 0, "cvc5": 0, "instances": 0}
MAXINST = 600

def top_literals(fs):
    pos, neg = set(), set()
    st = list(fs)
    while st:
        f = st.pop()
        if z3.is_and(f): st.extend(f.children()); continue
        if z3.is_not(f):
            g = f.arg(0)
            if z3.is_app(g) and g.num_args() == 0 and g.decl().kind() == z3.Z3_OP_UNINTERPRETED: neg.add(g.decl().name())
            elif z3.is_or(g): st.extend(z3.Not(c) for c in g.children())
        elif z3.is_app(f) and f.num_args() == 0 and f.decl().kind() == z3.Z3_OP_UNINTERPRETED: pos.add(f.decl().name())
    return pos, neg

def instantiate(fs, rounds=3, bounded=None, extra=()):
    """yields successively stronger quantifier-free lists"""
    forms = list(fs)
    done_q = set(); G = {}; seen = set()
    pos, neg = top_literals(fs)
    fresh = list(forms); nq = []
    total = 0
    insted = set()
    allq = []
    def absorb(f):
        apps, qs = apps_of(f)
        for fn, d in apps.items():
            g = G.setdefault(fn, {})
            for k, t in d.items():
                if k not in g: g[k] = t
        for q in qs:
            if q not in done_q: done_q.add(q); nq.append(q)
    for f in forms: absorb(f)
    for r in range(rounds + 1):
        # definitions of new atoms
        while nq:
            qn = nq.pop(); a = QATOMS[qn]; allq.append(a)
            if bounded is not None:
                B = bounded; cs = []
                ranges = [range(B) for _ in a.vars]
                for combo in itertools.product(*ranges):
                    sub = [(v, z3.simplify(BV(lo, 64) + z3.BitVecVal(d, 64))) for v, (lo, hi), d in zip(a.vars, a.rng, combo)]
                    cs.append(z3.substitute(a.body, *sub))
                lim = [z3.Or(BV(hi, 64) - BV(lo, 64) <= B, BV(hi, 64) <= BV(lo, 64)) for lo, hi in a.rng]
                f = z3.And(a.q == z3.And(*cs), *lim)
                forms.append(f); absorb(f)
            elif qn not in pos:
                nb = z3.Not(z3.substitute(a.body, *zip(a.vars, a.sk)))
                f = nb if qn in neg else z3.Or(a.q, nb)
                forms.append(f); absorb(f)
        if bounded is not None:
            if not nq: break
            continue
        if r > 0 or not any(a.q.decl().name() not in neg for a in allq): yield forms
        if r == rounds: return
        new = []
        Gs = {fn: list(d.values()) for fn, d in G.items()}
        for a in allq:
            qn = a.q.decl().name()
            if qn in neg: continue
            cands = []
            for v in a.vars:
                c = {}
                for fn, rest, co in a.trig[v.decl().name()]:
                    if co == 0:
                        for t in Gs.get(fn, ()):
                            b = unify(rest, t, v)
                            if b is None or b is True or b.size() != 64: continue
                            d = lin_of(b); c.setdefault(d.key(), d)
                        continue
                    for t in Gs.get(fn, ()):
                        # co*v + rest = t
                        d = lin_of(t).add(rest, -1)
                        if co == -1: d = d.scale(-1)
                        key = d.key()
                        if key not in c: c[key] = d
                if not a.trig[v.decl().name()]:
                    for fn, ts in Gs.items():
                        for t in ts:
                            d = lin_of(t); c.setdefault(d.key(), d)
                for t in extra:
                    d = lin_of(t); c.setdefault(d.key(), d)
                cands.append(c)
            for combo in itertools.product(*[list(c.items()) for c in cands]):
                k = (qn,) + tuple(x[0] for x in combo)
                if k in seen: continue
                seen.add(k); total += 1
                if total > MAXINST: break
                inst = a.insts.get(k)
                if inst is None:
                    inst = z3.substitute(a.body, *[(v, z3.simplify(BV(x[1].bv(), 64))) for v, x in zip(a.vars, combo)])
                    inst = z3.simplify(inst)
                    a.insts[k] = inst
                if z3.is_true(inst): continue
                f = inst if qn in pos else z3.Or(z3.Not(a.q), inst)
                new.append(f)
            if total > MAXINST: break
        STATS["instances"] += len(new)
        if not new and not nq:
            if r == 0: yield forms
            return
        for f in new: forms.append(f); absorb(f)
    if bounded is not None: yield forms

def one_check(forms, timeout_ms, logic):
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", int(timeout_ms))
    for f in forms: s.add(f)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    if r == z3.sat: return "sat", s.model()
    return ("unsat", None) if r == z3.unsat else ("unknown", None)

def raw_check(forms, timeout_ms, logic="QF_UFBV", quick_sat=False):
    """portfolio of z3 configurations; a 'sat' is only believed from the full UF+BV configuration"""
    STATS["queries"] += 1; STATS["z3"] += 1
    t0 = time.time()
    try:
        if logic != "QF_UFBV": return one_check(forms, timeout_ms, logic)
        r, m = one_check(forms, 250, "QF_UFBV")
        if r != "unknown" or timeout_ms <= 250: return r, m
        txt = smt2_text(forms)
        # linear index arithmetic: cvc5 with the bit-vectors read as integers is often immediate
        ij = Race([cvc5_start(txt, min(timeout_ms, 6000), ["--solve-bv-as-int=" + k]) for k in ("sum", "iand")])
        job = None
        try:
            a = cvc5_result(ij, min(1.0, timeout_ms / 2000)) if ij else "unknown"
            if a == "unsat": return "unsat5", None
            if a == "sat" and quick_sat: return "sat", None
            r, m = one_check(forms, max(300, timeout_ms // 10), "QF_UFBV")
            if r != "unknown": return r, m
            a = cvc5_result(ij, 0.01) if ij else "unknown"
            if a == "unsat": return "unsat5", None
            if a == "sat" and quick_sat: return "sat", None
            job = cvc5_start(txt, timeout_ms, []) if timeout_ms >= 2000 else None
            r, m = one_check(forms, timeout_ms // 4, "QF_BV")
            if r == "unsat" or (r == "sat" and quick_sat): return r, m
            if job and cvc5_result(job, 0.05) == "unsat": return "unsat5", None
            if ij and cvc5_result(ij, 0.01) == "unsat": return "unsat5", None
            if r == "unknown" and job and cvc5_result(job, timeout_ms / 2000) == "unsat": return "unsat5", None
            return one_check(forms, timeout_ms, "QF_UFBV")
        finally:
            if job: cvc5_kill(job)
            if ij: cvc5_kill(ij)
    finally:
        STATS["time"] += time.time() - t0

class Race:
    def __init__(s, jobs): s.jobs = [j for j in jobs if j]
    def __bool__(s): return bool(s.jobs)
def smt2_text(forms):
    s = z3.Solver()
    for f in forms: s.add(f)
    return "(set-logic ALL)\n" + re.sub(r"\b(bv[su](?:rem|div|mod))_i\b", r"\1", s.to_smt2())

def cvc5_start(txt, timeout_ms, args):
    fh = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    fh.write(txt); fh.close()
    STATS["cvc5"] += 1
    try: return subprocess.Popen(["cvc5", "--tlimit=%d" % timeout_ms] + args + [fh.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), fh.name
    except OSError: os.unlink(fh.name); return None

def cvc5_result(job, wait):
    if isinstance(job, Race):
        end = time.time() + wait
        while True:
            rs = [cvc5_result(j, 0.001) for j in job.jobs]
            for r in rs:
                if r != "unknown": return r
            if all(j[0].poll() is not None for j in job.jobs) or time.time() > end: return "unknown"
            time.sleep(0.01)
    try: job[0].wait(max(wait, 0.01))
    except subprocess.TimeoutExpired: return "unknown"
    if not hasattr(job[0], "answer"): job[0].answer = job[0].stdout.read()
    o = job[0].answer
    return "unsat" if o.startswith("unsat") else "sat" if o.startswith("sat") else "unknown"

def cvc5_kill(job):
    if isinstance(job, Race):
        for j in job.jobs: cvc5_kill(j)
        return
    if job[0].poll() is None: job[0].kill(); job[0].wait()
    job[0].stdout.close()
    try: os.unlink(job[1])
    except OSError: pass

def cvc5_check(forms, timeout_ms):
    s = z3.Solver()
    for f in forms: s.add(f)
    txt = smt2_text(forms)
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt); p = fh.name
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, p], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5).stdout
    except Exception:
        o = ""
    os.unlink(p)
    STATS["cvc5"] += 1; STATS["time"] += time.time() - t0
    if o.startswith("unsat"): return "unsat"
    if o.startswith("sat"): return "sat"
    return "unknown"

def has_fp(forms):
    seen = set(); st = list(forms)
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_fp(x) or z3.is_fprm(x): return True
        st.extend(x.children())
    return False

def cone(fs, goal):
    """relevance filter: hypotheses sharing uninterpreted symbols (transitively) with the goal"""
    return fs

def check(fs, timeout_ms=10000, rounds=3, bounded=None, logic=None, use_cvc5=True, quick_sat=False):
    """is the conjunction fs satisfiable?  -> ('unsat'|'sat'|'unknown', model, backend)"""
    fs = [B(f) for f in fs]
    if any(z3.is_false(f) for f in fs): return "unsat", None, "trivial"
    fp = logic is None and has_fp(fs)
    lg = logic if logic else (None if fp else "QF_UFBV")
    res, model = "unknown", None
    last = None
    for forms in instantiate(fs, rounds, bounded):
        last = forms
        res, model = raw_check(forms, timeout_ms, lg, quick_sat)
        if res == "unsat5": return "unsat", None, "cvc5"
        if res == "unsat": return "unsat", None, "z3"
        if res == "unknown":
            break
    if res == "unknown" and use_cvc5 and last is not None:
        r = cvc5_check(last, timeout_ms)
        if r == "unsat": return "unsat", None, "cvc5"
        if r == "sat": return "sat", None, "cvc5"
    return res, model, "z3"
