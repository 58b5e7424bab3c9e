"""Control flow: functions, calls, contracts, loops with inferred/registered invariants, intrinsics."""
import z3, time, re
from terms import *
import terms, solve
from irparse import *
from sym import *

class Cfg:
    __slots__ = ("st", "regs", "blk", "prev", "idx", "inside")   # inside: the block was entered, its phis are done
    def __init__(s, st, regs, blk, prev, idx=0, inside=False): s.st, s.regs, s.blk, s.prev, s.idx, s.inside = st, regs, blk, prev, idx, inside

class Cand:
    """candidate invariant: label + evaluator(st, binding)->Bool"""
    __slots__ = ("label", "ev", "user")
    def __init__(s, label, ev, user=False): s.label, s.ev, s.user = label, ev, user

ALLOC_FN = {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}
FREE_FN = {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}

class Exec(Engine):
    # ------------------------------------------------------------ functions
    def func(e, name):
        name = e.m.aliases.get(name, name)
        f = e.m.funcs.get(name)
        if f is not None: parse_body(e.m, f)
        return f
    def call(e, st, name, args, argtys=None):
        """-> list of (state, value)"""
        if name in e.subst and not e.spec:
            stub = e.subst[name]
            if e.stack and (stub in e.stack): pass
            else:
                e.contracts_used[name] = e.contracts_used.get(name, 0) + 1
                name = stub
        r = e.intrinsic(st, name, args, argtys)
        if r is not None: return r
        f = e.func(name)
        if f is None: raise Unsupported("call to external function %s" % e.dem(name))
        if f.va: raise Unsupported("call to variadic function %s" % name)
        if e.stack.count(name) > e.opts.get("recursion", 6):
            raise Unsupported("recursion without contract: %s" % e.dem(name))
        if not e.spec: e.funcs_seen[name] = e.funcs_seen.get(name, 0) + 1
        regs = {}
        for (t, n, byval), a in zip(f.params, args): regs[n] = a
        e.stack.append(name)
        sv = e.curloc
        try:
            rets, exits, backs = e.run(f, [Cfg(st, regs, f.order[0], None)])
        finally:
            e.stack.pop(); e.curloc = sv
        return e.merge(st, rets, f.ret)
    def dem(e, n): return e.demangled.get(n, n)
    def merge(e, st0, rets, rt):
        """merge return states whose memory is identical"""
        if len(rets) <= 1: return rets
        rt = e.m.resolve(rt)
        groups = {}
        for s, v in rets:
            key = (tuple(sorted((k, id(o)) for k, o in s.mem.items())), s.live, len(s.tape), len(s.invs), s.unroll)
            if rt.k == "ptr":
                key = key + ((v.o if isinstance(v, Ptr) else v.n),)
                if isinstance(v, Ptr) and v.o is None: key = key + (v.l.key(),)
            elif rt.k not in ("int", "void"): key = key + (id(v),)
            groups.setdefault(key, []).append((s, v))
        out = []
        n0 = len(st0.pc)
        for key, g in groups.items():
            if len(g) == 1: out.append(g[0]); continue
            # common prefix
            base = g[0][0].pc; k = min(len(s.pc) for s, _ in g)
            p = 0
            while p < k and all(s.pc[p].get_id() == base[p].get_id() for s, _ in g[1:]): p += 1
            conds = [And(*s.pc[p:]) for s, _ in g]
            ns = g[0][0].clone()
            ns.pc = ns.pc[:p]; ns.pcset = {x.get_id() for x in ns.pc}
            if len(g) == len(rets) and p == n0 and not e.quiet_prune:
                pass
            ns.assume(Or(*conds))
            v = g[-1][1]
            if rt.k == "int":
                for (s, x), c in zip(reversed(g[:-1]), reversed(conds[:-1])):
                    v = ite_bool(c, x, v) if rt.a == 1 else ite(c, x, v, rt.a)
            elif rt.k == "ptr" and isinstance(v, Ptr) and v.o is not None:
                try:
                    for (s, x), c in zip(reversed(g[:-1]), reversed(conds[:-1])): v = e.select(None, c, x, v, rt)
                except Unsupported:
                    out.extend(g); continue
            out.append((ns, v))
        return out
    quiet_prune = False; last = None
    # ------------------------------------------------------------ block execution
    def run(e, f, cfgs, region=None, header=None):
        """-> (returns [(st,val)], exits [Cfg], backs [Cfg])"""
        rets, exits, backs = [], [], []
        work = list(cfgs)
        steps = 0
        while work:
            c = work.pop()
            steps += 1
            if e.deadline and time.time() > e.deadline: raise Budget("time budget exhausted")
            if c.inside: pass
            elif c.idx == 0 and c.prev is not None:
                if header is not None and c.blk == header: backs.append(c); continue
                if region is not None and c.blk not in region: exits.append(c); continue
                if c.blk in f.cfg.loops:
                    r2, x2 = e.loop(f, c)
                    rets.extend(r2); work.extend(x2); continue
                e.do_phis(f, c)
            elif c.idx == 0 and c.prev is None and c.blk in f.cfg.loops:
                raise Unsupported("entry block is a loop header")
            e.step_block(f, c, work, rets)
            if len(rets) + len(work) + len(exits) > e.maxpaths: raise Budget("too many paths in %s" % e.dem(f.name))
        return rets, exits, backs
    def do_phis(e, f, c):
        ins = f.blocks[c.blk]; new = {}; i = 0
        for I in ins:
            if I.op != "phi": break
            for v, b in I.ops:
                if b == c.prev: new[I.dst] = e.val(c.regs, v, I.ty); break
            i += 1
        c.regs = dict(c.regs); c.regs.update(new); c.idx = i; c.inside = True
    def goto(e, c, blk, work):
        work.append(Cfg(c.st, c.regs, blk, c.blk))
    def step_block(e, f, c, work, rets):
        ins = f.blocks[c.blk]; st = c.st; regs = dict(c.regs); c.regs = regs
        n = len(ins)
        while c.idx < n:
            I = ins[c.idx]
            if I.dbg is not None: e.curloc = I.dbg
            op = I.op
            if op == "br":
                if not I.ops: e.goto(c, I.x[0], work); return
                cond = e.val(regs, I.ops[0], INT(1))
                if not isinstance(cond, bool): cond = simp(cond)
                if I.x[0] == I.x[1]: e.goto(c, I.x[0], work); return
                if isinstance(cond, bool): e.goto(c, I.x[0] if cond else I.x[1], work); return
                e.fork(c, [(cond, I.x[0]), (Not(cond), I.x[1])], work, f); return
            if op == "switch":
                v = e.val(regs, I.ops[0], I.ty); w = e.m.resolve(I.ty).a
                d, cases = I.x
                if not isint(v):
                    v = simp(v)
                if isint(v):
                    for cv, b in cases:
                        if cv & mask(w) == v: e.goto(c, b, work); return
                    e.goto(c, d, work); return
                tg = {}
                for cv, b in cases: tg.setdefault(b, []).append(bv_cmp("eq", v, cv & mask(w), w))
                alts = [(Or(*x), b) for b, x in tg.items()]
                alts.append((And(*[bv_cmp("ne", v, cv & mask(w), w) for cv, _ in cases]), d))
                e.fork(c, alts, work, f); return
            if op == "ret":
                rets.append((st, e.val(regs, I.ops[0], I.ty) if I.ops else None)); return
            if op == "unreachable":
                e.prove(st, False, "unreachable", "unreachable code is not reached"); return
            try:
                if op == "call":
                    if not e.do_call(f, c, I, work): return
                    if I.x: e.goto(c, I.x, work); return
                else:
                    v = e.inst(st, regs, I)
                    if I.dst is not None: regs[I.dst] = v
            except Split as sp:
                # re-execute this instruction under both cases
                for cond in (sp.cond, Not(sp.cond)):
                    if e.feasible(st, cond):
                        s2 = st.clone(); s2.assume(cond)
                        work.append(Cfg(s2, dict(regs), c.blk, c.prev, c.idx, True))
                return
            c.idx += 1
            if st.pc and z3.is_false(st.pc[-1]): return
        raise Unsupported("fell off block")
    def fork(e, c, alts, work, f):
        live = [(cond, b) for cond, b in alts if cond is not False]
        feas = [(cond, b) for cond, b in live if e.feasible(c.st, cond)]
        if len(feas) == 1 and len(live) >= 1:
            # the other sides are infeasible
            cond, b = feas[0]
            c.st.assume(cond); e.goto(c, b, work); return
        for cond, b in feas:
            s = c.st.clone(); s.assume(cond)
            work.append(Cfg(s, c.regs, b, c.blk))
    def do_call(e, f, c, I, work):
        st, regs = c.st, c.regs
        fv = I.ops[0]
        if fv[0] == "asm":
            args = [e.val(regs, v, t) for t, v, b in I.ops[1:]]
            r = e.inline_asm(st, fv, args, I)
            if I.dst is not None: regs[I.dst] = r
            return True
        tgt = e.val(regs, fv, PTR)
        if isinstance(tgt, Ptr): tgt = e.resolve_ptr(st, tgt)
        if not isinstance(tgt, Fn):
            e.prove(st, False, "memory", "call through a valid function pointer")
            if e.spec: raise Unsupported("call through unknown function pointer")
            return False
        args = []
        for t, v, byval in I.ops[1:]:
            a = e.val(regs, v, t)
            if byval:
                # copy the pointee
                o = e.obj(st, a.o)
                sz = o.size if isint(o.size) else None
                n = e.alloc(st, sz - a.l.c if sz is not None and a.l.is_const() else 64, False, "byval")
                e.mem_copy(st, n, a, e.obj(st, n.o).size, True); a = n
            args.append(a)
        res = e.call(st, tgt.n, args, [t for t, _, _ in I.ops[1:]])
        if len(res) == 0: return False
        if len(res) == 1:
            c.st = res[0][0]
            if I.dst is not None: regs[I.dst] = res[0][1]
            if c.st is not st:
                # continue with the new state in this config
                work.append(Cfg(c.st, regs, c.blk, c.prev, c.idx + 1, True)) if not I.x else e.goto(c, I.x, work)
                return False
            return True
        for s, v in res:
            r2 = dict(regs)
            if I.dst is not None: r2[I.dst] = v
            if I.x: work.append(Cfg(s, r2, I.x, c.blk))
            else: work.append(Cfg(s, r2, c.blk, c.prev, c.idx + 1, True))
        return False
    def inst(e, st, regs, I):
        op = I.op; V = lambda i, t=None: e.val(regs, I.ops[i], t or I.ty)
        if op == "bin": return e.binop(st, I.x[0], V(0), V(1), e.m.resolve(I.ty), I.x[1])
        if op == "icmp": return e.icmp(st, I.x, V(0), V(1), e.m.resolve(I.ty))
        if op == "fcmp":
            t = e.m.resolve(I.ty)
            if t.k == "vec": return [e.fcmp(I.x, x, y) for x, y in zip(V(0), V(1))]
            return e.fcmp(I.x, V(0), V(1))
        if op == "fneg":
            t = e.m.resolve(I.ty)
            if t.k == "vec": return [FPv(z3.fpNeg(x.e)) for x in V(0)]
            return FPv(z3.fpNeg(V(0).e))
        if op == "cast": return e.cast(I.x[0], V(0, I.x[1]), e.m.resolve(I.x[1]), e.m.resolve(I.ty))
        if op == "load": 
            p = V(0, PTR)
            if I.x: e.atomic_pre(st, p, I.ty)
            return e.load(st, p, I.ty)
        if op == "store":
            p = e.val(regs, I.ops[1], PTR)
            if I.x: e.atomic_pre(st, p, I.ty)
            old = e.load(st, p, I.ty) if I.x and st.meta.get("shared") else None
            e.store(st, p, I.ty, V(0))
            if I.x: e.atomic_post(st, p, I.ty, old, V(0))
            return None
        if op == "gep": return e.gep(st, I.ty, V(0, PTR), [(it, e.val(regs, v, it)) for it, v in I.x])
        if op == "alloca":
            n = 1
            if I.x is not None:
                n = e.val(regs, I.x[1], I.x[0])
                if not isint(n): raise Unsupported("variable alloca")
            return e.alloc(st, e.m.size(I.ty) * n, False, "local")
        if op == "select":
            ct = e.m.resolve(I.x)
            c = e.val(regs, I.ops[0], I.x)
            if ct.k == "vec": return [e.select(st, cc, a, b, e.m.resolve(I.ty).b) for cc, a, b in zip(c, V(1), V(2))]
            return e.select(st, c if isinstance(c, bool) else simp(c), V(1), V(2), I.ty)
        if op == "extractvalue":
            v = V(0)
            for i in I.x: v = v[i]
            return v
        if op == "insertvalue":
            v = V(0); x = e.val(regs, I.ops[1], I.x[1])
            def ins(a, idx):
                a = list(a)
                a[idx[0]] = x if len(idx) == 1 else ins(a[idx[0]], idx[1:])
                return a
            return ins(v, I.x[0])
        if op == "freeze": return V(0)
        if op == "fence": return None
        if op == "cmpxchg":
            p = V(0, PTR); t = I.ty
            e.atomic_pre(st, p, t)
            old = e.load(st, p, t); exp = V(1); new = V(2)
            rt = e.m.resolve(t)
            eq = e.icmp(st, "eq", old, exp, rt)
            if isinstance(eq, bool):
                if eq: e.store(st, p, t, new); e.atomic_post(st, p, t, old, new)
                return [old, eq]
            if rt.k == "int" and e.shared_at(st, p):
                nv = ite(eq, new, old, rt.a); e.store(st, p, t, nv); e.atomic_post(st, p, t, old, nv)
                return [old, eq]
            dec = e.decided(st, eq)
            if dec is None: raise Split(eq)
            if dec: e.store(st, p, t, new); e.atomic_post(st, p, t, old, new)
            return [old, dec]
        if op == "atomicrmw":
            p = V(0, PTR); v = V(1); t = I.ty; w = e.m.resolve(t).a if e.m.resolve(t).k == "int" else 64
            e.atomic_pre(st, p, t)
            old = e.load(st, p, t)
            o = I.x
            if o == "xchg": n = v
            elif o in ("add", "sub", "and", "or", "xor"): n = bv_bin(o, old, v, w)
            elif o in ("max", "min", "umax", "umin"):
                n = ite(bv_cmp({"max": "sgt", "min": "slt", "umax": "ugt", "umin": "ult"}[o], old, v, w), old, v, w)
            else: raise Unsupported("atomicrmw " + o)
            e.store(st, p, t, n); e.atomic_post(st, p, t, old, n)
            return old
        if op == "extractelement":
            v = V(0); i = e.val(regs, I.ops[1], I.x)
            if not isint(i): raise Unsupported("extractelement symbolic")
            return v[i]
        if op == "insertelement":
            t = e.m.resolve(I.ty); v = list(V(0)); i = e.val(regs, I.ops[2], I.x)
            v[i] = e.val(regs, I.ops[1], t.b); return v
        if op == "shufflevector":
            a, b = V(0), V(1); mt, mk = I.x; n = e.m.resolve(mt).a
            if mk[0] == "zero": idx = [0] * n
            elif mk[0] in ("undef", "poison"): idx = [0] * n
            else: idx = [x[1] if x[0] == "c" else 0 for x in mk[1]]
            ab = list(a) + list(b)
            return [ab[i] for i in idx]
        raise Unsupported("instruction " + op)
    def decided(e, st, c):
        if isinstance(c, bool): return c
        if c.get_id() in st.pcset: return True
        n = Not(c)
        if isinstance(n, bool): return not n
        if n.get_id() in st.pcset: return False
        return None
    # shared cells (vc_shared): before every atomic access the environment takes a step (vc_env), after it the ghost state follows (vc_step)
    def shared_at(e, st, p):
        sh = st.meta.get("shared")
        if not sh or e.spec: return False
        q = e.resolve_ptr(st, p)
        return isinstance(q, Ptr) and q.o == sh.o and q.l.key() == sh.l.key()
    def hook(e, st, name, args):
        r = e.call(st, name, args)
        if len(r) != 1 or r[0][0] is not st: raise Unsupported("%s must not branch" % name)
    def atomic_pre(e, st, p, t):
        if e.shared_at(st, p): e.hook(st, "vc_env", [])
    def atomic_post(e, st, p, t, old, new):
        if e.shared_at(st, p): e.hook(st, "vc_step", [old, new])
    def inline_asm(e, st, fv, args, I):
        txt = fv[1]
        m = re.match(r'"?lock (bts|btr)([ql]?) \$2, \$0\\0A\\09setc\s+\$\{1:b\}', txt)
        if m and len(args) >= 3:
            cell, out, bit = args[0], args[1], args[2]; t = I.ops[3][0]; w = e.m.resolve(t).a
            if not isint(bit): raise Unsupported("bit test with a variable bit")
            if not m.group(2) and w > 32 and bit >= 32:   # "ri": optimised builds pass an immediate, and the assembler then takes the 32-bit form
                e.prove(st, False, "asm", "the bit instruction addresses the whole %d-bit word" % w)
            e.atomic_pre(st, cell, t)
            old = e.load(st, cell, t); b = bv_bin("shl", 1, bit % (32 if m.group(2) == "l" else w), w)
            new = bv_bin("or", old, b, w) if m.group(1) == "bts" else bv_bin("and", old, b ^ mask(w), w)
            e.store(st, cell, t, new); e.atomic_post(st, cell, t, old, new)
            got = bv_cmp("ne", bv_bin("and", old, b, w), 0, w)
            e.store(st, out, Ty("int", 8), ite(got, 1, 0, 8) if not isinstance(got, bool) else int(got))
            return None
        raise Unsupported("inline asm %s" % txt)
    # ------------------------------------------------------------ spec evaluation
    def spec_call(e, st, fn, args):
        """evaluate a boolean spec function in st without side effects -> Bool"""
        s = st.clone(); n0 = len(s.pc)
        e.spec += 1
        try:
            f = e.func(fn)
            rets, _, _ = e.run_spec(f, s, args)
        finally:
            e.spec -= 1
        out = None
        for s2, v in reversed(rets):
            c = And(*s2.pc[n0:])
            v = v if isinstance(v, bool) else v
            out = v if out is None else ite_bool(c, v, out)
        if out is None: return True
        return simp(out) if not isinstance(out, bool) else out
    def run_spec(e, f, s, args):
        regs = {n: a for (t, n, b), a in zip(f.params, args)}
        e.stack.append(f.name)
        sv = e.curloc
        try: return e.run(f, [Cfg(s, regs, f.order[0], None)])
        finally: e.stack.pop(); e.curloc = sv
    # ------------------------------------------------------------ loops
    def loop(e, f, c):
        """c is about to enter header c.blk from outside. -> (rets, exit cfgs)"""
        H = c.blk; region = f.cfg.loops[H]
        if e.bounded or e.spec or c.st.unroll:
            return e.loop_unroll(f, c, H, region, e.bunroll if (e.bounded) else (c.st.unroll or 512), bounded=bool(e.bounded))
        # try complete concrete-driven execution
        r = e.loop_concrete(f, c, H, region)
        if r is not None: return r
        return e.loop_inv(f, c, H, region)
    def loop_unroll(e, f, c, H, region, limit, bounded=False):
        rets, outs = [], []
        cur = [c]
        for it in range(limit + 1):
            nxt = []
            for x in cur:
                e.do_phis(f, x)
                r, ex, bk = e.run(f, [x], region, H)
                rets += r; outs += ex; nxt += bk
            cur = [x for x in nxt if e.feasible(x.st)]
            if not cur: return rets, outs
        if bounded:
            e.covers["unroll-capped"] = e.covers.get("unroll-capped", 0) + len(cur)
            return rets, outs     # bounded search only: longer runs are not explored
        if e.spec: raise Unsupported("spec loop too long")
        e.prove(cur[0].st, False, "unwind", "loop in %s terminates within %d iterations" % (e.dem(f.name), limit))
        return rets, outs
    def loop_concrete(e, f, c, H, region, limit=4096):
        """execute iterations while every branch leaving the loop is decided; None if an undecided exit shows up at once"""
        class Abort(Exception): pass
        orig = e.fork
        def fork(cc, alts, work, ff):
            if ff is f and e.stack and len(e.stack) == depth and any(b not in region for _, b in alts):
                raise Abort()
            return orig(cc, alts, work, ff)
        depth = len(e.stack)
        st0 = c.st.clone(); regs0 = dict(c.regs)
        nob, nfail = len(e.obligs), len(e.failed)
        e.fork = fork
        rets, outs = [], []
        cur = [Cfg(c.st, c.regs, c.blk, c.prev)]
        try:
            for it in range(limit):
                nxt = []
                for x in cur:
                    e.do_phis(f, x)
                    r, ex, bk = e.run(f, [x], region, H)
                    rets += r; outs += ex; nxt += bk
                cur = nxt
                if not cur: return rets, outs
                if len(cur) > 64: raise Abort()
            raise Abort()
        except Abort:
            del e.obligs[nob:]; del e.failed[nfail:]
            c.st = st0; c.regs = regs0
            return None
        finally:
            if orig.__func__ is Exec.fork: e.__dict__.pop("fork", None)
            else: e.fork = orig
    def phi_list(e, f, H):
        out = []
        for I in f.blocks[H]:
            if I.op != "phi": break
            out.append(I)
        return out
    def ptr_step(e, f, H, region, I, entry, st):
        """element size for a pointer induction variable"""
        o = e.obj(st, entry.o)
        if o.kind == "arr" and o.stride: s0 = o.stride
        else: s0 = None
        # look for geps on the phi inside the loop
        best = None
        for b in region:
            for J in f.blocks[b]:
                if J.op == "gep" and J.ops[0] == ("r", I.dst):
                    sz = e.m.size(J.ty)
                    if best is None or sz < best: best = sz
        if s0 is not None:
            if best is None or best % s0 == 0 or s0 % best: return s0
            return best
        return best or 1
    def loop_inv(e, f, c, H, region):
        m = e.m
        phis = e.phi_list(f, H)
        prev = c.prev
        entry = {}
        for I in phis:
            for v, b in I.ops:
                if b == prev: entry[I.dst] = e.val(c.regs, v, I.ty); break
        st0 = c.st
        # resolve raw entry pointers
        modmem = {}      # (oid, key) -> kind
        steps = {}
        for I in phis:
            v = entry[I.dst]
            if m.resolve(I.ty).k == "ptr" and isinstance(v, Ptr) and v.o is not None:
                if e.obj(st0, v.o).kind != "arena": steps[I.dst] = e.ptr_step(f, H, region, I, v, st0)
        ptrmode = {}
        fresh_id = next(terms._cnt)
        def havoc(tag):
            st = st0.clone(); regs = dict(c.regs); b = {}
            for I in phis:
                t = m.resolve(I.ty); v = entry[I.dst]
                if t.k == "int":
                    nv = z3.Bool("%s_%s!%d" % (tag, I.dst, fresh_id)) if t.a == 1 else z3.BitVec("%s_%s!%d" % (tag, I.dst, fresh_id), t.a)
                elif t.k == "ptr":
                    if isinstance(v, Ptr) and v.o is not None and I.dst in steps and ptrmode.get(I.dst) != "raw":
                        j = z3.BitVec("%s_%s!%d" % (tag, I.dst, fresh_id), 64); s = steps[I.dst]
                        nv = Ptr(v.o, Lin(v.l.c % s, {j.get_id(): (j, s)}) if v.l.c % s == v.l.c % s else None)
                        terms.KEEP.append(j)
                    elif isinstance(v, Fn): nv = v
                    else:
                        j = z3.BitVec("%s_%s!%d" % (tag, I.dst, fresh_id), 64)
                        nv = Ptr(None, lin_of(j))
                elif t.k == "fp": nv = FPv(z3.Const("%s_%s!%d" % (tag, I.dst, fresh_id), FSORT[t.a]))
                else: raise Unsupported("loop phi of type %r" % t)
                regs[I.dst] = nv; b[I.dst] = nv
            for (oid, key), info in modmem.items():
                o = e.wobj(st, oid)
                if info[0] == "cell":
                    off, w, old = key[1], key[2], info[1]
                    nm = "%s_c%d_%d!%d" % (tag, oid, off, fresh_id)
                    if isinstance(old, Ptr) and old.o is not None and info[2] == "idx":
                        s = e.obj(st0, old.o).stride or 1
                        j = z3.BitVec(nm, 64); terms.KEEP.append(j)
                        nv = Ptr(old.o, Lin(old.l.c % s, {j.get_id(): (j, s)}))
                    elif isinstance(old, (Ptr,)): nv = e.decode(z3.BitVec(nm, 64))
                    else: nv = z3.BitVec(nm, 8 * w)
                    e.cells_write(o, off, w, nv)
                elif info[0] == "field":
                    o.fields[key[1]] = Base("%s_f%d_%d!%d" % (tag, oid, key[1], fresh_id), key[2])
                    o.stride = info[1]; 
                    if o.count is None: e.set_stride(o, info[1])
                elif info[0] == "arenaf":
                    e.arena_havoc(o, key, "%s_n%d!%d" % (tag, oid, fresh_id))
            return st, regs, b
        # --- discover modified memory
        skip = len([1 for I in phis])
        def body(st, regs, quiet=True):
            e.quiet += 1 if quiet else 0
            try:
                return e.run(f, [Cfg(st, regs, H, prev, skip, True)], region, H)
            finally:
                e.quiet -= 1 if quiet else 0
        cands = None
        for rnd in range(12):
            hst, hregs, hb = havoc("h%d" % rnd)
            e.loop_assume_basic(hst, hb, entry, phis)
            bst = hst.clone()
            e.icmps = []
            nm0 = set(bst.mem)
            r, ex, bk = body(bst, dict(hregs))
            ic = e.icmps; e.icmps = None
            grew = False
            for b in bk:
                # pointer phis: mode check
                for I in phis:
                    if m.resolve(I.ty).k == "ptr":
                        for v, bb in I.ops:
                            if bb == b.prev:
                                nv = e.val(b.regs, v, I.ty)
                                if I.dst in steps and ptrmode.get(I.dst) != "raw":
                                    if isinstance(nv, Fn) or nv.o != entry[I.dst].o: ptrmode[I.dst] = "raw"; grew = True
                                    else:
                                        s = steps[I.dst]; d = nv.l.add(Lin(entry[I.dst].l.c % s), -1)
                                        q = d.div(s)
                                        if q is None or q[1]:
                                            g = math.gcd(s, math.gcd(d.gcd(), abs(d.c))) or 1
                                            steps[I.dst] = g; grew = True
                for oid, o in b.st.mem.items():
                    if oid not in nm0 and oid not in e.gobj: continue
                    o0 = hst.mem.get(oid) or e.gobj.get(oid)
                    if o0 is o or o0 is None: continue
                    if o.alive != o0.alive: raise Unsupported("loop frees memory it did not allocate")
                    if o.kind == "cells" and o0.kind == "cells":
                        for off, (w, v) in o.cells.items():
                            x = o0.cells.get(off)
                            if x is not None and x[0] == w and (x[1] is v or same(x[1], v)): continue
                            if x is None and v is e.cell_undef(o, off, w): continue
                            key = (oid, ("c", off, w))
                            if key not in modmem:
                                # drop overlapping narrower entries
                                old = x[1] if x is not None and x[0] == w else e.cells_read(o0, off, w)
                                mode = None
                                if isinstance(old, Ptr) and isinstance(v, Ptr):
                                    mode = "idx" if old.o is not None and v.o == old.o and e.obj(st0, old.o).kind == "arr" else "raw"
                                modmem[key] = ("cell", old, mode); grew = True
                            elif isinstance(modmem[key][1], Ptr) and modmem[key][2] == "idx" and (not isinstance(v, Ptr) or v.o != modmem[key][1].o):
                                modmem[key] = ("cell", modmem[key][1], "raw"); grew = True
                    elif o.kind == "arr":
                        if o0.kind != "arr":
                            # representation changed inside the loop: adopt it before the loop
                            e.to_arr(st0, oid, o.stride, None); grew = True; continue
                        if o.stride != o0.stride and o0.stride is not None and o0.fields:
                            no = e.wobj(st0, oid); e.split_stride(no, o.stride); grew = True; continue
                        for k, fl in o.fields.items():
                            x = o0.fields.get(k)
                            if x is fl: continue
                            if x is None and isinstance(fl, Base): continue
                            key = (oid, ("f", k, fl.w))
                            if key not in modmem: modmem[key] = ("field", o.stride); grew = True
                    elif o.kind == "arena":
                        for key in e.arena_diff(o0, o):
                            if (oid, key) not in modmem: modmem[(oid, key)] = ("arenaf",); grew = True
            if not grew: break
        else: raise Unsupported("loop modification set does not stabilise")
        if not bk:
            # no way back: plain execution
            rr, xx, _ = e.run(f, [Cfg(st0, dict(c.regs, **entry), H, prev, skip, True)], region, H)
            return rr, xx
        # --- candidates
        havocs = set()
        for v in hb.values():
            x = v.l.bv() if isinstance(v, Ptr) else (v.e if isinstance(v, FPv) else v)
            if isinstance(v, Fn) or isinstance(x, int): continue
            havocs |= consts_of(x)
        cands = e.make_cands(f, H, phis, entry, st0, hb, ic, steps, ptrmode, fresh_id, modmem)
        if (e.opts.get("wide") or 0) >= 2: cands += e.map_cands(phis, entry, st0, hst, hb, bk, steps, ptrmode, modmem)
        # entry filter
        keep = []; ev0 = []
        for cd in cands:
            try: g = cd.ev(st0, entry)
            except Unsupported as u: continue
            if g is not None: ev0.append((cd, g))
        ok = e.group_holds(st0, [g for cd, g in ev0 if not cd.user])
        it = iter(ok)
        for cd, g in ev0:
            if not cd.user:
                if next(it): keep.append(cd)
            elif e.holds(st0, g): keep.append(cd)
            elif (e.opts.get("trace") or 0) > 1: print("   DROP-entry", cd.label, e.last)
        cands = keep
        # Houdini
        info = {"func": e.dem(f.name), "candidates": len(cands), "loc": e.loc()}
        for rnd in range(40):
            hst, hregs, hb = havoc("i%d" % rnd)
            cst = hst.clone()
            for cd in cands:
                g = cd.ev(hst, hb)
                if g is not None: cst.assume(g)
            bst = cst.clone()
            r, ex, bk = body(bst, dict(hregs))
            dropped = False
            bkb = []
            for b in bk:
                if not e.feasible(b.st): continue
                nb = {}
                for I in phis:
                    for v, bb in I.ops:
                        if bb == b.prev: nb[I.dst] = e.val(b.regs, v, I.ty)
                bkb.append((b, nb))
            alive = {id(cd): True for cd in cands}
            auto = [cd for cd in cands if not cd.user]; usr = [cd for cd in cands if cd.user]
            for b, nb in bkb:
                gs = []; cs = []
                for cd in auto:
                    if not alive[id(cd)]: continue
                    try: g = cd.ev(b.st, nb)
                    except Unsupported: g = None
                    if g is None: alive[id(cd)] = False
                    else: gs.append(g); cs.append(cd)
                for cd, k in zip(cs, e.group_holds(b.st, gs)):
                    if not k: alive[id(cd)] = False
            if all(alive[id(cd)] for cd in auto):
                # simple facts are stable: now the registered ones
                for cd in usr:
                    for b, nb in bkb:
                        try: g = cd.ev(b.st, nb)
                        except Unsupported: g = None
                        if g is None or not e.holds(b.st, g):
                            alive[id(cd)] = False
                            if (e.opts.get("trace") or 0) > 1: print("   DROP-step", rnd, cd.label, e.last)
                            break
            ncands = [cd for cd in cands if alive[id(cd)]]
            dropped = len(ncands) != len(cands)
            cands = ncands
            if not dropped: break
        else: raise Unsupported("invariant inference does not converge")
        info["invariants"] = len(cands); info["user"] = sorted({cd.label for cd in cands if cd.user})
        if e.opts.get("trace"):
            print("LOOP", e.dem(f.name), e.loc(), "invs:", [cd.label for cd in cands])
            if e.opts.get("trace") > 1 : print("   phis", [(I.dst, str(entry[I.dst])) for I in phis], "mod", list(modmem))
        if not e.quiet:
            # each surviving invariant: initiation and consecution obligations were discharged above
            for cd in cands:
                for k in ("initiation", "consecution"):
                    o = Oblig(); o.label = "loop invariant %s (%s)" % (cd.label, k); o.kind = "invariant"; o.loc = e.loc(); o.status = "proved"
                    o.time = 0; o.backend = "z3"; o.model = o.tape = o.detail = None; e.obligs.append(o)
            if e.opts.get("term") or st0.meta.get("term"):
                e.check_term(f, phis, hb, bkb, st0, entry, cst)
            e.loops_info.setdefault((e.dem(f.name), str(e.loc())), info)
        # final pass with obligations
        hst, hregs, hb = havoc("k%d" % next(terms._cnt))
        for cd in cands:
            g = cd.ev(hst, hb)
            if g is not None: hst.assume(g)
        r, ex, bk = body(hst, dict(hregs), quiet=False)
        # restore: exits continue with values
        return r, ex
    def check_term(e, f, phis, hb, bkb, st0, entry, cst):
        """some measure strictly decreases (unsigned) along every back edge"""
        def idx(v):
            if isinstance(v, Ptr):
                if v.o is None: return None
                o = e.obj(st0, v.o); s = (o.stride if o.kind == "arr" else 1) or 1
                q = v.l.div(s)
                return simp(q[0].bv()) if q is not None else None
            if isinstance(v, (Fn, FPv)) or isinstance(v, bool) or z3.is_bool(v): return None
            if isinstance(v, LinVal): return v.bv()
            return v
        def width(v): return 64 if isint(v) else v.size()
        vals = []
        for I in phis:
            v = idx(hb[I.dst])
            if v is None: continue
            vals.append((I.dst, v, [idx(nb[I.dst]) for _, nb in bkb]))
        ms = []
        for n, v, ns in vals:
            w = v.size()
            ms.append((n, v, ns, w))
            ms.append(("-" + n, ~v, [~BV(x, w) if x is not None else None for x in ns], w))
        for n, v, ns in vals:
            for n2, v2, ns2 in vals:
                if n != n2 and v.size() == v2.size():
                    w = v.size()
                    ms.append(("%s-%s" % (n, n2), v - v2, [BV(a, w) - BV(b, w) if a is not None and b is not None else None for a, b in zip(ns, ns2)], w))
        for (lab, fn, env, np_) in st0.meta.get("measures", []):
            pass
        for n, v, ns, w in ms:
            if any(x is None for x in ns): continue
            if all(e.holds(b.st, bv_cmp("ult", x, v, w)) for (b, nb), x in zip(bkb, ns)):
                e.prove(st0, True, "termination", "loop measure %s decreases" % n); return
        # user measures over memory
        for (fn, env) in st0.meta.get("measures", []):
            for combo in [[]] :
                pass
        o = Oblig(); o.label = "loop in %s terminates (no decreasing measure found)" % e.dem(f.name); o.kind = "termination"; o.loc = e.loc(); o.status = "undecided"
        o.time = 0; o.backend = "z3"; o.model = o.tape = None; o.detail = "no measure"; e.obligs.append(o); e.failed.append(o)
    def loop_assume_basic(e, st, hb, entry, phis): pass
    def holds(e, st, g):
        g = simp(g)
        if g is True: return True
        if g is False and not e.feasible(st): return True
        if g is not False and g.get_id() in st.pcset: return True
        if e.deadline and time.time() > e.deadline: raise Budget("time budget exhausted")
        r, _, _ = solve.check(st.pc + [Not(g)], e.opts.get("inv_timeout", 8000), use_cvc5=False, quick_sat=True)
        e.last = r
        return r == "unsat"
    def group_holds(e, st, gs):
        """which of the simple facts gs follow from st (models of one query refute many facts at once)"""
        res = [None] * len(gs); live = []
        for i, g in enumerate(gs):
            g = simp(g)
            if g is True: res[i] = True
            elif g is False: res[i] = False
            elif g.get_id() in st.pcset: res[i] = True
            else: live.append((i, g))
        if any(r is False for r in res) and not e.feasible(st): return [True] * len(gs)
        n = 0
        while live:
            if e.deadline and time.time() > e.deadline: raise Budget("time budget exhausted")
            n += 1
            r, m, _ = solve.check(st.pc + [Not(And(*[g for _, g in live]))], e.opts.get("inv_timeout", 8000), rounds=1, use_cvc5=False, quick_sat=True)
            if r == "unsat":
                for i, _ in live: res[i] = True
                break
            nl = []
            if r == "sat" and m is not None and n < 60:
                for i, g in live:
                    if z3.is_true(m.eval(g, model_completion=True)): nl.append((i, g))
                    else: res[i] = False
            if len(nl) == len(live) or r != "sat" or m is None or n >= 60:
                for i, g in live: res[i] = e.holds(st, g)
                break
            live = nl
        return res
    def make_cands(e, f, H, phis, entry, st0, hb, ic, steps, ptrmode, fid, modmem):
        m = e.m; out = []
        def idx_of(v, name):
            """64-bit index view of a binding value"""
            if isinstance(v, Ptr):
                if v.o is None: return None
                s = steps.get(name) or 1
                q = v.l.div(s)
                return simp(q[0].bv()) if q is not None else None
            if isinstance(v, (Fn, FPv)) or isinstance(v, bool) or z3.is_bool(v): return None
            if isinstance(v, LinVal): return simp(v.bv())
            return v
        cellv = {}
        def get(st, bind, n):
            """value of a loop variable: a phi, or a scalar memory cell the loop changes"""
            c = cellv.get(n)
            if c is None: return idx_of(bind[n], n)
            oid, off, w = c
            o = st.mem.get(oid) or e.gobj.get(oid)
            if o is None or o.kind != "cells": return None
            v = e.cells_read(o, off, w)
            if isinstance(v, LinVal): v = simp(v.bv())
            if isinstance(v, (Ptr, Fn, FPv, bool)): return None
            return v
        ints = []
        for I in phis:
            t = m.resolve(I.ty)
            if t.k == "int" and t.a > 1: ints.append((I.dst, t.a))
            elif t.k == "ptr" and I.dst in steps and ptrmode.get(I.dst) != "raw": ints.append((I.dst, 64))
        for (oid, key), info in modmem.items():
            if info[0] == "cell" and not isinstance(info[1], (Ptr, Fn)) and key[2] in (1, 2, 4, 8) and len(cellv) < 6:
                n = "[%d+%d]" % (oid, key[1]); cellv[n] = (oid, key[1], key[2]); ints.append((n, 8 * key[2]))
        # loop-invariant comparison operands
        pre = re.compile(r"^h\d+_")
        bounds = {}
        for a, b, w in ic or []:
            for x in (a, b):
                if isinstance(x, LinVal): x = simp(x.bv())
                if isint(x): bounds[(w, x)] = x
                elif isinstance(x, bool): pass
                else:
                    x = simp(x)
                    if isint(x): bounds[(w, x)] = x
                    elif not any(pre.match(n) for n in consts_of(x)) and not any(pre.match(n) for n in apps_of(x)[0]): bounds[(w, x.get_id())] = x
        for n, w in ints:
            ev = get(st0, entry, n)
            if ev is None: continue
            def mk(p, b, n=n, w=w):
                def evf(st, bind):
                    v = get(st, bind, n)
                    if v is None: return None
                    return bv_cmp(p, v, b, w)
                return evf
            cmpb = {}
            cmpb[("e", 0)] = ev
            for (bw, k), x in bounds.items():
                if bw == w: cmpb[(bw, k)] = x
                elif bw < w and not isint(x): cmpb[(bw, k)] = simp(zext(x, bw, w))
            for n2, w2 in ints:
                if n2 != n and w2 == w:
                    x = get(st0, entry, n2)
                    if x is not None: cmpb[("o", n2)] = x
            if len(cmpb) > 12: cmpb = dict(list(cmpb.items())[:12])
            for k, b in cmpb.items():
                for p in ("uge", "ule", "sge", "sle"):
                    out.append(Cand("%s %s %s" % (n, p, str(b)[:40]), mk(p, b)))
                if k[0] != "e" :
                    out.append(Cand("%s ne %s" % (n, str(b)[:40]), mk("ne", b)))
                    out.append(Cand("%s slt %s" % (n, str(b)[:40]), mk("slt", b)))
                    out.append(Cand("%s ult %s" % (n, str(b)[:40]), mk("ult", b)))
        for i, (n, w) in enumerate(ints):
            for n2, w2 in ints[i + 1:]:
                if w != w2: continue
                e1, e2 = get(st0, entry, n), get(st0, entry, n2)
                if e1 is None or e2 is None: continue
                def mk2(sg, n=n, n2=n2, e1=e1, e2=e2, w=w):
                    def evf(st, bind):
                        a, b = get(st, bind, n), get(st, bind, n2)
                        if a is None or b is None: return None
                        if sg: return bv_cmp("eq", bv_bin("sub", a, e1, w), bv_bin("sub", b, e2, w), w)
                        return bv_cmp("eq", bv_bin("sub", a, e1, w), bv_bin("sub", e2, b, w), w)
                    return evf
                out.append(Cand("%s,%s lockstep" % (n, n2), mk2(True)))
                out.append(Cand("%s,%s opposite" % (n, n2), mk2(False)))
                def mk3(p, n=n, n2=n2, w=w):
                    def evf(st, bind):
                        a, b = get(st, bind, n), get(st, bind, n2)
                        if a is None or b is None: return None
                        return bv_cmp(p, a, b, w)
                    return evf
                for p in ("ule", "uge", "sle", "sge", "ult", "ugt"): out.append(Cand("%s %s %s" % (n, p, n2), mk3(p)))
        # registered invariants
        params = []
        for n, w in ints:
            def g(st, bind, n=n, w=w):
                v = get(st, bind, n)
                if v is None: return None
                return zext(v, w, 64) if w <= 64 else None
            params.append((n, g))
            if w == 32:
                def g2(st, bind, n=n, w=w):
                    v = get(st, bind, n)
                    return sext(v, w, 64) if v is not None else None
                params.append((n + ":s", g2))
        base = list(params)
        if not e.opts.get("cells"): params = [p for p in params if p[0] not in cellv]
        base = list(params)
        for n, g in base:
            if not e.opts.get("wide"): break
            def gp(st, bind, g=g): 
                v = g(st, bind); return None if v is None else simp(bv_bin("add", v, 1, 64))
            def gm(st, bind, g=g):
                v = g(st, bind); return None if v is None else simp(bv_bin("sub", v, 1, 64))
            params.append((n + "+1", gp)); params.append((n + "-1", gm))
            if e.opts["wide"] >= 2 and g(st0, entry) is not None:     # loops that count down: distance from the start
                def gr(st, bind, g=g, v0=g(st0, entry)):
                    v = g(st, bind); return None if v is None else simp(bv_bin("sub", v0, v, 64))
                params.append((n + ":rev", gr))
        # arrays the loop changes or walks over, for templates with a pointer parameter
        objs = []
        for (oid, key), info in modmem.items():
            if info[0] == "field" and oid not in objs: objs.append(oid)
        for I in phis:
            v = entry[I.dst]
            if isinstance(v, Ptr) and v.o is not None and v.o not in objs: objs.append(v.o)
        # raw pointers as addresses
        for I in phis:
            if m.resolve(I.ty).k == "ptr" and (I.dst not in steps or ptrmode.get(I.dst) == "raw"):
                def ga(st, bind, n=I.dst):
                    v = bind[n]
                    return simp(BV(e.encode(v), 64)) if isinstance(v, (Ptr,)) else None
                params.append((I.dst + "@", ga))
        import itertools as it
        for (lab, np_, fn, env, opts) in st0.invs:
            ptrs = [None]
            if opts:     # pointer template: element size opts
                ptrs = []
                for oid in objs:
                    o = st0.mem.get(oid) or e.gobj.get(oid)
                    if o is not None and o.alive and o.kind == "arr" and o.stride and opts % o.stride == 0: ptrs.append(oid)
            pool = [()] if np_ == 0 else [(p,) for p in params] if np_ == 1 else list(it.permutations(base + [p for p in params if p[0].endswith("@")], np_))
            if np_ == 2 and (e.opts.get("wide") or 0) >= 2:
                der = [p for p in params if p not in base and not p[0].endswith("@")]; root = lambda q: re.split(r"[+:]|-1$", q[0])[0]
                pool = pool + [c for x in der for y in base if root(x) != root(y) for c in ((x, y), (y, x))]
            for po in ptrs:
                for combo in pool:
                    def evn(st, bind, fn=fn, env=env, combo=combo, po=po):
                        a = [g(st, bind) for _, g in combo]
                        if any(x is None for x in a): return None
                        pa = [] if po is None else [Ptr(po, Lin(0))]
                        return e.spec_call(st, fn, [env] + pa + [norm(x) if not isinstance(x, int) else x for x in a])
                    out.append(Cand("%s(%s)" % (lab, ",".join((["obj%d" % po] if po is not None else []) + [p[0] for p in combo])), evn, True))
        return out
    def map_cands(e, phis, entry, st0, hst, hb, bk, steps, ptrmode, modmem):
        """loops that write one element per iteration, a[x+c] = F(x): 'F over the part done, unchanged elsewhere' (checked like every candidate)"""
        m = e.m; out = []; view = {}      # phi -> (value getter, entry, step per iteration, havoc constant, width)
        def idx(I, v):
            if isinstance(v, Ptr):
                if v.o is None or I.dst not in steps or ptrmode.get(I.dst) == "raw": return None
                q = v.l.div(steps[I.dst] or 1)
                return simp(q[0].bv()) if q is not None else None
            if isinstance(v, LinVal): return simp(v.bv())
            return None if isinstance(v, (Fn, FPv, bool)) or z3.is_bool(v) else v
        for I in phis:
            t = m.resolve(I.ty); w = t.a if t.k == "int" else 64 if t.k == "ptr" else 0
            h, v0 = idx(I, hb[I.dst]), idx(I, entry[I.dst])
            if w < 8 or h is None or v0 is None or isint(h): continue
            ds = set()
            for b in bk:
                for v, bb in I.ops:
                    if bb == b.prev:
                        nv = idx(I, e.val(b.regs, v, I.ty)); d = None if nv is None else bv_bin("sub", nv, h, w)
                        d = d if d is None or isint(d) else simp(d)
                        ds.add(d if isint(d) else None)
            if len(ds) == 1 and None not in ds:
                d = ds.pop(); d = d - (1 << w) if d >> (w - 1) else d
                view[I.dst] = (I, v0, d, h, w)
        hav = re.compile(r"^h\d+_")
        clean = lambda x: isint(x) or not any(hav.match(n) for n in consts_of(x)) and not any(hav.match(n) for n in apps_of(x)[0])
        bases = {}
        for (oid, key), info in modmem.items():
            if info[0] != "field": continue
            fb = hst.mem[oid].fields.get(key[1]); f0 = (st0.mem.get(oid) or e.gobj.get(oid)).fields.get(key[1])
            if isinstance(fb, Base) and f0 is not None and f0.w == fb.w: bases[fb.name] = f0
        for (oid, key), info in modmem.items():
            if info[0] != "field": continue
            o0 = st0.mem.get(oid); ho = hst.mem.get(oid)
            if o0 is None or ho is None: continue
            fb = ho.fields.get(key[1]); f0 = o0.fields.get(key[1])
            if not isinstance(fb, Base) or f0 is not None and f0.w != fb.w: continue
            seen = set()
            for b in bk:
                fl = b.st.mem[oid].fields.get(key[1])
                if not isinstance(fl, Store) or fl.p is not fb: continue
                if not (isint(fl.v) or z3.is_expr(fl.v)): continue
                for n, (I, x0, d, h, w) in view.items():
                    if d not in (1, -1): continue
                    for sx in ((zext,) if w == 64 else (zext, sext)):
                        X = (lambda v, sx=sx, w=w: v if w == 64 else sx(v, w, 64))
                        a = bv_bin("sub", fl.i, X(h), 64); a = a if isint(a) else simp(a)
                        if not clean(a) or (n, str(a)) in seen: continue
                        seen.add((n, str(a)))
                        def rew(x, k, memo, a=a, x0=x0, d=d, X=X, sx=sx, w=w):
                            """value written at index k, in terms of the state before the loop"""
                            if isint(x): return x
                            t = bv_bin("sub", bv_bin("sub", k, a, 64), X(x0), 64)
                            if d < 0: t = bv_bin("sub", 0, t, 64)
                            t = t if isint(t) else simp(t); sub = []
                            for J, y0, dy, hy, wy in view.values():
                                tv = t if wy == 64 else trunc(t, 64, wy)
                                sub.append((hy, BV(bv_bin("add", y0, bv_bin("mul", tv, dy & ((1 << wy) - 1), wy), wy), wy)))
                            x = z3.substitute(x, *sub)
                            def go(y):
                                r = memo.get(y.get_id())
                                if r is not None: return r[1]
                                if z3.is_app(y) and y.num_args():
                                    ch = [go(c) for c in y.children()]
                                    nm = y.decl().name()
                                    if y.decl().kind() == z3.Z3_OP_UNINTERPRETED and nm in bases and len(ch) == 1: r = BV(bases[nm].sel(norm(simp(ch[0]))), y.size())
                                    else: r = y.decl()(*ch) if any(not c.eq(o) for c, o in zip(ch, y.children())) else y
                                else: r = y
                                memo[y.get_id()] = (y, r); return r
                            return norm(simp(go(x)))
                        probe = z3.BitVec(fresh_name("k"), 64)
                        try: pv = rew(fl.v, probe, {})
                        except Exception as ex:
                            if (e.opts.get("trace") or 0) > 1: print("   MAP", ex)
                            continue
                        frame_only = not clean(pv)
                        if frame_only and f0 is None: continue
                        def ev(st, bind, oid=oid, kk=key[1], n=n, I=I, x0=x0, d=d, X=X, a=a, val=fl.v, f0=f0, rew=rew, frame_only=frame_only, w8=8 * fb.w):
                            x = idx(I, bind[n]); o = st.mem.get(oid)
                            if x is None or o is None or o.kind != "arr": return None
                            fl = o.fields.get(kk)
                            if fl is None:
                                if f0 is None and not isint(x0) and x is x0 or isint(x) and isint(x0) and x == x0: return True
                                return None
                            if 8 * fl.w != w8 or o.count is None: return None
                            k = z3.BitVec(fresh_name("k"), 64); z = bv_bin("sub", k, a, 64)
                            R = And(bv_cmp("uge", z, X(x0), 64), bv_cmp("ult", z, X(x), 64)) if d > 0 else And(bv_cmp("ugt", z, X(x), 64), bv_cmp("ule", z, X(x0), 64))
                            old = f0.sel(k) if f0 is not None else None
                            if frame_only: body = Implies(z3.Not(B(R)), bv_cmp("eq", fl.sel(k), old, w8))
                            elif f0 is None: body = Implies(R, bv_cmp("eq", fl.sel(k), rew(val, k, {}), w8))
                            else: body = bv_cmp("eq", fl.sel(k), ite(R, rew(val, k, {}), old, w8), w8)
                            return mk_forall([k], B(Implies(bv_cmp("ult", k, o.count, 64), body)), [(0, o.count)])
                        out.append(Cand("%s of obj%d by %s" % ("frame" if frame_only else "map", oid, n), ev, True))
        return out
    # ------------------------------------------------------------ intrinsics
    def cstr(e, st, p):
        try:
            o = e.obj(st, p.o)
            if o.kind == "arr": vals = list(o.fields.values())[0].vals[p.l.c:]
            else: vals = [o.cells[i][1] for i in range(p.l.c, o.size)]
            s = bytes(vals); return s.split(b"\0")[0].decode("latin1")
        except Exception: return "?"
    def intrinsic(e, st, name, a, tys):
        R = lambda v: [(st, v)]
        if name.startswith("vc_"):
            h = getattr(e, "i_" + name, None)
            if h is not None: return h(st, a)
        if name.startswith("llvm."): return e.llvm(st, name, a, tys)
        if name in e.m.funcs and name not in e.opts.get("intercept", ()): return None
        if name == "__atomic_is_lock_free": return R(isint(a[0]) and a[0] <= 8)
        if name == "aligned_alloc" and isint(a[0]) and a[0] in (1, 2, 4, 8, 16):   # glibc accepts any power of two; the sizes here need no more than malloc's alignment
            p = e.alloc(st, a[1], True, "aligned_alloc")
            if a[0] > 1: st.assume(bv_cmp("eq", bv_bin("and", e.addr(p.o), a[0] - 1, 64), 0, 64))
            return R(p)
        if name in ALLOC_FN:
            return R(e.alloc(st, a[0], True, "malloc"))
        if name == "calloc":
            n = bv_bin("mul", a[0], a[1], 64)
            p = e.alloc(st, n, True, "calloc"); o = e.obj(st, p.o)
            if o.kind == "arr":
                if o.stride is None: 
                    s = a[1] if isint(a[1]) else 1
                    e.set_stride(o, s or 1)
                e.default_fields(o)
                for k, f in list(o.fields.items()): o.fields[k] = Const(0, f.w)
            else: e.mem_set(st, p, 0, n)
            return R(p)
        if name == "realloc":
            p, n = a
            if isinstance(p, Ptr): p = e.resolve_ptr(st, p)
            q = e.alloc(st, n, True, "realloc")
            if isinstance(p, Ptr) and p.o is None and p.l.is_const(): return R(q)
            p2 = e.check_live(st, p, "realloc")
            if p2 is None: return R(q)
            oo = e.obj(st, p2.o); no = e.obj(st, q.o)
            if oo.kind == "cells" and no.kind == "cells":
                if min(oo.size, no.size): e.mem_copy(st, q, p2, min(oo.size, no.size), True)
            else:
                if oo.kind == "cells":
                    if oo.size: oo = e.to_arr(st, p2.o, no.stride if no.kind == "arr" and no.stride else 1, None)
                    else: oo = None
                if oo is not None:
                    if no.kind == "cells": no = e.to_arr(st, q.o, oo.stride or 1, None) if no.size else None
                    if no is not None:
                        if oo.stride is None and no.stride is None: e.set_stride(oo, 1); e.set_stride(no, 1)
                        elif oo.stride is None: e.set_stride(oo, no.stride)
                        elif no.stride is None: e.set_stride(no, oo.stride)
                        if oo.stride != no.stride: e.restride(st, oo, no)
                        e.unify_fields(oo, no)
                        cnt = ite(bv_cmp("ult", oo.count, no.count, 64), oo.count, no.count, 64)
                        for k, f in list(oo.fields.items()): no.fields[k] = Copy(no.fields[k], 0, f, 0, simp(cnt))
            e.free(st, p2, "realloc")
            return R(q)
        if name in FREE_FN: e.free(st, a[0]); return R(None)
        if name in ("memcpy", "memmove"):
            e.mem_copy(st, a[0], a[1], a[2], name == "memmove"); return R(a[0])
        if name == "memset": e.mem_set(st, a[0], trunc(a[1], 32, 8), a[2]); return R(a[0])
        if name == "strlen": return R(e.strlen(st, a[0]))
        if name == "memcmp": return R(e.memcmp(st, a[0], a[1], a[2]))
        if name in ("abort", "exit", "_exit", "_ZSt9terminatev", "__assert_fail"):
            e.prove(st, False, "abort", "%s is not reached" % name); return []
        if name == "__cxa_atexit": return R(0)
        if name == "__cxa_guard_acquire": return R(1)
        if name == "__cxa_guard_release": return R(None)
        if name in ("__cxa_pure_virtual",): e.prove(st, False, "abort", "pure virtual call"); return []
        if name in ("isspace", "tolower", "toupper", "isdigit"):
            x = a[0]
            def rng(lo, hi): return And(bv_cmp("uge", x, lo, 32), bv_cmp("ule", x, hi, 32))
            if name == "isspace": return R(ite(Or(bv_cmp("eq", x, 32, 32), rng(9, 13)), 1, 0, 32))
            if name == "isdigit": return R(ite(rng(48, 57), 1, 0, 32))
            if name == "tolower": return R(ite(rng(65, 90), bv_bin("add", x, 32, 32), x, 32))
            if name == "toupper": return R(ite(rng(97, 122), bv_bin("sub", x, 32, 32), x, 32))
        return None
    def strlen(e, st, p):
        """assumed contract of strlen: requires a terminator inside the object"""
        e.assumed["strlen"] = "returns the index of the first zero byte"
        p = e.check_live(st, p, "strlen")
        if p is None: return z3.BitVec(fresh_name("sl"), 64)
        o = e.obj(st, p.o)
        if o.kind == "cells":
            if p.l.is_const():
                vals = [e.cells_read(o, i, 1) for i in range(p.l.c, o.size)]
                r = None
                end = len(vals)
                zc = Or(*[bv_cmp("eq", v, 0, 8) for v in vals])
                e.prove(st, zc, "memory", "strlen argument is terminated inside %s" % o.name)
                for i in reversed(range(len(vals))): r = i if r is None else ite(bv_cmp("eq", vals[i], 0, 8), i, r, 64)
                return r
            o = e.to_arr(st, p.o, 1, None)
        if o.stride is None: e.set_stride(o, 1)
        if o.stride != 1: e.split_stride(o, 1)
        if 0 not in o.fields: o.fields[0] = e.ubase(o, 0, 1)
        f = o.fields[0]; i0 = simp(p.l.bv())
        n = z3.BitVec(fresh_name("strlen"), 64); k = z3.BitVec(fresh_name("k"), 64)
        # existence: Not(forall j in [i0,count): s[j] != 0)
        nz = mk_forall([k], B(Implies(And(bv_cmp("uge", k, i0, 64), bv_cmp("ult", k, o.count, 64)), bv_cmp("ne", f.sel(k), 0, 8))), [(i0, o.count)])
        e.prove(st, Not(nz), "memory", "strlen argument is terminated inside %s" % o.name)
        j = simp(bv_bin("add", i0, n, 64))
        st.assume(And(bv_cmp("ult", j, o.count, 64), bv_cmp("uge", j, i0, 64), bv_cmp("eq", f.sel(j), 0, 8)))
        k2 = z3.BitVec(fresh_name("k"), 64)
        st.assume(mk_forall([k2], B(Implies(And(bv_cmp("uge", k2, i0, 64), bv_cmp("ult", k2, j, 64)), bv_cmp("ne", f.sel(k2), 0, 8))), [(i0, j)]))
        return n
    def memcmp(e, st, p, q, n):
        e.assumed["memcmp"] = "zero iff the ranges are bytewise equal"
        n = n if isint(n) else simp(n)
        if isint(n) and n == 0: return 0
        p = e.check_live(st, p, "memcmp"); q = e.check_live(st, q, "memcmp") if p is not None else None
        if p is None or q is None: return z3.BitVec(fresh_name("mc"), 32)
        r = z3.BitVec(fresh_name("memcmp"), 32)
        if isint(n) and n <= 64:
            cs = []
            for i in range(n):
                x = e.read_bits(st, Ptr(p.o, p.l.add(Lin(i))), 1, "memcmp"); y = e.read_bits(st, Ptr(q.o, q.l.add(Lin(i))), 1, "memcmp")
                cs.append(bv_cmp("eq", x, y, 8))
            st.assume(B(bv_cmp("eq", r, 0, 32)) == B(And(*cs))); return r
        po, qo = e.obj(st, p.o), e.obj(st, q.o)
        if po.kind == "cells": po = e.to_arr(st, p.o, qo.stride if qo.kind == "arr" and qo.stride else 1, None)
        if qo.kind == "cells": qo = e.to_arr(st, q.o, po.stride or 1, None)
        if po.stride is None: e.set_stride(po, qo.stride or 1)
        if qo.stride is None: e.set_stride(qo, po.stride)
        if po.stride != qo.stride: e.restride(st, po, qo)
        e.unify_fields(po, qo)
        s = po.stride
        nl, pl, ql = lin_of(n).div(s), p.l.div(s), q.l.div(s)
        if nl is None or pl is None or ql is None or nl[1] or pl[1] or ql[1]: raise Unsupported("memcmp of non-element range")
        cnt, pi, qi = simp(nl[0].bv()), simp(pl[0].bv()), simp(ql[0].bv())
        for o, i in ((po, pi), (qo, qi)):
            e.prove(st, Or(bv_cmp("eq", cnt, 0, 64), And(bv_cmp("ule", i, o.count, 64), bv_cmp("ule", cnt, bv_bin("sub", o.count, i, 64), 64))), "memory", "memcmp range within %s" % o.name)
        k = z3.BitVec(fresh_name("k"), 64)
        eqs = And(*[bv_cmp("eq", po.fields[fo].sel(simp(bv_bin("add", pi, k, 64))), qo.fields[fo].sel(simp(bv_bin("add", qi, k, 64))), 8 * po.fields[fo].w) for fo in po.fields])
        qa = mk_forall([k], B(Implies(bv_cmp("ult", k, cnt, 64), eqs)), [(0, cnt)])
        st.assume(B(bv_cmp("eq", r, 0, 32)) == B(qa))
        return r
    def llvm(e, st, name, a, tys):
        R = lambda v: [(st, v)]
        p = name.split(".")
        k = p[1]
        if k in ("memcpy", "memmove"): e.mem_copy(st, a[0], a[1], a[2], k == "memmove"); return R(None)
        if k == "memset": e.mem_set(st, a[0], a[1], a[2]); return R(None)
        if k in ("lifetime", "dbg", "assume", "donothing", "experimental", "invariant", "var", "prefetch", "stacksave", "stackrestore"): return R(NULL if k == "stacksave" else None)
        if k == "expect": return R(a[0])
        if k == "trap": e.prove(st, False, "abort", "trap is not reached"); return []
        if k == "objectsize": return R(U64)
        t = e.m.resolve(tys[0]) if tys else None
        if t is not None and t.k == "vec" and k in ("ctpop", "umax", "umin", "smax", "smin", "abs", "fabs", "sqrt", "uadd", "usub", "sadd", "ssub"):
            out = []
            for i in range(t.a):
                out.append(e.llvm(st, name, [x[i] if isinstance(x, list) else x for x in a], [t.b] * len(a))[0][1])
            return R(out)
        w = t.a if t is not None and t.k == "int" else None
        if k == "ctpop":
            x = a[0]
            if isint(x): return R(bin(x).count("1"))
            r = z3.BitVecVal(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return R(r)
        if k in ("ctlz", "cttz"):
            x = a[0]
            z = z3.FreshConst(z3.BitVecSort(w), "undef") if a[1] is True else z3.BitVecVal(w, w) # count of zeros of zero: no particular value
            if isint(x):
                if x == 0: return R(z if a[1] is True else w)
                return R(w - x.bit_length() if k == "ctlz" else (x & -x).bit_length() - 1)
            r = z
            for i in (range(w) if k == "ctlz" else reversed(range(w))):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if k == "ctlz" else i, w), r)
            return R(r)
        if k == "bswap":
            x = a[0]
            if isint(x): return R(int.from_bytes(x.to_bytes(w // 8, "little"), "big"))
            return R(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
        if k in ("fshl", "fshr"):
            x, y, s = BV(a[0], w), BV(a[1], w), BV(a[2], w)
            c = z3.Concat(x, y); sm = z3.URem(s, z3.BitVecVal(w, w)); sz = z3.ZeroExt(w, sm)
            return R(simp(z3.Extract(2 * w - 1, w, c << sz) if k == "fshl" else z3.Extract(w - 1, 0, z3.LShR(c, sz))))
        if k in ("umax", "umin", "smax", "smin"):
            c = bv_cmp({"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[k], a[0], a[1], w)
            return R(ite(c, a[0], a[1], w))
        if k == "abs":
            return R(ite(bv_cmp("slt", a[0], 0, w), bv_bin("sub", 0, a[0], w), a[0], w))
        if k in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
            o = k[1:]; s = k[0] == "s"
            ext = sext if s else zext
            if p[2] == "with":
                r = bv_bin(o, a[0], a[1], w)
                big = bv_bin(o, ext(a[0], w, 2 * w), ext(a[1], w, 2 * w), 2 * w)
                return R([r, bv_cmp("ne", big, ext(r, w, 2 * w), 2 * w)])
            if p[2] == "sat" and not s:
                r = bv_bin(o, a[0], a[1], w)
                if o == "add": return R(ite(bv_cmp("ult", r, a[0], w), mask(w), r, w))
                return R(ite(bv_cmp("ult", a[0], a[1], w), 0, r, w))
        if k == "fabs": return R(FPv(z3.fpAbs(a[0].e)))
        if k == "sqrt": return R(FPv(z3.fpSqrt(RNE, a[0].e)))
        if k in ("floor", "ceil", "trunc", "rint", "nearbyint", "round"):
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": RNE, "nearbyint": RNE, "round": z3.RNA()}[k]
            return R(FPv(z3.fpRoundToIntegral(rm, a[0].e)))
        if k == "fmuladd": return R(FPv(z3.fpAdd(RNE, z3.fpMul(RNE, a[0].e, a[1].e), a[2].e)))
        if k in ("minnum", "maxnum"): return R(FPv((z3.fpMin if k == "minnum" else z3.fpMax)(a[0].e, a[1].e)))
        raise Unsupported("intrinsic " + name)
    # ---- specification intrinsics
    def i_vc_any(e, st, a):
        w = a[0]; v = z3.BitVec(fresh_name("any"), w); st.tape.append(("any", w, v))
        return [(st, zext(v, w, 64))]
    def i_vc_size(e, st, a):
        v = z3.BitVec(fresh_name("size"), 64); st.tape.append(("any", 64, v, "size"))
        mx = a[0]
        st.assume(bv_cmp("ule", v, mx if not e.bounded else min(mx, e.bounded) if isint(mx) else mx, 64))
        if e.bounded: st.assume(bv_cmp("ule", v, e.bounded, 64))
        return [(st, v)]
    def i_vc_assume(e, st, a):
        if a[0] is False: return []
        st.assume(a[0])
        if not e.feasible(st): return []
        return [(st, None)]
    def i_vc_assert_(e, st, a):
        e.prove(st, a[0], "assert", e.cstr(st, a[1])); return [(st, None)]
    def i_vc_code_assert(e, st, a):
        e.prove(st, a[0], "code-assert", "assert(%s)" % e.cstr(st, a[1])); return [(st, None)]
    def i_vc_cover(e, st, a):
        if e.spec or e.quiet: return [(st, None)]
        nm = e.cstr(st, a[0])
        if e.covers.get(nm) != "reached":
            r, _, _ = solve.check(st.pc, 5000, use_cvc5=False, rounds=1)
            e.covers[nm] = "unreachable" if r == "unsat" else "reached"
        return [(st, None)]
    def i_vc_alloc(e, st, a):
        n, esz, heap = a
        n = n if isint(n) else simp(n)
        p = e.alloc(st, None, bool(heap) if isinstance(heap, bool) else bool(heap), "array", stride=esz, count=n)
        o = e.obj(st, p.o); e.default_fields(o)
        st.tape.append(("arr", n, esz, dict(o.fields)))
        return [(st, p)]
    def i_vc_ghost(e, st, a):
        n, esz = a
        p = e.alloc(st, None, False, "ghost", stride=esz, count=n if isint(n) else simp(n)); e.default_fields(e.obj(st, p.o))
        return [(st, p)]
    def i_vc_fill(e, st, a):
        p, n, esz = a
        n = n if isint(n) else simp(n)
        tmp = mkobj(e.new_oid(), "arr", None, False, "fill", esz, n); e.default_fields(tmp)
        if isint(n) and n == 0:
            st.tape.append(("arr", n, esz, {})); return [(st, None)]
        q = e.resolve_ptr(st, p)
        if isinstance(q, Ptr) and q.o is not None:
            o = e.obj(st, q.o)
            if o.kind == "arr" and o.fields and o.stride == esz:
                tmp.fields = {k: e.ubase(tmp, k, w) for k, w in e.fill_layout(sorted((k, f.w) for k, f in o.fields.items()), esz)}
        st.mem[tmp.oid] = tmp
        st.tape.append(("arr", n, esz, dict(tmp.fields)))
        e.mem_copy(st, p, Ptr(tmp.oid, Lin(0)), bv_bin("mul", n, esz, 64) if isint(n) else LinVal(lin_of(n).scale(esz)), True)
        return [(st, None)]
    def i_vc_snap(e, st, a):
        p, n, esz = a
        n = n if isint(n) else simp(n)
        q = e.alloc(st, None, False, "snapshot", stride=esz, count=n)
        if not (isint(n) and n == 0):
            pr = e.resolve_ptr(st, p)
            if isinstance(pr, Ptr) and pr.o is None and pr.l.is_const():
                e.prove(st, bv_cmp("eq", n, 0, 64), "spec", "snapshot of null")
            else: e.mem_copy(st, q, p, bv_bin("mul", n, esz, 64) if isint(n) else LinVal(lin_of(n).scale(esz)), True)
        return [(st, q)]
    def i_vc_live(e, st, a): return [(st, st.live & mask(64))]
    def i_vc_shared(e, st, a): st.meta["shared"] = e.resolve_ptr(st, a[0]); return [(st, None)]
    def i_vc_unroll(e, st, a): st.unroll = a[0]; return [(st, None)]
    def i_vc_terminates(e, st, a): st.meta["term"] = True; return [(st, None)]
    def i_vc_inv_(e, st, a):
        lab, np_, fn, env = a
        st.invs = st.invs + [(e.cstr(st, lab), np_, fn.n, env, None)]
        return [(st, None)]
    def i_vc_invp_(e, st, a):
        lab, np_, fn, env, esz = a
        st.invs = st.invs + [(e.cstr(st, lab), np_, fn.n, env, esz)]
        return [(st, None)]
    def i_vc_clear_inv(e, st, a): st.invs = []; return [(st, None)]
    def i_vc_forall1_(e, st, a):
        lo, hi, fn, env = a
        lo = lo if isint(lo) else simp(lo); hi = hi if isint(hi) else simp(hi)
        if isint(lo) and isint(hi) and hi - lo <= 64:
            r = True
            for i in range(lo, max(lo, hi)): r = And(r, e.spec_call(st, fn.n, [env, i]))
            return [(st, r if isinstance(r, bool) else simp(r))]
        k = z3.BitVec(fresh_name("k"), 64)
        s = st.clone(); g = And(bv_cmp("uge", k, lo, 64), bv_cmp("ult", k, hi, 64)); s.assume(g)
        b = e.spec_call(s, fn.n, [env, k])
        q = mk_forall([k], B(Implies(g, b)), [(lo, hi)])
        return [(st, q)]
    def i_vc_forall2_(e, st, a):
        lo, hi, lo2, hi2, fn, env = a
        lo, hi, lo2, hi2 = [x if isint(x) else simp(x) for x in (lo, hi, lo2, hi2)]
        k = z3.BitVec(fresh_name("k"), 64); j = z3.BitVec(fresh_name("j"), 64)
        s = st.clone(); g = And(bv_cmp("uge", k, lo, 64), bv_cmp("ult", k, hi, 64), bv_cmp("uge", j, lo2, 64), bv_cmp("ult", j, hi2, 64)); s.assume(g)
        b = e.spec_call(s, fn.n, [env, k, j])
        q = mk_forall([k, j], B(Implies(g, b)), [(lo, hi), (lo2, hi2)])
        return [(st, q)]
    def i_vc_implies(e, st, a): return [(st, Implies(a[0], a[1]))]

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.o == b.o and a.l.key() == b.l.key()
    if isinstance(a, Fn) and isinstance(b, Fn): return a.n == b.n
    if isint(a) and isint(b): return a == b
    if isinstance(a, LinVal): a = a.bv()
    if isinstance(b, LinVal): b = b.bv()
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return False
