"""Symbolic executor / verification condition generator over LLVM IR of the real code."""
import z3, time, re, sys, struct
from terms import *
import solve
from irparse import *

sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Split(Exception):
    """the current instruction must be re-executed under cond and under not cond"""
    def __init__(s, cond): s.cond = cond
class Budget(Exception): pass
class Enough(Exception): pass

class Ptr:
    __slots__ = ("o", "l")
    def __init__(s, o, l): s.o = o; s.l = l
    def __repr__(s): return "Ptr(%s,%r)" % (s.o, s.l)
class Fn:
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
    def __repr__(s): return "Fn(%s)" % s.n
NULL = Ptr(None, Lin(0))
class FPv:
    """floating point value carried as z3 FP term"""
    __slots__ = ("e",)
    def __init__(s, e): s.e = e
FSORT = {32: z3.Float32(), 64: z3.Float64(), 16: z3.FPSort(5, 11), 80: z3.FPSort(15, 64), 128: z3.FPSort(15, 113)}
RNE = z3.RNE()

class Obj:
    __slots__ = ("oid", "kind", "size", "alive", "heap", "cells", "fields", "stride", "count", "name", "gen", "const", "slin", "tag", "base", "ghost")
    def clone(s):
        o = Obj.__new__(Obj)
        for k in Obj.__slots__: setattr(o, k, getattr(s, k))
        if s.cells is not None: o.cells = dict(s.cells)
        if s.fields is not None: o.fields = dict(s.fields)
        return o
def mkobj(oid, kind, size, heap=False, name="", stride=None, count=None):
    o = Obj.__new__(Obj)
    o.oid, o.kind, o.size, o.alive, o.heap, o.name = oid, kind, size, True, heap, name
    o.cells = {} if kind == "cells" else None
    o.fields = {} if kind == "arr" else None
    o.stride, o.count, o.gen, o.const, o.slin, o.tag, o.base, o.ghost = stride, count, 0, False, None, None, 0, False
    return o

class State:
    __slots__ = ("pc", "mem", "tape", "invs", "live", "unroll", "meta", "pcset", "depth")
    def __init__(s):
        s.pc = []; s.mem = {}; s.tape = []; s.invs = []; s.live = 0; s.unroll = 0; s.meta = {}; s.pcset = set(); s.depth = 0
    def clone(s):
        n = State.__new__(State)
        n.pc = list(s.pc); n.mem = dict(s.mem); n.tape = list(s.tape); n.invs = list(s.invs); n.live = s.live; n.unroll = s.unroll
        n.meta = dict(s.meta); n.pcset = set(s.pcset); n.depth = s.depth
        return n
    def assume(s, c):
        c = simp(c)
        if c is True: return True
        if c is False: s.pc.append(z3.BoolVal(False)); return False
        if z3.is_and(c):
            ok = True; s.pcset.add(c.get_id()); KEEP.append(c)
            for x in c.children(): ok = s.assume(x) and ok
            return ok
        if c.get_id() in s.pcset: return True
        s.pcset.add(c.get_id()); s.pc.append(c)
        return True

class Oblig:
    __slots__ = ("label", "kind", "loc", "status", "time", "backend", "model", "tape", "detail")

class Engine:
    def __init__(e, mod, timeout_ms=20000, bounded=None, unroll=8, opts=None):
        e.m = mod
        e.noid = 0
        e.gmap = {}; e.gobj = {}
        e.spec = 0; e.quiet = 0
        e.timeout = timeout_ms
        e.bounded = bounded; e.bunroll = unroll
        e.obligs = []; e.failed = []
        e.subst = {}          # callee name -> stub name
        e.funcs_seen = {}
        e.contracts_used = {}
        e.assumed = {}
        e.PM = {}
        e.demangled = {}
        e.opts = opts or {}
        e.icmps = None
        e.deadline = None
        e.feas_cache = {}
        e.paths = 0
        e.stack = []
        e.loops_info = {}
        e.max_size = (1 << 32)
        e.maxpaths = e.opts.get("maxpaths", 4000)
        e.reach = []          # endpoints for vacuity
        e.first_fail_stop = False
        e.curloc = None
        e.covers = {}
        e.maxfail = None
    # ------------------------------------------------------------ objects
    def new_oid(e): e.noid += 1; return e.noid
    def obj(e, st, oid):
        o = st.mem.get(oid)
        if o is None: o = e.gobj[oid]
        return o
    def wobj(e, st, oid):
        o = e.obj(st, oid).clone(); st.mem[oid] = o; return o
    def alloc(e, st, size, heap, name, stride=None, count=None):
        """size: int bytes | BV64; or stride+count"""
        oid = e.new_oid()
        if stride is not None:
            o = mkobj(oid, "arr", None, heap, name, stride, count)
        else:
            if not isint(size):
                s2 = simp(size)
                if isint(s2): size = s2
            if isint(size):
                o = mkobj(oid, "cells", size, heap, name)
            else:
                bv = size.bv() if isinstance(size, LinVal) else size
                k, c = 1, bv
                if z3.is_app(bv) and bv.decl().kind() == z3.Z3_OP_BMUL and bv.num_args() == 2:
                    a, b = bv.children()
                    if z3.is_bv_value(a): k, c = a.as_long(), b
                    elif z3.is_bv_value(b): k, c = b.as_long(), a
                elif z3.is_app(bv) and bv.decl().kind() == z3.Z3_OP_BSHL and z3.is_bv_value(bv.arg(1)):
                    k, c = 1 << bv.arg(1).as_long(), bv.arg(0)
                o = mkobj(oid, "arr", None, heap, name, None if k == 1 else k, None if k == 1 else norm(c))
                o.slin = bv
                if k > 1:
                    e.prove(st, bv_cmp("ule", norm(c), U64 // k, 64), "alloc-overflow", "allocation size does not overflow")
        st.mem[oid] = o
        if heap: st.live += 1
        return Ptr(oid, Lin(0))
    def globl(e, name):
        name = e.m.aliases.get(name, name)
        if name in e.m.funcs or name in e.m.decls: return Fn(name)
        if name in e.gmap: return Ptr(e.gmap[name], Lin(0))
        t, init, const = e.m.globals[name]
        oid = e.new_oid(); e.gmap[name] = oid
        sz = e.m.size(t)
        rt = e.m.resolve(t)
        if rt.k == "arr" and rt.a > 8 and init is not None and init[0] == "agg" and e.m.resolve(rt.b).k == "int":
            w = e.m.size(rt.b)
            o = mkobj(oid, "arr", None, False, name, w, rt.a)
            o.fields[0] = Table([v[1] & mask(8 * w) if v[0] == "c" else 0 for v in init[1]], w)
        elif rt.k == "arr" and rt.a > 8 and init is not None and init[0] == "agg" and e.m.resolve(rt.b).k == "fp":
            w = e.m.size(rt.b)
            o = mkobj(oid, "arr", None, False, name, w, rt.a)
            o.fields[0] = Table([e.fpbits(v, e.m.resolve(rt.b).a) for v in init[1]], w)
        else:
            o = mkobj(oid, "cells", sz, False, name)
            e.gobj[oid] = o
            if init is not None: e.init_cells(o, 0, t, init)
        o.const = const
        e.gobj[oid] = o
        return Ptr(oid, Lin(0))
    def fpbits(e, v, w):
        x = e.const(v, Ty("fp", w))
        return simp(z3.fpToIEEEBV(x.e))
    def init_cells(e, o, off, t, v):
        t = e.m.resolve(t)
        if v[0] == "zero" or (v[0] in ("undef", "poison")):
            if e.m.size(t) > 4096 * 4: return
            for (b, lt) in e.m.leaves(t, off):
                o.cells[b] = (e.m.size(lt), NULL if lt.k == "ptr" else 0)
            return
        if v[0] == "agg":
            if t.k == "struct":
                for i, (x, xt) in enumerate(zip(v[1], v[2])): e.init_cells(o, off + e.m.field_off(t, i), xt, x)
            else:
                s = e.m.size(t.b)
                for i, x in enumerate(v[1]): e.init_cells(o, off + i * s, t.b, x)
            return
        val = e.const(v, t)
        if isinstance(val, FPv): val = simp(z3.fpToIEEEBV(val.e))
        if isinstance(val, bool): val = int(val)
        o.cells[off] = (e.m.size(t), val)
    # ------------------------------------------------------------ constants and operands
    def const(e, v, t):
        t = e.m.resolve(t); k = v[0]
        if k == "c":
            if t.k == "int" and t.a == 1: return bool(v[1])
            return v[1] & mask(t.a)
        if k == "null": return NULL
        if k == "g": return e.globl(v[1])
        if k == "f": return FPv(z3.FPVal(v[1], FSORT[t.a]))
        if k == "fx":
            s = v[1]
            if s[2] in "KMLHR": bits = int(s[3:], 16)
            else: bits = int(s[2:], 16)
            if t.a == 32:
                d = struct.unpack("<d", struct.pack("<Q", bits))[0]
                if d != d: return FPv(z3.fpNaN(FSORT[32]))
                b32 = struct.unpack("<I", struct.pack("<f", d))[0]
                return FPv(z3.simplify(z3.fpBVToFP(z3.BitVecVal(b32, 32), FSORT[32])))
            if t.a == 80:
                # explicit integer bit dropped
                man = bits & ((1 << 63) - 1); se = bits >> 64
                return FPv(z3.simplify(z3.fpBVToFP(z3.BitVecVal((se << 63) | man, 79), FSORT[80])))
            return FPv(z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, t.a), FSORT[t.a])))
        if k in ("undef", "poison"): return e.fresh(t, "undef")
        if k == "zero": return e.zero(t)
        if k == "agg": return [e.const(x, xt) for x, xt in zip(v[1], v[2])]
        if k == "ce":
            if v[1] == "gep":
                return e.gep(None, v[2], e.const(v[3], PTR), [(it, e.const(x, it)) for it, x in v[4]])
            if v[1] in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                return e.cast(v[1], e.const(v[3], v[2]), e.m.resolve(v[2]), e.m.resolve(v[4]))
            if v[1] == "bin": 
                return e.binop(None, v[2], e.const(v[4], v[3]), e.const(v[5], v[3]), e.m.resolve(v[3]), frozenset())
        raise Unsupported("constant %r" % (v,))
    def zero(e, t):
        t = e.m.resolve(t)
        if t.k == "int": return False if t.a == 1 else 0
        if t.k == "ptr": return NULL
        if t.k == "fp": return FPv(z3.FPVal(0.0, FSORT[t.a]))
        if t.k == "struct": return [e.zero(x) for x in t.a]
        if t.k in ("arr", "vec"): return [e.zero(t.b) for _ in range(t.a)]
        raise Unsupported("zero %r" % t)
    def fresh(e, t, p="u"):
        t = e.m.resolve(t)
        if t.k == "int":
            return z3.Bool(fresh_name(p)) if t.a == 1 else z3.BitVec(fresh_name(p), t.a)
        if t.k == "ptr": return Ptr(None, lin_of(z3.BitVec(fresh_name(p), 64)))
        if t.k == "fp": return FPv(z3.Const(fresh_name(p), FSORT[t.a]))
        if t.k == "struct": return [e.fresh(x, p) for x in t.a]
        if t.k in ("arr", "vec"): return [e.fresh(t.b, p) for _ in range(t.a)]
        if t.k == "metadata": return None
        raise Unsupported("fresh %r" % t)
    def val(e, regs, v, t):
        if v[0] == "r": return regs[v[1]]
        return e.const(v, t)
    # ------------------------------------------------------------ pointers
    def addr(e, oid): return z3.BitVec("A_%d" % oid, 64)
    def encode(e, p):
        if isint(p) or z3.is_bv(p): return p
        if isinstance(p, Fn):
            r = z3.BitVec("F_" + p.n, 64); e.PM[r.get_id()] = (r, p); return r
        if p.o is None:
            return p.l.bv()
        r = lin_of(e.addr(p.o)).add(p.l).bv()
        r = simp(r)
        if isint(r): return r
        e.PM[r.get_id()] = (r, p)
        return r
    def decode(e, b):
        if isinstance(b, (Ptr, Fn)): return b
        if isinstance(b, LinVal): b = b.bv()
        if isint(b): return Ptr(None, Lin(to_signed(b, 64)))
        b = simp(b)
        if isint(b): return Ptr(None, Lin(to_signed(b, 64)))
        x = e.PM.get(b.get_id())
        if x is not None: return x[1]
        l = lin_of(b)
        for i, (t, c) in l.t.items():
            if c == 1 and t.num_args() == 0:
                n = t.decl().name()
                if n.startswith("A_"):
                    return Ptr(int(n[2:]), l.add(Lin(0, {i: (t, 1)}), -1))
        return Ptr(None, l)
    def resolve_ptr(e, st, p):
        """raw pointer that is an if-then-else: split"""
        if isinstance(p, Fn): return p
        if p.o is None and p.l.t:
            q = e.decode(p.l.bv())
            if isinstance(q, Fn) or q.o is not None: return q
            for i, (t, c) in p.l.t.items():
                if c == 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                    cond = t.arg(0)
                    if cond.get_id() in st.pcset:
                        return e.resolve_ptr(st, Ptr(None, p.l.add(Lin(0, {i: (t, 1)}), -1).add(lin_of(norm(t.arg(1))))))
                    nc = Not(cond)
                    if not isinstance(nc, bool) and nc.get_id() in st.pcset:
                        return e.resolve_ptr(st, Ptr(None, p.l.add(Lin(0, {i: (t, 1)}), -1).add(lin_of(norm(t.arg(2))))))
                    raise Split(cond)
        return p
    def gep(e, st, sty, base, idx):
        m = e.m
        if isinstance(base, Fn): raise Unsupported("gep on function")
        l = base.l; t = sty; first = True
        for it, v in idx:
            if first: sz = m.size(t); first = False; cont = None
            else:
                rt = m.resolve(t)
                if rt.k == "struct":
                    l = l.add(Lin(m.field_off(rt, v))); t = rt.a[v]; continue
                t = rt.b; sz = m.size(t)
            if isint(v): l = l.add(Lin(to_signed(v, it.a) * sz))
            else:
                x = v
                if it.a < 64: x = sext(v, it.a, 64)
                if not isinstance(x, LinVal) and not isint(x): x = norm(x)
                l = l.add(lin_of(x).scale(sz))
        return Ptr(base.o, l)
    def ptr_cmp(e, st, p, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            an = a.n if isinstance(a, Fn) else None; bn = b.n if isinstance(b, Fn) else None
            if an is not None and bn is not None: r = an == bn
            else:
                o = b if an is not None else a
                if o.o is None and o.l.is_const(): r = False
                else: return bv_cmp(p, e.encode(a), e.encode(b), 64)
            return r if p == "eq" else (not r)
        if a.o is None or b.o is None:
            a2, b2 = a, b
            if a.o is None and a.l.t: a2 = e.decode(a.l.bv())
            if b.o is None and b.l.t: b2 = e.decode(b.l.bv())
            if isinstance(a2, Ptr) and isinstance(b2, Ptr): a, b = a2, b2
        if a.o == b.o and a.o is not None:
            d = a.l.add(b.l, -1)
            if d.is_const(): x = d.c; sgn = {"eq": x == 0, "ne": x != 0, "ult": x < 0, "ule": x <= 0, "ugt": x > 0, "uge": x >= 0,
                                               "slt": x < 0, "sle": x <= 0, "sgt": x > 0, "sge": x >= 0}; return sgn[p]
            g = abs(d.gcd())
            if d.c % g == 0:
                # compare in element units
                pl = Lin(0, {k: (t, c) for k, (t, c) in d.t.items() if c > 0}); nl = Lin(0, {k: (t, -c) for k, (t, c) in d.t.items() if c < 0})
                if d.c > 0: pl = pl.add(Lin(d.c))
                else: nl = nl.add(Lin(-d.c))
                x = pl.div(g)[0].bv(); y = nl.div(g)[0].bv()
            else: x, y = a.l.bv(), b.l.bv()
            q = p if p in ("eq", "ne") else "s" + p[1:]
            if e.icmps is not None and (e.opts.get("wide") or 0) >= 2: e.icmps.append((x, y, 64))
            return bv_cmp(q, x, y, 64)
        if a.o is not None and b.o is not None:
            if p == "eq": return False
            if p == "ne": return True
            return bv_cmp(p, e.encode(a), e.encode(b), 64)
        if a.o is None and b.o is None:
            return bv_cmp(p, a.l.bv(), b.l.bv(), 64)
        # one is an object pointer, the other raw
        o, r = (a, b) if a.o is not None else (b, a)
        if r.l.is_const():
            if p == "eq": return False
            if p == "ne": return True
            # object addresses are above any small integer
            big = True
            if p in ("ugt", "uge", "sgt", "sge"): return (a is o)
            return (b is o)
        return bv_cmp(p, e.encode(a), e.encode(b), 64)
    # ------------------------------------------------------------ obligations
    def loc(e):
        if e.curloc is None: return None
        return loc_of(e.m, e.curloc)
    def prove(e, st, goal, kind, label):
        goal = simp(goal)
        if e.spec:
            return True
        if e.quiet:
            if goal is False: st.pc.append(z3.BoolVal(False)); return False
            st.assume(goal); return goal is not False
        if e.deadline and time.time() > e.deadline: raise Budget("time budget exhausted")
        o = Oblig(); o.label, o.kind, o.loc = label, kind, e.loc(); o.model = o.tape = o.detail = None; o.backend = "fold"; o.time = 0
        if goal is True or (not isinstance(goal, bool) and goal.get_id() in st.pcset):
            o.status = "proved"; e.obligs.append(o); return True
        t0 = time.time()
        r, model, be = solve.check(st.pc + [Not(goal)], e.timeout, bounded=e.bounded)
        o.time = time.time() - t0; o.backend = be
        if r == "unsat": o.status = "proved"
        else:
            o.status = "failed" if r == "sat" else "undecided"
            o.model = model
            szs = [t[2] for t in st.tape if t[0] == "any" and len(t) > 3]
            if r == "sat" and szs and not e.bounded:
                for lim in (4, 16):
                    r2, m2, _ = solve.check(st.pc + [Not(goal)] + [z3.ULE(v, lim) for v in szs], 5000, use_cvc5=False)
                    if r2 == "sat" and m2 is not None: model = m2; break
            if model is not None:
                try: o.tape = e.eval_tape(st, model)
                except Exception as ex: o.detail = "tape: %r" % ex
            o.detail = (o.detail or "") + " goal: %s" % str(goal)[:600]
            e.failed.append(o)
        e.obligs.append(o)
        if e.maxfail and len(e.failed) >= e.maxfail: raise Enough()
        if goal is False: st.pc.append(z3.BoolVal(False)); return False
        st.assume(goal)
        return True
    def eval_tape(e, st, model):
        out = []
        def ev(x, w):
            if isint(x): return x
            if isinstance(x, bool): return int(x)
            v = model.eval(BV(x, w), model_completion=True)
            return v.as_long()
        for ev_ in st.tape:
            if ev_[0] == "any": out.append("a %d" % ev(ev_[2], ev_[1]))
            else:
                _, n, esz, fields = ev_
                nn = ev(n, 64)
                if nn > 4096: raise Unsupported("array too long in model: %d" % nn)
                b = bytearray(nn * esz)
                for i in range(nn):
                    for off, base in fields.items():
                        v = ev(base.sel(i), 8 * base.w)
                        b[i * esz + off:i * esz + off + base.w] = v.to_bytes(base.w, "little")
                out.append("r %d %d %s" % (nn, esz, bytes(b).hex() or "-"))
        return out
    def feasible(e, st, cond=True):
        cond = simp(cond)
        if cond is False: return False
        if cond is not True and cond.get_id() in st.pcset: return True
        if cond is not True:
            nc = simp(z3.Not(cond))
            if not isinstance(nc, bool) and nc.get_id() in st.pcset: return False
        fs = st.pc + ([cond] if cond is not True else [])
        if any(z3.is_false(f) for f in fs): return False
        key = frozenset(f.get_id() for f in fs)
        r = e.feas_cache.get(key)
        if r is not None: return r[1]
        if e.bounded:
            rr, _, _ = solve.check(fs, 3000, bounded=e.bounded, use_cvc5=False)
        else:
            rr, _ = solve.raw_check(fs, 1500, None if e.opts.get("fp") else "QF_UFBV")
        v = not rr.startswith("unsat")
        e.feas_cache[key] = (fs, v)
        return v
    # ------------------------------------------------------------ memory access
    def ubase(e, o, off, w):
        return Base("M%d_%d_%d_%d" % (o.oid, o.gen, off, w), w)
    def cell_undef(e, o, off, w):
        return z3.BitVec("U%d_%d_%d_%d" % (o.oid, o.gen, off, w), 8 * w)
    def as_bits(e, v, w):
        if isinstance(v, (Ptr, Fn)): return e.encode(v)
        if isinstance(v, FPv): return z3.fpToIEEEBV(v.e)
        return v
    def cells_read(e, o, off, w):
        c = o.cells.get(off)
        if c is not None and c[0] == w: return c[1]
        # assemble from bytes
        parts = []  # (off, w, value)
        pos = off; end = off + w
        over = sorted((k, x) for k, x in o.cells.items() if k < end and k + x[0] > off)
        if not over: return e.cell_undef(o, off, w)
        for k, (cw, cv) in over:
            if k > pos:
                parts.append((pos, k - pos, e.cell_undef(o, pos, k - pos))); pos = k
            lo = max(k, off); hi = min(k + cw, end)
            b = e.as_bits(cv, cw)
            if isinstance(b, LinVal): b = b.bv()
            parts.append((lo, hi - lo, extract(b, 8 * (hi - k) - 1, 8 * (lo - k)) if (lo, hi) != (k, k + cw) else b))
            pos = hi
        if pos < end: parts.append((pos, end - pos, e.cell_undef(o, pos, end - pos)))
        if all(isint(p[2]) for p in parts):
            r = 0
            for o2, w2, v in parts: r |= v << (8 * (o2 - off))
            return r
        if len(parts) == 1: return parts[0][2]
        return simp(z3.Concat(*[BV(p[2], 8 * p[1]) for p in reversed(parts)]))
    def cells_write(e, o, off, w, v):
        c = o.cells.get(off)
        if c is not None and c[0] == w: o.cells[off] = (w, v); return
        end = off + w
        over = sorted((k, x) for k, x in o.cells.items() if k < end and k + x[0] > off)
        for k, (cw, cv) in over:
            del o.cells[k]
            if k < off or k + cw > end:
                b = e.as_bits(cv, cw)
                if isinstance(b, LinVal): b = b.bv()
                if k < off: o.cells[k] = (off - k, extract(b, 8 * (off - k) - 1, 0))
                if k + cw > end: o.cells[end] = (k + cw - end, extract(b, 8 * cw - 1, 8 * (end - k)))
        o.cells[off] = (w, v)
    def set_stride(e, o, s):
        o.stride = s
        if o.slin is not None:
            q = lin_of(o.slin).div(s)
            if q is not None and q[1] == 0: o.count = simp(q[0].bv())
            else: o.count = simp(z3.UDiv(BV(o.slin, 64), z3.BitVecVal(s, 64)))
    def arr_index(e, st, o, l, w):
        """-> (idx BV/int, field offset) ; may fix the stride"""
        if o.stride is None:
            g = l.gcd()
            s = g if g else w
            if s > 1 and lin_of(o.slin).div(s) is None and g == 0: s = 1
            e.set_stride(o, s)
        q = l.div(o.stride)
        if q is None: return None
        return simp(q[0].bv()), q[1]
    def field_read(e, o, idx, fo, w):
        """read w bytes at field offset fo of element idx (fo+w <= stride)"""
        f = o.fields.get(fo)
        if f is not None and f.w == w: return f.sel(idx)
        over = sorted((k, x) for k, x in o.fields.items() if k < fo + w and k + x.w > fo)
        if not over:
            f = e.ubase(o, fo, w); o.fields[fo] = f
            return f.sel(idx)
        parts = []; pos = fo; end = fo + w
        for k, x in over:
            if k > pos:
                f = e.ubase(o, pos, k - pos); o.fields[pos] = f; parts.append((pos, k - pos, f.sel(idx))); pos = k
            lo = max(k, fo); hi = min(k + x.w, end); b = x.sel(idx)
            parts.append((lo, hi - lo, extract(b, 8 * (hi - k) - 1, 8 * (lo - k)) if (lo, hi) != (k, k + x.w) else b)); pos = hi
        if pos < end:
            f = e.ubase(o, pos, end - pos); o.fields[pos] = f; parts.append((pos, end - pos, f.sel(idx)))
        if len(parts) == 1: return parts[0][2]
        return simp(z3.Concat(*[BV(p[2], 8 * p[1]) for p in reversed(parts)]))
    def field_write(e, o, idx, fo, w, v):
        f = o.fields.get(fo)
        if f is not None and f.w == w: o.fields[fo] = Store(f, idx, v); return
        end = fo + w
        over = sorted((k, x) for k, x in o.fields.items() if k < end and k + x.w > fo)
        if not over:
            o.fields[fo] = Store(e.ubase(o, fo, w), idx, v); return
        pos = fo
        for k, x in over:
            if k > pos:
                o.fields[pos] = Store(e.ubase(o, pos, k - pos), idx, extract(v, 8 * (k - fo) - 1, 8 * (pos - fo))); pos = k
            lo = max(k, fo); hi = min(k + x.w, end)
            piece = extract(v, 8 * (hi - fo) - 1, 8 * (lo - fo))
            if (lo, hi) != (k, k + x.w):
                old = x.sel(idx); ps = []
                if hi < k + x.w: ps.append(BV(extract(old, 8 * x.w - 1, 8 * (hi - k)), 8 * (k + x.w - hi)))
                ps.append(BV(piece, 8 * (hi - lo)))
                if lo > k: ps.append(BV(extract(old, 8 * (lo - k) - 1, 0), 8 * (lo - k)))
                piece = simp(z3.Concat(*ps))
            o.fields[k] = Store(x, idx, piece); pos = hi
        if pos < end:
            o.fields[pos] = Store(e.ubase(o, pos, end - pos), idx, extract(v, 8 * w - 1, 8 * (pos - fo)))
    def check_live(e, st, p, what):
        p = e.resolve_ptr(st, p)
        if isinstance(p, Fn) or p.o is None:
            if not e.spec:
                e.prove(st, False, "memory", "%s through null or invalid pointer" % what)
                if e.quiet: return None
            return None
        o = e.obj(st, p.o)
        if not o.alive:
            if not e.spec: e.prove(st, False, "memory", "%s of freed memory (%s)" % (what, o.name))
            return None
        return p
    def read_bits(e, st, p, w, what="load"):
        """returns value: int/BV, Ptr or Fn (when a pointer cell is read whole)"""
        p = e.check_live(st, p, what)
        if p is None: return None
        o = e.obj(st, p.o)
        if o.kind == "arena": return e.arena_read(st, o, p, w)
        if o.kind == "cells":
            if p.l.is_const():
                if p.l.c < 0 or p.l.c + w > o.size:
                    e.prove(st, False, "memory", "%s out of bounds of %s" % (what, o.name)); return None
                return e.cells_read(o, p.l.c, w)
            pos, idx, n = e.positions(o, p.l, w)
            e.prove(st, bv_cmp("ult", idx, n, 64), "memory", "%s within bounds of %s" % (what, o.name))
            r = None
            for j in reversed(range(n)):
                v = e.cells_read(o, pos[j], w); v = e.as_bits(v, w)
                r = v if r is None else ite(bv_cmp("eq", idx, j, 64), v, r, 8 * w)
            return r
        if o.oid not in st.mem or True:
            pass
        if o.stride is None or True:
            o2 = o
        ai = e.arr_index(st, o, p.l, w)
        if ai is None: return e.misaligned_read(st, o, p, w, what)
        idx, fo = ai
        s = o.stride
        if fo + w <= s:
            e.prove(st, bv_cmp("ult", idx, o.count, 64), "memory", "%s within bounds of %s" % (what, o.name))
            return e.field_read(o, idx, fo, w)
        # spans several elements
        k = (fo + w + s - 1) // s
        e.prove_range(st, o, idx, k, what)
        parts = []; pos = fo; left = w; i = 0
        while left > 0:
            take = min(s - pos, left)
            parts.append((take, e.field_read(o, simp(bv_bin("add", idx, i, 64)), pos, take)))
            left -= take; pos = 0; i += 1
        return simp(z3.Concat(*[BV(v, 8 * t) for t, v in reversed(parts)]))
    def prove_range(e, st, o, idx, k, what):
        """idx .. idx+k-1 within count (k int or BV)"""
        c = And(bv_cmp("ule", idx, o.count, 64), bv_cmp("ule", k, bv_bin("sub", o.count, idx, 64), 64))
        e.prove(st, c, "memory", "%s range within bounds of %s" % (what, o.name))
    def positions(e, o, l, w):
        g = abs(l.gcd()); r = l.c % g
        n = max(0, (o.size - w - r) // g + 1) if o.size - w - r >= 0 else 0
        if n > 300: raise Unsupported("symbolic index into large concrete object %s (%d)" % (o.name, n))
        idx = simp(Lin((l.c - r) // g, {k: (t, c // g) for k, (t, c) in l.t.items()}).bv())
        return [r + g * j for j in range(n)], idx, n
    def misaligned_read(e, st, o, p, w, what):
        s = o.stride; g = abs(p.l.gcd()); 
        off = BV(p.l.bv(), 64)
        if s & (s - 1): raise Unsupported("access with coefficient %d to stride %d of %s" % (g, s, o.name))
        sh = s.bit_length() - 1
        idx = simp(z3.LShR(off, sh)); rem = simp(off & (s - 1))
        if g < w and w > 1 and not (p.l.c % w == 0 and g % w == 0): raise Unsupported("possibly straddling access to %s" % o.name)
        e.prove(st, bv_cmp("ult", idx, o.count, 64), "memory", "%s within bounds of %s" % (what, o.name))
        r = None
        gg = g
        while gg > 1 and p.l.c % gg: gg //= 2
        step = max(w, min(gg, s)) if w > 1 else max(1, min(gg, s))
        for fo in range(0, s, step):
            v = e.as_bits(e.field_read(o, idx, fo, w), w)
            r = v if r is None else ite(bv_cmp("eq", rem, fo, 64), v, r, 8 * w)
        return r
    def misaligned_write(e, st, o, p, w, v):
        s = o.stride; g = abs(p.l.gcd()); off = BV(p.l.bv(), 64)
        if s & (s - 1): raise Unsupported("write with coefficient %d to stride %d of %s" % (g, s, o.name))
        sh = s.bit_length() - 1
        idx = simp(z3.LShR(off, sh)); rem = simp(off & (s - 1))
        e.prove(st, bv_cmp("ult", idx, o.count, 64), "memory", "store within bounds of %s" % o.name)
        gg = g
        while gg > 1 and p.l.c % gg: gg //= 2
        step = max(w, min(gg, s)) if w > 1 else max(1, min(gg, s))
        for fo in range(0, s, step):
            old = e.as_bits(e.field_read(o, idx, fo, w), w)
            e.field_write(o, idx, fo, w, ite(bv_cmp("eq", rem, fo, 64), v, old, 8 * w))
    def write_bits(e, st, p, w, v):
        p = e.check_live(st, p, "store")
        if p is None: return
        o = e.obj(st, p.o)
        if o.const: e.prove(st, False, "memory", "store to constant %s" % o.name); return
        o = e.wobj(st, p.o)
        if o.kind == "arena": e.arena_write(st, o, p, w, v); return
        if o.kind == "cells":
            if p.l.is_const():
                if p.l.c < 0 or p.l.c + w > o.size:
                    e.prove(st, False, "memory", "store out of bounds of %s" % o.name); return
                e.cells_write(o, p.l.c, w, v); return
            pos, idx, n = e.positions(o, p.l, w)
            e.prove(st, bv_cmp("ult", idx, n, 64), "memory", "store within bounds of %s" % o.name)
            b = e.as_bits(v, w)
            for j in range(n):
                old = e.as_bits(e.cells_read(o, pos[j], w), w)
                e.cells_write(o, pos[j], w, ite(bv_cmp("eq", idx, j, 64), b, old, 8 * w))
            return
        v = e.as_bits(v, w)
        if isinstance(v, LinVal): v = v.bv()
        ai = e.arr_index(st, o, p.l, w)
        if ai is None: e.misaligned_write(st, o, p, w, v); return
        idx, fo = ai; s = o.stride
        if fo + w <= s:
            e.prove(st, bv_cmp("ult", idx, o.count, 64), "memory", "store within bounds of %s" % o.name)
            e.field_write(o, idx, fo, w, v); return
        k = (fo + w + s - 1) // s
        e.prove_range(st, o, idx, k, "store")
        pos = fo; done = 0; i = 0
        while done < w:
            take = min(s - pos, w - done)
            e.field_write(o, simp(bv_bin("add", idx, i, 64)), pos, take, extract(v, 8 * (done + take) - 1, 8 * done))
            done += take; pos = 0; i += 1
    def load(e, st, p, t):
        t = e.m.resolve(t)
        if t.k == "struct" or t.k in ("arr", "vec"):
            out = []
            if t.k == "struct":
                for i, x in enumerate(t.a): out.append(e.load(st, Ptr(p.o, p.l.add(Lin(e.m.field_off(t, i)))), x))
            else:
                s = e.m.size(t.b)
                for i in range(t.a): out.append(e.load(st, Ptr(p.o, p.l.add(Lin(i * s))), t.b))
            return out
        w = e.m.size(t)
        if t.k == "fp" and t.a == 80: w = 10
        v = e.read_bits(st, p, w)
        if v is None: return e.fresh(t, "inv")
        if t.k == "ptr":
            return e.decode(v) if not isinstance(v, (Ptr, Fn)) else v
        if isinstance(v, (Ptr, Fn)):
            if t.k == "int" and t.a == 64: return e.cast("ptrtoint", v, PTR, t)
            v = e.encode(v)
        if t.k == "fp":
            return FPv(z3.fpBVToFP(BV(v, 8 * w), FSORT[t.a])) if t.a != 80 else FPv(z3.Const(fresh_name("x87"), FSORT[80]))
        if t.a == 1: return bv_cmp("ne", extract(BV(v, 8), 0, 0), 0, 1)
        if t.a < 8 * w: return simp(extract(v, t.a - 1, 0))
        return v
    def store(e, st, p, t, v):
        t = e.m.resolve(t)
        if t.k == "struct":
            for i, x in enumerate(t.a): e.store(st, Ptr(p.o, p.l.add(Lin(e.m.field_off(t, i)))), x, v[i])
            return
        if t.k in ("arr", "vec"):
            s = e.m.size(t.b)
            for i in range(t.a): e.store(st, Ptr(p.o, p.l.add(Lin(i * s))), t.b, v[i])
            return
        w = e.m.size(t)
        if t.k == "fp" and t.a == 80: w = 10; v = z3.BitVec(fresh_name("x87"), 80)
        if t.k == "int" and t.a == 1: v = int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        elif t.k == "int" and t.a < 8 * w: v = zext(v, t.a, 8 * w)
        elif t.k == "fp" and isinstance(v, FPv): v = simp(z3.fpToIEEEBV(v.e))
        e.write_bits(st, p, w, v)
    # ------------------------------------------------------------ bulk memory
    def zero_len(e, n): return isint(n) and n == 0
    def mem_copy(e, st, d, s, n, move):
        what = "memmove" if move else "memcpy"
        if not isint(n):
            n2 = simp(n)
            if isint(n2): n = n2
        if e.zero_len(n): return
        if not isint(n):
            # a zero-length copy is harmless whatever the pointers are
            bad = (isinstance(d, Ptr) and d.o is None) or (isinstance(s, Ptr) and s.o is None)
            if bad:
                e.prove(st, bv_cmp("eq", n, 0, 64), "memory", "%s with null pointer has zero length" % what)
                return
        d = e.check_live(st, d, what); 
        if d is None: return
        s = e.check_live(st, s, what)
        if s is None: return
        so = e.obj(st, s.o); do = e.wobj(st, d.o)
        if do.const: e.prove(st, False, "memory", "store to constant"); return
        if s.o == d.o: so = do
        if isint(n):
            # concrete length
            if so.kind == "cells" and do.kind == "cells" and s.l.is_const() and d.l.is_const():
                a, b = s.l.c, d.l.c
                if a < 0 or a + n > so.size or b < 0 or b + n > do.size:
                    e.prove(st, False, "memory", "%s out of bounds" % what); return
                pieces = []
                pos = a
                while pos < a + n:
                    c = so.cells.get(pos)
                    if c is not None and pos + c[0] <= a + n: pieces.append((pos - a, c[0], c[1])); pos += c[0]; continue
                    # gap up to next cell start
                    nxt = min([k for k in so.cells if k > pos] + [a + n])
                    ov = [k for k, x in so.cells.items() if k < pos < k + x[0]]
                    if ov:
                        k = ov[0]; nxt = min(nxt, k + so.cells[k][0], a + n)
                    step = min(nxt - pos, 8)
                    while pos % step: step //= 2
                    step = 1 << (step.bit_length() - 1)
                    pieces.append((pos - a, step, e.cells_read(so, pos, step))); pos += step
                for o2, w, v in pieces: e.cells_write(do, b + o2, w, v)
                return
            step = None
            ss = so.stride if so.kind == "arr" else None; ds = do.stride if do.kind == "arr" else None
            unit = None
            for u in (ss, ds):
                if u and u not in (0,): unit = u if unit is None else min(unit, u)
            if unit is None: unit = 8 if n % 8 == 0 else (4 if n % 4 == 0 else 1)
            if n <= 256:
                # gather then write
                parts = []
                pos = 0
                lay = e.layout(so, s.l, n) or e.layout(do, d.l, n) or [(i, 1) for i in range(n)]
                for po, pw in lay:
                    parts.append((po, pw, e.read_bits(st, Ptr(s.o, s.l.add(Lin(po))), pw, what)))
                for po, pw, v in parts:
                    if v is None: return
                    e.write_bits(st, Ptr(d.o, d.l.add(Lin(po))), pw, v)
                return
        if so.kind == "cells" and isint(so.size): so = e.to_arr(st, s.o, do.stride if do.kind == "arr" else None, s.l)
        if s.o == d.o: do = so
        if do.kind == "cells" and isint(do.size): do = e.to_arr(st, d.o, so.stride, d.l)
        if s.o == d.o: so = do
        if so.stride is None and do.stride is not None: e.set_stride(so, do.stride)
        if do.stride is None and so.stride is not None: e.set_stride(do, so.stride)
        if do.stride is None:
            g = 0
            for l in (lin_of(n), s.l, d.l):
                g = math.gcd(g, l.gcd()); g = math.gcd(g, abs(l.c))
            g = g or 1
            e.set_stride(do, g); 
            if so is not do: e.set_stride(so, g)
        if so.stride != do.stride:
            e.restride(st, so, do)
        stv = do.stride
        nl = lin_of(n).div(stv); sl = s.l.div(stv); dl = d.l.div(stv)
        if nl is None or sl is None or dl is None or nl[1] or sl[1] or dl[1]:
            raise Unsupported("%s of non-element range (%s -> %s)" % (what, so.name, do.name))
        cnt, si, di = simp(nl[0].bv()), simp(sl[0].bv()), simp(dl[0].bv())
        e.prove(st, Or(bv_cmp("eq", cnt, 0, 64), And(bv_cmp("ule", si, so.count, 64), bv_cmp("ule", cnt, bv_bin("sub", so.count, si, 64), 64))), "memory", "%s source range within %s" % (what, so.name))
        e.prove(st, Or(bv_cmp("eq", cnt, 0, 64), And(bv_cmp("ule", di, do.count, 64), bv_cmp("ule", cnt, bv_bin("sub", do.count, di, 64), 64))), "memory", "%s destination range within %s" % (what, do.name))
        if not move and s.o == d.o:
            e.prove(st, Or(bv_cmp("eq", cnt, 0, 64), bv_cmp("ule", bv_bin("add", si, cnt, 64), di, 64), bv_cmp("ule", bv_bin("add", di, cnt, 64), si, 64)), "memory", "memcpy ranges do not overlap")
        e.unify_fields(so, do)
        srcf = dict(so.fields)
        for k, f in srcf.items():
            do.fields[k] = Copy(do.fields[k], di, f, si, cnt)
    def layout(e, o, l, n):
        """piece layout of n bytes at l following the object's partition"""
        if o.kind == "cells" and l.is_const():
            cs = sorted((k - l.c, x[0]) for k, x in o.cells.items() if k >= l.c and k + x[0] <= l.c + n)
            return e.fill_layout(cs, n)
        if o.kind == "arr" and o.stride:
            s = o.stride
            q = l.div(s)
            if q is None: return None
            fo = q[1]; out = []; pos = 0
            fl = sorted((k, f.w) for k, f in o.fields.items()) or ([(0, s)] if s in (1, 2, 4, 8) else [])
            if not fl: return None
            cs = []
            i = 0
            while i * s - fo < n:
                for k, w in fl:
                    p = i * s + k - fo
                    if p >= 0 and p + w <= n: cs.append((p, w))
                i += 1
            return e.fill_layout(cs, n)
        return None
    def fill_layout(e, cs, n):
        if not cs: return None
        out = []; pos = 0
        for k, w in cs:
            while pos < k:
                st = min(8, k - pos)
                while pos % st or st > k - pos: st -= 1
                st = 1 << (st.bit_length() - 1)
                out.append((pos, st)); pos += st
            if k < pos: continue
            out.append((k, w)); pos = k + w
        while pos < n:
            st = min(8, n - pos); st = 1 << (st.bit_length() - 1)
            while pos % st: st //= 2
            out.append((pos, st)); pos += st
        return out
    def to_arr(e, st, oid, stride, l):
        """turn a concrete object into an array object (element = stride bytes)"""
        o = e.obj(st, oid)
        if stride is None:
            g = 0
            for k, (w, _) in o.cells.items(): g = math.gcd(math.gcd(g, k), w)
            stride = math.gcd(g, o.size) or 1
        if o.size % stride: 
            stride = math.gcd(o.size, stride) or 1
        n = mkobj(o.oid, "arr", None, o.heap, o.name, stride, o.size // stride)
        n.const = o.const; n.gen = o.gen
        w = stride
        if w in (1, 2, 4, 8) or True:
            # single field per element, table contents
            vals = [e.as_bits(e.cells_read(o, i * stride, stride), stride) for i in range(o.size // stride)]
            n.fields[0] = Table([v if isint(v) else v for v in vals], stride)
        st.mem[oid] = n
        return n
    def restride(e, st, so, do):
        """give both objects the smaller stride"""
        s = math.gcd(so.stride, do.stride)
        for o in (so, do):
            if o.stride != s: e.split_stride(o, s)
    def split_stride(e, o, s):
        k = o.stride // s
        if not isint(o.count): pass
        old = dict(o.fields); os_ = o.stride
        o2 = o.clone()
        o2.fields = old
        o.fields = {}
        if not old:
            o.stride = s; o.count = simp(bv_bin("mul", o.count, k, 64)); return
        def fn(i, e=e, o2=o2, k=k, s=s):
            if isint(i): return e.as_bits(e.field_read(o2, i // k, (i % k) * s, s), s)
            I = BV(i, 64)
            if k & (k - 1) == 0:
                q = simp(z3.LShR(I, k.bit_length() - 1)); r = simp(I & (k - 1))
            else:
                q = simp(z3.UDiv(I, z3.BitVecVal(k, 64))); r = simp(z3.URem(I, z3.BitVecVal(k, 64)))
            res = None
            for j in range(k):
                v = e.as_bits(e.field_read(o2, q, j * s, s), s)
                res = v if res is None else ite(bv_cmp("eq", r, j, 64), v, res, 8 * s)
            return res
        o.fields[0] = View(s, fn)
        o.stride = s; o.count = simp(bv_bin("mul", o.count, k, 64))
    def unify_fields(e, a, b):
        if a is b:
            if not a.fields: e.default_fields(a)
            return
        if not a.fields and not b.fields: e.default_fields(a)
        for x, y in ((a, b), (b, a)):
            for k, f in list(x.fields.items()):
                g = y.fields.get(k)
                if g is not None and g.w == f.w: continue
                over = [(j, h) for j, h in y.fields.items() if j < k + f.w and j + h.w > k]
                if not over: y.fields[k] = e.ubase(y, k, f.w)
                else:
                    # repartition y's overlapping fields to x's layout when y's piece is wider
                    e.repartition(a, b); return
    def repartition(e, a, b):
        cuts = set([0, a.stride])
        for o in (a, b):
            for k, f in o.fields.items(): cuts.add(k); cuts.add(k + f.w)
        cuts = sorted(cuts)
        for o in (a, b):
            old = o.clone(); nf = {}
            for lo, hi in zip(cuts, cuts[1:]):
                f = old.fields.get(lo)
                if f is not None and f.w == hi - lo: nf[lo] = f
                else: nf[lo] = View(hi - lo, lambda i, old=old, lo=lo, hi=hi: e.as_bits(e.field_read(old, i, lo, hi - lo), hi - lo))
            o.fields = nf
    def default_fields(e, o):
        pos = 0; s = o.stride
        while pos < s:
            w = 8
            while w > s - pos or pos % w: w //= 2
            o.fields[pos] = e.ubase(o, pos, w); pos += w
    def mem_set(e, st, d, v, n):
        if not isint(n):
            n2 = simp(n)
            if isint(n2): n = n2
        if e.zero_len(n): return
        if not isint(n) and isinstance(d, Ptr) and d.o is None and d.l.is_const():
            e.prove(st, bv_cmp("eq", n, 0, 64), "memory", "memset with null pointer has zero length"); return
        d = e.check_live(st, d, "memset")
        if d is None: return
        o = e.wobj(st, d.o)
        if o.kind == "arena": raise Unsupported("memset in arena")
        v = simp(v) if not isint(v) else v
        def rep(w):
            if isint(v): return int.from_bytes(bytes([v & 255]) * w, "little")
            return simp(z3.Concat(*[v] * w)) if w > 1 else v
        if isint(n) and o.kind == "cells" and d.l.is_const():
            if d.l.c < 0 or d.l.c + n > o.size: e.prove(st, False, "memory", "memset out of bounds of %s" % o.name); return
            lay = e.layout(o, d.l, n) or e.fill_layout([(0, 1)], n) if n < 8 else (e.layout(o, d.l, n) or [(i, 8) for i in range(0, n - n % 8, 8)] + [(i, 1) for i in range(n - n % 8, n)])
            if n > 65536: raise Unsupported("large memset")
            for po, pw in lay: e.cells_write(o, d.l.c + po, pw, rep(pw))
            return
        if isint(n) and n <= 128 and o.kind == "arr":
            lay = e.layout(o, d.l, n) or [(i, 1) for i in range(n)]
            for po, pw in lay: e.write_bits(st, Ptr(d.o, d.l.add(Lin(po))), pw, rep(pw))
            return
        if o.kind == "cells": o = e.to_arr(st, d.o, abs(math.gcd(lin_of(n).gcd() or 0, d.l.gcd() or 0)) or 1, d.l)
        nl0 = lin_of(n)
        if o.stride is None:
            g = math.gcd(math.gcd(nl0.gcd(), abs(nl0.c)), math.gcd(d.l.gcd(), abs(d.l.c))) or 1
            e.set_stride(o, g)
        nl = nl0.div(o.stride); dl = d.l.div(o.stride)
        if nl is None or dl is None or nl[1] or dl[1]:
            e.split_stride(o, math.gcd(math.gcd(o.stride, nl0.gcd() or 0), math.gcd(abs(nl0.c), math.gcd(d.l.gcd() or 0, abs(d.l.c)))) or 1)
            nl = nl0.div(o.stride); dl = d.l.div(o.stride)
        cnt, di = simp(nl[0].bv()), simp(dl[0].bv())
        e.prove(st, Or(bv_cmp("eq", cnt, 0, 64), And(bv_cmp("ule", di, o.count, 64), bv_cmp("ule", cnt, bv_bin("sub", o.count, di, 64), 64))), "memory", "memset range within %s" % o.name)
        if not o.fields: e.default_fields(o)
        for k, f in list(o.fields.items()): o.fields[k] = Fill(f, di, cnt, rep(f.w))
    def free(e, st, p, what="free"):
        if isinstance(p, Ptr) and p.o is None and p.l.is_const() and p.l.c == 0: return
        p = e.resolve_ptr(st, p)
        if isinstance(p, Fn) or p.o is None:
            if isinstance(p, Ptr) and p.l.t:
                e.prove(st, bv_cmp("eq", p.l.bv(), 0, 64), "memory", "%s of a pointer that was not allocated" % what)
                return
            e.prove(st, False, "memory", "%s of a pointer that was not allocated" % what); return
        o = e.obj(st, p.o)
        if o.kind == "arena": return e.arena_free(st, o, p)
        if not o.alive: e.prove(st, False, "memory", "double free of %s" % o.name); return
        if not o.heap: e.prove(st, False, "memory", "%s of non-heap memory %s" % (what, o.name)); return
        if not (p.l.is_const() and p.l.c == 0):
            e.prove(st, bv_cmp("eq", p.l.bv(), 0, 64), "memory", "%s of interior pointer of %s" % (what, o.name))
        else: e.prove(st, True, "memory", "%s of a live heap block" % what)
        o = e.wobj(st, p.o); o.alive = False; st.live -= 1
    # arena hooks (overridden in heap.py)
    def arena_read(e, st, o, p, w): raise Unsupported("arena")
    def arena_write(e, st, o, p, w, v): raise Unsupported("arena")
    def arena_free(e, st, o, p): raise Unsupported("arena")
    # ------------------------------------------------------------ scalar ops
    def binop(e, st, op, a, b, t, flags):
        if t.k == "vec":
            et = e.m.resolve(t.b)
            return [e.binop(st, op, x, y, et, flags) for x, y in zip(a, b)]
        if t.k == "fp":
            x, y = a.e, b.e
            if op == "fadd": return FPv(z3.fpAdd(RNE, x, y))
            if op == "fsub": return FPv(z3.fpSub(RNE, x, y))
            if op == "fmul": return FPv(z3.fpMul(RNE, x, y))
            if op == "fdiv": return FPv(z3.fpDiv(RNE, x, y))
            raise Unsupported(op)
        w = t.a
        if w == 1:
            if op == "and": return simp(And(a, b)) if not isinstance(And(a, b), bool) else And(a, b)
            if op == "or": 
                r = Or(a, b); return r if isinstance(r, bool) else simp(r)
            if op == "xor" or op == "add" or op == "sub":
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                return simp(z3.Xor(B(a), B(b)))
            if op == "mul": return simp(B(And(a, b)))
            raise Unsupported("i1 " + op)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if st is not None:
                if isint(b):
                    if b == 0: e.prove(st, False, "arith", "division by zero")
                else:
                    e.prove(st, bv_cmp("ne", b, 0, w), "arith", "divisor is not zero")
                if op in ("sdiv", "srem") and not isinstance(a, LinVal):
                    if not (isint(b) and b != mask(w)):
                        e.prove(st, Not(And(bv_cmp("eq", b, mask(w), w), bv_cmp("eq", a, 1 << (w - 1), w))), "arith", "signed division does not overflow")
            if op in ("sdiv", "udiv") and isinstance(a, LinVal) and isint(b) and b:
                r = a.div_exact(b) if to_signed(b, w) > 0 else None
                if r is not None: return r if not isinstance(r, LinVal) else simp(r.bv())
            if op in ("urem", "srem") and st is not None and not isint(b):
                r = e.small_rem(st, op, a, b, w)
                if r is not None: return r
        if op in ("ashr", "lshr") and isinstance(a, LinVal) and isint(b) and "exact" in flags:
            r = a.div_exact(1 << b)
            if r is not None: return r if not isinstance(r, LinVal) else simp(r.bv())
        if op in ("shl", "lshr", "ashr") and st is not None:
            if isint(b):
                if b >= w: return z3.FreshConst(z3.BitVecSort(w), "undef")
            elif not e.holds(st, bv_cmp("ult", b, w, w)):
                # the result of an oversized shift is no particular value (the optimiser may evaluate a shift whose result goes unused)
                return simp(z3.If(bv_cmp("ult", b, w, w), BV(bv_bin(op, a.bv() if isinstance(a, LinVal) else a, b, w), w), z3.FreshConst(z3.BitVecSort(w), "undef")))
        if e.opts.get("nsw") and st is not None and "nsw" in flags and not (isint(a) and isint(b)) and not isinstance(a, LinVal) and not isinstance(b, LinVal):
            x, y = sext(a, w, 2 * w), sext(b, w, 2 * w)
            if op in ("add", "sub", "mul"):
                r = bv_bin(op, x, y, 2 * w)
                e.prove(st, bv_cmp("eq", r, sext(bv_bin(op, a, b, w), w, 2 * w), 2 * w), "arith", "signed %s does not overflow" % op)
        r = bv_bin(op, a, b, w)
        return r
    def small_rem(e, st, op, a, b, w):
        """remainder by a symbolic divisor, when the path shows the quotient to be 0 or 1 (no division circuit needed)"""
        x, m = BV(a.bv() if isinstance(a, LinVal) else a, w), BV(b.bv() if isinstance(b, LinVal) else b, w)
        if op == "urem": lo, twice = z3.ULT(x, m), z3.And(z3.UGE(x, m), z3.ULT(x - m, m))
        else: lo, twice = z3.And(m > 0, x < m, x > -m), z3.And(m > 0, x >= m, x - m < m)
        cs = [(lo, a), (z3.Or(lo, twice), z3.If(lo, x, x - m))]
        if op == "srem":
            neg = z3.And(m > 0, x <= -m, x > -m - m, m < (1 << (w - 3)))
            cs.append((z3.Or(lo, neg), z3.If(lo, x, x + m)))
        for g, r in cs:
            rr, _, _ = solve.check(st.pc + [z3.Not(g)], 1500, use_cvc5=False, quick_sat=True)
            if rr == "unsat": return r
            if rr == "unknown": return None
        return None
    def cast(e, op, v, ft, tt):
        if ft.k == "vec" and op not in ("bitcast",):
            return [e.cast(op, x, e.m.resolve(ft.b), e.m.resolve(tt.b)) for x in v]
        if op == "zext":
            if ft.a == 1: return int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, tt.a), z3.BitVecVal(0, tt.a))
            return zext(v, ft.a, tt.a)
        if op == "sext": return sext(v, ft.a, tt.a)
        if op == "trunc":
            if tt.a == 1:
                if isint(v): return bool(v & 1)
                b = v.bv() if isinstance(v, LinVal) else v
                return bv_cmp("eq", z3.Extract(0, 0, BV(b, ft.a)), 1, 1)
            return trunc(v, ft.a, tt.a)
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.o is None: r = v.l.bv()
            elif isinstance(v, Ptr):
                e.encode(v)
                r = mkl(lin_of(e.addr(v.o)).add(v.l))
            else: r = e.encode(v)
            return r if tt.a == 64 else trunc(r, 64, tt.a)
        if op == "inttoptr":
            if isinstance(v, LinVal): v = v.bv()
            if ft.a < 64: v = zext(v, ft.a, 64)
            return e.decode(v)
        if op == "bitcast":
            if ft.k == "ptr" and tt.k == "ptr": return v
            if ft.k == "fp" and tt.k == "int": return simp(z3.fpToIEEEBV(v.e))
            if ft.k == "int" and tt.k == "fp": return FPv(z3.fpBVToFP(BV(v, ft.a), FSORT[tt.a]))
            if ft.k == tt.k and ft.k == "int": return v
            return e.vec_bitcast(v, ft, tt)
        if op == "fpext" or op == "fptrunc": return FPv(z3.fpToFP(RNE, v.e, FSORT[tt.a]))
        if op == "sitofp":
            return FPv(z3.fpSignedToFP(RNE, BV(v, ft.a), FSORT[tt.a]))
        if op == "uitofp":
            return FPv(z3.fpUnsignedToFP(RNE, BV(v, ft.a), FSORT[tt.a]))
        if op == "fptosi": return z3.fpToSBV(z3.RTZ(), v.e, z3.BitVecSort(tt.a))
        if op == "fptoui": return z3.fpToUBV(z3.RTZ(), v.e, z3.BitVecSort(tt.a))
        raise Unsupported("cast " + op)
    def flat_bits(e, v, t):
        t = e.m.resolve(t)
        if t.k == "vec":
            return z3.Concat(*[e.flat_bits(x, t.b) for x in reversed(v)]) if t.a > 1 else e.flat_bits(v[0], t.b)
        if t.k == "fp": return z3.fpToIEEEBV(v.e)
        if t.k == "ptr": return BV(e.encode(v), 64)
        return BV(v, t.a)
    def unflat(e, b, t):
        t = e.m.resolve(t)
        if t.k == "vec":
            et = e.m.resolve(t.b); w = et.a
            return [e.unflat(z3.Extract(w * (i + 1) - 1, w * i, b), et) for i in range(t.a)]
        if t.k == "fp": return FPv(z3.fpBVToFP(b, FSORT[t.a]))
        if t.k == "ptr": return e.decode(simp(b))
        if t.a == 1: return simp(b == 1)
        return simp(b)
    def vec_bitcast(e, v, ft, tt): return e.unflat(e.flat_bits(v, ft), tt)
    def icmp(e, st, p, a, b, t):
        if t.k == "vec": return [e.icmp(st, p, x, y, e.m.resolve(t.b)) for x, y in zip(a, b)]
        if t.k == "ptr": return e.ptr_cmp(st, p, a, b)
        w = t.a
        if w == 1:
            a2 = BV(a, 1); b2 = BV(b, 1)
            if isinstance(a, bool) and isinstance(b, bool): return bv_cmp(p, int(a), int(b), 1)
            return bv_cmp(p, a2, b2, 1)
        if isinstance(a, LinVal) and isinstance(b, LinVal) or (isinstance(a, LinVal) and isint(b)) or (isint(a) and isinstance(b, LinVal)):
            # differences of pointers into one object: compare element counts when possible
            la, lb = lin_of(a), lin_of(b)
            d = la.add(lb, -1)
            if d.is_const() and p in ("eq", "ne"): return (d.c & U64 == 0) == (p == "eq")
        if e.icmps is not None: e.icmps.append((a, b, w))
        return bv_cmp(p, a, b, w)
    def fcmp(e, p, a, b):
        x, y = a.e, b.e
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
        if p == "ord": r = z3.Not(un)
        elif p == "uno": r = un
        elif p == "true": return True
        elif p == "false": return False
        elif p == "one": r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
        elif p == "une": r = z3.Or(un, z3.Not(z3.fpEQ(x, y)))
        elif p[0] == "o": r = base[p[1:]](x, y)
        else: r = z3.Or(un, base[p[1:]](x, y))
        return simp(r)
    def select(e, st, c, a, b, t):
        t = e.m.resolve(t)
        if isinstance(c, bool): return a if c else b
        if t.k == "int":
            return ite_bool(c, a, b) if t.a == 1 else ite(c, a, b, t.a)
        if t.k == "ptr":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    if a.l.key() == b.l.key(): return a
                    if a.o is None: return e.decode(ite(c, a.l.bv(), b.l.bv(), 64))
                    d = a.l.add(b.l, -1); g = abs(math.gcd(d.gcd(), abs(d.c)))
                    # b + g*ite(c, d/g, 0)
                    q = d.div(g)[0].bv() if g else 0
                    x = ite(c, q, 0, 64)
                    return Ptr(a.o, b.l.add(lin_of(norm(x)).scale(g)))
            elif isinstance(a, Fn) and isinstance(b, Fn) and a.n == b.n: return a
            if st is not None: 
                dec = e.decided(st, c)
                if dec is not None: return a if dec else b
                raise Split(c)
        if t.k == "fp": return FPv(z3.If(c, a.e, b.e))
        if t.k in ("struct",): return [e.select(st, c, x, y, u) for x, y, u in zip(a, b, t.a)]
        if t.k in ("arr", "vec"): return [e.select(st, c, x, y, t.b) for x, y in zip(a, b)]
        raise Unsupported("select")
