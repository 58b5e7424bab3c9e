"""Term layer: bit-vector helpers with constant folding, linear forms, functional array terms, quantifier atoms."""
import z3, itertools, math

U64 = (1 << 64) - 1
_cnt = itertools.count()
KEEP = []           # keeps asts alive whose ids are used as dictionary keys

def fresh_name(p): return "%s!%d" % (p, next(_cnt))

def isint(x): return isinstance(x, int) and not isinstance(x, bool)

def BV(x, w):
    """to z3 bit-vector"""
    if isinstance(x, LinVal): x = x.bv()
    if isinstance(x, bool): return z3.BitVecVal(1 if x else 0, w)
    if isinstance(x, int): return z3.BitVecVal(x, w)
    if z3.is_bool(x): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x

def norm(x):
    """fold a z3 value to python when it is a literal"""
    if isinstance(x, (int, bool, LinVal)): return x
    if z3.is_bv_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x

_simp = {}
def simp(x):
    if isinstance(x, (int, bool)): return x
    if isinstance(x, LinVal): x = x.bv()
    if isinstance(x, (int, bool)): return x
    i = x.get_id()
    r = _simp.get(i)
    if r is not None: return r[1]
    r = norm(z3.simplify(x))
    _simp[i] = (x, r)
    if len(_simp) > 400000: _simp.clear()
    return r

def to_signed(x, w): return x - (1 << w) if x >> (w - 1) else x

def mask(w): return (1 << w) - 1

def bv_bin(op, a, b, w):
    if isinstance(a, LinVal):
        r = a.binop(op, b)
        if r is not None: return r
        a = a.bv()
    if isinstance(b, LinVal):
        if op == "add":
            r = b.binop(op, a)
            if r is not None: return r
        b = b.bv()
    M = mask(w)
    if isint(a) and isint(b):
        if op == "add": return (a + b) & M
        if op == "sub": return (a - b) & M
        if op == "mul": return (a * b) & M
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op == "shl": return (a << b) & M if b < w else 0
        if op == "lshr": return a >> b if b < w else 0
        if op == "ashr":
            return (to_signed(a, w) >> min(b, w - 1)) & M
        if op == "udiv": return a // b if b else M
        if op == "urem": return a % b if b else a
        if op in ("sdiv", "srem"):
            x, y = to_signed(a, w), to_signed(b, w)
            if y == 0: return M if op == "sdiv" else a
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q & M) if op == "sdiv" else (x - q * y) & M
    if isint(b):
        if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
        if b == 0 and op in ("and", "mul"): return 0
        if b == 1 and op in ("mul", "udiv", "sdiv"): return a
        if b == M and op == "and": return a
        if op == "udiv" and b & (b - 1) == 0 and b: op = "lshr"; b = b.bit_length() - 1
        elif op == "urem" and b & (b - 1) == 0 and b: op = "and"; b = b - 1
    if isint(a):
        if a == 0 and op in ("add", "or", "xor"): return b
        if a == 0 and op in ("and", "mul", "shl", "lshr", "ashr"): return 0
        if a == 1 and op == "mul": return b
        if a == M and op == "and": return b
    A, B = BV(a, w), BV(b, w)
    # arithmetic on 0/1 flags and the masks made from them reads better as a case split
    if op == "sub" and isint(a):
        t = const_ite(B)
        if t: return z3.If(t[0], z3.BitVecVal(a - t[1], w), z3.BitVecVal(a - t[2], w))
    if op == "mul" or op == "and":
        for x, y in ((A, B), (B, A)):
            t = const_ite(x)
            if t and {t[1], t[2]} == ({0, 1} if op == "mul" else {0, M}):
                return z3.If(t[0], y if t[1] else z3.BitVecVal(0, w), y if t[2] else z3.BitVecVal(0, w))
    if op == "add": return A + B
    if op == "sub":
        if A.eq(B): return 0
        return A - B
    if op == "mul": return A * B
    if op == "and": return A & B
    if op == "or": return A | B
    if op == "xor": return A ^ B
    if op == "shl": return A << B
    if op == "lshr": return z3.LShR(A, B)
    if op == "ashr": return A >> B
    if op == "udiv": return z3.UDiv(A, B)
    if op == "urem": return z3.URem(A, B)
    if op == "sdiv": return A / B
    if op == "srem": return z3.SRem(A, B)
    raise NotImplementedError(op)

def const_ite(x):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        return x.arg(0), x.arg(1).as_long(), x.arg(2).as_long()
    return None

_CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE,
        "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}
def bv_cmp(p, a, b, w):
    if isinstance(a, LinVal): a = a.bv()
    if isinstance(b, LinVal): b = b.bv()
    if isint(a) and isint(b):
        if p[0] == "s": a, b = to_signed(a, w), to_signed(b, w)
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]]
    A, B = BV(a, w), BV(b, w)
    if A.eq(B): return p in ("eq", "ule", "uge", "sle", "sge")
    return simp(_CMP[p](A, B))

def Not(a):
    if isinstance(a, bool): return not a
    return simp(z3.Not(a))
def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def Implies(a, b): return Or(Not(a), b)
def B(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def ite(c, a, b, w):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isint(a) and isint(b) and a == b: return a
    A, Bb = BV(a, w), BV(b, w)
    if A.eq(Bb): return a
    return z3.If(c, A, Bb)

def ite_bool(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else Not(c)
    return simp(z3.If(c, B(a), B(b)))

def zext(x, fw, tw):
    if isinstance(x, LinVal): x = x.bv()
    if isint(x): return x
    if z3.is_bool(x) or isinstance(x, bool): return BV(x, tw) if not isinstance(x, bool) else int(x)
    return z3.ZeroExt(tw - fw, x) if tw > fw else x
def sext(x, fw, tw):
    if isinstance(x, LinVal): x = x.bv()
    if isinstance(x, bool): return mask(tw) if x else 0
    if isint(x): return to_signed(x, fw) & mask(tw)
    if z3.is_bool(x): return z3.If(x, z3.BitVecVal(mask(tw), tw), z3.BitVecVal(0, tw))
    return z3.SignExt(tw - fw, x) if tw > fw else x
def trunc(x, fw, tw):
    if isinstance(x, LinVal): x = x.bv()
    if isint(x): return x & mask(tw)
    if tw == fw: return x
    # trunc(zext(y)) -> y
    if x.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and x.arg(0).size() == tw: return x.arg(0)
    return z3.Extract(tw - 1, 0, x)
def extract(x, hi, lo):
    if isint(x): return (x >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == x.size() - 1: return x
    return z3.Extract(hi, lo, x)

# ------------------------------------------------------------------ linear forms over BV64
class Lin:
    __slots__ = ("c", "t")
    def __init__(s, c=0, t=None): s.c = c; s.t = t or {}     # t: id -> (term, coeff)
    def is_const(s): return not s.t
    def add(s, o, k=1):
        d = dict(s.t)
        for i, (x, c) in o.t.items():
            n = d[i][1] + k * c if i in d else k * c
            if n == 0: d.pop(i, None)
            else: d[i] = (x, n)
        return Lin(s.c + k * o.c, d)
    def scale(s, k):
        if k == 0: return Lin()
        return Lin(s.c * k, {i: (x, c * k) for i, (x, c) in s.t.items()})
    def gcd(s):
        g = 0
        for _, c in s.t.values(): g = math.gcd(g, abs(c))
        return g
    def div(s, k):
        """exact quotient by k of the variable part, floor on the constant; returns (Lin, rem)"""
        for _, c in s.t.values():
            if c % k: return None
        return Lin(s.c // k, {i: (x, c // k) for i, (x, c) in s.t.items()}), s.c % k
    def bv(s):
        r = None
        for i in s.t:
            x, c = s.t[i]
            t = x if c == 1 else x * z3.BitVecVal(c & U64, 64)
            r = t if r is None else r + t
        if r is None: return s.c & U64
        if s.c: r = r + z3.BitVecVal(s.c & U64, 64)
        return r
    def key(s): return (s.c, tuple(sorted((i, c) for i, (_, c) in s.t.items())))
    def __repr__(s): return "Lin(%d,%s)" % (s.c, [(str(x), c) for x, c in s.t.values()])

_lin = {}
def lin_of(x):
    """BV64 (or int/LinVal) -> Lin (exact modulo 2^64)"""
    if isinstance(x, LinVal): return x.l
    if isint(x): return Lin(to_signed(x, 64))
    i = x.get_id()
    r = _lin.get(i)
    if r is not None: return r[1]
    k = x.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Lin()
        for a in x.children(): r = r.add(lin_of(norm(a)))
    elif k == z3.Z3_OP_BSUB:
        a, b = x.children(); r = lin_of(norm(a)).add(lin_of(norm(b)), -1)
    elif k == z3.Z3_OP_BNEG:
        r = lin_of(norm(x.arg(0))).scale(-1)
    elif k == z3.Z3_OP_BMUL:
        cs = [a for a in x.children() if z3.is_bv_value(a)]; vs = [a for a in x.children() if not z3.is_bv_value(a)]
        if cs and len(vs) == 1:
            c = 1
            for a in cs: c = c * a.as_long()
            c = to_signed(c & U64, 64)
            r = lin_of(vs[0]).scale(c) if abs(c) < (1 << 40) else None
    elif k == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
        c = x.arg(1).as_long()
        r = lin_of(norm(x.arg(0))).scale(1 << c) if c < 40 else None
    elif k == z3.Z3_OP_BNOT:
        r = lin_of(norm(x.arg(0))).scale(-1).add(Lin(-1))
    elif k == z3.Z3_OP_BNUM:
        r = Lin(to_signed(x.as_long(), 64))
    if r is None: r = Lin(0, {i: (x, 1)})
    _lin[i] = (x, r)
    return r

class LinVal:
    """64-bit integer that carries its linear form (pointer differences, scaled sizes)"""
    __slots__ = ("l",)
    def __init__(s, l): s.l = l
    def bv(s): return s.l.bv()
    def binop(s, op, b):
        if op in ("add", "sub"):
            if isint(b) or isinstance(b, LinVal):
                return mkl(s.l.add(lin_of(b), 1 if op == "add" else -1))
        return None
    def div_exact(s, k):
        q = s.l.div(k)
        if q is None or q[1]: return None
        return mkl(q[0])
def mkl(l):
    if l.is_const(): return l.c & U64
    return LinVal(l)

# ------------------------------------------------------------------ array terms (index BV64 -> BV(8*w))
BASES = {}      # function name -> Base
class ATerm:
    __slots__ = ("w", "memo")
    def sel(s, i):
        k = i if isint(i) else i.get_id()
        m = s.memo
        r = m.get(k)
        if r is None:
            r = s._sel(i); m[k] = (i, r); return r
        return r[1]

def ieq(a, b):
    """index equality -> True/False/z3"""
    if isint(a) and isint(b): return a == b
    d = lin_of(a).add(lin_of(b), -1)
    if d.is_const(): return (d.c & U64) == 0
    return simp(BV(a, 64) == BV(b, 64))

class Base(ATerm):
    __slots__ = ("f", "name")
    def __init__(s, name, w):
        s.w = w; s.memo = {}; s.name = name
        s.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8 * w)); BASES[name] = s
    def _sel(s, i):
        i = simp(i)
        return s.f(BV(i, 64))
class Const(ATerm):
    __slots__ = ("v",)
    def __init__(s, v, w): s.w = w; s.v = v; s.memo = {}
    def _sel(s, i): return s.v
class Table(ATerm):
    """concrete contents (python ints or values); used for constant tables and small local arrays"""
    __slots__ = ("vals",)
    def __init__(s, vals, w): s.w = w; s.vals = vals; s.memo = {}
    def _sel(s, i):
        if isint(i): return s.vals[i] if i < len(s.vals) else 0
        runs = []
        for j, v in enumerate(s.vals):
            if runs and (runs[-1][1] is v or (isint(v) and isint(runs[-1][1]) and runs[-1][1] == v)): continue
            runs.append((j, v))
        I = BV(i, 64)
        def build(lo, hi):
            if hi - lo == 1: return BV(runs[lo][1], 8 * s.w)
            mid = (lo + hi) // 2
            return z3.If(z3.ULT(I, z3.BitVecVal(runs[mid][0], 64)), build(lo, mid), build(mid, hi))
        return norm(build(0, len(runs)))
class Store(ATerm):
    __slots__ = ("p", "i", "v")
    def __init__(s, p, i, v): s.w = p.w; s.p, s.i, s.v = p, i, v; s.memo = {}
    def _sel(s, i):
        c = ieq(i, s.i)
        if c is True: return s.v
        r = s.p.sel(i)
        if c is False: return r
        return ite(c, s.v, r, 8 * s.w)
def inrange(i, lo, n):
    """lo <= i < lo+n  (as unsigned i-lo < n)"""
    d = simp(bv_bin("sub", i, lo, 64))
    return bv_cmp("ult", d, n, 64), d
class Copy(ATerm):
    __slots__ = ("p", "d", "src", "s0", "n")
    def __init__(s, p, d, src, s0, n): s.w = p.w; s.p, s.d, s.src, s.s0, s.n = p, d, src, s0, n; s.memo = {}
    def _sel(s, i):
        c, off = inrange(i, s.d, s.n)
        if c is False: return s.p.sel(i)
        j = simp(bv_bin("add", off, s.s0, 64))
        v = s.src.sel(j)
        if c is True: return v
        return ite(c, v, s.p.sel(i), 8 * s.w)
class Fill(ATerm):
    __slots__ = ("p", "d", "n", "v")
    def __init__(s, p, d, n, v): s.w = p.w; s.p, s.d, s.n, s.v = p, d, n, v; s.memo = {}
    def _sel(s, i):
        c, off = inrange(i, s.d, s.n)
        if c is True: return s.v
        r = s.p.sel(i)
        if c is False: return r
        return ite(c, s.v, r, 8 * s.w)
class AIte(ATerm):
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.w = a.w; s.c, s.a, s.b = c, a, b; s.memo = {}
    def _sel(s, i): return ite(s.c, s.a.sel(i), s.b.sel(i), 8 * s.w)
class View(ATerm):
    """re-partition of another term: bytes [off,off+w) of each element of a wider / narrower partition"""
    __slots__ = ("fn",)
    def __init__(s, w, fn): s.w = w; s.fn = fn; s.memo = {}
    def _sel(s, i): return s.fn(i)

# ------------------------------------------------------------------ quantifier atoms
class QAtom:
    __slots__ = ("q", "vars", "body", "sk", "trig", "rng", "insts", "label")
QATOMS = {}       # name -> QAtom
QINTERN = {}; QKEEP = []
def mk_forall(vars_, body, rng, label=""):
    """vars_: list of z3 BV64 consts; body: z3 Bool (includes range guards). Returns the defining atom."""
    body = simp(body)
    if isinstance(body, bool): return body
    # no occurrence of the bound vars -> plain formula
    names = {v.decl().name() for v in vars_}
    if not (consts_of(body) & names): return body
    canon = simp(z3.substitute(body, *[(v, z3.BitVec("bound!%d" % i, 64)) for i, v in enumerate(vars_)]))
    if isinstance(canon, bool): return canon
    hit = QINTERN.get(canon.get_id())
    if hit is not None and len(hit.vars) == len(vars_): return hit.q
    a = QAtom()
    QINTERN[canon.get_id()] = a; QKEEP.append(canon)
    a.q = z3.Bool(fresh_name("Q"))
    a.vars = vars_; a.body = body; a.rng = rng; a.label = label
    a.sk = [z3.BitVec(fresh_name("sk"), 64) for _ in vars_]
    a.insts = {}
    a.trig = find_triggers(vars_, body)
    QATOMS[a.q.decl().name()] = a
    return a.q

_consts = {}
def consts_of(e):
    """names of uninterpreted constants in e"""
    i = e.get_id()
    r = _consts.get(i)
    if r is not None: return r[1]
    seen = set(); out = set(); st = [e]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen: continue
        seen.add(xi)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else: st.extend(x.children())
    _consts[i] = (e, out)
    return out

_apps = {}
def apps_of(e):
    """list of (fname, index term) base applications, and atom names"""
    i = e.get_id()
    r = _apps.get(i)
    if r is not None: return r[1]
    seen = set(); out = {}; qs = set(); st = [e]
    while st:
        x = st.pop(); xi = x.get_id()
        if xi in seen: continue
        seen.add(xi)
        if z3.is_app(x):
            n = x.num_args()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if n == 0:
                    if nm in QATOMS: qs.add(nm)
                elif nm in BASES:
                    out.setdefault(nm, {})[x.arg(0).get_id()] = x.arg(0)
            if n: st.extend(x.children())
    r = (out, qs)
    _apps[i] = (e, r)
    if len(_apps) > 200000: _apps.clear()
    return r

def find_triggers(vars_, body):
    apps, _ = apps_of(body)
    names = {v.decl().name() for v in vars_}
    tr = {}
    for v in vars_:
        vn = v.decl().name(); l = []
        for fn, idx in apps.items():
            for t in idx.values():
                d = lin_of(t)
                if v.get_id() in d.t and abs(d.t[v.get_id()][1]) == 1:
                    co = d.t[v.get_id()][1]
                    rest = d.add(Lin(0, {v.get_id(): (v, co)}), -1)
                    rb = rest.bv()
                    if isint(rb) or not (consts_of(rb) & names):
                        l.append((fn, rest, co))
                elif vn in consts_of(t) and len(consts_of(t) & names) == 1:
                    l.append((fn, t, 0))      # nonlinear index: syntactic matching
        tr[vn] = l
    return tr

def unify(p, t, v):
    """match pattern p (containing variable v) against ground term t -> binding of v or None"""
    if p.eq(v): return t
    vn = v.decl().name()
    if vn not in consts_of(p): return True if p.eq(t) else None
    if not z3.is_app(p) or not z3.is_app(t): return None
    d = p.decl()
    if d.kind() == z3.Z3_OP_BADD or not d.eq(t.decl()):
        if d.kind() != z3.Z3_OP_BADD or not z3.is_bv(t) or p.size() != t.size(): return None
        # c + pattern = t
        w = p.size(); pv = [x for x in p.children() if vn in consts_of(x)]
        if len(pv) != 1: return None
        rest = [x for x in p.children() if vn not in consts_of(x)]
        tt = t
        for x in rest: tt = tt - x
        return unify(pv[0], z3.simplify(tt), v)
    if d.num_parameters() if hasattr(d, "num_parameters") else False: pass
    if p.num_args() != t.num_args(): return None
    b = None
    for a, c in zip(p.children(), t.children()):
        r = unify(a, c, v)
        if r is None: return None
        if r is True: continue
        if b is not None and not b.eq(r): return None
        b = r
    return b if b is not None else True
