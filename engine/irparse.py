"""Parser for the textual LLVM 18 IR that clang emits from the real sources (opaque pointers)."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "c")
    def __init__(s, k, a=None, b=None, c=None):
        s.k, s.a, s.b, s.c = k, a, b, c
    def __repr__(s):
        return "Ty(%s,%s,%s)" % (s.k, s.a, s.b)

VOID = Ty("void"); PTR = Ty("ptr"); FLOAT = Ty("fp", 32); DOUBLE = Ty("fp", 64); LABEL = Ty("label"); META = Ty("metadata")
X87 = Ty("fp", 80); HALF = Ty("fp", 16); FP128 = Ty("fp", 128)
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty("int", n)
    return _ints[n]

TOK = re.compile(r'''\s*(
   "(?:[^"\\]|\\.)*"
 | c"(?:[^"\\]|\\.)*"
 | [%@!$]"(?:[^"\\]|\\.)*"
 | [%@][-a-zA-Z$._0-9]+
 | ![-a-zA-Z$._0-9]*
 | \#\d+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | 0x[KMLHR]?[0-9A-Fa-f]+
 | -?\d+
 | \.\.\.
 | [a-zA-Z_$.][-a-zA-Z0-9_$.]*:?(?!:)
 | [\[\]{}<>(),=*:|]
)''', re.X)

class ParseError(Exception): pass

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "": break
            if s[pos:].lstrip().startswith(";"): break
            raise ParseError("tokenize: %r" % s[pos:pos+60])
        out.append(m.group(1)); pos = m.end()
    return out

class TS:
    def __init__(s, toks): s.t = toks; s.i = 0
    def peek(s, d=0):
        j = s.i + d
        return s.t[j] if j < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def accept(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def expect(s, x):
        y = s.next()
        if y != x: raise ParseError("expected %s got %s in %s" % (x, y, " ".join(s.t)))

PATTRS = {"noundef","nonnull","zeroext","signext","inreg","noalias","nocapture","readonly","writeonly","readnone","returned",
 "immarg","nest","swiftself","nofree","noreturn","nounwind","inbounds","dso_local","local_unnamed_addr","unnamed_addr","tail","musttail","notail",
 "fastcc","ccc","coldcc","volatile","nuw","nsw","exact","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","allocptr","writable","dead_on_unwind","dead_on_return","nneg","disjoint","inalloca","noext"}
PATTRS_ARG = {"align","dereferenceable","dereferenceable_or_null","byval","sret","byref","elementtype","preallocated","allocalign","allocsize","nofpclass","range","memory"}

class Module:
    def __init__(m):
        m.types = {}; m.globals = {}; m.funcs = {}; m.decls = {}; m.meta = {}; m.aliases = {}
        m._size = {}
    # -------- layout
    def resolve(m, t):
        while t.k == "named":
            t = m.types[t.a]
        return t
    def align(m, t):
        t = m.resolve(t)
        if t.k == "int":
            n = (t.a + 7) // 8
            p = 1
            while p < n: p *= 2
            return min(p, 16)
        if t.k == "ptr": return 8
        if t.k == "fp": return 16 if t.a in (80, 128) else t.a // 8
        if t.k == "arr": return m.align(t.b)
        if t.k == "vec": 
            n = m.size(t); p = 1
            while p < n: p *= 2
            return p
        if t.k == "struct":
            if t.b: return 1
            return max([m.align(x) for x in t.a] or [1])
        raise ParseError("align %r" % t)
    def size(m, t):
        if id(t) in m._size: return m._size[id(t)][1]
        r = m._size0(t); m._size[id(t)] = (t, r); return r
    def _size0(m, t):
        t = m.resolve(t)
        if t.k == "int":
            n = (t.a + 7) // 8
            p = 1
            while p < n: p *= 2
            return p if p <= 16 else (n + 7) // 8 * 8
        if t.k == "ptr": return 8
        if t.k == "fp": return 16 if t.a in (80, 128) else t.a // 8
        if t.k == "arr": return t.a * m.size(t.b)
        if t.k == "vec": return t.a * m.size(t.b) if m.resolve(t.b).k != "int" or m.resolve(t.b).a >= 8 else (t.a + 7)//8
        if t.k == "struct":
            o = 0
            for x in t.a:
                if not t.b:
                    al = m.align(x); o = (o + al - 1) // al * al
                o += m.size(x)
            al = m.align(t); return (o + al - 1) // al * al
        raise ParseError("size %r" % t)
    def field_off(m, t, i):
        t = m.resolve(t); o = 0
        for j, x in enumerate(t.a):
            if not t.b:
                al = m.align(x); o = (o + al - 1) // al * al
            if j == i: return o
            o += m.size(x)
        raise ParseError("field")
    def leaves(m, t, base=0):
        """scalar leaves (offset,type)"""
        t = m.resolve(t)
        if t.k == "struct":
            for i, x in enumerate(t.a):
                yield from m.leaves(x, base + m.field_off(t, i))
        elif t.k in ("arr", "vec"):
            s = m.size(t.b)
            for i in range(t.a): yield from m.leaves(t.b, base + i * s)
        else:
            yield (base, t)
    # -------- parsing helpers
    def ptype(m, ts):
        x = ts.next()
        if x == "void": t = VOID
        elif x == "ptr":
            t = PTR
            if ts.peek() == "addrspace": ts.next(); ts.expect("("); ts.next(); ts.expect(")")
        elif x == "float": t = FLOAT
        elif x == "double": t = DOUBLE
        elif x == "half": t = HALF
        elif x == "x86_fp80": t = X87
        elif x == "fp128": t = FP128
        elif x == "label": t = LABEL
        elif x == "metadata": t = META
        elif x == "token": t = Ty("token")
        elif x == "opaque": t = Ty("struct", [], False)
        elif re.fullmatch(r"i\d+", x): t = INT(int(x[1:]))
        elif x[0] == "%": t = Ty("named", uq(x[1:]))
        elif x == "[":
            n = int(ts.next()); ts.expect("x"); e = m.ptype(ts); ts.expect("]"); t = Ty("arr", n, e)
        elif x == "{":
            fs = []
            if not ts.accept("}"):
                while True:
                    fs.append(m.ptype(ts))
                    if ts.accept("}"): break
                    ts.expect(",")
            t = Ty("struct", fs, False)
        elif x == "<":
            if ts.accept("{"):
                fs = []
                if not ts.accept("}"):
                    while True:
                        fs.append(m.ptype(ts))
                        if ts.accept("}"): break
                        ts.expect(",")
                ts.expect(">")
                t = Ty("struct", fs, True)
            else:
                n = int(ts.next()); ts.expect("x"); e = m.ptype(ts); ts.expect(">"); t = Ty("vec", n, e)
        else:
            raise ParseError("type %s in %s" % (x, " ".join(ts.t)))
        while ts.peek() == "(" and False: pass
        if ts.peek() == "(" and t.k != "label":
            # function type: only after a return type, "(types)"
            j = ts.i; depth = 0
            # speculative: function type when content is types only followed by ')' and then a value
            save = ts.i
            try:
                ts.next(); args = []; va = False
                if not ts.accept(")"):
                    while True:
                        if ts.accept("..."): va = True
                        else: args.append(m.ptype(ts)); m.skip_attrs(ts)
                        if ts.accept(")"): break
                        ts.expect(",")
                t = Ty("func", t, args, va)
            except ParseError:
                ts.i = save
        return t
    def skip_attrs(m, ts):
        while True:
            x = ts.peek()
            if x is None: return
            if x in PATTRS: ts.next()
            elif x in PATTRS_ARG:
                ts.next()
                if ts.peek() == "(":
                    d = 0
                    while True:
                        y = ts.next()
                        if y == "(": d += 1
                        elif y == ")":
                            d -= 1
                            if d == 0: break
                elif x == "align": ts.next()
            elif x[0] == "#": ts.next()
            elif x[0] == '"':
                ts.next()
                if ts.accept("="): ts.next()
            else: return
    def pvalue(m, ts, t):
        """operand of type t -> value descriptor"""
        x = ts.next()
        if x[0] == "%": return ("r", uq(x[1:]))
        if x[0] == "@": return ("g", uq(x[1:]))
        if x == "true": return ("c", 1)
        if x == "false": return ("c", 0)
        if x == "null": return ("null",)
        if x in ("undef", "poison"): return ("undef",)
        if x == "zeroinitializer": return ("zero",)
        if x == "none": return ("undef",)
        if x == "dso_local_equivalent" or x == "no_cfi": return m.pvalue(ts, t)
        if re.fullmatch(r"-?\d+", x): 
            if t.k == "fp": return ("f", float(x))
            return ("c", int(x))
        if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?", x): return ("f", float(x))
        if x.startswith("0x"):
            return ("fx", x)
        if x.startswith('c"'):
            b = []; s = x[2:-1]; i = 0
            bb = s.encode("utf-8", "surrogateescape"); 
            while i < len(bb):
                if bb[i] == 92:
                    b.append(int(bb[i+1:i+3], 16)); i += 3
                else: b.append(bb[i]); i += 1
            return ("agg", [("c", v) for v in b], [INT(8)] * len(b))
        if x in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[x]
            packed = False
            if x == "<" and ts.peek() == "{": ts.next(); packed = True; close = "}"
            vs = []; tys = []
            if not ts.accept(close):
                while True:
                    et = m.ptype(ts); tys.append(et); vs.append(m.pvalue(ts, et))
                    if ts.accept(close): break
                    ts.expect(",")
            if packed: ts.expect(">")
            return ("agg", vs, tys)
        if x in ("getelementptr",):
            m.skip_attrs(ts); 
            if ts.peek() == "inrange": ts.next(); 
            ts.expect("("); st = m.ptype(ts); ts.expect(",")
            bt = m.ptype(ts); b = m.pvalue(ts, bt); idx = []
            while ts.accept(","):
                while ts.peek() == "inrange": ts.next()
                it = m.ptype(ts); idx.append((it, m.pvalue(ts, it)))
            ts.expect(")")
            return ("ce", "gep", st, b, idx)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            ts.expect("("); ft = m.ptype(ts); v = m.pvalue(ts, ft); ts.expect("to"); tt = m.ptype(ts); ts.expect(")")
            return ("ce", x, ft, v, tt)
        if x in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
            m.skip_attrs(ts); ts.expect("("); ft = m.ptype(ts); a = m.pvalue(ts, ft); ts.expect(","); m.ptype(ts); b = m.pvalue(ts, ft); ts.expect(")")
            return ("ce", "bin", x, ft, a, b)
        if x == "icmp":
            p = ts.next(); ts.expect("("); ft = m.ptype(ts); a = m.pvalue(ts, ft); ts.expect(","); m.ptype(ts); b = m.pvalue(ts, ft); ts.expect(")")
            return ("ce", "icmp", p, ft, a, b)
        if x == "blockaddress": raise ParseError("blockaddress")
        if x == "asm":
            fl = []
            while ts.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"): fl.append(ts.next())
            s = ts.next(); ts.expect(","); c = ts.next()
            return ("asm", s, c)
        raise ParseError("value %s in %s" % (x, " ".join(ts.t)))

def uq(s):
    return s[1:-1] if s and s[0] == '"' else s

class Inst:
    __slots__ = ("op", "dst", "ty", "ops", "x", "dbg")
    def __init__(s, op, dst=None, ty=None, ops=None, x=None):
        s.op, s.dst, s.ty, s.ops, s.x, s.dbg = op, dst, ty, ops, x, None
    def __repr__(s): return "%s = %s %s %s %s" % (s.dst, s.op, s.ty, s.ops, s.x)

class Func:
    def __init__(s): s.name = None; s.params = []; s.blocks = {}; s.order = []; s.ret = None; s.dbg = None; s.cfg = None; s.va = False

BIN = {"add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","fadd","fsub","fmul","fdiv","frem"}
CAST = {"trunc","zext","sext","fptrunc","fpext","fptoui","fptosi","uitofp","sitofp","ptrtoint","inttoptr","bitcast","addrspacecast"}

def parse_inst(m, line):
    md = re.search(r", !dbg !(\d+)", line)
    dbg = int(md.group(1)) if md else None
    # strip metadata attachments
    line = re.sub(r"(, )?![a-zA-Z.]+ !\d+", "", line)
    ts = TS(tokenize(line))
    dst = None
    if ts.peek()[0] == "%" and ts.peek(1) == "=":
        dst = uq(ts.next()[1:]); ts.next()
    op = ts.next()
    while op in ("tail", "musttail", "notail"): op = ts.next()
    I = None
    if op in BIN:
        flags = []
        while ts.peek() in PATTRS: flags.append(ts.next())
        t = m.ptype(ts); a = m.pvalue(ts, t); ts.expect(","); b = m.pvalue(ts, t)
        I = Inst("bin", dst, t, [a, b], (op, frozenset(flags)))
    elif op == "fneg":
        m.skip_attrs(ts); t = m.ptype(ts); I = Inst("fneg", dst, t, [m.pvalue(ts, t)])
    elif op in ("icmp", "fcmp"):
        while ts.peek() in PATTRS: ts.next()
        p = ts.next(); t = m.ptype(ts); a = m.pvalue(ts, t); ts.expect(","); b = m.pvalue(ts, t)
        I = Inst(op, dst, t, [a, b], p)
    elif op in CAST:
        flags = []
        while ts.peek() in PATTRS: flags.append(ts.next())
        ft = m.ptype(ts); v = m.pvalue(ts, ft); ts.expect("to"); tt = m.ptype(ts)
        I = Inst("cast", dst, tt, [v], (op, ft))
    elif op == "alloca":
        m.skip_attrs(ts); t = m.ptype(ts); n = None
        if ts.accept(","):
            if ts.peek() not in ("align",) :
                nt = m.ptype(ts); n = (nt, m.pvalue(ts, nt))
        I = Inst("alloca", dst, t, [], n)
    elif op == "load":
        at = ts.accept("atomic"); ts.accept("volatile"); t = m.ptype(ts); ts.expect(","); m.ptype(ts); p = m.pvalue(ts, PTR)
        I = Inst("load", dst, t, [p], at)
    elif op == "store":
        at = ts.accept("atomic"); ts.accept("volatile"); t = m.ptype(ts); v = m.pvalue(ts, t); ts.expect(","); m.ptype(ts); p = m.pvalue(ts, PTR)
        I = Inst("store", None, t, [v, p], at)
    elif op == "getelementptr":
        m.skip_attrs(ts); st = m.ptype(ts); ts.expect(","); bt = m.ptype(ts); b = m.pvalue(ts, PTR); idx = []
        while ts.accept(","):
            it = m.ptype(ts); idx.append((it, m.pvalue(ts, it)))
        I = Inst("gep", dst, st, [b], idx)
        if bt.k != "ptr": raise ParseError("vector gep")
    elif op == "br":
        if ts.accept("label"): I = Inst("br", None, None, [], [uq(ts.next()[1:])])
        else:
            m.ptype(ts); c = m.pvalue(ts, INT(1)); ts.expect(","); ts.expect("label"); a = uq(ts.next()[1:]); ts.expect(","); ts.expect("label"); b = uq(ts.next()[1:])
            I = Inst("br", None, None, [c], [a, b])
    elif op == "switch":
        t = m.ptype(ts); v = m.pvalue(ts, t); ts.expect(","); ts.expect("label"); d = uq(ts.next()[1:]); ts.expect("[")
        cases = []
        while not ts.accept("]"):
            ct = m.ptype(ts); cv = m.pvalue(ts, ct); ts.expect(","); ts.expect("label"); cases.append((cv[1], uq(ts.next()[1:])))
        I = Inst("switch", None, t, [v], (d, cases))
    elif op == "ret":
        t = m.ptype(ts)
        I = Inst("ret", None, t, [] if t.k == "void" else [m.pvalue(ts, t)])
    elif op == "unreachable": I = Inst("unreachable")
    elif op == "phi":
        while ts.peek() in PATTRS: ts.next()
        t = m.ptype(ts); inc = []
        while True:
            ts.expect("["); v = m.pvalue(ts, t); ts.expect(","); b = uq(ts.next()[1:]); ts.expect("]"); inc.append((v, b))
            if not ts.accept(","): break
        I = Inst("phi", dst, t, inc)
    elif op == "select":
        while ts.peek() in PATTRS: ts.next()
        ct = m.ptype(ts); c = m.pvalue(ts, ct); ts.expect(","); t = m.ptype(ts); a = m.pvalue(ts, t); ts.expect(","); m.ptype(ts); b = m.pvalue(ts, t)
        I = Inst("select", dst, t, [c, a, b], ct)
    elif op in ("call", "invoke"):
        m.skip_attrs(ts); t = m.ptype(ts)
        if t.k == "func": rt = t.a
        else: rt = t
        m.skip_attrs(ts)
        f = m.pvalue(ts, PTR); ts.expect("("); args = []
        if not ts.accept(")"):
            while True:
                at = m.ptype(ts); byval = None
                # attributes, remember byval
                j = ts.i; m.skip_attrs(ts)
                seg = ts.t[j:ts.i]
                if at.k == "metadata":
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and ts.peek() in (",", ")")):
                        y = ts.next()
                        if y in "([{<": d += 1
                        if y in ")]}>": d -= 1
                    args.append((at, ("undef",), False))
                else:
                    args.append((at, m.pvalue(ts, at), "byval" in seg))
                if ts.accept(")"): break
                ts.expect(",")
        norm = None
        if op == "invoke":
            while ts.peek() != "to": ts.next()
            ts.next(); ts.expect("label"); norm = uq(ts.next()[1:])
        I = Inst("call", dst, rt, [f] + [(a, v, b) for a, v, b in args], norm)
    elif op == "extractvalue":
        t = m.ptype(ts); v = m.pvalue(ts, t); idx = []
        while ts.accept(","): idx.append(int(ts.next()))
        I = Inst("extractvalue", dst, t, [v], idx)
    elif op == "insertvalue":
        t = m.ptype(ts); v = m.pvalue(ts, t); ts.expect(","); et = m.ptype(ts); e = m.pvalue(ts, et); idx = []
        while ts.accept(","): idx.append(int(ts.next()))
        I = Inst("insertvalue", dst, t, [v, e], (idx, et))
    elif op == "freeze":
        t = m.ptype(ts); I = Inst("freeze", dst, t, [m.pvalue(ts, t)])
    elif op == "cmpxchg":
        while ts.peek() in ("weak", "volatile"): ts.next()
        m.ptype(ts); p = m.pvalue(ts, PTR); ts.expect(","); t = m.ptype(ts); c = m.pvalue(ts, t); ts.expect(","); m.ptype(ts); n = m.pvalue(ts, t)
        I = Inst("cmpxchg", dst, t, [p, c, n])
    elif op == "atomicrmw":
        ts.accept("volatile"); o = ts.next(); m.ptype(ts); p = m.pvalue(ts, PTR); ts.expect(","); t = m.ptype(ts); v = m.pvalue(ts, t)
        I = Inst("atomicrmw", dst, t, [p, v], o)
    elif op == "fence": I = Inst("fence")
    elif op == "extractelement":
        t = m.ptype(ts); v = m.pvalue(ts, t); ts.expect(","); it = m.ptype(ts); i = m.pvalue(ts, it)
        I = Inst("extractelement", dst, t, [v, i], it)
    elif op == "insertelement":
        t = m.ptype(ts); v = m.pvalue(ts, t); ts.expect(","); et = m.ptype(ts); e = m.pvalue(ts, et); ts.expect(","); it = m.ptype(ts); i = m.pvalue(ts, it)
        I = Inst("insertelement", dst, t, [v, e, i], it)
    elif op == "shufflevector":
        t = m.ptype(ts); a = m.pvalue(ts, t); ts.expect(","); m.ptype(ts); b = m.pvalue(ts, t); ts.expect(","); mt = m.ptype(ts); mk = m.pvalue(ts, mt)
        I = Inst("shufflevector", dst, t, [a, b], (mt, mk))
    elif op in ("landingpad", "resume", "va_arg"):
        I = Inst(op, dst)
    else:
        raise ParseError("inst %s: %s" % (op, line))
    I.dbg = dbg
    return I

def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0; n = len(lines)
    # pass 1: types
    for ln in lines:
        if ln and ln[0] == "%":
            mm = re.match(r'%("(?:[^"]*)"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
            if mm:
                m.types[uq(mm.group(1))] = m.ptype(TS(tokenize(mm.group(2))))
    while i < n:
        ln = lines[i]
        if not ln: i += 1; continue
        c0 = ln[0]
        if c0 == "@":
            mm = re.match(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
            name = uq(mm.group(1)); rest = mm.group(2)
            rest = re.sub(r"(, )?![a-zA-Z.]+ !\d+", "", rest)
            if re.search(r"\balias\b", rest):
                a = re.search(r"ptr @(\S+)", rest)
                if a: m.aliases[name] = uq(a.group(1).rstrip(","))
                i += 1; continue
            rest = re.sub(r', (section|comdat|align|partition)\b.*$', '', rest)
            toks = TS(tokenize(rest))
            const = False; ext = False
            while True:
                x = toks.next()
                if x == "external" or x == "extern_weak": ext = True
                if x == "constant": const = True; break
                if x == "global": break
                if x == "thread_local" and toks.peek() == "(":
                    while toks.next() != ")": pass
            t = m.ptype(toks); init = None
            if not ext and toks.peek() is not None: init = m.pvalue(toks, t)
            m.globals[name] = (t, init, const)
        elif ln.startswith("declare"):
            mm = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', ln)
            m.decls[uq(mm.group(1))] = ln
        elif ln.startswith("define"):
            f = Func()
            mm = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', ln)
            f.name = uq(mm.group(1))
            ts = TS(tokenize(re.sub(r"(, )?![a-zA-Z.]+ !\d+", "", ln[mm.end()-1:])))
            dm = re.search(r"!dbg !(\d+)", ln); f.dbg = int(dm.group(1)) if dm else None
            pre = TS(tokenize(ln[len("define"):mm.start()]))
            while pre.peek() and not re.fullmatch(r"i\d+|void|ptr|float|double|x86_fp80|half|fp128|[%\[{<].*", pre.peek()):
                y = pre.next()
                if pre.peek() == "(":
                    while pre.next() != ")": pass
                elif y == "align": pre.next()
            f.ret = m.ptype(pre)
            ts.expect("("); k = 0; unnamed = 0
            if not ts.accept(")"):
                while True:
                    if ts.accept("..."): f.va = True
                    else:
                        t = m.ptype(ts); j = ts.i; m.skip_attrs(ts); seg = ts.t[j:ts.i]
                        if ts.peek() and ts.peek()[0] == "%": nm = uq(ts.next()[1:])
                        else: nm = str(unnamed)
                        unnamed += 1
                        f.params.append((t, nm, "byval" in seg))
                    if ts.accept(")"): break
                    ts.expect(",")
            i += 1
            # entry block label: numeric = number of unnamed params
            cur = None
            body = []
            while lines[i] != "}":
                body.append(lines[i]); i += 1
            # join multi-line (switch)
            j = 0; blk = None
            while j < len(body):
                L = body[j]
                if not L.strip(): j += 1; continue
                lm = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', L)
                if lm and not L.startswith(" "):
                    blk = uq(lm.group(1)); f.blocks[blk] = []; f.order.append(blk); j += 1; continue
                if blk is None:
                    nn = sum(1 for p in f.params if re.fullmatch(r"\d+", p[1]))
                    blk = str(nn); f.blocks[blk] = []; f.order.append(blk)
                s = L
                if re.search(r"\bswitch\b", L) and L.rstrip().endswith("["):
                    j += 1
                    while not body[j].strip().startswith("]"):
                        s += " " + body[j].strip(); j += 1
                    s += " " + body[j].strip()
                elif re.search(r"\binvoke\b", L):
                    j += 1; s += " " + body[j].strip()
                elif re.search(r"= landingpad\b", L):
                    while j + 1 < len(body) and re.match(r"\s+(cleanup|catch|filter)", body[j+1]): j += 1
                f.blocks[blk].append(s.strip())
                j += 1
            m.funcs[f.name] = f
        elif c0 == "!":
            mm = re.match(r"!(\d+) = (?:distinct )?!?(DILocation|DISubprogram|DIFile|DILexicalBlock|DILexicalBlockFile)\((.*)\)", ln)
            if mm: m.meta[int(mm.group(1))] = (mm.group(2), mm.group(3))
        i += 1
    return m

def parse_body(m, f):
    """lazy parse of the instruction text of a function"""
    if f.cfg is not None: return
    for b in f.order:
        f.blocks[b] = [parse_inst(m, s) for s in f.blocks[b]]
    f.cfg = CFG(f)

class CFG:
    def __init__(c, f):
        c.succ = {}; c.pred = {b: [] for b in f.order}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == "br": s = list(dict.fromkeys(t.x))
            elif t.op == "switch": s = list(dict.fromkeys([t.x[0]] + [x[1] for x in t.x[1]]))
            elif t.op == "call" and t.x: s = [t.x]
            else: s = []
            c.succ[b] = s
            for x in s: c.pred[x].append(b)
        entry = f.order[0]
        # rpo
        seen = set(); post = []
        stack = [(entry, iter(c.succ[entry]))]; seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(c.succ[s]))); break
            else:
                post.append(b); stack.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in c.pred[b] if p in idom]
                if not ps: continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        c.idom = idom; c.rpo = num
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        c.loops = {}   # header -> set of blocks
        for b in rpo:
            for s in c.succ[b]:
                if s in num and dom(s, b):
                    body = c.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in c.pred[x] if p in num)
        # irreducible cycle detection
        c.irreducible = False
        for b in rpo:
            for s in c.succ[b]:
                if s in num and num[s] <= num[b] and s not in c.loops: c.irreducible = True

def loc_of(m, dbg):
    if dbg is None or dbg not in m.meta: return None
    k, s = m.meta[dbg]
    ln = re.search(r"line: (\d+)", s); sc = re.search(r"scope: !(\d+)", s)
    line = int(ln.group(1)) if ln else 0
    scope = int(sc.group(1)) if sc else None
    fn = None; file = None
    while scope is not None and scope in m.meta:
        kk, ss = m.meta[scope]
        if file is None:
            fm = re.search(r"file: !(\d+)", ss)
            if fm and int(fm.group(1)) in m.meta:
                f2 = re.search(r'filename: "([^"]*)"', m.meta[int(fm.group(1))][1])
                if f2: file = f2.group(1)
        if kk == "DISubprogram":
            nm = re.search(r'name: "([^"]*)"', ss); fn = nm.group(1) if nm else None
            break
        sc = re.search(r"scope: !(\d+)", ss); scope = int(sc.group(1)) if sc else None
    return (file, line, fn)
