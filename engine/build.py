"""Extraction: the real sources of /repo -> LLVM IR (for the verifier) and -> native replay binaries."""
import os, re, subprocess, shutil, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = "/usr/bin/clang++-18"; CLC = "/usr/bin/clang-18"; OPT = "/usr/bin/opt-18"; LINK = "/usr/bin/llvm-link-18"
SYMFLAGS = ["-DNDEBUG", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-msse2", "-mcx16",
            "--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/10", "-w", "-S", "-emit-llvm", "-fno-discard-value-names", "-fgnuc-version=10.5.0"]
CXXFLAGS = ["-std=c++17", "-fignore-exceptions", "-fno-access-control", "-fdelayed-template-parsing", "-fheinous-gnu-extensions",
            "-include", "stdlib.h", "-include", "stdint.h", "-include", "wchar.h", "-include", "stddef.h", "-include", "iterator",
            "-include", "algorithm", "-include", "string", "-U__clang__", "-DVSCWPRINTF(f,a)=0"]
PASSES = "function(sroa,simplifycfg,sroa,loop-simplify)"

class BuildError(Exception): pass

def run(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd[:6]) + " ...", (r.stderr or r.stdout)[-4000:]))
    return r

# Mechanical patches that let clang parse what g++ accepts (no change of meaning); everything else is the text of /repo.
def extract(dst):
    """copy /repo/include and /repo/bss-util into dst with the mechanical syntax patches"""
    if os.path.exists(dst): shutil.rmtree(dst)
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "include"), os.path.join(dst, "include"))
    shutil.copytree(os.path.join(REPO, "bss-util"), os.path.join(dst, "bss-util"), ignore=shutil.ignore_patterns("*.o", "*.d"))
    n = 0
    inc = os.path.join(dst, "include", "bss-util")
    for fn in os.listdir(inc):
        p = os.path.join(inc, fn)
        s = open(p, encoding="latin1").read()
        t = re.sub(r"using (BASE|BASE_|ARRAY|AT_BASE)::SerializerArray;", r"using typename \1::SerializerArray;", s)
        if t != s:
            n += 1; open(p, "w", encoding="latin1").write(t)
    return n

def directives(src):
    d = {"source": [], "contract": [], "opt": [], "use": []}
    for ln in open(src):
        m = re.match(r"\s*//@(\w+)\s+(.*?)\s*$", ln)
        if m: d.setdefault(m.group(1), []).append(m.group(2))
    return d

def compile_sym(src, tree, out):
    """harness + listed /repo sources -> one optimised (ssa) .ll"""
    d = directives(src); parts = []
    inc = ["-I" + os.path.join(HERE, "contracts", "sym"), "-I" + os.path.join(HERE, "contracts"), "-I" + os.path.join(tree, "include"), "-I" + tree]
    o = out + ".0.ll"
    extra = d.get("cflags", [])
    ex = [x for e in extra for x in e.split()]
    run([CL] + SYMFLAGS + CXXFLAGS + inc + ex + [src, "-o", o]); parts.append(o)
    for i, s in enumerate(d["source"]):
        o = out + ".%d.ll" % (i + 1)
        sp = os.path.join(tree, s)
        if s.endswith(".c"): run([CLC, "-std=c11"] + SYMFLAGS + ["-include", "assert.h"] + inc + ex + [sp, "-o", o])
        else: run([CL] + SYMFLAGS + CXXFLAGS + inc + ex + [sp, "-o", o])
        parts.append(o)
    src_ll = parts[0]
    if len(parts) > 1:
        run([LINK, "-S"] + parts + ["-o", out + ".l.ll"]); src_ll = out + ".l.ll"
    run([OPT, "-S", "-passes=" + PASSES, src_ll, "-o", out])
    for p in parts: os.unlink(p)
    if len(parts) > 1: os.unlink(out + ".l.ll")
    return d

def compile_native(src, out, san=True):
    """the same contract text, compiled by the project's compiler against /repo itself, linked with the replay runtime"""
    d = directives(src)
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,null,vptr,shift-base,signed-integer-overflow,nonnull-attribute"] if san else []
    ex = [x for e in d.get("cflags", []) for x in e.split() if x != "-fheinous-gnu-extensions"]  # a clang-only flag
    base = ["-DNDEBUG", "-DVC_RUNTIME", "-O1", "-g1", "-w", "-msse2", "-mcx16"] + san
    inc = ["-I" + os.path.join(HERE, "contracts", "run"), "-I" + os.path.join(HERE, "contracts"), "-I" + os.path.join(REPO, "include"), "-I" + REPO] + ex
    objs = []
    pr = []
    PRE = [x for h in ("stdlib.h", "stdint.h", "wchar.h", "stddef.h", "iterator", "algorithm", "string") for x in ("-include", h)] + ["-DVSCWPRINTF(f,a)=0"]
    def go(cmd, o): objs.append(o); pr.append((cmd, subprocess.Popen(cmd + ["-o", o], stderr=subprocess.PIPE, stdout=subprocess.PIPE, text=True, errors="replace")))
    go(["g++-10", "-std=c++17", "-fno-access-control", "-c", src] + PRE + base + inc, out + ".h.o")
    for i, s in enumerate(d["source"]):
        sp = os.path.join(REPO, s)
        if s.endswith(".c"): go(["gcc-10", "-std=gnu11", "-include", "assert.h", "-c", sp] + base + inc, out + ".%d.o" % i)
        else: go(["g++-10", "-std=c++17", "-fno-access-control", "-c", sp] + PRE + base + inc, out + ".%d.o" % i)
    go(["g++-10", "-std=c++17", "-c", os.path.join(HERE, "contracts", "run", "runtime.cpp")] + base + inc, out + ".rt.o")
    for cmd, p in pr:
        so, se = p.communicate()
        if p.returncode: raise BuildError("native: " + se[-3000:])
    run(["g++-10"] + san + objs + ["-o", out, "-lpthread"])
    for o in objs: os.unlink(o)

def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split("\n")))
