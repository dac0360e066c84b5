"""Program model: loads the JSON written by irdump for one build configuration.

Every check works on this resolved program (LLVM IR of /repo's current sources,
all translation units of the library linked together, locals promoted to SSA).
Nothing of /repo is executed.
"""
import hashlib, json, os, subprocess, sys, glob, shutil, concurrent.futures

REPO = os.environ.get("WRENCH_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
SRC = os.path.join(REPO, "discrete_src")

BASE = ["-DWRENCH_LINUX_FILE_IO"]
CONFIGS = {
    "default": [],
    "compact": ["-DWRENCH_COMPACT"],
    "really": ["-DWRENCH_REALLY_COMPACT"],
    "slices": ["-DWRENCH_TIME_SLICES", "-DWRENCH_PROTECT_STACK_FROM_OVERFLOW",
               "-DWRENCH_LINUX_TCP", "-DWRENCH_LINUX_SERIAL"],
    "cslices": ["-DWRENCH_COMPACT", "-DWRENCH_TIME_SLICES", "-DWRENCH_PROTECT_STACK_FROM_OVERFLOW",
                "-DWRENCH_LINUX_TCP"],
    "mfail": ["-DWRENCH_HANDLE_MALLOC_FAIL", "-DWRENCH_LINUX_TCP"],
    "cmfail": ["-DWRENCH_COMPACT", "-DWRENCH_HANDLE_MALLOC_FAIL"],
    "smfail": ["-DWRENCH_TIME_SLICES", "-DWRENCH_HANDLE_MALLOC_FAIL"],
    "trapdiv": ["-DWRENCH_TRAP_DIVISION_BY_ZERO"],
    "ctrapdiv": ["-DWRENCH_COMPACT", "-DWRENCH_TRAP_DIVISION_BY_ZERO"],
    "floatfmt": ["-DWRENCH_FLOAT_SPRINTF"],
}
EXCLUDE = {"wrench_cli.cpp", "wrench_min.cpp", "arduino_lib.cpp", "esp32_lib.cpp", "std_io_little_spiffs.cpp",
           "arduino_comm.cpp", "win32_comm.cpp", "debugger.cpp"}


class AnalysisBroken(Exception):
    """an anchor vanished or a rule matched nothing: neither pass nor violation"""


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd[:8]), r.stderr[-3000:]))
    return r.stdout


def sources():
    out = []
    for d in ("cc", "vm", "utils", "lib", "debug"):
        for f in sorted(glob.glob(os.path.join(SRC, d, "*.cpp"))):
            b = os.path.basename(f)
            if b in EXCLUDE or b.startswith("test_"):
                continue
            out.append(f)
    if len(out) < 30:
        raise AnalysisBroken("only %d translation units found under %s" % (len(out), SRC))
    return out


def _h(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha1()
        for f in sorted(glob.glob(os.path.join(SRC, "**", "*"), recursive=True)):
            if f.endswith((".cpp", ".h")):
                h.update(f.encode())
                h.update(open(f, "rb").read())
        _tree_hash = h.hexdigest()[:16]
    return _tree_hash


def irdump_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "sa", "irdump.cpp")
    exe = os.path.join(BUILD, "irdump-" + _h(open(src, "rb").read()))
    if not os.path.exists(exe):
        flags = _run(["llvm-config-18", "--cxxflags"]).split()
        tmp = exe + ".%d" % os.getpid()
        _run(["clang++-18", "-O1"] + flags + ["-w", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.replace(tmp, exe)
    return exe


def _bitcode(config, outdir, std="c++98", extra_sources=()):
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for s in list(sources()) + list(extra_sources):
        o = os.path.join(outdir, os.path.basename(s) + ".bc")
        cmd = ["clang++-18", "-std=" + std, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug",
               "-fno-exceptions", "-fno-discard-value-names", "-w", "-iquote", SRC, "-I", REPO] + BASE + CONFIGS[config] + \
              ["-emit-llvm", "-c", s, "-o", o]
        jobs.append((cmd, o))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run(j[0]), jobs))
    return [o for _, o in jobs]


def load(config="default", pipe="function(sroa)", keep=None, inline=None, extra_sources=(), std="c++98", flags=()):
    """Program for a configuration.  keep: set of function names that stay
    separate (all others are folded into callers); inline: names to inline."""
    key = _h(tree_hash(), config, CONFIGS[config], pipe, sorted(keep) if keep is not None else None, sorted(inline or []),
             open(os.path.join(VERIF, "sa", "irdump.cpp"), "rb").read(), std, *(list(extra_sources) + list(flags)))
    js = os.path.join(BUILD, "ir-%s-%s.json" % (config, key))
    if not os.path.exists(js):
        exe = irdump_tool()
        bcdir = os.path.join(BUILD, "bc-%s-%s" % (config, _h(tree_hash(), config, std, *extra_sources)))
        done = os.path.join(bcdir, ".done")
        if os.path.exists(done):
            bcs = open(done).read().split("\n")
        else:
            bcs = _bitcode(config, bcdir, std, extra_sources)
            open(done, "w").write("\n".join(bcs))
        args = [exe, "-o", js + ".tmp%d" % os.getpid(), "-p", pipe] + list(flags)
        if keep is not None:
            kf = js + ".keep"
            open(kf, "w").write("\n".join(sorted(keep)) + "\n")
            args += ["-keep", kf]
        if inline:
            nf = js + ".inl"
            open(nf, "w").write("\n".join(sorted(inline)) + "\n")
            args += ["-inline", nf]
        _run(args + bcs)
        os.replace(js + ".tmp%d" % os.getpid(), js)
    return Program(json.load(open(js)), config)


# trivial accessors that are always folded into their callers
SMALL = {"_ZN7WRValueaSERKS_", "_ZN7WRValue4initEv", "_Z20READ_32_FROM_PC_funcPKh", "_Z20READ_16_FROM_PC_funcPKh"}
_baseline = None


def baseline():
    """functions of the tree this was written against; any other function (an
    extracted helper, say) is folded into its callers before analysis"""
    global _baseline
    if _baseline is None:
        _baseline = set(open(os.path.join(VERIF, "sa", "baseline_functions.txt")).read().split())
    return _baseline


_std = {}


def std(config="default", fold=()):
    k = (config, tuple(sorted(fold)))
    if k not in _std:
        _std[k] = load(config, keep=baseline() - SMALL - set(fold))
    return _std[k]


def ranged(config="default"):
    """the same program with redundant loads merged, so that LLVM's interval analysis relates a test to the use it guards"""
    k = ("ranged", config)
    if k not in _std:
        _std[k] = load(config, pipe="function(sroa,early-cse<memssa>,simplifycfg,gvn,early-cse<memssa>)", keep=baseline() - SMALL, flags=("-ranges",))
    return _std[k]


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "line", "file", "x", "fn", "bb", "idx")

    def __init__(self, raw, fn, bb, idx):
        self.id, self.op, self.ty, self.ops, self.line, self.file, self.x = raw
        self.fn, self.bb, self.idx = fn, bb, idx

    def loc(self):
        return "%s:%d" % (relfile(self.file), self.line)

    def __repr__(self):
        return "<%%%d %s %s>" % (self.id, self.op, self.ops)


def relfile(f):
    k = f.rfind("discrete_src/")
    if k >= 0:
        return f[k:]
    f = f.replace("./", "")
    return ("discrete_src/" + f) if not f.startswith("/") else f


class Block:
    __slots__ = ("i", "name", "insts", "succ", "pred", "fn")


class Function:
    def __init__(self, name, d, prog):
        self.name, self.prog = name, prog
        self.dem = d["dem"]
        self.decl = d["decl"]
        self.ret = d["ret"]
        self.args = d["args"]
        self.addr = d["addr"]
        self.file = relfile(d.get("file", ""))
        self.line = d.get("line", 0)
        self.blocks = []
        self.val = {}
        for n, b in enumerate(d.get("blocks", [])):
            B = Block()
            B.i, B.name, B.fn, B.pred = n, b["name"], self, []
            B.insts = [Inst(r, self, B, k) for k, r in enumerate(b["i"])]
            for I in B.insts:
                self.val[I.id] = I
            self.blocks.append(B)
        for B in self.blocks:
            t = B.insts[-1]
            s = []
            if t.op == "br":
                # conditional: [cond, false, true] in operand order
                s = [o[1] for o in t.ops if o[0] == "bb"]
            elif t.op == "switch":
                s = [t.ops[1][1]] + [c[1] for c in t.x]
            elif t.op == "indirectbr":
                s = [o[1] for o in t.ops if o[0] == "bb"]
            B.succ = []
            for k in s:
                if k not in B.succ:
                    B.succ.append(k)
        for B in self.blocks:
            for k in B.succ:
                self.blocks[k].pred.append(B.i)
        self._dom = None
        self._uses = None

    @property
    def short(self):
        return self.dem.split("(")[0]

    def insts(self):
        for B in self.blocks:
            for I in B.insts:
                yield I

    def calls(self):
        for I in self.insts():
            if I.op == "call":
                yield I

    def uses(self):
        if self._uses is None:
            u = {}
            for I in self.insts():
                for o in iter_ops(I):
                    if o[0] == "i":
                        u.setdefault(o[1], []).append(I)
                    elif o[0] == "a":
                        u.setdefault(("a", o[1]), []).append(I)
            self._uses = u
        return self._uses

    # branch helper: (cond operand, true block, false block) for a conditional br
    @staticmethod
    def cond(t):
        if t.op == "br" and len(t.ops) == 3:
            return t.ops[0], t.ops[2][1], t.ops[1][1]
        return None

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.blocks[0].succ))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def idom(self):
        if self._dom is not None:
            return self._dom
        order = self.rpo()
        num = {b: n for n, b in enumerate(order)}
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.blocks[b].pred:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self._dom = idom
        return idom

    def dominates(self, a, b):
        """block a dominates block b"""
        d = self.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            p = d[b]
            if p == b:
                return False
            b = p

    def inst_dominates(self, A, B):
        if A.bb is B.bb:
            return A.idx < B.idx
        return self.dominates(A.bb.i, B.bb.i)


def iter_ops(I):
    if I.op == "phi":
        for v, b in I.ops:
            yield v
        return
    for o in I.ops:
        yield o
    if I.op == "getelementptr" and I.x:
        for v, s in I.x["var"]:
            yield v


class Program:
    def __init__(self, d, config):
        self.config = config
        self.types = d["ditypes"]
        self.globals = d["globals"]
        self.inlined = d["inlined"]
        self.fns = {n: Function(n, f, self) for n, f in d["functions"].items()}
        self._callers = None
        self._bydem = None
        self._defined = None

    def defined(self):
        """defined functions; ones that were folded into all their callers are left out"""
        if self._defined is None:
            inl = set(self.inlined)
            live = set()
            for f in self.fns.values():
                if not f.decl:
                    for I in f.insts():
                        for o in iter_ops(I):
                            if o[0] == "fn" and o[1] != f.name:
                                live.add(o[1])
            self._defined = [f for f in self.fns.values() if not f.decl and
                             (f.name not in inl or f.addr or f.name in live)]
        return self._defined

    def enum(self, name):
        e = self.types.get("enum " + name)
        if not e:
            raise AnalysisBroken("enum %s not found" % name)
        return e["values"]

    def enum_value(self, const):
        for k, v in self.types.items():
            if k.startswith("enum") and const in v["values"]:
                return v["values"][const]
        raise AnalysisBroken("enumerator %s not found" % const)

    def struct(self, name):
        s = self.types.get("struct " + name)
        if not s:
            raise AnalysisBroken("struct %s not found" % name)
        return s

    def offset(self, struct, field):
        for f in self.struct(struct)["fields"]:
            if f[0] == field:
                return f[1]
        raise AnalysisBroken("field %s::%s not found" % (struct, field))

    def by_name(self, short, must=True):
        """defined functions whose demangled name (without arguments) is short"""
        if self._bydem is None:
            self._bydem = {}
            for f in self.fns.values():
                self._bydem.setdefault(f.dem.split("(")[0], []).append(f)
        r = [f for f in self._bydem.get(short, []) if not f.decl]
        if must and not r:
            raise AnalysisBroken("function %s not found" % short)
        return r

    def one(self, short):
        r = self.by_name(short)
        if len(r) != 1:
            raise AnalysisBroken("function %s ambiguous (%d)" % (short, len(r)))
        return r[0]

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.defined():
                for I in f.calls():
                    if I.ops[0][0] == "fn":
                        c.setdefault(I.ops[0][1], []).append(I)
            self._callers = c
        return self._callers


def gep_field(fn, o):
    """pointer operand -> (struct name, byte offset) when it addresses a field of a named struct at a constant offset"""
    while o[0] == "i":
        I = fn.val[o[1]]
        if I.op in ("bitcast", "freeze"):
            o = I.ops[0]
            continue
        if I.op == "getelementptr" and I.x and I.x.get("st") and not I.x["var"]:
            st = I.x["st"].replace("class.", "").replace("struct.", "").lstrip("%")
            b, off = I.ops[0], I.x["off"]
            # nested struct member: look further down
            inner = gep_field(fn, b)
            if inner and I.x["n"] > 1:
                return (inner[0], inner[1] + off, st, off)
            return (st, off, st, off)
        return None
    return None


def ptr_base(fn, o, limit=64):
    """peel constant-offset geps/casts: (base operand, offset) or variable part -> offset None"""
    off = 0
    while limit:
        limit -= 1
        if o[0] == "cgep":
            if off is not None:
                off += o[2]
            o = o[1]
            continue
        if o[0] != "i":
            return o, off
        I = fn.val[o[1]]
        if I.op == "getelementptr":
            if I.x is None or I.x["var"]:
                off = None
            elif off is not None:
                off += I.x["off"]
            o = I.ops[0]
            continue
        if I.op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
            o = I.ops[0]
            continue
        return o, off
    return o, off
