"""C16: a failed compilation is reported and delivers no bytecode."""
import ir
from ir import AnalysisBroken, ptr_base, gep_field
from esp import Sim

TECHNIQUE = "path-sensitive typestate analysis (LLVM IR) of the compiler's error code over every path of every compiler method, with failure-result summaries; who-may-write analysis of the error code and the output parameters"
NOTE = "decided for all paths of all methods; that a malformed program is recognised as malformed is the parser's business and is not decided"

CLS = "WRCompilationContext"
# methods whose false result means: an error has been recorded
REPORTS = ("parseStatement", "parseIf", "parseWhile", "parseDoWhile", "parseForLoop", "parseSwitch", "parseEnum", "parseUnit",
           "parseCallFunction", "pushObjectTable", "readCurlyBlock")
TOKEN = "getToken"      # false: an error was recorded, or the input is used up, or the token is not the expected one


class Compiler:
    def __init__(self, prog):
        self.prog = prog
        self.eo = prog.offset(CLS, "m_err")
        self.fo = prog.offset(CLS, "m_EOF")
        self.ms = {f.name: f for f in prog.defined() if f.dem.startswith(CLS + "::") and "~" not in f.dem}
        if len(self.ms) < 30:
            raise AnalysisBroken("compiler methods not found")
        self.by = {}
        for f in self.ms.values():
            self.by.setdefault(f.dem.split("(")[0].split("::")[-1], []).append(f)
        self.reports = {self.one(n).name for n in REPORTS}
        self.token = self.one(TOKEN).name
        self.setters = self.closure()

    def one(self, n):
        if len(self.by.get(n, [])) != 1:
            raise AnalysisBroken("compiler method %s not found" % n)
        return self.by[n][0]

    def field(self, f, o):
        """offset in the compiler object a pointer addresses, or None"""
        b, off = ptr_base(f, o)
        if b == ["a", 0] and f.name in self.ms:
            return off
        g = gep_field(f, o)
        if g and g[0] == CLS:
            return g[1]
        return None

    def closure(self):
        """functions that may (transitively) store the error code"""
        direct = set()
        for f in self.prog.defined():
            for I in f.insts():
                if I.op == "store" and self.field(f, I.ops[1]) == self.eo:
                    direct.add(f.name)
        work, cs = list(direct), self.prog.callers()
        while work:
            n = work.pop()
            for c in cs.get(n, []):
                if c.fn.name not in direct:
                    direct.add(c.fn.name)
                    work.append(c.fn.name)
        return direct

    def strip(self, f, o):
        while o[0] == "i" and f.val[o[1]].op in ("trunc", "zext", "sext", "freeze"):
            o = f.val[o[1]].ops[0]
        return o

    def errload(self, f, o):
        o = self.strip(f, o)
        return o[0] == "i" and f.val[o[1]].op == "load" and self.field(f, f.val[o[1]].ops[0]) == self.eo

    def eofload(self, f, o):
        o = self.strip(f, o)
        return o[0] == "i" and f.val[o[1]].op == "load" and self.field(f, f.val[o[1]].ops[0]) == self.fo

    def errtest(self, f, o):
        """operand is a comparison of the error code with 0: 'eq' or 'ne'"""
        o = self.strip(f, o)
        if o[0] != "i":
            return None
        I = f.val[o[1]]
        if I.op == "icmp" and I.x in ("eq", "ne"):
            for a, b in (I.ops, I.ops[::-1]):
                if b[0] == "c" and self.errload(f, a):
                    if b[1] == 0:
                        return I.x
                    return "is" if I.x == "eq" else None
        if I.op == "xor" and I.ops[1][0] == "c":
            return {"eq": "ne", "ne": "eq"}.get(self.errtest(f, I.ops[0]))
        return None


class Walk(Sim):
    """states: E error recorded, Z error code known zero, F input used up, X a token was expected,
    O output handed out, L<n> value n is the current error code, I initialised"""

    def __init__(self, C, f):
        Sim.__init__(self, f)
        self.C = C
        self.rets = []
        self.at = {}
        self.tracked |= {I.id for I in f.insts() if I.op == "icmp" and C.errtest(f, ["i", I.id])}

    def step(self, I, st):
        C, f = self.C, self.f
        if I.op == "store":
            off = C.field(f, I.ops[1])
            if off == C.eo:
                self.at.setdefault(I.id if I.id is not None else id(I), (I, set()))[1].add(st)
                s = set(x for x in st if x[0] != "L")
                v = I.ops[0]
                if self.nonzero(v, st):
                    s.add("E")
                    s.discard("Z")
                elif v[0] == "c":
                    s.discard("E")
                    s.add("Z")
                elif not C.errload(f, v):
                    s.discard("E")
                    s.discard("Z")
                return (frozenset(s),)
            if off == C.fo and I.ops[0][0] == "c":
                return (st | {"F"},) if I.ops[0][1] & 1 else (st - {"F"},)
            if I.ops[1] in self.outs:
                self.at.setdefault(("out", I.bb.i, I.idx), (I, set()))[1].add(st)
                if I.ops[0] == ["null"] or I.ops[0][0] == "c" and I.ops[0][1] == 0:
                    return (st | {"c%d" % I.ops[1][1]},)
                return (st | {"O%d" % I.ops[1][1]},)
        elif I.op == "load":
            if C.field(f, I.ops[0]) == C.eo and any(u.op in ("ret", "phi", "select", "store", "trunc", "zext", "sext") for u in f.uses().get(I.id, [])):
                return (st | {"L%d" % I.id},)
        elif I.op in ("zext", "trunc", "sext", "freeze"):
            if I.ops[0][0] == "i" and "L%d" % I.ops[0][1] in st:
                return (st | {"L%d" % I.id},)
        elif I.op == "call" and I.ops[0][0] == "fn":
            n = I.ops[0][1]
            if any(o in self.outs for o in I.ops[1:]):
                self.at.setdefault(("pass", I.bb.i, I.idx), (I, set()))[1].add(st)
                if n not in C.setters:
                    for o in I.ops[1:]:
                        if o in self.outs:
                            st = st | {"O%d" % o[1]}
            if n in C.setters:
                st = frozenset(x for x in st if x != "Z" and x[0] != "L")
            if n in C.ms:
                st = st - {"F"}
        return (st,)

    outs = ()

    def nonzero(self, o, st, d=0):
        if o[0] == "c":
            return o[1] != 0
        if o[0] == "i" and d < 12:
            if "N%d" % o[1] in st:
                return True
            I = self.f.val[o[1]]
            if I.op == "load" and "E" in st and "L%d" % I.id in st:
                return True
            if I.op == "select":
                t = self.C.errtest(self.f, I.ops[0])
                for pol, v in ((True, I.ops[1]), (False, I.ops[2])):
                    if not self.nonzero(v, st, d + 1) and not (self.C.errload(self.f, v) and t in (("ne",) if pol else ("eq",))):
                        return False
                return True
            if I.op in ("zext", "sext", "trunc", "freeze"):
                return self.nonzero(I.ops[0], st, d + 1)
        return False

    def phi(self, I, v, st):
        st = frozenset(x for x in st if x not in ("L%d" % I.id, "N%d" % I.id))
        if v[0] == "i" and "L%d" % v[1] in st:
            st = st | {"L%d" % I.id}
        elif v[0] == "c" and v[1] == 0 and "Z" in st and I.ty != "i1":
            st = st | {"L%d" % I.id}
        if I.ty != "i1" and self.nonzero(v, st) or v[0] == "i" and "E" in st and self.C.errload(self.f, v):
            st = st | {"N%d" % I.id}
        return st

    def fact(self, pol_nonzero, st):
        if pol_nonzero:
            return None if "Z" in st else st | {"E"}
        return None if "E" in st else st | {"Z"}

    def refine(self, o, pol, st):
        C, f = self.C, self.f
        o = C.strip(f, o)
        if o[0] != "i":
            return st
        t = C.errtest(f, o)
        if t == "is":
            return self.fact(True, st) if pol else st
        if t:
            return self.fact((t == "ne") == pol, st)
        I = f.val[o[1]]
        if C.errload(f, o):
            return self.fact(pol, st)
        if C.eofload(f, o):
            return st | {"F"} if pol else st
        if I.op == "icmp" and I.x in ("eq", "ne"):
            for a, b in (I.ops, I.ops[::-1]):
                if b[0] == "null" and a == self.expect:
                    return st | {"X"} if (I.x == "ne") == pol else st - {"X"}
                if b[0] == "c" and b[1] == 0 and a[0] == "i" and f.val[a[1]].op != "icmp":
                    r = self.refine(a, (I.x == "ne") == pol, st)
                    if r != st:
                        return r
        if I.op == "call" and not pol and I.ops[0][0] == "fn" and I.ops[0][1] in C.reports:
            return None if "Z" in st and False else (st - {"Z"}) | {"E"}
        return st

    expect = None

    def case(self, o, k, st):
        if self.C.errload(self.f, o) and k is not None:
            return self.fact(k != 0, st)
        return st

    def ret(self, I, value, st):
        self.rets.append((I, value, st))


def sources(f, o, seen=None):
    """non-constant values that may be returned"""
    seen = set() if seen is None else seen
    if o[0] in ("c", "null", "undef"):
        return []
    if o[0] == "i":
        if o[1] in seen:
            return []
        seen.add(o[1])
        I = f.val[o[1]]
        if I.op == "phi":
            return [x for v, b in I.ops for x in sources(f, v, seen)]
        if I.op == "select":
            return [x for v in I.ops[1:] for x in sources(f, v, seen)]
        if I.op in ("zext", "sext", "trunc", "freeze"):
            return sources(f, I.ops[0], seen)
    return [o]


def check(R):
    R.rule("the error code is set to 'no error' only where compile() starts; every failure result of a parsing method is returned with an error recorded (the tokenizer: or the input used up); "
           "the outputs are cleared first and assigned only by the linker with no error recorded; compile() calls the linker only with no error recorded and returns the current error code; wr_compile() returns it unchanged")
    for cfg in ("default", "compact"):
        one(R, ir.std(cfg), cfg)
    R.floor("error code stores", 200)
    R.floor("failure returns", 100)
    R.floor("methods", 30)


def one(R, prog, cfg):
    C = Compiler(prog)
    comp, link = C.one("compile"), C.one("link")
    # who may write the error code, and with what
    for f in prog.defined():
        if f.name == comp.name or f.name in C.reports or f.name in (link.name, C.token):
            continue
        w = None
        for I in f.insts():
            if I.op == "store" and C.field(f, I.ops[1]) == C.eo:
                R.count("error code stores")
                if I.ops[0][0] == "c" and I.ops[0][1] != 0:
                    continue
                if w is None:
                    w = Walk(C, f)
                    w.run(frozenset())
                for J, sts in w.at.values():
                    if J is I and not all(w.nonzero(I.ops[0], s) or "Z" in s for s in sts):
                        R.violation("C16:clear:%s" % f.short, I.loc(), "%s may set the error code back to 'no error'" % f.short)
    # failure results
    for n in REPORTS + (TOKEN,):
        f = C.one(n)
        R.count("methods")
        w = Walk(C, f)
        if n == TOKEN:
            w.expect = ["a", 2]
        w.run(frozenset())
        for J, sts in w.at.values():
            if J.op == "store" and C.field(f, J.ops[1]) == C.eo:
                R.count("error code stores")
                if not all(w.nonzero(J.ops[0], s) or "Z" in s for s in sts):
                    R.violation("C16:clear:%s" % f.short, J.loc(), "%s may set the error code back to 'no error'" % f.short)
        bad = None
        for I, v, st in w.rets:
            if v is None:
                for o in sources(f, I.ops[0]):
                    S = f.val[o[1]] if o[0] == "i" else None
                    ok = S is not None and (S.op == "call" and S.ops[0][0] == "fn" and (S.ops[0][1] in C.reports or S.ops[0][1] == C.token and n == TOKEN) or C.errtest(f, o) == "eq")
                    # token != expect, decided only when a token was expected
                    ok = ok or S is not None and n == TOKEN and "X" in st
                    if not ok and "E" not in st:
                        bad = (S.loc() if S is not None else I.loc())
                continue
            if v:
                continue
            R.count("failure returns")
            if "E" in st or n == TOKEN and ("F" in st or "X" in st):
                continue
            bad = I.loc()
        if bad:
            R.violation("C16:silent:%s" % n, bad, "%s can report failure without recording an error: the rest of the program would be dropped and the compilation reported as successful" % n)
    # compile()
    R.count("methods")
    w = Walk(C, comp)
    outs = [["a", 3], ["a", 4]]
    w.outs = outs
    first = True
    w.run(frozenset())
    for J, sts in w.at.values():
        if J.op == "store" and C.field(comp, J.ops[1]) == C.eo:
            R.count("error code stores")
            if not all(w.nonzero(J.ops[0], s) for s in sts):
                # the initialisation: nothing that can record an error was called on the way
                if not fresh(C, comp, J):
                    R.violation("C16:clear:compile", J.loc(), "compile() sets the error code back to 'no error' after parsing began")
        elif J.op == "store" and J.ops[1] in outs:
            if not (J.ops[0] == ["null"] or J.ops[0][0] == "c" and J.ops[0][1] == 0):
                R.violation("C16:out:compile", J.loc(), "compile() assigns its output itself")
        elif J.op == "call" and any(o in outs for o in J.ops[1:]):
            R.count("hand-over sites")
            if J.ops[0][1] != link.name:
                R.violation("C16:out:compile", J.loc(), "the output parameters are passed to something other than the linker")
            if not all("Z" in s for s in sts):
                R.violation("C16:link:guard", J.loc(), "the linker may be run although an error was recorded")
            if not all({"c3", "c4"} <= s for s in sts):
                R.violation("C16:out:clear", J.loc(), "the output parameters may still be unset when the linker runs")
    if not any(J.op == "call" for J, s in w.at.values()):
        raise AnalysisBroken("compile() does not pass its outputs on")
    for I, v, st in w.rets:
        R.count("return paths")
        if not {"c3", "c4"} <= st:
            R.violation("C16:out:clear", I.loc(), "compile() may return without having cleared the output pointer and length")
        o = I.ops[0]
        cur = o[0] == "i" and "L%d" % o[1] in st or v not in (None, "undef") and v != 0
        if not cur:
            R.violation("C16:result:compile", I.loc(), "compile() may return something other than the recorded error code")
    # link()
    R.count("methods")
    w = Walk(C, link)
    w.outs = [["a", 1], ["a", 2]]
    w.run(frozenset())
    for J, sts in w.at.values():
        if J.op == "store" and C.field(link, J.ops[1]) == C.eo:
            R.count("error code stores")
            if not all(w.nonzero(J.ops[0], s) for s in sts):
                R.violation("C16:clear:link", J.loc(), "the linker may set the error code back to 'no error'")
        elif J.op == "store" or J.op == "call":
            R.count("hand-over sites")
            if not all("Z" in s for s in sts):
                R.violation("C16:link:deliver", J.loc(), "the linker hands out bytecode (or its length) although an error may have been recorded")
    for I, v, st in w.rets:
        R.count("return paths")
        got = {x for x in st if x[0] == "O"}
        if got and "Z" not in st:
            R.violation("C16:link:after", I.loc(), "an error can be recorded after the bytecode was handed out")
        if not got and "E" not in st:
            R.violation("C16:link:silent", I.loc(), "the linker can return without an error and without bytecode")
        if got and len(got) != 2:
            R.violation("C16:link:both", I.loc(), "only one of bytecode pointer and length is handed out")
    # wr_compile()
    for f in prog.by_name("wr_compile"):
        if f.decl:
            continue
        R.count("methods")
        cs = [I for I in f.calls() if I.ops[0] == ["fn", comp.name]]
        if len(cs) != 1:
            raise AnalysisBroken("wr_compile() does not call compile() once")
        for I in f.insts():
            if I.op == "ret":
                R.count("return paths")
                if any(o != ["i", cs[0].id] for o in sources(f, I.ops[0])) or I.ops[0][0] != "i" or C.strip(f, I.ops[0]) != ["i", cs[0].id]:
                    R.violation("C16:result:wr_compile", I.loc(), "wr_compile() may return something other than compile()'s result")
            if I.op == "store" and I.ops[1] in (["a", 2], ["a", 3]):
                R.violation("C16:out:wr_compile", I.loc(), "wr_compile() assigns an output parameter itself")
        if cs[0].ops[4:6] != [["a", 2], ["a", 3]]:
            R.violation("C16:out:wr_compile", cs[0].loc(), "wr_compile() does not pass the caller's output parameters through")
    # users of wr_compile inside the library
    for f in prog.by_name("wr_compile"):
        for c in prog.callers().get(f.name, []):
            if c.fn.file.startswith("discrete_src/lib/"):
                R.count("library uses of wr_compile")
                user(R, C, c)


def fresh(C, f, J):
    """no call that may record an error can have happened before J"""
    seen, work = set(), [(J.bb.i, J.idx)]
    while work:
        b, upto = work.pop()
        for I in f.blocks[b].insts[:upto]:
            if I.op == "call" and I.ops[0][0] == "fn" and I.ops[0][1] in C.setters:
                return False
        for p in f.blocks[b].pred:
            if p not in seen:
                seen.add(p)
                work.append((p, len(f.blocks[p].insts)))
    return True


def user(R, C, c):
    """the delivered pointer is read only where the result was 'no error'"""
    f = c.fn
    out = c.ops[3]
    good = set()
    for B in f.blocks:
        cd = f.cond(B.insts[-1])
        if not cd or cd[0][0] != "i":
            continue
        I = f.val[cd[0][1]]
        if I.op == "icmp" and I.x in ("eq", "ne"):
            for a, b in (I.ops, I.ops[::-1]):
                if b[0] == "c" and b[1] == 0 and isresult(f, a, c):
                    good.add(cd[1] if I.x == "eq" else cd[2])
    for I in f.insts():
        if I.op == "load" and I.ops[0] == out and I is not c:
            if not any(f.dominates(g, I.bb.i) and len(f.blocks[g].pred) == 1 for g in good):
                R.violation("C16:use:%s" % f.short, I.loc(), "%s uses the compiled code without the result having been 'no error'" % f.short)


def isresult(f, o, c):
    while o[0] == "i" and f.val[o[1]].op in ("trunc", "zext", "sext", "freeze"):
        o = f.val[o[1]].ops[0]
    if o == ["i", c.id]:
        return True
    if o[0] == "i" and f.val[o[1]].op == "load":      # stored in the result slot and read back
        L = f.val[o[1]]
        st = [I for I in f.insts() if I.op == "store" and I.ops[1] == L.ops[0] and isresult(f, I.ops[0], c)]
        return any(f.inst_dominates(s, L) and f.inst_dominates(c, s) for s in st)
    return False
