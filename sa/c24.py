"""C24: files and temporary memory are released on every path."""
import ir
from ir import AnalysisBroken
from esp import Sim

TECHNIQUE = "path-sensitive resource typestate (acquired / released / handed over) per acquisition site with callee summaries, and object-lifetime typestate for scoped owners, on the LLVM IR"
NOTE = "memory that is stored into an object is that object's from then on (C27 and C12 treat the long-lived owners)"

OPEN = {"fopen": "close", "fdopen": "close", "fopen64": "close", "open": "fd", "open64": "fd", "socket": "fd", "accept": "fd", "opendir": "dir"}
CLOSE = {"fclose": "close", "close": "fd", "closedir": "dir"}
# API contracts: the call hands the caller memory through a pointer parameter when it reports success
OUT = {"wr_serialize": (0, "nonzero"), "wr_compile": (2, "zero"), "WRCompilationContext::createLocalHashMap": (2, None)}
# API contracts: parameter -> flag parameter; with the flag false the context only refers to the caller's block
BORROW = {"wr_run": (1, 3), "wr_newContext": (1, 3), "wr_import": (1, 3), "wr_createContext": (1, 3)}


def viaglobal(f, I, g):
    o = I.ops[0]
    return o[0] == "i" and f.val[o[1]].op == "load" and f.val[o[1]].ops[0] == ["g", g]


def name(I):
    return I.ops[0][1] if I.ops[0][0] == "fn" else None


class Track(Sim):
    """one resource.  state: (status, holders); status N none, ('?', call, polarity) depends on a
    result, H held, R released, E handed over"""
    LIMIT = 60000

    def __init__(self, an, f, site, kind, param=None, consts=None):
        Sim.__init__(self, f)
        self.argconst = consts or {}
        self.an, self.site, self.kind, self.param = an, site, kind, param
        self.final = {}
        self.by = set()
        self.bad = {}

    def run_it(self):
        if self.param is not None:
            self.run(("H", frozenset({("a", self.param)})))
        else:
            self.run(("N", frozenset()))
        return self

    # ---- which operand is the resource
    def root(self, o):
        n = 0
        while o[0] == "i" and n < 50:
            n += 1
            I = self.f.val[o[1]]
            if I.op in ("getelementptr", "bitcast", "freeze", "trunc", "sext", "zext", "inttoptr", "ptrtoint"):
                o = I.ops[0]
                continue
            break
        return o

    def holds(self, o, st):
        r = self.root(o)
        return tuple(r[:2]) in st[1] if r[0] in ("i", "a") else False

    def local(self, o):
        r = self.root(o)
        if r[0] == "i" and self.f.val[r[1]].op == "alloca":
            return ("m", r[1])
        return None

    def fail(self, I, what):
        self.bad[(I.bb.i, I.idx, what)] = (I, what)

    def use(self, I, st):
        if st[0] == "R":
            self.fail(I, "used after it was released")

    def end(self, I, st, status):
        self.final.setdefault(status, I)

    def acquire(self, I, st, holder, pend=None):
        """follow any one of the resources acquired here: this one, or an earlier or later one"""
        new = (("?",) + pend if pend else "H", frozenset({holder}))
        if st[0] == "N":
            return (new, st)
        return ((st[0], st[1] - {holder}),)

    def step(self, I, st):
        s, hs = st
        op = I.op
        if op == "load":
            m = self.local(I.ops[0])
            if hs and self.holds(I.ops[0], st):
                self.use(I, st)
            hs2 = hs - {("i", I.id)}
            if m and m in hs and self.f.val[m[1]].x != "array" and I.ty in ("ptr", "i32", "i64"):
                hs2 = hs2 | {("i", I.id)}
            return ((s, hs2),) if hs2 != hs else (st,)
        if op == "store":
            if not hs:
                return (st,)
            if self.holds(I.ops[1], st):
                self.use(I, st)
            m = self.local(I.ops[1])
            if self.holds(I.ops[0], st):
                if m:
                    return ((s, hs | {m}),)
                if s == "R":
                    return (st,)
                return (("E" if s != "R" else s, hs),)
            if m and m in hs:
                b, off = ir.ptr_base(self.f, I.ops[1])
                if off == 0:
                    return ((s, hs - {m}),)
            return (st,)
        if op == "call":
            return self.call(I, st)
        if op in ("alloca", "select"):
            if op == "select" and any(self.holds(v, st) for v in I.ops[1:]):
                return ((s, hs | {("i", I.id)}),)
            return (st,)
        return (st,)

    def call(self, I, st):
        s, hs = st
        f = self.f
        n = name(I)
        hs = hs - {("i", I.id)}
        st = (s, hs)
        if I is self.site:
            if self.kind == "out":
                k, pol = OUT[f.prog.fns[n].short]
                m = self.local(I.ops[1 + k])
                if m is None:
                    return (st,)
                return self.acquire(I, st, m, (I.id, pol) if pol else None)
            return self.acquire(I, st, ("i", I.id))
        if not hs:
            return (st,)
        held = [k for k, o in enumerate(I.ops[1:]) if self.holds(o, st)]
        out = [(s, hs)]
        if held:
            self.use(I, st)
            if self.kind == "mem" or self.kind == "out":
                if viaglobal(f, I, "g_free") and held == [0]:
                    return (self.release(I, st),)
            if n in CLOSE and CLOSE[n] == self.kind and 0 in held:
                return (self.release(I, st),)
            g = f.prog.fns.get(n) if n else None
            if n and n.startswith("llvm."):
                return (st,)
            if g is not None and g.blocks:
                for k in held:
                    if s == "R":
                        continue
                    if g.short in BORROW and BORROW[g.short][0] == k and I.ops[1 + BORROW[g.short][1]] == ["c", 0]:
                        continue
                    cs = {j: o[1] for j, o in enumerate(I.ops[1:]) if o[0] == "c"}
                    eff = self.an.param_effect(g, k, self.kind, cs)
                    kinds = {x for x, r in eff}
                    if kinds == {"R"}:
                        return (self.release(I, st),)
                    if kinds <= {"H"}:
                        continue
                    if "H" not in kinds:
                        return (("E", hs),)
                    keep = {r for x, r in eff if x == "H"}       # kept by the caller exactly when the result is ...
                    gone = {r for x, r in eff if x != "H"}
                    if keep == {0} and 0 not in gone:
                        return ((("?", I.id, "zero"), hs),)
                    return (("E", hs),)
                return (st,)
            if n is None:
                return ((("E", hs)),) if s != "R" else (st,)
            return (st,)        # C library: borrows
        # address of a local holder given away
        for o in I.ops[1:]:
            m = self.local(o)
            if m and m in hs and n and not n.startswith("llvm.") and s != "R":
                g = f.prog.fns.get(n)
                if g is not None and g.blocks:
                    return ((("E", hs)),)
        return (st,)

    def release(self, I, st):
        if st[0] == "R":
            self.fail(I, "released twice")
        return ("R", st[1])

    def phi(self, I, v, st):
        s, hs = st
        if not hs:
            return st
        if self.holds(v, st):
            return (s, hs | {("i", I.id)})
        return (s, hs - {("i", I.id)}) if ("i", I.id) in hs else st

    def refine(self, o, pol, st):
        s, hs = st
        if o[0] != "i":
            return st
        I = self.f.val[o[1]]
        if isinstance(s, tuple) and self.root(o) == ["i", s[1]]:
            return self.decide(st, pol)
        if I.op != "icmp":
            return st
        a, b = I.ops
        if isinstance(s, tuple) and self.root(a) == ["i", s[1]] and b[0] == "c" and b[1] == 0 and I.x in ("eq", "ne"):
            return self.decide(st, (I.x == "ne") == pol)
        if s == "H" and self.holds(a, st) and self.param is None:
            if b[0] == "null" or self.kind in ("close", "mem", "out", "dir") and b[0] == "c" and b[1] == 0:
                if I.x in ("eq", "ne"):
                    return st if (I.x == "ne") == pol else ("N", frozenset())
            if self.kind == "fd" and b[0] == "c":
                k = b[1] - (1 << 32) if b[1] >= 1 << 31 else b[1]
                if k == -1 and I.x in ("eq", "ne"):
                    return st if (I.x == "ne") == pol else ("N", frozenset())
                if (k, I.x) in ((0, "slt"), (-1, "sle")):
                    return st if not pol else ("N", frozenset())
                if (k, I.x) in ((0, "sge"), (-1, "sgt")):
                    return st if pol else ("N", frozenset())
        if s == "H" and self.holds(a, st) and self.param is not None and b[0] == "null" and I.x in ("eq", "ne"):
            return st if (I.x == "ne") == pol else None        # the parameter is a live resource
        return st

    def case(self, o, k, st):
        if isinstance(st[0], tuple) and self.root(o) == ["i", st[0][1]]:
            if k is not None:
                return self.decide(st, k != 0)
        return st

    def decide(self, st, nonzero):
        ok = (st[0][2] == "nonzero") == nonzero
        return ("H", st[1]) if ok else ("N", frozenset())       # not ours

    def ret(self, I, value, st):
        s, hs = st
        if isinstance(s, tuple):
            s = "H"      # success not looked at
        if s == "H" and I.ops and self.holds(I.ops[0], st):
            s = "back"
        self.final.setdefault(s, I)
        self.by.add(("E" if s == "back" else s, 0 if value == 0 else 1))


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.owned = {}     # functions returning a resource the caller owns: kind

    def param_effect(self, g, k, kind, consts):
        """{(what happened to the resource passed as parameter k, 0 if the call returned 0)}"""
        consts = {j: v for j, v in consts.items() if j != k and j < len(g.args) and g.args[j][1] in ("i1", "i8")}
        key = (g.name, k, kind, tuple(sorted(consts.items())))
        if key not in self.memo:
            self.memo[key] = {("H", 1)}      # recursion: assume it borrows
            t = Track(self, g, None, kind, param=k, consts=consts).run_it()
            self.memo[key] = {x for x in t.by if x[0] != "N"}
        return self.memo[key]

    def sites(self, f):
        for I in f.calls():
            n = name(I)
            if viaglobal(f, I, "g_malloc"):
                yield I, "mem"
            elif n in OPEN:
                yield I, OPEN[n]
            elif n in self.owned:
                yield I, self.owned[n]
            elif n in self.prog.fns and self.prog.fns[n].short in OUT and self.prog.fns[n] is not f:
                yield I, "out"


SCOPE_EXCLUDE = ("discrete_src/debug/",)


def check(R):
    R.rule("for every acquisition (installed allocator, C file or descriptor functions, functions that return an owned resource, API calls that hand out a buffer): on every path to a return the resource is released once, handed over "
           "(stored in an object, returned, given to a callee that keeps it) or was not obtained; it is not used after release; a pointer obtained from a scoped local object is not used after the object's destructor ran")
    for cfg in ("default", "slices", "mfail", "cmfail"):
        prog = ir.std(cfg)
        one(R, prog, cfg)
    R.floor("acquisition sites", 100)


def one(R, prog, cfg):
    an = Analysis(prog)
    todo = [f for f in prog.defined() if not f.file.startswith(SCOPE_EXCLUDE) and f.file.startswith("discrete_src/")]
    done = {}
    changed = True
    while changed:
        changed = False
        for f in todo:
            for I, kind in list(an.sites(f)):
                key = (f.name, I.bb.i, I.idx)
                if key in done:
                    continue
                t = Track(an, f, I, kind).run_it()
                done[key] = (f, I, kind, t)
                if "back" in t.final and f.name not in an.owned and f.ret != "void":
                    an.owned[f.name] = kind if kind != "out" else "mem"
                    changed = True
    R.count("acquisition sites", len(done))
    R.count("functions returning owned resources", len(an.owned))
    for f, I, kind, t in done.values():
        what = {"mem": "memory", "out": "the buffer handed out", "close": "the file", "fd": "the descriptor", "dir": "the directory"}[kind]
        if "H" in t.final:
            R.violation("C24:leak:%s:%s" % (f.short, kind), I.loc(), "%s: %s acquired here is still held at a return (line %d)" % (f.short, what, line(t.final["H"])))
        for J, why in t.bad.values():
            R.violation("C24:%s:%s" % (why.split(":")[0].replace(" ", "-"), f.short), J.loc(), "%s: %s acquired at line %d is %s" % (f.short, what, I.line, why))
    for f in todo:
        scoped(R, prog, f)


def line(I):
    return I.line


class Scope(Sim):
    """a local object with a destructor: pointers got from it die with it"""

    def __init__(self, f, obj):
        Sim.__init__(self, f)
        self.obj = obj
        self.bad = {}

    def root(self, o):
        while o[0] == "i":
            I = self.f.val[o[1]]
            if I.op in ("getelementptr", "bitcast", "freeze"):
                o = I.ops[0]
                continue
            break
        return o

    # state: (pointers into the living object, pointers into the destroyed one)
    def step(self, I, st):
        der, gone = st
        if I.op == "call":
            n = name(I) or ""
            on = [o for o in I.ops[1:] if self.root(o) == ["i", self.obj]]
            if on and ("D2Ev" in n or "D1Ev" in n):
                return ((frozenset(), gone | der),)
            for o in I.ops[1:]:
                r = self.root(o)
                if r[0] == "i" and r[1] in gone:
                    self.hit(I)
            der, gone = der - {I.id}, gone - {I.id}
            if on and not n.startswith("llvm.") and I.ty == "ptr" and self.root(I.ops[1]) == ["i", self.obj]:
                der = der | {I.id}
            return ((der, gone),)
        if I.op in ("load", "store"):
            p = I.ops[0] if I.op == "load" else I.ops[1]
            r = self.root(p)
            if r[0] == "i" and r[1] in gone:
                self.hit(I)
            if I.op == "load" and I.ty == "ptr":
                der, gone = der - {I.id}, gone - {I.id}
                if r == ["i", self.obj]:
                    der = der | {I.id}
                return ((der, gone),)
        return (st,)

    def hit(self, I):
        if self.recording:
            self.bad[(I.bb.i, I.idx)] = I

    def join(self, a, b, widen):
        return a[0] | b[0], a[1] | b[1]

    def phi(self, I, v, st):
        der, gone = st[0] - {I.id}, st[1] - {I.id}
        r = self.root(v)
        if r[0] == "i" and r[1] in st[0]:
            der = der | {I.id}
        if r[0] == "i" and r[1] in st[1]:
            gone = gone | {I.id}
        return der, gone

    def ret(self, I, value, st):
        if I.ops:
            r = self.root(I.ops[0])
            if r[0] == "i" and r[1] in st[1]:
                self.hit(I)


def scoped(R, prog, f):
    objs = set()
    for I in f.calls():
        n = name(I) or ""
        if ("D2Ev" in n or "D1Ev" in n) and I.ops[1:] and I.ops[1][0] == "i" and f.val[I.ops[1][1]].op == "alloca":
            objs.add(I.ops[1][1])
    for o in sorted(objs):
        w = Scope(f, o)
        w.run_joined((frozenset(), frozenset()))
        R.count("scoped objects")
        for I in w.bad.values():
            R.violation("C24:dangling:%s" % f.short, I.loc(), "%s uses a pointer obtained from a local object after that object was destroyed" % f.short)
