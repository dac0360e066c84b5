"""C22: a failed allocation is never dereferenced."""
import ir, vm
from ir import AnalysisBroken
from c01 import opcodes
from c02 import where

TECHNIQUE = "null typestate per allocation site (unknown / null / object) with nullable-function and parameter-dereference summaries on the LLVM IR of the allocation-failure builds, and path enumeration over the interpreter's handlers"
NOTE = "the compiler's own containers and strings are not covered: the option is documented for the running system"

VALUE = 16
TAGS = (0x60, 0xA0, 0xC0, 0xE0)
TOLERANT = {"stat", "stat64", "fopen", "fopen64", "open", "open64", "unlink", "free", "close", "write", "read", "remove", "mkdir", "access", "getaddrinfo", "system", "realloc"}


def outside(f):
    rf = ir.relfile(f.file)
    return rf.startswith(("discrete_src/cc/", "discrete_src/debug/")) or rf.endswith(("utils/utils.h", "simple_ll.h", "wrench_cli.cpp", "simple_args.h")) or f.short.startswith("WRstr::")


def kc(o, v):
    return o[0] == "c" and o[1] & 0xFFFFFFFF == v


def via(f, I, g):
    o = I.ops[0]
    return I.op == "call" and o[0] == "i" and f.val[o[1]].op == "load" and f.val[o[1]].ops[0] == ["g", g]


class An:
    def __init__(self, R, prog, cfg):
        self.R, self.prog, self.cfg = R, prog, cfg
        self.flag = [g for g in prog.globals if g.endswith("g_mallocFailed")]
        if len(self.flag) != 1:
            raise AnalysisBroken("the allocation-failure flag is not in this build")
        self.flag = self.flag[0]
        self.gc = prog.one("WRContext::gc").name
        self.init = prog.one("WRGCObject::init").name
        self.grow = prog.one("WRGCObject::growHash").name
        self.growva = prog.one("wr_growValueArray").name
        self.null = 0xABABABAB        # the empty slot's hash: growing with it sets a table up
        self.err = prog.offset("WRState", "err")
        self.nullable = {}
        self.deref = {}
        self.edges = {}
        self.bads = {}

    def bad(self, key, I, msg):
        k = "%s" % key
        if k not in self.bads:
            self.bads[k] = 1
            self.R.violation(k, I.loc(), "%s (%s)" % (msg, self.cfg))

    # ---- addresses named by what they are loaded from
    def canon(self, f, o, depth=0):
        b, off = ir.ptr_base(f, o)
        if b[0] == "a":
            t = ("a", b[1])
        elif b[0] == "g":
            t = ("g", b[1])
        elif b[0] == "i":
            I = f.val[b[1]]
            if I.op == "load" and depth < 6:
                t = ("ld", self.canon(f, I.ops[0], depth + 1))
            else:
                t = ("i", b[1])
        else:
            t = (b[0],)
        return t, off

    # ---- does g use parameter k without a test
    def derefs(self, g, k):
        key = (g.name, k)
        if key not in self.deref:
            self.deref[key] = False
            W = Walk(self, g, None)
            W.quiet = True
            W.start(0, 0, ("U", frozenset({("a", k)}), frozenset(), frozenset(), False))
            self.deref[key] = W.hit
        return self.deref[key]


class Walk:
    """forward exploration from one allocation; state (status, holders, locations, tagged locations, flag set)"""
    LIMIT = 20000

    def __init__(self, an, f, site, deliver=False, direct=False, sized=None):
        self.an, self.f, self.site = an, f, site
        self.deliver, self.direct, self.sized = deliver, direct, sized
        self.quiet = False
        self.data = set()
        self.sel = set()
        for I in f.insts():
            if I.op == "switch" and I.ops[0][0] == "i" and len(I.x) <= 60:
                self.sel.add(I.ops[0][1])
            elif I.op == "icmp" and I.ops[0][0] == "i" and I.ops[1][0] == "c":
                self.sel.add(I.ops[0][1])
            elif I.op == "br" and len(I.ops) == 3 and I.ops[0][0] == "i":
                self.sel.add(I.ops[0][1])
        self.sel = {v for v in self.sel if f.val[v].op == "phi" and any(o[0] == "c" for o, b in f.val[v].ops)}
        self.hit = False
        self.returns = False
        self.unflagged = None

    def start(self, b, idx, st):
        self.seen = set()
        self.work = [(b, idx, st, frozenset())]
        while self.work:
            x = self.work.pop()
            if x in self.seen:
                continue
            self.seen.add(x)
            if len(self.seen) > self.LIMIT:
                raise AnalysisBroken("%s: too many states after an allocation" % self.f.short)
            self.known = x[3]
            self.block(*x[:3])

    def const(self, o):
        if o[0] == "c":
            return o[1]
        if o[0] == "i":
            for k, v in self.known:
                if k == o[1]:
                    return v
            I = self.f.val[o[1]]
            if I.op == "icmp" and I.x in ("eq", "ne"):
                a, b = self.const(I.ops[0]), self.const(I.ops[1])
                if a is not None and b is not None:
                    return int((a == b) == (I.x == "eq"))
        return None

    def root(self, o):
        b, off = ir.ptr_base(self.f, o)
        return tuple(b[:2])

    def report(self, I, what):
        self.hit = True
        if not self.quiet:
            self.an.bad("%s:%s:%d" % (what, self.f.short, self.site_no), I, "%s: %s" % (self.f.short, self.MSG[what] % self.site.line))

    MSG = {"deref": "the memory allocated at line %d is used without being tested for failure",
           "null": "the memory allocated at line %d is used where its allocation is known to have failed",
           "gc": "a collection runs while a value is marked as holding the object allocated at line %d, which may not exist",
           "tag": "when the allocation at line %d fails a value is left marked as holding an object",
           "deliver": "the object set up at line %d is delivered without testing that its storage was allocated",
           "grow": "elements are used after the array was grown at line %d without testing that growing succeeded",
           "data": "when the allocation at line %d fails an object keeps its length but loses its storage",
           "flag": "when the allocation at line %d fails nothing records it: the running script is not ended"}
    site_no = 0

    def block(self, b, idx, st):
        f, an = self.f, self.an
        B = f.blocks[b]
        for I in B.insts[idx:-1]:
            status, H, L, T, fl = st
            if I is self.site:
                return
            if I.op == "phi":
                continue
            if I.op == "load":
                if self.root(I.ops[0]) in H:
                    self.report(I, "null" if status == "Z" else "deref")
                    return
                c = an.canon(f, I.ops[0])
                if c in L:
                    if self.sized and self.sized == c:
                        self.report(I, "grow")
                        return
                    st = (status, H | {("i", I.id)}, L, T, fl)
                continue
            if I.op == "store":
                v, p = I.ops[0], I.ops[1]
                if self.root(p) in H:
                    self.report(I, "null" if status == "Z" else "deref")
                    return
                c = an.canon(f, p)
                if p == ["g", an.flag]:
                    st = (status, H, L, T, fl or not kc(v, 0))
                    continue
                if c[1] == an.err and v[0] == "c" and v[1] != 0 and I.ops[0][0] == "c" and self.sty(I) == "i8":
                    st = (status, H, L, T, True)
                    continue
                r = tuple(v[:2]) if v[0] in ("i", "a") else None
                if v[0] == "i" and self.root(v) in H or r in H:
                    if c[1] is not None:
                        L = L | {c}
                        if c[1] == 8 and self.object_data(p):
                            self.data.add(c)
                        if self.tagged_before(I, c):
                            T = T | {c}
                elif c in L:
                    L, T = L - {c}, T - {c}
                L, T = self.tag(I, c, v, L, T)
                st = (status, H, L, T, fl)
                continue
            if I.op == "select":
                if any(tuple(o[:2]) in H for o in I.ops[1:]):
                    st = (status, H | {("i", I.id)}, L, T, fl)
                continue
            if I.op == "call":
                r = self.call(I, st)
                if r is None:
                    return
                st = r
        self.term(B, B.insts[-1], st)

    def object_data(self, p):
        return p[0] == "i" and self.f.val[p[1]].op == "getelementptr" and "WRGC" in str(self.f.val[p[1]].x.get("st"))

    def sty(self, I):
        return I.x if isinstance(I.x, str) else I.ty

    def tag(self, I, c, v, L, T):
        """container tag stored for a location"""
        for l in list(L):
            d = None if c[1] is None or l[1] is None or c[0] != l[0] else c[1] - l[1]
            if d is None or not 8 <= d < 12:
                continue
            if v[0] != "c":
                T = T - {l}
                continue
            if d == 8:
                x = v[1] >> 24 & 0xFF
            elif d == 11:
                x = v[1] & 0xFF
            else:
                continue
            T = T | {l} if x in TAGS else T - {l}
        return L, T

    def tagged_before(self, S, loc):
        """the last tag stored for loc before S on the dominating path is a container tag"""
        f = self.f
        best = None
        for J in f.insts():
            if J.op == "store" and J is not S and f.inst_dominates(J, S):
                c = self.an.canon(f, J.ops[1])
                if c[0] == loc[0] and c[1] is not None and loc[1] is not None and c[1] - loc[1] == 8 and J.ops[0][0] == "c":
                    if best is None or f.inst_dominates(best, J):
                        best = J
        return best is not None and (best.ops[0][1] >> 24 & 0xFF) in TAGS

    def call(self, I, st):
        status, H, L, T, fl = st
        an, f = self.an, self.f
        o = I.ops[0]
        args = I.ops[1:]
        held = [k for k, a in enumerate(args) if isinstance(a, list) and a and a[0] in ("i", "a") and self.root(a) in H]
        if o[0] == "fn":
            n = o[1]
            if n == an.gc and T:
                self.report(I, "gc")
                return None
            g = an.prog.fns.get(n)
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                if any(k < 2 for k in held):
                    self.report(I, "null" if status == "Z" else "deref")
                    return None
                return st
            if n.startswith("llvm."):
                return st
            if g is not None and g.blocks:
                if self.sized and any(isinstance(a, list) and a and a[0] in ("i", "a") and ("ld", an.canon(f, a)) == self.sized[0] for a in args):
                    self.report(I, "grow")
                    return None
                for k in held:
                    if k < len(g.args) and an.derefs(g, k):
                        self.report(I, "null" if status == "Z" else "deref")
                        return None
                return st
            for k in held:
                if n not in TOLERANT:
                    self.report(I, "null" if status == "Z" else "deref")
                    return None
        return st

    # ---- branches
    def refine(self, o, pol, st, depth=0):
        """state knowing o is pol; None: the allocation is known to have succeeded (nothing left to follow)"""
        if o[0] != "i" or depth > 8:
            return [st]
        I = self.f.val[o[1]]
        status, H, L, T, fl = st
        if I.op == "xor" and I.ty == "i1" and kc(I.ops[1], 1):
            return self.refine(I.ops[0], not pol, st, depth + 1)
        if I.op in ("freeze",) or I.op == "trunc" and I.ty == "i1":
            return self.refine(I.ops[0], pol, st, depth + 1)
        if I.op == "load" and I.ops[0] == ["g", self.an.flag]:
            return [("Z", H, L, T, True)] if pol else []
        if I.op in ("and", "or") and I.ty == "i1" or I.op == "select" and I.ty == "i1":
            if I.op == "select":
                c, a, b = I.ops
                if kc(b, 0):
                    kind, parts = "and", (c, a)
                elif kc(a, 1):
                    kind, parts = "or", (c, b)
                else:
                    return [st]
            else:
                kind, parts = I.op, I.ops[:2]
            if (kind == "and") == pol:
                out = [st]
                for p in parts:
                    out = [y for x in out for y in self.refine(p, pol, x, depth + 1)]
                return out
            out = []
            for p in parts:
                for y in self.refine(p, pol, st, depth + 1):
                    if y not in out:
                        out.append(y)
            return out
        if I.op == "icmp":
            if self.sized is not None and I.ty == "i1" and any(self.size_load(x) for x in I.ops[:2]):
                return []
            a, b = I.ops[0], I.ops[1]
            if a[0] == "null" or kc(a, 0):
                a, b = b, a
            if (b[0] == "null" or kc(b, 0)) and I.x in ("eq", "ne"):
                if a[0] == "i" and self.f.val[a[1]].op in ("zext", "sext", "trunc") and self.f.val[a[1]].ops[0][0] == "i":
                    J = self.f.val[self.f.val[a[1]].ops[0][1]]
                    if J.op == "load" and J.ops[0] == ["g", self.an.flag]:
                        return self.refine(["i", J.id], pol == (I.x == "ne"), st, depth + 1)
                if a[0] == "i" and self.f.val[a[1]].op == "load" and self.f.val[a[1]].ops[0] == ["g", self.an.flag]:
                    return self.refine(a, pol == (I.x == "ne"), st, depth + 1)
                if tuple(a[:2]) in H:
                    null = (I.x == "eq") == pol
                    if null:
                        return [("Z", H, L, T, fl)]
                    return []
        return [st]

    def size_load(self, o):
        n = 0
        while o[0] == "i" and n < 5:
            J = self.f.val[o[1]]
            if J.op in ("zext", "sext", "trunc", "freeze"):
                o, n = J.ops[0], n + 1
                continue
            if J.op == "load":
                c = self.an.canon(self.f, J.ops[0])
                return c == (self.sized[0], self.sized[1] + 16)
            return False
        return False

    def term(self, B, t, st):
        status, H, L, T, fl = st
        if t.op == "ret":
            self.finish(t, st)
            return
        c = self.f.cond(t)
        if c:
            o, X, Y = c
            v = self.const(o)
            for tgt, pol in ((X, True), (Y, False)):
                if v is not None and bool(v) != pol:
                    continue
                for s in self.refine(o, pol, st):
                    self.enter(B, tgt, s)
            return
        if t.op == "indirectbr" or t.op == "switch" and len(t.x) > 60:
            if T:
                self.report(t, "tag")
            return
        if t.op == "switch":
            v = self.const(t.ops[0])
            if v is not None:
                self.enter(B, next((x for k, x in t.x if k == v), t.ops[1][1]), st)
                return
        for s in sorted(set(B.succ)):
            self.enter(B, s, st)

    def enter(self, B, nb, st):
        status, H, L, T, fl = st
        add, drop = set(), set()
        known = dict(self.known)
        for I in self.f.blocks[nb].insts:
            if I.op != "phi":
                break
            for v, p in I.ops:
                if p == B.i:
                    if I.id in self.sel:
                        w = self.const(v)
                        known.pop(I.id, None)
                        if w is not None:
                            known[I.id] = w
                    same = tuple(v[:2]) in H or v[0] == "i" and self.root(v) in H or status == "Z" and v[0] == "null"
                    (add if same else drop).add(("i", I.id))
        self.work.append((nb, 0, (status, (H - drop) | add, L, T, fl), frozenset(known.items())))

    def finish(self, t, st):
        status, H, L, T, fl = st
        v = t.ops[0] if t.ops else None
        if v is not None and (tuple(v[:2]) in H or status == "Z" and v[0] == "null"):
            self.returns = True
        if T:
            self.report(t, "tag")
        if status == "Z" and L & self.data and self.f.name != self.an.init:
            self.report(t, "data")
        if self.deliver and status == "U":
            self.report(t, "deliver")
        if self.direct and status == "Z" and not fl:
            self.unflagged = t


def sites(an, f):
    """(instruction, kind)"""
    for I in f.calls():
        if via(f, I, "g_malloc"):
            yield I, "malloc"
        elif I.ops[0][0] == "fn":
            n = I.ops[0][1]
            if n in an.nullable and I.ty == "ptr":
                yield I, "nullable"
            elif n == an.init:
                yield I, "init"
            elif n == an.grow and f.name != an.init and kc(I.ops[2], an.null):
                yield I, "init"
            elif n == an.growva:
                yield I, "grow"


def explore(an, f, I, kind, quiet):
    b, k = I.bb.i, I.idx + 1
    if kind in ("malloc", "nullable"):
        W = Walk(an, f, I, direct=kind == "malloc")
        st = ("U", frozenset({("i", I.id)}), frozenset(), frozenset(), False)
    elif kind == "init":
        obj, off = an.canon(f, I.ops[1])
        if off is None:
            raise AnalysisBroken("%s sets up an object at an unknown address" % f.short)
        locs = {(obj, off + 8), (obj, off + an.prog.offset("WRGCObject", "m_hashTable"))}
        W = Walk(an, f, I, deliver=True)
        st = ("U", frozenset(), frozenset(locs), frozenset(), False)
    else:
        obj, off = an.canon(f, I.ops[1])
        W = Walk(an, f, I, sized=(obj, off + 8))
        st = ("U", frozenset(), frozenset({(obj, off + 8)}), frozenset(), False)
    W.quiet = quiet
    W.start(b, k, st)
    return W


def reachable(prog, roots):
    seen, todo = set(roots), list(roots)
    while todo:
        f = prog.fns.get(todo.pop())
        if f is None or not f.blocks:
            continue
        for I in f.calls():
            if I.ops[0][0] == "fn" and I.ops[0][1] not in seen:
                seen.add(I.ops[0][1])
                todo.append(I.ops[0][1])
    return seen


def check(R):
    R.rule("in the builds that survive allocation failure: the result of every allocation in the runtime, and of every function that can hand on a failed one, is compared with null "
           "(or the failure flag is tested) before anything is read or written through it; no value stays marked as a container without object; freshly set-up objects and grown arrays "
           "are tested before use; a failure sets the flag, and every instruction that can allocate tests the flag before the next one and ends the call with the allocation-failed error")
    for cfg in ("mfail", "cmfail", "smfail"):
        prog = ir.std(cfg)
        an = An(R, prog, cfg)
        fns = [f for f in prog.defined() if not outside(f)]
        grew = True
        while grew:
            grew = False
            for f in fns:
                if f.ret != "ptr" or f.name in an.nullable or f.short == "wr_callFunction":
                    continue
                for I, kind in sites(an, f):
                    if kind in ("malloc", "nullable") and explore(an, f, I, kind, True).returns:
                        an.nullable[f.name] = f
                        grew = True
                        break
            an.deref.clear()
        R.count("functions that can hand on a failed allocation", len(an.nullable))
        taken = set()
        for f in prog.defined():
            for I in f.insts():
                for o in (I.ops[1:] if I.op == "call" else I.ops):
                    if isinstance(o, list) and o and o[0] == "fn":
                        taken.add(o[1])
        cb = {f.name for f in fns if f.name in taken and [t for _, t in f.args] == ["ptr", "i32", "ptr"]}
        run = reachable(prog, cb | {vm.Interp(prog).fn.name})
        for f in fns:
            for no, (I, kind) in enumerate(sites(an, f)):
                R.count({"malloc": "allocation sites", "nullable": "allocating calls", "init": "objects set up", "grow": "arrays grown"}[kind])
                if I.ops[0][0] == "fn" and f.short == "wr_callFunction" and not f.uses().get(I.id) and kind == "nullable":
                    continue
                Walk.site_no = no
                W = explore(an, f, I, kind, False)
                R.count("states followed", len(W.seen))
                if W.unflagged is not None and f.name in run:
                    W.report(W.unflagged, "flag")
        handlers(R, prog, cfg, an)
    R.floor("allocation sites", 20)
    R.floor("allocating calls", 60)
    R.floor("handler paths that can allocate", 300)


def collect(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == "fn" and isinstance(x[1], str):
            out.add(x[1])
        for y in x:
            collect(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            collect(y, out)
    return out


def named(x, out):
    """globals and functions a term is built from"""
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] in ("g", "fn") and isinstance(x[1], str):
            out.add((x[0], x[1]))
        else:
            for y in x:
                named(y, out)
    return out


def targets(prog, refs):
    """functions an indirect call can reach when its target is built from these names; None: unknown"""
    out = set()
    for k, n in refs:
        if k == "fn":
            out.add(n)
        else:
            t = collect(prog.globals.get(n, {}).get("init"), set())
            if not t or not prog.globals[n].get("const", False) and n in ("g_malloc",):
                return None
            out |= t
    return out or None


def static_refs(f, o, depth=0, seen=None):
    seen = set() if seen is None else seen
    out = set()
    if o[0] in ("g", "fn"):
        return {(o[0], o[1])}
    if o[0] == "cgep":
        return static_refs(f, o[1], depth, seen)
    if o[0] == "i" and o[1] not in seen:
        seen.add(o[1])
        I = f.val[o[1]]
        if I.op == "phi":
            for v, b in I.ops:
                r = static_refs(f, v, depth, seen)
                if r is None:
                    return None
                out |= r
            return out
        if I.op == "select":
            for v in I.ops[1:]:
                r = static_refs(f, v, depth, seen)
                if r is None:
                    return None
                out |= r
            return out
        if I.op in ("load", "getelementptr", "bitcast"):
            return static_refs(f, I.ops[0], depth, seen)
        return None
    return out if o[0] == "i" else None


def handlers(R, prog, cfg, an):
    it = vm.Interp(prog)
    ops, last = opcodes(prog)
    N = vm.Namer(prog)
    alloc = set()
    for f in prog.defined():
        if any(via(f, I, "g_malloc") for I in f.calls()):
            alloc.add(f.name)
    def may(f, I):
        r = static_refs(f, I.ops[0])
        t = targets(prog, r) if r else None
        return t is None or bool(t & alloc)
    grew = True
    while grew:
        grew = False
        for f in prog.defined():
            if f.name not in alloc and any(I.ops[0][0] == "fn" and I.ops[0][1] in alloc or I.ops[0][0] == "i" and not via(f, I, "g_free") and may(f, I) for I in f.calls()):
                alloc.add(f.name)
                grew = True

    def can(e):
        if e[0] == "call":
            return e[1] in alloc
        if e[0] != "icall" or e[1] == ("ld", ("g", "g_free"), "ptr"):
            return False
        r = named(e[1], set())
        t = targets(prog, r) if r else None
        return t is None or bool(t & alloc)
    want = prog.enum_value("WR_ERR_malloc_failed") if hasattr(prog, "enum_value") else None

    def isflag(t):
        return t[0] == "ld" and t[1][0] in ("ptr", "g") and an.flag in repr(t[1])
    from c05 import truth_of
    for k, n in sorted(ops.items()):
        for p in it.handler(k):
            due, err, cleared, caught = None, False, False, False
            for e in p.events:
                if can(e):
                    due = e[-1]
                elif e[0] == "br":
                    t = truth_of(e[1], e[2], isflag)
                    if t is False:
                        due = None
                    elif t is True:
                        caught = True
                elif e[0] == "store":
                    if caught and an.flag in repr(e[1]):
                        cleared = e[2] == ("k", 0)
                    elif caught and N.a(e[1]) == "w.err":
                        err = e[2] == ("k", want)
            if any(can(e) for e in p.events):
                R.count("handler paths that can allocate")
            if caught:
                R.count("failure exits")
                if p.end[0] != "ret":
                    R.violation("C22:exit:%s" % n, where(it, k), "%s goes on after a failed allocation (%s)" % (n, cfg))
                elif not err or not cleared:
                    R.violation("C22:exit:%s" % n, where(it, k), "%s ends the call after a failed allocation without %s (%s)" % (n, "recording the allocation-failed error" if not err else "resetting the flag", cfg))
            elif due is not None and p.end[0] == "dispatch":
                R.violation("C22:untested:%s" % n, due.loc(), "%s can allocate and goes on to the next instruction without testing for failure (%s)" % (n, cfg))
