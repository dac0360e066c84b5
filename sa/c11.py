"""C11: library functions use only the arguments they were given."""
import ir
from ir import AnalysisBroken
from esp import Sim
from cursor import Cursor, lf, ladd, lscale, coef

TECHNIQUE = "relational dataflow between stack-slot indexes and the passed argument count over every library callback and the helpers it hands stack pointers to (LLVM IR)"
NOTE = "every callback of type void(WRValue*, int, WRContext*) in the tree, every path, every argument count; helpers are analysed once per role (single value, argument list with its count, stack top with its count)"
SLOT = 16


class Frame(Cursor):
    """one pointer parameter S and what lies around it: mode 'top' (N arguments below, the
    result slot at 0), 'list' (N values from 0 on), 'bytes' (N bytes), 'one' (a single value), 'none' (nothing)"""
    CAP, DEPTH = 24, 3

    def __init__(self, an, f, S, mode, N=None):
        Cursor.__init__(self, f, ["none"], -1, -1, -1, unsigned=False)
        self.an, self.S, self.mode = an, ["a", S], mode
        self.N = lf(0, {("x", repr(["a", N])): 1}) if N is not None else None
        self.der = derived(f, S)
        self.rel = self.relevant()

    def wanted(self, d):
        return len(d) <= 3 and all(a in self.rel for a, k in d)

    def relevant(self):
        """values that slot indexes and counts are computed from"""
        f, out = self.f, set()
        work = [["i", i] for i in self.der]
        for I in f.insts():
            if I.op == "getelementptr" and self.isptr(I.ops[0]):
                work += [v for v, s in I.x["var"]]
            elif I.op == "call" and any(self.isptr(o) for o in I.ops[1:]):
                work += I.ops[1:]
        if self.N is not None:
            out.add(self.N[1][0][0])
        while work:
            o = work.pop()
            if o[0] == "a":
                out.add(("x", repr(o)))
            if o[0] != "i" or ("s", o[1]) in out:
                continue
            out.add(("s", o[1]))
            I = f.val[o[1]]
            if I.op == "phi":
                work += [v for v, b in I.ops]
            elif I.op in ("add", "sub", "mul", "shl", "sext", "zext", "trunc", "select", "freeze"):
                work += I.ops
        return out

    def form(self, o, st, d=0):
        if self.isptr(o):
            return self.pform(o, st, d)
        return Cursor.form(self, o, st, d)

    def isptr(self, o):
        return o == self.S or o[0] == "i" and o[1] in self.der

    def pform(self, o, st, d=0):
        """byte offset from S"""
        if o == self.S:
            return lf(0)
        I = self.f.val[o[1]]
        if I.op == "getelementptr":
            e = ladd(self.pform(I.ops[0], st, d + 1), lf(I.x["off"]))
            for v, s in I.x["var"]:
                e = ladd(e, lscale(Cursor.form(self, v, st), s))
            return e
        if I.op in ("bitcast", "freeze"):
            return self.pform(I.ops[0], st, d + 1)
        for k, v in st[1]:
            if k == o[1]:
                return v
        return lf(0, {("s", o[1]): 1})

    def start(self):
        # callers pass counts >= 0 (the instruction's operand is one byte; C21 shows it is handed on)
        return self.norm([self.N] if self.mode == "top" else []), frozenset()

    def slot(self, o, st, lo, hi):
        """(slot form) when bytes lo..hi of what o points to lie in one slot"""
        b = self.pform(o, st)
        r = (b[0] + lo) % SLOT
        if any(k % SLOT for a, k in b[1]):
            return None
        if r + (hi - lo) >= SLOT:
            return None
        return lf((b[0] + lo - r) // SLOT, {a: k // SLOT for a, k in b[1]})

    def inside(self, e, st, n=lf(1)):
        """slots e .. e+n-1 belong to the call"""
        if self.mode in ("none", "bytes"):
            return False
        if self.mode == "one":
            return e == lf(0) and n == lf(1)
        if self.mode == "top":
            if e == lf(0) and n == lf(1):
                return True
            return self.implied(ladd(self.N, e), st[0]) and self.implied(lscale(ladd(e, n), -1), st[0])
        return self.implied(e, st[0]) and self.implied(ladd(ladd(self.N, e, -1), n, -1), st[0])

    WIDTH = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "float": 4}

    def touch(self, I, o, st, width=8):
        self.seen_access[(I.bb.i, I.idx)] = I
        e = self.slot(o, st, 0, width - 1)
        if e is None or not self.inside(e, st):
            self.fail(I, "the slots of this call")

    def step(self, I, st):
        if I.op in ("load", "call", "alloca", "select"):
            st = self.redefine(st, I.id)
        if I.op == "load" and self.isptr(I.ops[0]):
            self.touch(I, I.ops[0], st, self.WIDTH.get(I.ty, 8))
        elif I.op == "store" and self.isptr(I.ops[1]):
            self.touch(I, I.ops[1], st, self.WIDTH.get(I.x, 8))
        elif I.op == "call":
            self.called(I, st)
        return (st,)

    def called(self, I, st):
        callee = I.ops[0][1] if I.ops[0][0] == "fn" else None
        args = I.ops[1:]
        for k, o in enumerate(args):
            if not self.isptr(o):
                continue
            if callee and callee.startswith("llvm."):
                if callee.startswith(("llvm.mem",)) and k < 2:
                    n = args[2]
                    if n[0] == "c":
                        if n[1] <= SLOT:
                            self.touch(I, o, st, n[1])
                        else:
                            self.fail(I, "the slots of this call")
                    elif not (self.mode == "bytes" and self.pform(o, st) == lf(0) and Cursor.form(self, n, st) == self.N):
                        self.fail(I, "the slots of this call")
                continue
            g = self.f.prog.fns.get(callee) if callee else None
            if g is None or not g.blocks:
                self.seen_access[(I.bb.i, I.idx)] = I
                self.fail(I, "the slots of this call (pointer handed to code that is not part of the tree)")
                continue
            ok = False
            for mode, N in self.an.roles(g, k):
                e = self.slot(o, st, 0, 0)
                if mode == "none":
                    ok = True
                elif mode == "bytes":
                    n = args[N]
                    e = self.slot(o, st, 0, n[1] - 1) if n[0] == "c" and 0 < n[1] <= SLOT else None
                    ok = e is not None and self.inside(e, st)
                elif mode == "one":
                    ok = e is not None and self.inside(e, st)
                elif mode == "top":
                    n = Cursor.form(self, args[N], st)
                    ok = self.mode == "top" and e == lf(0) and self.implied(ladd(self.N, n, -1), st[0])
                elif mode == "list":
                    n = Cursor.form(self, args[N], st)
                    ok = e is not None and self.inside(e, st, n)
                if ok:
                    break
            self.seen_access[(I.bb.i, I.idx)] = I
            if not ok:
                self.fail(I, "the slots of this call (in %s)" % g.short)

    def enter(self, B, nb, asg, st):
        N = self.f.blocks[nb]
        todo = []
        for I in N.insts:
            if I.op != "phi":
                break
            if I.ty in ("i16", "i32", "i64") or I.ty == "ptr" and I.id in self.der:
                v = next((v for v, p in I.ops if p == B.i), None)
                if v is None or v[0] in ("undef", "null") or I.ty == "ptr" and not self.isptr(v):
                    todo.append((I, None))
                else:
                    todo.append((I, self.form(v, st)))
        ids = {("s", I.id) for I, e in todo}
        out = Sim.enter(self, B, nb, asg, st)
        if not todo or not out:
            return out
        for I, e in todo:
            x = ("s", I.id)
            st = (st[0], frozenset((k, w) for k, w in st[1] if k != I.id))
            if e is None or any(a in ids and a != x for a, k in e[1]):
                st = self.kill(st, x)
                st = None if st[0] is None else st
            else:
                st = self.assign(st, x, e)
            if st is None:
                return []
        return [(nb, na, st) for nb, na, s in out]

    def case(self, o, k, st):
        if k is None or o[0] == "i" and self.f.val[o[1]].ty == "ptr":
            return st
        e = Cursor.form(self, o, st)
        return self.learn(st, ladd(e, lf(-k)), lscale(ladd(e, lf(-k)), -1))

    def ret(self, I, value, st):
        pass


def derived(f, S):
    d = set()
    work = [["a", S]]
    users = {}
    for I in f.insts():
        if I.op in ("getelementptr", "bitcast", "freeze"):
            users.setdefault(repr(I.ops[0]), []).append(I)
        elif I.op == "phi" and I.ty == "ptr":
            for v, b in I.ops:
                users.setdefault(repr(v), []).append(I)
        elif I.op == "select" and I.ty == "ptr":
            for v in I.ops[1:]:
                users.setdefault(repr(v), []).append(I)
    while work:
        o = work.pop()
        for I in users.get(repr(o), []):
            if I.id not in d:
                d.add(I.id)
                work.append(["i", I.id])
    return d


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.busy = set()
        self.why = {}

    def ok(self, g, k, mode, N=None):
        key = (g.name, k, mode, N)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return True
        self.busy.add(key)
        w = Frame(self, g, k, mode, N)
        w.run_joined(w.start())
        self.busy.discard(key)
        self.memo[key] = not w.bad
        return self.memo[key]

    def roles(self, g, k):
        der = derived(g, k)
        at = lambda o: o == ["a", k] or o[0] == "i" and o[1] in der
        uses = [I for I in g.insts() if I.op == "load" and at(I.ops[0]) or I.op == "store" and at(I.ops[1]) or I.op == "call" and any(at(o) for o in I.ops[1:])]
        if not uses or all(I.op == "call" for I in uses) and self.ok(g, k, "none"):
            yield "none", None
            return
        if not any(I.op == "getelementptr" and at(I.ops[0]) and I.x["var"] for I in g.insts()) and self.ok(g, k, "one"):
            yield "one", None
            return
        ints = [j for j, t in enumerate(argtypes(g)) if t == "i32"]
        ints.sort(key=lambda j: abs(j - k - 1))       # a count usually follows its pointer
        for mode in ("list", "top", "bytes"):
            for j in ints:
                if self.ok(g, k, mode, j):
                    yield mode, j


def argtypes(g):
    return [a[1] for a in g.args]


def callbacks(prog):
    return [f for f in prog.defined() if f.dem.endswith("(WRValue*, int, WRContext*)")]


def check(R):
    R.rule("in every library callback (stack top S, count n, context): every load, store and call through a pointer computed from S is at slot 0 (the result) or at a slot in [-n, -1] for every n >= 0 that reaches it; "
           "a helper that gets such a pointer touches only the one value, or only the n' values of the count passed with it")
    seen = set()
    for cfg in ("default", "slices", "mfail", "floatfmt", "compact"):
        prog = ir.std(cfg)
        an = Analysis(prog)
        cbs = callbacks(prog)
        for f in cbs:
            R.count("callbacks")
            seen.add(f.short)
            w = Frame(an, f, 0, "top", 1)
            w.run_joined(w.start())
            R.count("slot uses", len(w.seen_access))
            for I, why in w.bad.values():
                R.violation("C11:%s:%s" % (f.short, why), I.loc(), "%s may use a value beyond %s" % (f.short, why))
        R.count("helper roles", sum(1 for v in an.memo.values() if v))
    if len(seen) < 60:
        raise AnalysisBroken("only %d library callbacks found" % len(seen))
    R.floor("slot uses", 500)
