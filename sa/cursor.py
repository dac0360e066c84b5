"""Relational analysis of a cursor into a sized buffer: an object with fields
(base pointer, position, length).  For every path of a method the analysis
keeps linear facts between the position, the length and local values, and asks
at each access through the base pointer that 0 <= index < length follows from
them.  Loops are handled by weakening facts to small constants."""
from math import gcd
from ir import ptr_base
from esp import Sim


NONNEG = ("size", "strnlen", "strlen", "count")


def lf(c=0, d=()):
    d = dict(d)
    return c, tuple(sorted(((a, k) for a, k in d.items() if k), key=repr))


def ladd(a, b, s=1):
    d = dict(a[1])
    for x, k in b[1]:
        d[x] = d.get(x, 0) + s * k
    return lf(a[0] + s * b[0], d)


def lscale(a, k):
    return lf(a[0] * k, {x: n * k for x, n in a[1]})


def coef(a, x):
    for y, k in a[1]:
        if y == x:
            return k
    return 0


def lsubst(a, x, e):
    """a with atom x replaced by form e"""
    k = coef(a, x)
    if not k:
        return a
    return ladd(lf(a[0], {y: n for y, n in a[1] if y != x}), lscale(e, k))


class Cursor(Sim):
    LIMIT = 40000
    CAP = 6          # constants in facts beyond this are weakened

    def __init__(self, f, this, pos, length, base, unsigned=False):
        """this: operand of the object; pos/length/base: field offsets"""
        Sim.__init__(self, f)
        self.this, self.pos, self.length, self.base = this, pos, length, base
        self.unsigned = unsigned
        self.bad = {}
        self.seen_access = {}

    # ---- memory variables
    def var(self, o):
        b, off = ptr_base(self.f, o)
        if b == self.this and off is not None:
            return {self.pos: "P", self.length: "L", self.base: "B"}.get(off)
        if b[0] == "i" and off == 0 and b[1] in self.locals:
            return ("A", b[1])
        return None

    locals = ()      # allocas followed as variables

    # ---- values
    def form(self, o, st, d=0):
        facts, env = st
        if o[0] == "c":
            return lf(o[1])
        if o[0] != "i":
            return lf(0, {("x", repr(o)): 1})
        for k, v in env:
            if k == o[1]:
                return v
        I = self.f.val[o[1]]
        if d < 20:
            if I.op == "zext" and I.ops[0][0] == "i" and self.f.val[I.ops[0][1]].ty in ("i8", "i16"):
                return self.form(I.ops[0], st, d + 1)      # narrow atoms stand for their zero-extended value
            if I.op in ("sext", "zext", "trunc", "freeze"):
                src = self.f.val[I.ops[0][1]].ty if I.ops[0][0] == "i" else self.f.args[I.ops[0][1]][1] if I.ops[0][0] == "a" else I.ty
                if I.ty in ("i32", "i64") and src in ("i32", "i64") or I.op == "freeze":
                    return self.form(I.ops[0], st, d + 1)
                return lf(0, {("s", o[1]): 1})
            if I.op in ("add", "sub"):
                return ladd(self.form(I.ops[0], st, d + 1), self.form(I.ops[1], st, d + 1), 1 if I.op == "add" else -1)
            if I.op == "mul" and I.ops[1][0] == "c":
                return lscale(self.form(I.ops[0], st, d + 1), I.ops[1][1])
            if I.op == "shl" and I.ops[1][0] == "c":
                return lscale(self.form(I.ops[0], st, d + 1), 1 << I.ops[1][1])
        return lf(0, {("s", o[1]): 1})

    def nonneg_atom(self, a):
        if a == "L":
            return True
        if a[0] == "A":
            return self.f.val[a[1]].x in ("i8", "i16")
        if a[0] == "s":
            I = self.f.val[a[1]]
            if I.ty in ("i8", "i16"):
                return True
            if I.op == "call" and I.ops[0][0] == "fn":
                n = I.ops[0][1]
                return any(x in n for x in NONNEG)
            if I.op == "zext":
                return True
            if I.op == "load" and self.unsigned:
                return I.ty in ("i8", "i16")
        return False

    DEPTH = 2        # how many facts may be combined

    def implied(self, g, facts, depth=None):
        """g >= 0 follows"""
        if depth is None:
            depth = self.DEPTH
        k = 0
        for a, n in g[1]:
            k = gcd(k, abs(n))
        if k > 1:
            g = lf(g[0] // k, {a: n // k for a, n in g[1]})
        c = g[0]
        rest = [(a, k) for a, k in g[1] if not (k > 0 and self.nonneg_atom(a))]
        if not rest:
            if c >= 0:
                return True
            rest = g[1]
        if depth == 0:
            return False
        for f in facts:
            if any((coef(f, a) > 0) == (k > 0) and coef(f, a) for a, k in rest):
                r = ladd(g, f, -1)
                if len(r[1]) <= len(g[1]) + 1 and self.implied(r, facts, depth - 1):
                    return True
        return False

    def wanted(self, d):
        """facts of this shape are worth keeping"""
        return any(a in ("P", "L", "K") or a[0] == "A" for a, k in d) or len(d) == 1 and d[0][1] == 1

    def norm(self, facts):
        """bounded, consistent set of facts; None when contradictory"""
        out = {}
        for c, d in facts:
            if not d:
                if c < 0:
                    return None
                continue
            if c > self.CAP or len(d) > 4:
                continue
            if not self.wanted(d):
                continue
            c = max(c, -self.CAP)
            if d not in out or out[d] > c:
                out[d] = c
        for d, c in list(out.items()):
            m = tuple(sorted(((a, -k) for a, k in d), key=repr))
            if m in out and out[m] + c < 0:
                return None
        return frozenset((c, d) for d, c in out.items())

    def kill(self, st, x):
        facts, env = st
        # keep what follows without x: pairwise elimination
        pos = [f for f in facts if coef(f, x) == 1]
        neg = [f for f in facts if coef(f, x) == -1]
        keep = [f for f in facts if not coef(f, x)]
        for p in pos:
            for n in neg:
                keep.append(ladd(p, n))
        return self.norm(keep), frozenset((k, v) for k, v in env if not coef(v, x))

    def assign(self, st, x, e):
        """x := e"""
        facts, env = st
        k = coef(e, x)
        if k == 1:      # x_old = x_new - (e - x_old)
            inv = ladd(lf(0, {x: 1}), ladd(e, lf(0, {x: 1}), -1), -1)
            facts = self.norm([lsubst(f, x, inv) for f in facts])
            env = frozenset((i, lsubst(v, x, inv)) for i, v in env)
        else:
            low = [lf(-m, {x: 1}) for m in (2, 1, 0, -1) if self.implied(ladd(e, lf(-m)), facts)][:1]
            facts, env = self.kill((facts, env), x)
            if facts is None:
                return None
            facts = list(facts) + low
            facts = self.norm(list(facts) + [ladd(lf(0, {x: 1}), e, -1), ladd(e, lf(0, {x: 1}), -1)])
        env = frozenset((i, v) for i, v in env if abs(v[0]) <= self.CAP)
        return None if facts is None else (facts, env)

    def redefine(self, st, i):
        """SSA value i gets a new value"""
        a = ("s", i)
        if any(k == i or coef(v, a) for k, v in st[1]) or any(coef(f, a) for f in st[0]):
            n = self.kill(st, a)
            st = (n[0] if n[0] is not None else frozenset(), n[1])
            st = (st[0], frozenset((k, v) for k, v in st[1] if k != i))
        return st

    def learn(self, st, *gs):
        facts = self.norm(list(st[0]) + list(gs))
        return None if facts is None else (facts, st[1])

    # ---- transfer
    def step(self, I, st):
        f = self.f
        if I.op in ("load", "call", "alloca") or I.op in ("select",):
            st = self.redefine(st, I.id)
        if I.op == "load":
            v = self.var(I.ops[0])
            if v not in (None, "B"):
                return ((st[0], st[1] | {(I.id, lf(0, {v: 1}))}),)
            self.access(I, I.ops[0], lf(1), st)
        elif I.op == "store":
            v = self.var(I.ops[1])
            if v == "P" or v is not None and v[0] == "A" or self.growing and v == "L":
                n = self.assign(st, v, self.form(I.ops[0], st))
                return () if n is None else (n,)
            if v == "B" and self.growing:
                return self.replace(I, st)
            if v in ("L", "B"):
                self.fail(I, "the buffer itself is replaced here")
            self.access(I, I.ops[1], lf(1), st)
        elif I.op == "call":
            return self.call(I, st)
        return (st,)

    # ---- buffers that grow: K is the capacity of the current buffer, m:<id> that of a fresh one
    growing = False

    def allocated(self, I, st):
        o = I.ops[0]
        if o[0] == "i" and self.f.val[o[1]].op == "load" and self.f.val[o[1]].ops[0] == ["g", "g_malloc"]:
            return self.form(I.ops[1], st)
        return None

    def replace(self, I, st):
        o = I.ops[0]
        for k, v in st[1]:
            if o[0] == "i" and k == ("m", o[1]):
                n = self.assign(st, "K", v)
                return () if n is None else (n,)
        n = self.kill(st, "K")
        return () if n[0] is None else (n,)

    def bufptr(self, o, st):
        """index form when o points into the buffer"""
        idx = lf(0)
        n = 0
        while o[0] == "i" and n < 30:
            n += 1
            I = self.f.val[o[1]]
            if I.op == "getelementptr":
                idx = ladd(idx, lf(I.x["off"]))
                for v, s in I.x["var"]:
                    idx = ladd(idx, lscale(self.form(v, st), s))
                o = I.ops[0]
                continue
            if I.op in ("bitcast", "freeze"):
                o = I.ops[0]
                continue
            if I.op == "load" and self.var(I.ops[0]) == "B":
                return idx
            return None
        return None

    def limit(self, st):
        return lf(0, {"K" if self.growing else "L": 1})

    def access(self, I, ptr, n, st):
        idx = self.bufptr(ptr, st)
        if idx is None:
            return
        self.seen_access[(I.bb.i, I.idx)] = I
        lo = self.implied(idx, st[0])
        hi = self.implied(ladd(ladd(self.limit(st), idx, -1), n, -1), st[0])
        if not hi:
            self.fail(I, "the end of the buffer")
        if not lo:
            self.fail(I, "the start of the buffer")

    def join(self, a, b, widen=False):
        if a == b:
            return a
        if widen:
            B = {d: c for c, d in b[0]}
            return frozenset((max(c, B[d]), d) for c, d in a[0] if d in B), a[1] & b[1]
        facts = [f for f in a[0] if self.implied(f, b[0])] + [f for f in b[0] if self.implied(f, a[0])]
        # the weaker of two facts of one shape
        for c, d in a[0]:
            for c2, d2 in b[0]:
                if d == d2:
                    facts.append((max(c, c2), d))
        env = a[1] & b[1]
        # a value relative to the position in one state and not in the other: forget it
        return self.norm(facts), env

    def fail(self, I, why):
        if not self.recording:
            return
        self.bad[(I.bb.i, I.idx, why)] = (I, why)

    # calls on buffer pointers: argument position -> length argument position
    SIZED = {"strncmp": [(1, 3), (2, 3)], "memcmp": [(1, 3), (2, 3)], "memchr": [(1, 3)], "memcpy": [(1, 3), (2, 3)], "strncasecmp": [(1, 3), (2, 3)],
             "_Z7wr_hashPKvij": [(1, 2)], "_ZN14WROpcodeStream6appendEPKhi": [(2, 3)]}

    def call(self, I, st):
        n = I.ops[0][1] if I.ops[0][0] == "fn" else "?"
        base = n.replace("llvm.", "").split(".")[0]
        if self.growing and I.ops[0][0] == "i" and self.f.val[I.ops[0][1]].op == "load" and self.f.val[I.ops[0][1]].ops[0] == ["g", "g_free"]:
            return (st,)
        for k, o in enumerate(I.ops[1:], 1):
            if self.bufptr(o, st) is None:
                continue
            ok = False
            for p, l in self.SIZED.get(base, []):
                if p == k:
                    self.access(I, o, self.form(I.ops[l], st), st)
                    ok = True
            if not ok:
                self.fail(I, "the end of the buffer (the called function is given no length)")
        for o in I.ops[1:]:
            v = self.var(o)
            if v is not None and v[0] == "A":
                st = self.kill(st, v)
                if st[0] is None:
                    return ()
        if self.growing:
            n_ = self.allocated(I, st)
            if n_ is not None:
                st = (st[0], st[1] | {(("m", I.id), n_)})
        if any(self.touches(I, o) for o in I.ops[1:]) and not n.startswith("llvm."):
            st = self.havoc(I, st)
        return (st,) if st is not None else ()

    def touches(self, I, o):
        return o == self.this

    def invariant(self, st):
        return self.implied(lf(0, {"P": 1}), st[0]), self.implied(lf(0, {"L": 1, "P": -1}), st[0]) and (not self.growing or self.implied(lf(0, {"K": 1, "L": -1}), st[0]))

    def havoc(self, I, st):
        a, b = self.invariant(st)
        if not a or not b:
            self.fail(I, "the invariant 0 <= position <= length, which the called method relies on")
        st = self.kill(st, "P")
        if st[0] is None:
            return None
        st = (st[0], frozenset((k, v) for k, v in st[1] if not coef(v, "P")))
        return self.learn(st, lf(0, {"P": 1}), lf(0, {"L": 1, "P": -1}))

    def start(self):
        return self.norm([lf(0, {"P": 1}), lf(0, {"L": 1, "P": -1})] + ([lf(0, {"K": 1, "L": -1})] if self.growing else [])), frozenset()

    def ret(self, I, value, st):
        a, b = self.invariant(st)
        if not a or not b:
            self.fail(I, "the invariant 0 <= position <= length when the method returns")

    def enter(self, B, nb, asg, st):
        """phis take their values in parallel"""
        N = self.f.blocks[nb]
        todo = []
        for I in N.insts:
            if I.op != "phi":
                break
            if I.ty in ("i16", "i32", "i64"):
                v = next((v for v, p in I.ops if p == B.i), None)
                todo.append((I, None if v is None or v[0] == "undef" else self.form(v, st)))
        ids = {("s", I.id) for I, e in todo}
        out = Sim.enter(self, B, nb, asg, st)
        if not todo or not out:
            return out
        for I, e in todo:
            x = ("s", I.id)
            st = (st[0], frozenset((k, w) for k, w in st[1] if k != I.id))
            if e is None or any(a in ids and a != x for a, k in e[1]):
                st = self.kill(st, x)
                st = None if st[0] is None else st
            else:
                st = self.assign(st, x, e)
            if st is None:
                return []
        return [(nb, na, st) for nb, na, s in out]

    def refine(self, o, pol, st):
        if o[0] != "i":
            return st
        I = self.f.val[o[1]]
        if I.op != "icmp":
            return st
        p = I.x
        if not pol:
            p = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}[p]
        if "ptr" in str(self.f.val[I.ops[0][1]].ty if I.ops[0][0] == "i" else ""):
            return st
        a, b = self.form(I.ops[0], st), self.form(I.ops[1], st)
        if p[0] == "u" and not self.unsigned:
            # unsigned comparison: sound as a signed one only when the right side is known non-negative and bounds the left
            big, small = (b, a) if p[1] == "l" else (a, b)
            if not self.implied(small, st[0]):
                return st
        d = ladd(b, a, -1)
        g = {"lt": [ladd(d, lf(-1))], "le": [d], "gt": [ladd(lscale(d, -1), lf(-1))], "ge": [lscale(d, -1)]}.get(p[1:]) if p[0] in "su" else {"eq": [d, lscale(d, -1)]}.get(p)
        if g is None:
            # a != b next to a known a <= b
            if p == "ne":
                for e in (d, lscale(d, -1)):
                    if e in st[0]:
                        return self.learn(st, ladd(e, lf(-1)))
            return st
        if any(len(x[1]) > 4 for x in g):
            return st
        return self.learn(st, *g)
