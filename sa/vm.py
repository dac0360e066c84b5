"""Abstract summaries of the interpreter's instruction handlers.

The interpreter is located by role (the function whose body holds the opcode
dispatch: an indirectbr or a switch with at least 100 targets).  For each
opcode the region from its handler entry to the next dispatch/return is walked
over the SSA graph with a disjunctive address domain: every value is a term
base-register + constant offset + scaled parts, a byte/word of the instruction
stream, or an opaque load/call result.  No path condition is solved: both
outcomes of every branch are taken.
"""
from ir import AnalysisBroken, ptr_base

K = lambda n: ("k", n)
MAXPATHS = 4000


def find_interp(prog):
    best = None
    for f in prog.defined():
        for B in f.blocks:
            t = B.insts[-1]
            n = 0
            if t.op == "indirectbr":
                n = len([o for o in t.ops if o[0] == "bb"])
            elif t.op == "switch":
                n = len(t.x)
            if n < 100 or "WRContext" not in f.dem:
                continue
            # the disassembler also has a large switch: the interpreter returns a value from a context argument
            if not f.args or f.dem.split("(")[1].split(",")[0].strip(" )") != "WRContext*":
                continue
            if best is None or n > best[2]:
                best = (f, B, n)
    if not best:
        raise AnalysisBroken("interpreter dispatch not found")
    return best[0], best[1]


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.fn, self.disp = find_interp(prog)
        fn = self.fn
        self.ctx_size = prog.struct("WRContext")["size"]
        self.off = {n: prog.offset("WRContext", n) for n in
                    ("yield_pc", "yield_stackTop", "yield_frameBase", "w", "stack", "bottom", "codeStart", "stopLocation")}
        self.entries = self._entries()
        self.roles = self._roles()
        ops = prog.enum("WROpcode")
        self.opnum = {n[2:]: v for n, v in ops.items()}
        if "LLValues" in self.opnum:
            want = {mkptr(("reg", "FB"), 0, ((("z", ("code", k, 8)), 16),)): nm for k, nm in ((0, "A"), (1, "B"))}
            for p in self.handler(self.opnum["LLValues"]):
                for r, v in p.regs.items():
                    if v in want:
                        for pid, nm in list(self.roles.items()):
                            if nm == r:
                                self.roles[pid] = want[v]
        if "A" not in self.roles.values() or "B" not in self.roles.values():
            raise AnalysisBroken("operand registers not identified")

    # opcode number -> handler block
    def _entries(self):
        t = self.disp.insts[-1]
        fn = self.fn
        if t.op == "switch":
            self.mode = "switch"
            return {v: b for v, b in t.x}
        self.mode = "table"
        # the address table: constant copied into the local array, or a static const array
        tabs = {}
        for n, g in self.prog.globals.items():
            init = g.get("init")
            ents = flat_labels(init)
            if ents and all(e[0] == "ba" and e[1] == fn.name for e in ents) and len(ents) >= 100:
                tabs[n] = ents
        if len(tabs) != 1:
            raise AnalysisBroken("expected one label table, found %d" % len(tabs))
        self.table = list(tabs)[0]
        return {k: e[2] for k, e in enumerate(tabs[self.table])}

    def _roles(self):
        """phi of the dispatch block -> register name, decided by what the
        suspend path stores into the context"""
        fn = self.fn
        roles = {}
        phis = [I for I in self.disp.insts if I.op == "phi"]
        want = {self.off["yield_pc"]: "PC", self.off["yield_stackTop"]: "ST", self.off["yield_frameBase"]: "FB"}
        self.phis = phis
        # pc: in switch mode operand of dispatch byte load
        cand = {}
        for I in fn.insts():
            if I.op == "store":
                b, off = ptr_base(fn, I.ops[1])
                if b == ["a", 0] and off in want:
                    for p in self._reach_phis(I.ops[0]):
                        cand.setdefault(want[off], set()).add(p)
        for r, ps in cand.items():
            ps = {p for p in ps}
            if len(ps) == 1:
                roles[list(ps)[0]] = r
            elif ps:
                raise AnalysisBroken("register %s is ambiguous (%d dispatch phis)" % (r, len(ps)))
        for r in ("PC", "ST", "FB"):
            if r not in roles.values():
                raise AnalysisBroken("register %s not identified" % r)
        n = 0
        for p in phis:
            if p.id not in roles:
                roles[p.id] = "R%d" % n
                n += 1
        return roles

    def _reach_phis(self, o, seen=None):
        fn = self.fn
        seen = seen if seen is not None else set()
        if o[0] != "i" or o[1] in seen:
            return set()
        seen.add(o[1])
        I = fn.val[o[1]]
        if I.op == "phi" and I.bb is self.disp:
            return {I.id}
        if I.op == "phi":
            r = set()
            for v, b in I.ops:
                r |= self._reach_phis(v, seen)
            return r
        if I.op == "getelementptr":
            return self._reach_phis(I.ops[0], seen)
        if I.op == "select":
            return self._reach_phis(I.ops[1], seen) | self._reach_phis(I.ops[2], seen)
        if I.op == "call" and I.ops[0][0] == "fn" and len(I.ops) == 2 and I.ty == "ptr":   # x->init() returns x
            return self._reach_phis(I.ops[1], seen)
        return set()

    # ---------------------------------------------------------------- walk
    def handler(self, opcode, maxvisit=2):
        """list of Path for one opcode"""
        return self.walk(opcode, lambda fn, env, it: Walker(fn, env, it, maxvisit))

    def walk(self, opcode, make):
        env = {p.id: ("reg", self.roles[p.id]) for p in self.phis}
        if self.mode == "switch":
            # values computed in the dispatch block after the phis (pc++)
            env = {k: (mkptr(v, -1, ()) if v == ("reg", "PC") else v) for k, v in env.items()}
            w = make(self.fn, env, self)
            w.block_insts(self.disp, None, skip_phi=True)
        else:
            w = make(self.fn, env, self)
        w.go(self.entries[opcode], self.disp.i)
        return w.paths


def flat_labels(init):
    if init and init[0] == "agg":
        return init[1]
    return None


class Path:
    __slots__ = ("events", "end", "regs", "trunc")

    def __init__(self, events, end, regs, trunc=False):
        self.events, self.end, self.regs, self.trunc = events, end, regs, trunc


def addp(t, off):
    if off == 0:
        return t
    if t[0] == "ptr":
        return mkptr(t[1], t[2] + off, t[3])
    if t[0] == "k":
        return ("k", t[1] + off)
    return mkptr(t, off, ())


def mkptr(base, off, var):
    if base[0] == "ptr":
        return mkptr(base[1], base[2] + off, base[3] + tuple(var))
    var = tuple(var)
    # fold constants
    nv = []
    for t, s in var:
        if t[0] == "op" and t[1] == "sub" and t[2] == ("k", 0):
            t, s = t[3], -s
        if t[0] == "k":
            off += t[1] * s
        else:
            nv.append((t, s))
    if len(nv) > 1:
        m = {}
        for t, s in nv:
            m[t] = m.get(t, 0) + s
        nv = [(t, s) for t, s in m.items() if s]
    if not nv and off == 0:
        return base
    return ("ptr", base, off, tuple(sorted(nv, key=repr)))


class Walker:
    """disjunctive walk over one function, or over a handler region of it"""
    def __init__(self, fn, env, it=None, maxvisit=2):
        self.it, self.fn, self.env = it, fn, dict(env)
        self.stop = it.disp if it else None
        self.maxvisit = maxvisit
        self.paths = []
        self.events = []
        self.uniq = 0

    def val(self, o):
        k = o[0]
        if k == "i":
            if o[1] in self.env:
                return self.env[o[1]]
            I = self.fn.val[o[1]]
            return self.outside(I)
        if k == "a":
            return ("arg", o[1])
        if k == "c":
            return ("k", o[1])
        if k == "null":
            return ("k", 0)
        if k == "cgep":
            return mkptr(self.val(o[1]), o[2], ())
        if k in ("g", "fn"):
            return (k, o[1])
        if k == "f":
            return ("f", o[1])
        if k == "undef":
            return ("undef",)
        return ("x", repr(o))

    def outside(self, I):
        """value computed before the dispatch loop (function prologue): expand structurally"""
        if I.op == "alloca":
            return ("alloca", I.id)
        if I.op == "phi":
            return ("pro", I.id)
        v = self.eval(I, pure=True)
        if v is None:
            v = ("pro", I.id)
        self.env[I.id] = v
        return v

    def eval(self, I, pure=False):
        op = I.op
        if op == "getelementptr":
            if I.x is None:
                return ("gep?", I.id)
            return mkptr(self.val(I.ops[0]), I.x["off"], tuple((self.val(v), s) for v, s in I.x["var"]))
        if op in ("bitcast", "addrspacecast", "ptrtoint", "inttoptr", "freeze"):
            return self.val(I.ops[0])
        if op == "alloca":
            return ("alloca", I.id)
        if op == "load":
            a = self.val(I.ops[0])
            return self.load(a, I.ty, I)
        if op in ("zext", "sext", "trunc"):
            return conv(op, I.ty, self.val(I.ops[0]))
        if op in ("add", "sub"):
            a, b = self.val(I.ops[0]), self.val(I.ops[1])
            if b[0] == "k":
                return addp(a, b[1] if op == "add" else -b[1])
            if a[0] == "k" and op == "add":
                return addp(b, a[1])
            return ("op", op, a, b)
        if op in ("shl", "or", "and", "xor", "mul", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = self.val(I.ops[0]), self.val(I.ops[1])
            return binop(op, a, b)
        if op == "icmp":
            return ("cmp", I.x, self.val(I.ops[0]), self.val(I.ops[1]))
        if op == "fcmp":
            return ("fcmp", I.x, self.val(I.ops[0]), self.val(I.ops[1]))
        if op == "select":
            return ("sel", self.val(I.ops[0]), self.val(I.ops[1]), self.val(I.ops[2]))
        if pure:
            return None
        return ("v", op) + tuple(self.val(o) for o in I.ops)

    def load(self, a, ty, I):
        base, off, var = (a[1], a[2], a[3]) if a[0] == "ptr" else (a, 0, ())
        if base == ("reg", "PC") and not var and ty in ("i8", "i16", "i32"):
            return ("code", off, int(ty[1:]))
        # later stores in this path to the same address
        for e in reversed(self.events):
            if e[0] == "store" and e[1] == a and e[3] == ty:
                return e[2]
            if e[0] in ("store", "call", "icall", "memcpy"):
                break
        return ("ld", a, ty)

    def block_insts(self, B, came, skip_phi=False):
        if not skip_phi:
            new = {}
            for I in B.insts:
                if I.op != "phi":
                    break
                for v, b in I.ops:
                    if b == came:
                        new[I.id] = self.val(v)
                        break
                else:
                    new[I.id] = ("undef",)
            self.env.update(new)
        for I in B.insts:
            if I.op in ("phi", "br", "switch", "indirectbr", "ret", "unreachable"):
                continue
            if I.op == "store":
                self.events.append(("store", self.val(I.ops[1]), self.val(I.ops[0]), self.sty(I), I))
                continue
            if I.op == "call":
                self.call(I)
                continue
            self.env[I.id] = self.eval(I)

    def sty(self, I):
        return I.x

    def call(self, I):
        args = tuple(self.val(o) for o in I.ops[1:])
        c = I.ops[0]
        if c[0] == "fn":
            n = c[1]
            if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                return
            if n.startswith("llvm.memcpy"):
                self.events.append(("memcpy", args[0], args[1], args[2], I))
                return
            self.uniq += 1
            res = ("call", n, args)
            self.events.append(("call", n, args, I))
            self.env[I.id] = res
            return
        t = self.val(c)
        self.events.append(("icall", t, args, I))
        self.env[I.id] = ("icall", t, args)

    def go(self, b, came):
        # iterative DFS with saved states
        stack = [(b, came, dict(self.env), list(self.events), {})]
        while stack:
            b, came, env, ev, seen = stack.pop()
            if len(self.paths) > MAXPATHS:
                raise AnalysisBroken("too many handler paths")
            self.env, self.events = env, ev
            B = self.fn.blocks[b]
            if B is self.stop:
                regs = {}
                for p in self.it.phis:
                    for v, bb in p.ops:
                        if bb == came:
                            regs[self.it.roles[p.id]] = self.val(v)
                if self.it.mode == "table":      # the fetch already advanced past the next opcode byte
                    regs["PC"] = mkptr(regs["PC"], -1, ())
                self.paths.append(Path(self.events, ("dispatch",), regs))
                continue
            n = seen.get(b, 0)
            if n >= self.maxvisit:
                self.paths.append(Path(self.events, ("loop", b), {}, True))
                continue
            seen = dict(seen)
            seen[b] = n + 1
            self.block_insts(B, came)
            t = B.insts[-1]
            if t.op == "ret":
                v = self.val(t.ops[0]) if t.ops else None
                self.paths.append(Path(self.events, ("ret", v), {}))
            elif t.op == "unreachable":
                self.paths.append(Path(self.events, ("unreachable",), {}))
            elif t.op == "br" and len(t.ops) == 3:
                c, neg = plain(self.val(t.ops[0]))
                for tgt, pol in ((t.ops[2][1], True), (t.ops[1][1], False)):
                    if c[0] == "k" and (bool(c[1]) != neg) != pol:
                        continue
                    stack.append((tgt, b, dict(self.env), self.events + [("br", c, pol != neg, t)], seen))
            elif t.op == "br":
                stack.append((t.ops[0][1], b, self.env, self.events, seen))
            elif t.op == "switch":
                c = self.val(t.ops[0])
                done = set()
                alts = list(t.x) + [(None, t.ops[1][1])]
                if c[0] == "k":
                    m = [a for a in t.x if a[0] == c[1]]
                    tgt = m[0][1] if m else t.ops[1][1]
                    stack.append((tgt, b, dict(self.env), self.events, seen))
                    continue
                for v, tgt in alts:
                    stack.append((tgt, b, dict(self.env), self.events + [("sw", c, v, t)], seen))
            else:
                raise AnalysisBroken("unexpected terminator %s" % t.op)


def truth(t):
    """the truth value behind conversions of one, or None"""
    while t[0] in ("z", "s") or (t[0][:1] == "t" and t[0][1:].isdigit()):
        t = t[1]
    if t[0] in ("cmp", "fcmp"):
        return t
    if t[0] == "op" and t[1] == "xor" and ("k", 1) in t[2:] and truth(t[2] if t[3] == ("k", 1) else t[3]):
        return t
    return None


def plain(c):
    """(condition, negated?) without tests of stored truth values"""
    neg = False
    while True:
        u = truth(c) if c[0] not in ("cmp", "fcmp") else None
        if u is not None and u[0] == "op":
            c, neg = (u[2] if u[3] == ("k", 1) else u[3]), not neg
        elif u is not None:
            c = u
        elif c[0] == "cmp" and c[1] in ("eq", "ne") and c[3][0] == "k" and c[3][1] in (0, 1) and truth(c[2]):
            neg ^= (c[1] == "eq") == (c[3][1] == 0)
            c = c[2]
        else:
            return c, neg


def width(t):
    if t[0] == "code":
        return t[2]
    return None


def conv(op, ty, v):
    if v[0] == "k":
        if op == "trunc" and ty.startswith("i"):
            w = int(ty[1:])
            x = v[1] & ((1 << w) - 1)
            return ("k", x - (1 << w) if x >> (w - 1) else x)
        return v
    if op == "zext":
        return ("z", v) if v[0] in ("code",) else (v if v[0] == "z" else ("z", v))
    if op == "sext":
        if v[0] == "s":
            return v
        if v[0] == "z":
            return v
        return ("s", v)
    # trunc
    w = int(ty[1:])
    x = v
    if x[0] in ("z", "s") and x[1][0] == "code" and x[1][2] == w:
        return x[1]
    if x[0] == "code" and w < x[2]:
        return ("code", x[1], w)
    if x[0] in ("z", "s") and x[1][0] == "code" and w > x[1][2]:
        return x
    if x[0] == "cat":
        return cat_trunc(x, w)
    x = low(x, w)
    if x is not v:
        return conv("trunc", ty, x) if x[0] in ("z", "s", "t%d" % w) and not (x[0] == "z" and x[1][0] != "code") else x
    return ("t%d" % w, v)


def low(x, w):
    """drop parts of an or-composition that lie above bit w"""
    if x[0] == "op" and x[1] == "or":
        keep = [y for y in (x[2], x[3]) if not (y[0] == "op" and y[1] == "and" and any(
            k[0] == "k" and (k[1] & ((1 << w) - 1)) == 0 for k in (y[2], y[3])))]
        if len(keep) == 1:
            y = keep[0]
            return y[1] if y[0] in ("z", "s") and y[1][0] != "code" else y
    return x


def parts(v, sh=0):
    """byte pieces of an or/shl composition of instruction bytes: {shift: code offset}"""
    if v[0] == "code":
        return {sh + 8 * k: v[1] + k for k in range(v[2] // 8)}
    if v[0] in ("z",):
        return parts(v[1], sh)
    if v[0] == "s" and v[1][0] == "code":
        return None
    if v[0] == "cat":
        return {sh + s: o for s, o in v[1]}
    return None


def cat(d):
    ks = sorted(d)
    if ks == [8 * k for k in range(len(ks))] and len(ks) in (1, 2, 4) and [d[k] for k in ks] == [d[0] + k for k in range(len(ks))]:
        return ("z", ("code", d[0], 8 * len(ks)))
    return ("cat", tuple(sorted(d.items())))


def cat_trunc(x, w):
    d = {s: o for s, o in x[1] if s < w}
    c = cat(d)
    if c[0] == "z" and c[1][2] == w:
        return c[1]
    return c


def binop(op, a, b):
    if a[0] == "k" and b[0] == "k":
        f = {"shl": lambda x, y: x << y, "or": lambda x, y: x | y, "and": lambda x, y: x & y, "xor": lambda x, y: x ^ y,
             "mul": lambda x, y: x * y}.get(op)
        if f:
            return ("k", f(a[1], b[1]))
    if op == "shl" and b[0] == "k":
        p = parts(a)
        if p is not None and b[1] % 8 == 0:
            return cat({s + b[1]: o for s, o in p.items()})
        return ("op", "mul", a, ("k", 1 << b[1])) if b[1] < 62 else ("op", op, a, b)
    if op == "or":
        p, q = parts(a), parts(b)
        if p is not None and q is not None and not set(p) & set(q):
            p.update(q)
            return cat(p)
    if op in ("or", "and", "xor", "mul") and repr(b) < repr(a):
        a, b = b, a
    return ("op", op, a, b)


class Namer:
    """prints terms with structure field names, so summaries of different
    build configurations (different layouts) can be compared"""
    def __init__(self, prog):
        self.prog = prog
        self.f = {}
        for st in ("WRContext", "WRState", "WRFunction", "WRGCObject", "WRGCBase"):
            s = prog.types.get("struct " + st)
            if s:
                self.f[st] = {}
                for x in s["fields"]:
                    self.f[st].setdefault(x[1], x[0])
        self.ctx = prog.struct("WRContext")["size"]

    def ptr(self, base, off, var):
        v = "".join("+%s*%d" % (self.t(a), k) for a, k in var)
        if base == ("arg", 0):
            if off >= self.ctx:
                return "G[%d]%s" % (off - self.ctx, v)
            return "ctx.%s%s" % (self.f["WRContext"].get(off, off), v)
        if base[0] == "ld" and self.t(base[1]) == "ctx.w":
            return "w.%s%s" % (self.f["WRState"].get(off, off), v)
        if base[0] == "ld" and base[1][0] == "ptr" and False:
            pass
        return "%s[%d]%s" % (self.t(base), off, v)

    def a(self, x):
        """address term: the first field of the context or state is named too"""
        s = self.t(x)
        if s == "w":
            return "w." + self.f["WRState"][0]
        if s == "ctx":
            return "ctx." + self.f["WRContext"][0]
        return s

    def t(self, x):
        if not x:
            return "()"
        k = x[0]
        if not isinstance(k, str):
            return "(" + " ".join(self.t(a) if isinstance(a, tuple) else str(a) for a in x) + ")"
        if k == "ptr":
            return self.ptr(x[1], x[2], x[3])
        if x == ("arg", 0):
            return "ctx"
        if k == "ld":
            if self.t(x[1]) == "ctx.w":
                return "w"
            return "*%s:%s" % (self.a(x[1]), x[2])
        if k == "reg":
            return x[1]
        if k == "k":
            return str(x[1])
        if k == "code":
            return "code%d.%d" % (x[1], x[2])
        if k in ("z", "s") or (k[0] == "t" and k[1:].isdigit()):
            return "%s(%s)" % (k, self.t(x[1]))
        if k == "fn":
            f = self.prog.fns.get(x[1])
            return f.short if f else x[1]
        if k == "g":
            return x[1]
        if k == "call":
            f = self.prog.fns.get(x[1])
            return "%s(%s)" % (f.short if f else x[1], ",".join(self.t(a) for a in x[2]))
        if k == "icall":
            return "(%s)(%s)" % (self.t(x[1]), ",".join(self.t(a) for a in x[2]))
        if k == "op":
            return "(%s %s %s)" % (self.t(x[2]), x[1], self.t(x[3]))
        if k in ("cmp", "fcmp"):
            return "(%s %s %s)" % (self.t(x[2]), x[1], self.t(x[3]))
        if k == "sel":
            return "(%s?%s:%s)" % tuple(self.t(a) for a in x[1:4])
        if k == "pro":
            return "pro%d" % x[1]
        return k + "(" + ",".join(self.t(a) if isinstance(a, tuple) else str(a) for a in x[1:]) + ")"

    def ev(self, e):
        k = e[0]
        if k == "store":
            return "%s:%s=%s" % (self.a(e[1]), e[3], self.t(e[2]))
        if k == "call":
            return self.t(("call", e[1], e[2]))
        if k == "icall":
            return self.t(("icall", e[1], e[2]))
        if k == "memcpy":
            return "memcpy(%s,%s,%s)" % tuple(self.t(a) for a in e[1:4])
        if k == "br":
            return ("if " if e[2] else "unless ") + self.t(e[1])
        if k == "sw":
            return "case %s==%s" % (self.t(e[1]), e[2])
        return repr(e)

    def path(self, p, regs=("PC", "ST", "FB", "A", "B")):
        end = "ret %s" % self.t(p.end[1]) if p.end[0] == "ret" and p.end[1] else p.end[0]
        return (end, tuple("%s=%s" % (r, self.t(p.regs[r])) for r in regs if r in p.regs),
                tuple(self.ev(e) for e in p.events))
