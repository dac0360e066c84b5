"""Constant propagation through side-effect-free functions: given constants for
some arguments, the set of values a function may return.  Values are ints,
("g",global,offset) addresses of constant data, or None (unknown; both outcomes
of a branch on it are followed)."""
from ir import AnalysisBroken


class CP:
    def __init__(self, prog, limit=400000):
        self.prog, self.limit, self.memo = prog, limit, {}
        self.steps = 0

    def data(self, g):
        d = self.prog.globals.get(g)
        if not d or not d["const"] or "init" not in d:
            # pointer tables declared without const are accepted when nothing writes them
            if not d or "init" not in d:
                return None
        return d["init"]

    def elem(self, init, off, size, ty=None):
        """constant stored at byte offset off of an initializer"""
        k = init[0]
        if k == "data":
            s = init[-1]
            if isinstance(s, str) and size == 1 and 0 <= off <= len(s):
                return ord(s[off]) if off < len(s) else 0
            if isinstance(s, list) and ty:
                es = int(ty.rstrip("]").split(" i")[-1]) // 8
                if off % es == 0 and off // es < len(s) and size == es:
                    return s[off // es]
            return None
        if k == "agg":
            es = 8
            if off % es == 0 and off // es < len(init[1]) and size == 8:
                e = init[1][off // es]
                if e[0] == "g":
                    return ("g", e[1], 0)
                if e[0] == "cgep" and e[1][0] == "g":
                    return ("g", e[1][1], e[2])
                if e[0] == "null":
                    return 0
            return None
        if k == "zero":
            return 0
        return None

    def call(self, fn, args):
        key = (fn.name, tuple(args))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {None}
        out = set()
        work = [(0, None, {})]
        while work:
            b, came, env = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.limit:
                    raise AnalysisBroken("constant propagation did not converge in %s" % fn.short)
                B = fn.blocks[b]
                new = {}
                for I in B.insts:
                    if I.op != "phi":
                        break
                    for v, bb in I.ops:
                        if bb == came:
                            new[I.id] = self.val(v, env, args)
                env.update(new)
                for I in B.insts:
                    if I.op != "phi":
                        self.inst(fn, I, env, args)
                t = B.insts[-1]
                if t.op == "ret":
                    out.add(self.val(t.ops[0], env, args) if t.ops else 0)
                    break
                if t.op == "unreachable":
                    break
                if t.op == "br" and len(t.ops) == 1:
                    came, b = b, t.ops[0][1]
                    continue
                if t.op == "br":
                    c = self.val(t.ops[0], env, args)
                    if c is None:
                        work.append((t.ops[1][1], b, dict(env)))
                        came, b = b, t.ops[2][1]
                    else:
                        came, b = b, (t.ops[2][1] if c & 1 else t.ops[1][1])
                    continue
                if t.op == "switch":
                    c = self.val(t.ops[0], env, args)
                    if c is None:
                        for v, tg in t.x:
                            work.append((tg, b, dict(env)))
                        came, b = b, t.ops[1][1]
                    else:
                        m = [tg for v, tg in t.x if v == c or (v & 0xFF) == c]
                        came, b = b, (m[0] if m else t.ops[1][1])
                    continue
                raise AnalysisBroken("terminator %s" % t.op)
        self.memo[key] = out
        return out

    def val(self, o, env, args):
        k = o[0]
        if k == "i":
            return env.get(o[1])
        if k == "a":
            return args[o[1]]
        if k == "c":
            return o[1]
        if k == "null":
            return 0
        if k == "g":
            return ("g", o[1], 0)
        if k == "cgep" and o[1][0] == "g":
            return ("g", o[1][1], o[2])
        return None

    def inst(self, fn, I, env, args):
        op = I.op
        v = [self.val(o, env, args) for o in I.ops] if op not in ("call", "br", "switch") else None
        r = None
        if op == "getelementptr" and I.x:
            base = v[0]
            var = [(self.val(o, env, args), s) for o, s in I.x["var"]]
            if base is not None and all(a is not None and not isinstance(a, tuple) for a, s in var):
                off = I.x["off"] + sum(a * s for a, s in var)
                if isinstance(base, tuple):
                    r = (base[0], base[1], base[2] + off)
        elif op == "load":
            a = v[0]
            if isinstance(a, tuple):
                init = self.data(a[1])
                size = 8 if I.ty == "ptr" else (int(I.ty[1:]) // 8 if I.ty.startswith("i") else 0)
                if init is not None and size:
                    r = self.elem(init, a[2], size, self.prog.globals[a[1]]["type"])
        elif op in ("zext", "sext", "trunc"):
            r = v[0]
            if isinstance(r, int):
                if op == "trunc":
                    w = int(I.ty[1:])
                    r &= (1 << w) - 1
                    if w > 1 and r >> (w - 1):
                        r -= 1 << w
                elif op == "zext":
                    src = I.ops[0]
                    w = None
                    if src[0] == "i":
                        t = fn.val[src[1]].ty
                        w = int(t[1:]) if t.startswith("i") else None
                    elif src[0] == "a":
                        t = fn.args[src[1]][1]
                        w = int(t[1:]) if t.startswith("i") else None
                    if w:
                        r &= (1 << w) - 1
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr") and all(isinstance(x, int) for x in v):
            a, b = v
            r = {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b,
                 "shl": a << (b & 63), "lshr": a >> (b & 63)}[op]
        elif op == "sub" and isinstance(v[0], tuple) and isinstance(v[1], tuple) and v[0][1] == v[1][1]:
            r = v[0][2] - v[1][2]
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            r = v[0]
        elif op == "icmp" and v[0] is not None and v[1] is not None:
            a, b = v
            if isinstance(a, int) and isinstance(b, int):
                m = lambda x: x & (2**64 - 1) if x < 0 else x
                r = int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b,
                         "ult": m(a) < m(b), "ule": m(a) <= m(b), "ugt": m(a) > m(b), "uge": m(a) >= m(b)}[I.x])
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]:
                r = int({"eq": a == b, "ne": a != b, "ult": a[2] < b[2], "ule": a[2] <= b[2], "ugt": a[2] > b[2], "uge": a[2] >= b[2]}.get(I.x, 0))
            elif I.x in ("eq", "ne") and (a == 0 or b == 0):
                r = int(I.x == "ne")
        elif op == "select":
            r = None if v[0] is None else (v[1] if v[0] & 1 else v[2])
        elif op == "call":
            c = I.ops[0]
            a = [self.val(o, env, args) for o in I.ops[1:]]
            if c[0] == "fn":
                n = c[1]
                f = self.prog.fns.get(n)
                if f and not f.decl:
                    rs = self.call(f, a)
                    r = next(iter(rs)) if len(rs) == 1 else None
                else:
                    r = self.libc(n, a)
        env[I.id] = r

    def cstr(self, a):
        if not isinstance(a, tuple):
            return None
        init = self.data(a[1])
        if init and init[0] == "data" and isinstance(init[-1], str):
            return init[-1][a[2]:].split("\0")[0]
        return None

    def libc(self, n, a):
        if n == "strlen":
            s = self.cstr(a[0])
            return None if s is None else len(s)
        if n in ("strcmp", "strncmp", "memcmp"):
            s, t = self.cstr(a[0]), self.cstr(a[1])
            if s is None or t is None:
                return None
            if n != "strcmp":
                if not isinstance(a[2], int):
                    return None
                s, t = s[:a[2]], t[:a[2]]
            return (s > t) - (s < t)
        if n == "strstr":
            s, t = self.cstr(a[0]), self.cstr(a[1])
            if s is None or t is None:
                return None
            k = s.find(t)
            return 0 if k < 0 else (a[0][0], a[0][1], a[0][2] + k)
        return None
