"""C21: a function's frame starts clean, a call is undone by its return."""
import ir
import vm
import lin as LN
import loops
from vm import mkptr
from lin import lin, sub, add
from c02 import where
from ir import AnalysisBroken

TECHNIQUE = "path walk over the call, return and host-entry code of the interpreter (LLVM IR) with closed-form loop summaries; linear equalities over argument count, parameter count and local count; byte-order comparison of the linker's function record"
NOTE = "decided for symbolic counts (no bound); a callback's own writes are outside (library functions: C11)"
CONFIGS = ("default", "compact", "really", "slices", "cslices")
ST, FB, PC = ("reg", "ST"), ("reg", "FB"), ("reg", "PC")


def strip(t):
    """width changes and the packing of a counter into a pointer-sized union are looked through"""
    while isinstance(t, tuple) and t:
        if t[0] in ("z", "s") or (isinstance(t[0], str) and t[0][:1] == "t" and t[0][1:].isdigit()):
            t = t[1]
            continue
        if t[0] == "op" and t[1] == "or":
            y = vm.low(t, 32)
            if y is not t:
                t = y
                continue
            ks = [x for x in (t[2], t[3]) if not (x[0] == "op" and x[1] == "and" and any(k[0] == "k" and k[1] & 0xffffffff == 0 for k in x[2:]))]
            if len(ks) == 1:
                t = ks[0]
                continue
        break
    return t


class Lin:
    """linear forms in slots (16 bytes) under one ordering of N (given) and P (declared)"""
    def __init__(self, names, order):
        self.names, self.order = names, order

    def __call__(self, t):
        c, d = self.f(t)
        return c, {a: k for a, k in d.items() if k}

    def f(self, t):
        t = strip(t)
        if t in self.names:
            x = self.names[t]
            return (0, {x: 1}) if isinstance(x, str) else x
        k = t[0]
        if k == "k":
            return t[1], {}
        if k == "ptr":
            c, d = self.f(t[1])
            c, d = c + t[2], dict(d)
            for v, s in t[3]:
                c2, d2 = self.f(v)
                c += c2 * s
                for a, n in d2.items():
                    d[a] = d.get(a, 0) + n * s
            return c, d
        if k == "op" and t[1] in ("add", "sub"):
            x, y = self.f(t[2]), self.f(t[3])
            return (add if t[1] == "add" else sub)(x, y)
        if k == "op" and t[1] in ("mul", "shl"):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                b = strip(b)
                if b[0] == "k" and (t[1] == "mul" or b is strip(t[3])):
                    m = b[1] if t[1] == "mul" else 1 << b[1]
                    c, d = self.f(a)
                    return c * m, {x: n * m for x, n in d.items()}
        if k == "trip":
            D = sub(self(t[2]), self(t[1]))
            s = self.sign(D)
            if s is None:
                return 0, {t: 1}
            return D if s > 0 else (0, {})
        if k == "sel":
            c = self.truth(t[1])
            if c is not None:
                return self.f(t[2] if c else t[3])
        return 0, {t: 1}

    def sign(self, D):
        """1: never negative, -1: never positive, 0: zero, None: unknown"""
        c, d = D
        if not d:
            return (c > 0) - (c < 0)
        if set(d) == {"N", "P"} and d["N"] == -d["P"] and abs(d["N"]) == 1:
            # N - P is <0, 0 or >0
            o = {"<": -1, "=": 0, ">": 1}[self.order] * d["N"]
            if c == 0:
                return o
            if o == 1 and c >= -1 or o == 0 and c > 0:
                return 1
            if o == -1 and c <= 1 or o == 0 and c < 0:
                return -1
            return None
        if all(x in ("N", "P", "L") and n > 0 for x, n in d.items()) and c >= 0:
            return 1
        if all(x in ("N", "P", "L") and n < 0 for x, n in d.items()) and c <= 0:
            return -1
        return None

    def truth(self, c):
        if c[0] != "cmp":
            return None
        D = sub(self(c[2]), self(c[3]))
        s = self.sign(D)
        if s is None:
            return None
        strict = D[1] == {} or (self.order != "=" and set(D[1]) == {"N", "P"} and D[0] == 0)
        p = c[1]
        if p == "eq":
            return True if s == 0 else (False if strict else None)
        if p == "ne":
            return False if s == 0 else (True if strict else None)
        if p[1:] == "lt":
            return True if s < 0 and strict else (False if s >= 0 else None)
        if p[1:] == "gt":
            return True if s > 0 and strict else (False if s <= 0 else None)
        if p[1:] == "le":
            return True if s <= 0 else (False if strict else None)
        if p[1:] == "ge":
            return True if s >= 0 else (False if strict else None)


def stores(p):
    """flatten a path's memory writes: (kind, address, value, size)"""
    for e in p.events:
        if e[0] in ("store", "memcpy", "fill", "loop", "call", "icall"):
            yield e


def zero_segments(p, L):
    """[(start, slots)] of 16-byte cells set to integer zero, and all other writes [(address, value)]"""
    halves = {}
    seg, other = [], []
    for e in stores(p):
        if e[0] == "store":
            a = L(e[1])
            other.append((a, e[2], 1))
            key = tuple(sorted(a[1].items(), key=repr))
            if e[2] == ("k", 0) and e[3] in ("ptr", "i64"):
                halves.setdefault(key, set()).add(a[0])
        elif e[0] == "fill":
            ind = {s: (i, k) for s, i, k in e[3]}
            words = {}
            for addr, v, ty, I in e[4]:
                base, off = (addr[1], addr[2]) if addr[0] == "ptr" and not addr[3] else (addr, 0)
                if base not in ind:
                    # array form: base[i]
                    ok = addr[0] == "ptr" and len(addr[3]) == 1 and strip(addr[3][0][0]) in ind and not loops.contains(addr[1], addr[3][0][0])
                    if ok:
                        iv, k = ind[strip(addr[3][0][0])]
                        st = mkptr(addr[1], 0, ((iv, addr[3][0][1]),))
                        words.setdefault((st, k * addr[3][0][1]), []).append((addr[2], v, ty))
                    else:
                        other.append((L(addr), v, None))
                    continue
                words.setdefault((ind[base][0], ind[base][1]), []).append((off, v, ty))
            n = L(e[2])
            for (st, step), ws in words.items():
                s0 = L(st)
                if step == 16 and {0, 8} <= {o - min(x[0] for x in ws) for o, v, ty in ws if v == ("k", 0) and ty in ("ptr", "i64")} and all(v == ("k", 0) for _, v, _ in ws):
                    m = min(x[0] for x in ws)
                    seg.append(((s0[0] + m, s0[1]), n))
                else:
                    other.append((s0, ("filled", tuple(ws), tuple(walks(v, e[3]) for _, v, _ in ws)), n))
        elif e[0] == "call" and e[1].startswith("llvm.memset"):
            a = L(e[2][0])
            if e[2][1] == ("k", 0):
                c, d = L(e[2][2])
                if c % 16 == 0 and all(v % 16 == 0 for v in d.values()):
                    seg.append((a, (c // 16, {x: v // 16 for x, v in d.items()})))
                    continue
            other.append((a, ("memset",), None))
        elif e[0] == "memcpy":
            other.append((L(e[1]), ("copy", e[2]), 1))
    for key, offs in halves.items():
        for o in offs:
            if o + 8 in offs:
                seg.append(((o, dict(key)), (1, {})))
    return seg, other


def walks(v, ind):
    """how the source of a copied word moves: (first address, bytes per round)"""
    if v[0] != "ld":
        return None
    d = lin(v[1])[1]
    step = 0
    for a, k in d.items():
        for s, i, st in ind:
            if strip(a) == s:
                if st is None:
                    return None
                step += k * st
    f = lin(loops.subst(v[1], {s: i for s, i, st in ind}))
    c, rest = f[0], {}
    for a, k in f[1].items():
        x = strip(a)
        if x[0] == "k":
            c += k * x[1]
        else:
            rest[a] = k
    return c, tuple(sorted(rest.items(), key=repr)), step


def cover(seg, start, end):
    """start and end linear; True when the segments tile [start, end)"""
    cur = start
    for _ in range(len(seg) + 1):
        if cur == end:
            return True
        nxt = [s for s in seg if s[0] == cur and s[1] != (0, {})]
        if not nxt:
            return False
        n = nxt[0][1]
        cur = add(cur, (n[0] * 16, {a: k * 16 for a, k in n[1].items()}))
        seg = [s for s in seg if s is not nxt[0]]
    return cur == end


def slots(c, **kw):
    return (c * 16, {k: v * 16 for k, v in kw.items() if v})


def at(base, off):
    return add(base, off)


def consistent(p, L):
    for e in p.events:
        if e[0] == "br":
            t = L.truth(e[1])
            if t is not None and t != e[2]:
                return False
    return True


def check_call(R, cfg, it, prog, what, paths, fnptr, N, base0, loc, ret_pc, old_fb):
    """paths: those that end up executing the function's first instruction"""
    o = {f: prog.offset("WRFunction", f) for f in ("arguments", "frameSpaceNeeded", "frameBaseAdjustment", "functionOffset")}
    fld = lambda f, ty: ("ld", mkptr(fnptr, o[f], ()), ty)
    names = {strip(N): "N", fld("arguments", "i8"): "P", fld("frameSpaceNeeded", "i8"): "L",
             fld("frameBaseAdjustment", "i8"): (1, {"P": 1, "L": 1}), base0[0]: "X"}
    seen = set()
    for order in "<=>":
        L = Lin(names, order)
        for p in paths:
            if not consistent(p, L):
                continue
            seen.add(order)
            R.count("call paths")
            X = (0, {"X": 1})
            base = at(X, base0[1](L))            # first argument
            given = {"<": slots(0, N=1), "=": slots(0, P=1), ">": slots(0, P=1)}[order]
            if order == "=":
                # N and P are equal: write everything with P
                eq = lambda l: (l[0], {k: v for k, v in {**{x: n for x, n in l[1].items() if x != "N"}, "P": l[1].get("P", 0) + l[1].get("N", 0)}.items() if v})
            else:
                eq = lambda l: l
            end = at(base, slots(0, P=1, L=1))
            seg, other = zero_segments(p, L)
            seg = [(eq(a), eq(n)) for a, n in seg]
            lt = {"<": "fewer arguments than parameters", "=": "exactly the declared arguments", ">": "surplus arguments"}[order]
            tag = "%s:%s:%s" % (what, cfg, {"<": "few", "=": "exact", ">": "many"}[order])
            b, e = eq(base), eq(end)
            if not cover(seg, eq(at(base, given)), e):
                R.violation("clear:" + tag, loc, "%s with %s: the missing parameters and locals, slots [%s, %s), are not all set to integer zero; zeroed: %s"
                            % (what, lt, fmt(eq(at(base, given))), fmt(e), ["%s x %s" % (fmt(a), fmt(n)) for a, n in seg]))
            top = eq(L(p.regs["ST"]))
            if top != eq(at(end, slots(1))):
                R.violation("top:" + tag, loc, "%s with %s: stack top becomes %s, expected %s" % (what, lt, fmt(top), fmt(eq(at(end, slots(1))))))
            fb = eq(L(p.regs["FB"]))
            if fb != b:
                R.violation("base:" + tag, loc, "%s with %s: frame base becomes %s, expected the first argument at %s" % (what, lt, fmt(fb), fmt(b)))
            vec = {0: None, 8: None}
            for a, v, n in other:
                a = eq(a)
                if "X" not in a[1]:
                    continue
                d = sub(a, e)
                if not d[1] and d[0] in (0, 8):
                    vec[d[0]] = v
                elif n == 1 and (any(s[0] == a or (s[0][0] + 8, s[0][1]) == a for s in seg)):
                    pass
                elif host_arg(a, v, n, b, eq, L, N):
                    pass
                elif what == "host call" and not sub(a, b)[1] and sub(a, b)[0] in (-16, -8):
                    pass
                else:
                    R.violation("stray:" + tag, loc, "%s with %s: something else is written to the new frame at %s" % (what, lt, fmt(a)))
            if vec[0] != old_fb:
                R.violation("vector-frame:" + tag, loc, "%s: the return vector does not hold the caller's frame base" % what)
            want = ("op", "sub", ret_pc, ("ld", mkptr(("arg", 0), prog.offset("WRContext", "bottom"), ()), "ptr"))
            if vec[8] != want:
                R.violation("vector-pc:" + tag, loc, "%s: the return vector holds %s as return position, expected %s" % (what, vm.Namer(prog).t(vec[8]) if vec[8] else None, vm.Namer(prog).t(want)))
            ent = mkptr(("ld", mkptr(("arg", 0), prog.offset("WRContext", "bottom"), ()), "ptr"), 0, ((("z", fld("functionOffset", "i16")), 1),))
            if p.regs["PC"] != ent:
                R.violation("entry:" + tag, loc, "%s continues at %s, not at the function's code" % (what, vm.Namer(prog).t(p.regs["PC"])))
            if what == "host call":
                src = [(a, v, n) for a, v, n in other if isinstance(v, tuple) and v[0] == "filled"]
                if not any(host_arg(eq(a), v, n, b, eq, L, N) for a, v, n in other):
                    R.violation("args:" + tag, loc, "the host's arguments are not copied in order to the first parameters on")
    if seen != set("<=>"):
        raise AnalysisBroken("%s: no path for argument counts %s" % (what, sorted(set("<=>") - seen)))


def host_arg(a, v, n, base, eq, L, N):
    """a fill of [base, base+N) with argv[0..N)"""
    if not (isinstance(v, tuple) and v and v[0] == "filled"):
        return False
    if a != base or eq(n) != eq((0, {"N": 1})):
        return False
    offs = set()
    for (off, val, ty), mv in zip(v[1], v[2]):
        if mv != (off, ((("arg", 2), 1),), 16):     # argv[0], argv[1], ...
            return False
        if val[0] != "ld" or not loops.contains(val, ("arg", 2)):
            return False
        q = val[1]
        if q[0] == "ptr":
            so = q[2]
        else:
            so = 0
        if so != off:
            return False
        offs.add(off)
    return offs == {0, 8}


def fmt(l):
    c, d = l
    return " + ".join(["%s*%s" % (v, k) if v != 1 else str(k) for k, v in sorted(d.items(), key=repr)] + ([str(c)] if c or not d else []))


def check(R):
    R.rule("on every path from a call (by index, or from the host) to the callee's first instruction, for fewer, exactly as many and more arguments than "
           "parameters: frame base = first argument, the slots of missing parameters and of all locals are zeroed, the return vector holds the caller's "
           "frame base and the position after the call, and the stack top is one past it; Return takes frame base, position and stack top back from there; "
           "calls of library and host functions hand over exactly the pushed arguments and replace them with one result")
    for cfg in CONFIGS:
        prog = ir.std(cfg)
        it = vm.Interp(prog)
        NM = vm.Namer(prog)
        LW = lambda fn, env, i: loops.LoopWalker(fn, env, i)
        cx = lambda f, ty: ("ld", mkptr(("arg", 0), prog.offset("WRContext", f), ()), ty)
        # ---------------------------------------------------------- call by index
        k = it.opnum["CallFunctionByIndex"]
        ps = [p for p in it.walk(k, LW) if p.end[0] == "dispatch"]
        fnp = mkptr(cx("localFunctions", "ptr"), 0, ((("z", ("code", 1, 8)), prog.struct("WRFunction")["size"]),))
        ret = mkptr(PC, 2, ((("z", ("code", 2, 8)), 1),))
        check_call(R, cfg, it, prog, "call", ps, fnp, ("code", 0, 8), (ST, lambda L: slots(0, N=-1)), where(it, k), ret, FB)
        # ---------------------------------------------------------- host call
        w = loops.LoopWalker(it.fn, {}, it)
        w.go(0, None)
        loc = "%s:%d %s" % (it.fn.file, it.fn.line, it.fn.short)
        stop = cx("stopLocation", "ptr")
        hp = [p for p in w.paths if p.end[0] == "dispatch" and any(e[0] == "br" and tested(e, ("arg", 1)) for e in p.events)]
        sb = mkptr(cx("stack", "ptr"), 0, ((("z", cx("stackOffset", "i16")), 16),))
        if len(hp) < 2:
            raise AnalysisBroken("host entry not recognised")
        # write addresses relative to the stack base
        hp2 = [vm.Path([loops.subst_ev(e, {}) for e in p.events], p.end, p.regs) for p in hp]
        check_host(R, cfg, it, prog, hp2, sb, loc, stop)
        # ---------------------------------------------------------- return
        for nm, extra in (("Return", 0), ("ReturnZero", 16)):
            k = it.opnum[nm]
            n = 0
            for p in it.handler(k):
                if p.end[0] != "dispatch":
                    continue
                n += 1
                R.count("return paths")
                vecp = mkptr(ST, -32 + extra, ())
                ok_pc = mkptr(cx("bottom", "ptr"), 0, ((("ld", mkptr(ST, -24 + extra, ()), "i64"), 1),))
                if p.regs["PC"] != ok_pc:
                    R.violation("return-pc:%s:%s" % (nm, cfg), where(it, k), "%s continues at %s, not at the position in the return vector" % (nm, NM.t(p.regs["PC"])))
                if p.regs["ST"] != FB:
                    R.violation("return-top:%s:%s" % (nm, cfg), where(it, k), "%s leaves the stack top at %s, not at the callee's first argument" % (nm, NM.t(p.regs["ST"])))
                if p.regs["FB"] != ("ld", vecp, "ptr"):
                    R.violation("return-frame:%s:%s" % (nm, cfg), where(it, k), "%s restores frame base %s" % (nm, NM.t(p.regs["FB"])))
                if p.regs["A"] != vecp:
                    R.violation("return-value:%s:%s" % (nm, cfg), where(it, k), "%s hands the result on at %s, expected just above the return vector" % (nm, NM.t(p.regs["A"])))
                wr = {(e[1], e[3]): e[2] for e in p.events if e[0] == "store"}
                stack = [a for a, _ in wr if loops.contains(a, ST)]
                want = {ST, mkptr(ST, 8, ())} if extra else set()
                if set(stack) != want or any(v != ("k", 0) for (a, _), v in wr.items() if loops.contains(a, ST)):
                    R.violation("return-zero:%s:%s" % (nm, cfg), where(it, k), "%s writes %s" % (nm, sorted(NM.t(a) for a in stack)))
            if not n:
                raise AnalysisBroken("no continuing path of %s" % nm)
        # the result is what the callee left above its return vector
        k = it.opnum["PushIndexFunctionReturnValue"]
        for p in it.handler(k):
            if p.end[0] != "dispatch":
                continue
            R.count("return paths")
            if p.regs["ST"] != mkptr(ST, 16, ()):
                R.violation("result-top:" + cfg, where(it, k), "taking over a call's result moves the stack top to %s" % NM.t(p.regs["ST"]))
            src = [e for e in p.events if e[0] == "call" and "deref" in e[1]]
            src_ok = any(e[2] and e[2][0] == mkptr(("reg", "A"), 16, ()) for e in src)
            if not src_ok:
                R.violation("result-value:" + cfg, where(it, k), "a call's result is not taken from just above the return vector")
        # ---------------------------------------------------------- foreign functions
        for nm, nb, keeps in (("CallLibFunction", 5, True), ("CallLibFunctionAndPop", 5, False), ("CallFunctionByHash", 5, True), ("CallFunctionByHashAndPop", 5, False)):
            foreign(R, cfg, it, prog, nm, nb, keeps, LW, NM)
    linker(R)
    R.floor("call paths", 6 * len(CONFIGS))
    R.floor("foreign call paths", 8 * len(CONFIGS))


def tested(e, t):
    c = e[1]
    return c[0] == "cmp" and c[1] in ("ne", "eq") and t in (c[2], c[3]) and ("k", 0) in (c[2], c[3]) and (c[1] == "ne") == e[2]


def check_host(R, cfg, it, prog, ps, sb, loc, stop):
    # name the stack base: sb = load(stack) + offset*16
    key = ("stackbase",)

    def ren(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "ptr" and t[1] == sb[1] and any(v in t[3] for v in sb[3]):
            rest = tuple((ren(v), s) for v, s in t[3] if (v, s) not in sb[3])
            return mkptr(key, t[2], rest)
        if t == sb:
            return key
        return tuple(ren(x) if isinstance(x, tuple) else x for x in t)
    qs = []
    for p in ps:
        qs.append(vm.Path([tuple(ren(x) if isinstance(x, tuple) else x for x in e) for e in p.events], p.end, {k: ren(v) for k, v in p.regs.items()}))
    check_call(R, cfg, it, prog, "host call", qs, ("arg", 1), ("arg", 3), (key, lambda L: slots(1)), loc, stop, ("k", 0))
    for p in qs:
        z = {e[1]: e[2] for e in p.events if e[0] == "store"}
        if z.get(key) != ("k", 0) or z.get(mkptr(key, 8, ())) != ("k", 0):
            R.violation("host-result:" + cfg, loc, "the slot below the host's arguments is not initialised")


def foreign(R, cfg, it, prog, nm, nb, keeps, LW, NM):
    k = it.opnum[nm]
    N = ("z", ("code", 0, 8))
    base = mkptr(ST, 0, ((N, -16),))
    n = 0
    for p in it.walk(k, LW):
        R.count("foreign call paths")
        calls = [e for e in p.events if e[0] == "icall"]
        inner = [e for e in p.events if e[0] == "call" and e[1] == it.fn.name]
        for e in p.events:
            if e[0] == "loop":
                inner += [x for x in e[2] if x[0] == "call" and x[1] == it.fn.name]
                calls += [x for x in e[2] if x[0] == "icall"]
        if len(calls) + len(inner) > 1:
            R.violation("twice:%s:%s" % (nm, cfg), where(it, k), "%s calls more than one function" % nm)
        for e in calls:
            n += 1
            a = e[2]
            if len(a) == 3:       # library function (stackTop, argn, context)
                ok = a[0] == ST and strip(a[1]) == strip(N) and a[2] == ("arg", 0)
            else:                 # host callback (context, argv, argn, retval, usr)
                ok = len(a) == 5 and a[0] == ("arg", 0) and nrm(a[1]) == nrm(base) and strip(a[2]) == strip(N) and a[3] == ST
            if not ok:
                R.violation("handover:%s:%s" % (nm, cfg), where(it, k), "%s passes (%s)" % (nm, ", ".join(NM.t(x) for x in a)))
        place(R, cfg, it, prog, nm, k, p, NM)
        for e in inner:
            a = e[2]
            if not (nrm(a[2]) == nrm(base) and strip(a[3]) == strip(N)):
                R.violation("handover:%s:%s" % (nm, cfg), where(it, k), "%s passes (%s) to imported code" % (nm, ", ".join(NM.t(x) for x in a)))
        if p.end[0] != "dispatch":
            continue
        obj = any(e[0] == "call" and "newObjectTable" in e[1] for e in p.events)
        zero = [e for e in p.events if e[0] == "br" and e[1][0] == "cmp" and strip(e[1][2]) == strip(N) and e[1][3] == ("k", 0)]
        none = any((e[1][1] == "ne") != e[2] for e in zero)
        some = any((e[1][1] == "ne") == e[2] for e in zero)
        b = ST if none else base
        want = mkptr(b, (16 if keeps else 0) + (16 if obj else 0), ())
        if nrm(p.regs["ST"]) != nrm(want):
            R.violation("foreign-top:%s:%s" % (nm, cfg), where(it, k), "%s leaves the stack top at %s, expected %s" % (nm, NM.t(p.regs["ST"]), NM.t(want)))
        if p.regs["FB"] != FB:
            R.violation("foreign-frame:%s:%s" % (nm, cfg), where(it, k), "%s changes the frame base" % nm)
        if keeps and not none:
            if not any(moved(e, base) for e in p.events):
                R.violation("foreign-result:%s:%s" % (nm, cfg), where(it, k), "%s does not move the result over the arguments" % nm)
        if keeps:
            # result slot initialised before the call
            idx = next((i for i, e in enumerate(p.events) if e[0] in ("icall", "loop") or e[0] == "call" and e[1] == it.fn.name), None)
            pre = {e[1] for e in p.events[:idx] if e[0] == "store" and e[2] == ("k", 0)}
            ini = any(e[0] == "call" and e[2] and e[2][0] == ST and "init" in e[1] for e in p.events[:idx])
            if not ini and not {ST, mkptr(ST, 8, ())} <= pre:
                R.violation("foreign-init:%s:%s" % (nm, cfg), where(it, k), "%s does not start with an integer-zero result" % nm)
    if n < 1:
        raise AnalysisBroken("no call found in %s" % nm)


def place(R, cfg, it, prog, nm, k, p, NM):
    """imported code runs on the same stack: it is told to start at the caller's stack top, not below it"""
    so = prog.offset("WRContext", "stackOffset")
    evs = []
    for e in p.events:
        evs += [x for x in e[2] if isinstance(x, tuple)] if e[0] == "loop" else [e]
    for j, e in enumerate(evs):
        if e[0] != "call" or e[1] != it.fn.name:
            continue
        c = e[2][0]
        st = [x for x in evs[:j] if x[0] == "store" and x[1] == mkptr(c, so, ())]
        if not st:
            R.violation("import-base:%s:%s" % (nm, cfg), where(it, k), "%s enters imported code without telling it where the stack is free" % nm)
            continue
        R.count("import calls")
        v = st[-1][2]
        if narrowed(v, 16):
            R.violation("import-base:%s:%s" % (nm, cfg), where(it, k), "%s tells imported code a truncated stack position" % nm)
        d = slots_above(v, ("ld", mkptr(("arg", 0), prog.offset("WRContext", "stack"), ()), "ptr"))
        if d is None:
            R.sample("%s: stack position for imported code not understood: %s" % (nm, NM.t(v)))
            R.count("stack positions not understood")
        elif d < 0:
            R.violation("import-base:%s:%s" % (nm, cfg), where(it, k), "%s tells imported code to use the stack from %s on, below the stack top" % (nm, NM.t(v)))


def narrowed(t, w):
    """a width change below w bits on the way"""
    if not isinstance(t, tuple) or not t:
        return False
    if isinstance(t[0], str) and t[0][:1] == "t" and t[0][1:].isdigit() and int(t[0][1:]) < w:
        return True
    return any(narrowed(x, w) for x in t[1:])


def slots_above(t, stack):
    """t = (ST + d*16 - stack) / 16 -> d; None when it has another form"""
    t = strip(t)
    if t[0] == "op" and t[1] in ("sdiv", "ashr", "lshr", "udiv") and t[3] in (("k", 16), ("k", 4)):
        c, d = lin(t[2])
        if d.get(ST) == 1 and d.get(stack) == -1:
            rest = {a: k for a, k in d.items() if a not in (ST, stack)}
            if any(k > 0 for k in rest.values()):
                return None
            return -1 if rest else c // 16
    if t[0] == "op" and t[1] in ("add", "sub") and t[3][0] == "k":
        d = slots_above(t[2], stack)
        return None if d is None else d + (t[3][1] if t[1] == "add" else -t[3][1])
    if t[0] == "op" and t[1] == "sub":
        d = slots_above(t[2], stack)
        return None if d is None else -1
    return None


def nrm(t):
    c, d = lin(t)
    return c, tuple(sorted(((strip(a), k) for a, k in d.items()), key=repr))


def moved(e, base):
    """16-byte copy from the result slot to the first argument's slot"""
    if e[0] == "memcpy":
        return nrm(e[1]) == nrm(base) and nrm(e[2]) == nrm(ST)
    if e[0] == "store":
        v = e[2]
        return nrm(e[1]) == nrm(base) and v[0] == "ld" and nrm(v[1]) == nrm(ST)
    if e[0] == "call" and len(e[2]) == 2:
        return nrm(e[2][0]) == nrm(base) and nrm(e[2][1]) == nrm(ST)
    return False


def linker(R):
    """the function record: frameBaseAdjustment is 1 + arguments + frameSpaceNeeded"""
    import c25
    prog = ir.std("default")
    W = c25.Writer(R, prog)
    rec = c25.records(R, W, {fl: W.layout(fl) for fl in (0, 7)})
    R.count("function record fields", len(rec))
