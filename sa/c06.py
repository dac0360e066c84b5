"""C06: a suspended script resumes with the state it was suspended with."""
import ir, vm
from c01 import opcodes
from c02 import adv, where
from c05 import strip, truth_of

TECHNIQUE = "per-instruction dataflow summaries of the interpreter (LLVM IR): saved state vs continuing state, and save vs restore"
ST, FB, PC = ("reg", "ST"), ("reg", "FB"), ("reg", "PC")


def check(R):
    R.rule("on every path that suspends (stores a resume point and returns), the saved pc, stack top and frame base are exactly those of a path of the "
           "same instruction that continues, or for the explicit yield those after its operand; a forced suspension sets the force flag and zero "
           "arguments, an explicit one the argument count and not the flag; the resume code reloads those three fields, clears the resume point, clears "
           "the flag or keeps one slot for the result, and is entered by the public continue call only when a resume point is set")
    for cfg in ("default", "compact", "really", "slices", "cslices"):
        prog = ir.std(cfg)
        it = vm.Interp(prog)
        N = vm.Namer(prog)
        ops, last = opcodes(prog)
        force = prog.enum_value("WRC_ForceYielded")
        for k, n in sorted(ops.items()):
            ps = it.handler(k)
            cont = set()
            for p in ps:
                if p.end[0] == "dispatch":
                    cont.add((p.regs["PC"], p.regs["ST"], p.regs["FB"]))
            susp = set()
            for p in ps:
                st = {}
                for e in p.events:
                    if e[0] == "store":
                        st[N.a(e[1])] = e[2]
                if "ctx.yield_pc" not in st:
                    continue
                R.count("suspending paths")
                loc = where(it, k)
                if p.end[0] != "ret" or p.end[1] != ("k", 0):
                    R.violation("noreturn:%s:%s" % (cfg, n), loc, "%s saves a resume point but does not return to the host" % n)
                    continue
                fields = [st.get("ctx.yield_pc"), unwrap(st.get("ctx.yield_stackTop")), st.get("ctx.yield_frameBase")]
                if None in fields:
                    R.violation("incomplete:%s:%s" % (cfg, n), loc, "%s suspends without saving pc, stack top and frame base" % n)
                    continue
                forced = sets_flag(st.get("ctx.flags"), force)
                ya = st.get("ctx.yieldArgs")
                if forced:
                    susp.add(tuple(fields))
                    if ya != ("k", 0):
                        R.violation("args:%s:%s" % (cfg, n), loc, "%s: a forced suspension records %s yield arguments" % (n, N.t(ya) if ya else "stale"))
                    if tuple(fields) not in cont:
                        R.violation("state:%s:%s" % (cfg, n), loc, "%s suspends with pc=%s top=%s frame=%s, no continuing path has that state"
                                    % (n, N.t(fields[0]), N.t(fields[1]), N.t(fields[2])))
                else:
                    a = adv(fields[0])
                    if ya is None or strip(ya) != ("code", 0, 8) or a != 1 or fields[1] != ST or fields[2] != FB:
                        R.violation("yield:%s:%s" % (cfg, n), loc, "%s saves pc=%s top=%s frame=%s args=%s" %
                                    (n, N.t(fields[0]), N.t(fields[1]), N.t(fields[2]), N.t(ya) if ya else None))
            if susp and susp != cont:
                m = cont - susp
                R.violation("missing:%s:%s" % (cfg, n), where(it, k), "%s can continue at pc=%s but is never suspended there"
                            % (n, ", ".join(sorted(N.t(x[0]) for x in m))))
        # resume
        off = it.off
        y = {f: ("ld", vm.mkptr(("arg", 0), prog.offset("WRContext", f), ()), t) for f, t in
             (("yield_pc", "ptr"), ("yield_stackTop", "ptr"), ("yield_frameBase", "ptr"), ("yieldArgs", "i8"), ("flags", "i8"))}
        w = vm.Walker(it.fn, {}, it, 2)
        w.go(0, None)
        loc = "%s:%d %s" % (it.fn.file, it.fn.line, it.fn.short)
        nres = 0
        for p in w.paths:
            if p.end[0] != "dispatch":
                continue
            if adv_from(p.regs["PC"], y["yield_pc"]) is None:
                # a fresh start may only happen when no resume point is set
                if cond(p, y["yield_pc"]) is not False:
                    R.violation("fresh:" + cfg, loc, "execution can start afresh although a resume point is set")
                continue
            nres += 1
            R.count("resume paths")
            if cond(p, y["yield_pc"]) is not True:
                R.violation("resume-unset:" + cfg, loc, "execution resumes without a resume point being set")
            if adv_from(p.regs["PC"], y["yield_pc"]) != 0:
                R.violation("resume-pc:" + cfg, loc, "resume continues at %s" % N.t(p.regs["PC"]))
            if p.regs["FB"] != y["yield_frameBase"]:
                R.violation("resume-frame:" + cfg, loc, "resume restores frame base %s" % N.t(p.regs["FB"]))
            st = {}
            for e in p.events:
                if e[0] == "store":
                    st[N.a(e[1])] = e[2]
            if st.get("ctx.yield_pc") != ("k", 0):
                R.violation("resume-clear:" + cfg, loc, "the resume point is not cleared on resume")
            forced = flagtest(p, y["flags"], force)
            args = cond(p, y["yieldArgs"])
            sp = y["yield_stackTop"]
            want = sp
            if args:
                want = vm.mkptr(sp, 0, ((("op", "sub", ("k", 0), ("z", y["yieldArgs"])), 16),))
            if not forced:
                want = vm.addp(want, 16)
            if args is None or forced is None:
                R.violation("resume-mode:" + cfg, loc, "resume does not distinguish forced from explicit suspension or arguments from none")
            elif norm(p.regs["ST"]) != norm(want):
                R.violation("resume-top:" + cfg, loc, "resume (%s, %s arguments) continues with stack top %s, expected %s"
                            % ("forced" if forced else "explicit", "with" if args else "no", N.t(p.regs["ST"]), N.t(want)))
            if forced and not clears(st.get("ctx.flags"), y["flags"], force):
                R.violation("resume-flag:" + cfg, loc, "the force-yield flag survives the resume")
            if args:
                # the host's result replaces the arguments
                dst = norm(vm.mkptr(sp, 0, ((("op", "sub", ("k", 0), ("z", y["yieldArgs"])), 16),)))
                ok = any(e[0] == "memcpy" and norm(e[1]) == dst and norm(e[2]) == norm(sp) for e in p.events) or \
                    sum(1 for e in p.events if e[0] == "store" and norm(e[1])[1] == dst[1] and norm(e[1])[0] - dst[0] in (0, 8)) >= 2 or \
                    any(e[0] == "call" and len(e[2]) == 2 and norm(e[2][0]) == dst and norm(e[2][1]) == norm(sp) for e in p.events)
                if not ok:
                    R.violation("resume-result:" + cfg, loc, "the yield's result is not moved over its arguments on resume")
        if nres < 3:
            raise ir.AnalysisBroken("resume code not recognised in %s (%d paths)" % (cfg, nres))
        # public continue
        f = prog.one("wr_continue")
        w = vm.Walker(f, {})
        w.go(0, None)
        for p in w.paths:
            R.count("continue paths")
            calls = [e for e in p.events if e[0] == "call" and e[1] == it.fn.name]
            c = cond(p, y["yield_pc"])
            floc = "%s:%d %s" % (f.file, f.line, f.short)
            if calls and c is not True:
                R.violation("continue:" + cfg, floc, "wr_continue enters the interpreter without testing that the context is suspended")
            if calls and calls[0][2][1] != ("k", 0):
                R.violation("continue-fn:" + cfg, floc, "wr_continue starts a function instead of resuming")
            if not calls and c is not False:
                R.violation("continue-refuse:" + cfg, floc, "wr_continue refuses a suspended context")
        # any other place that resumes (the scheduler)
        for g in prog.defined():
            if g.name in (f.name, it.fn.name) or not any(I.ops[0] == ["fn", it.fn.name] for I in g.calls()):
                continue
            for evs in bodies(g):
                for j, e in enumerate(evs):
                    if e[0] != "call" or e[1] != it.fn.name or len(e[2]) < 3 or e[2][1] != ("k", 0):
                        continue
                    c = e[2][0]
                    if e[2][2] != ("ld", ("ptr", c, prog.offset("WRContext", "yield_argv"), ()), "ptr"):
                        continue
                    R.count("scheduler resumes")
                    pcv = ("ld", ("ptr", c, off["yield_pc"], ()), "ptr")
                    if not any(x[0] == "br" and truth_of(x[1], x[2], lambda t: t == pcv) is True for x in evs[:j]):
                        R.violation("resume-call:%s:%s" % (cfg, g.short), e[-1].loc(), "%s resumes a context without having tested that it is suspended" % g.short)
        # what the host is told about a suspended context
        f = prog.one("wr_getYieldInfo")
        w = vm.Walker(f, {})
        w.go(0, None)
        floc = "%s:%d %s" % (f.file, f.line, f.short)
        for p in w.paths:
            R.count("yield info paths")
            c = cond(p, y["yield_pc"])
            if p.end[0] != "ret" or p.end[1][0] != "k" or (bool(p.end[1][1]) != (c is True)):
                R.violation("info:" + cfg, floc, "wr_getYieldInfo answers %s when the resume point is %s" % (N.t(p.end[1]), {True: "set", False: "not set", None: "untested"}[c]))
            for e in p.events:
                if e[0] != "store":
                    continue
                want = {("arg", 2): [("z", y["yieldArgs"])],
                        ("arg", 1): [vm.mkptr(y["yield_stackTop"], 0, ((("op", "sub", ("k", 0), ("z", y["yieldArgs"])), 16),))],
                        ("arg", 3): [("k", 0), y["yield_stackTop"]]}.get(e[1])
                if not want:
                    continue
                v = e[2]
                if e[1] == ("arg", 3):
                    forced = flagtest(p, y["flags"], force)
                    if v[0] == "sel":
                        class Q:
                            events = [("br", v[1], True, None)]
                        ft = flagtest(Q, y["flags"], force)
                        a, b = (v[2], v[3]) if ft else (v[3], v[2])
                        ok = ft is not None and a == ("k", 0) and b == y["yield_stackTop"]
                    else:
                        ok = forced is not None and v == (("k", 0) if forced else y["yield_stackTop"])
                else:
                    ok = norm(v) in [norm(x) for x in want]
                if not ok:
                    R.violation("info-value:%s:%d" % (cfg, e[1][1]), e[-1].loc(), "wr_getYieldInfo reports %s" % N.t(v))
        # nobody else changes a saved state
        for fn in prog.defined():
            for I in fn.insts():
                if I.op == "store":
                    g = ir.gep_field(fn, I.ops[1])
                    if fn.name != it.fn.name and g and g[0] == "WRContext" and g[1] in (off["yield_pc"], off["yield_stackTop"], off["yield_frameBase"]):
                        R.violation("other:%s:%s" % (cfg, fn.short), I.loc(), "%s changes the saved state of a suspended context" % fn.short)
    R.floor("suspending paths", 300)
    R.floor("resume paths", 15)
    R.floor("continue paths", 10)
    R.floor("yield info paths", 15)


def bodies(f):
    """event lists of the function's paths and of every round of its loops"""
    import gcwalk
    out = []

    def add(evs):
        out.append(evs)
        for e in evs:
            if e[0] == "rec":
                for b, _ in e[1].back:
                    add(b)
                for b, _ in e[1].ret:
                    add(b)
    for p in gcwalk.paths(f):
        add(p.events)
    return out


def unwrap(t):
    """x->init() returns x"""
    if t and t[0] == "call" and len(t[2]) == 1:
        return t[2][0]
    return t


def sets_flag(t, bit):
    return t is not None and "or" in repr(t) and has(t, lambda x: x == ("k", bit))


def has(t, pred):
    if isinstance(t, tuple):
        if pred(t):
            return True
        return any(has(x, pred) for x in t)
    return False


def adv_from(t, base):
    if t == base:
        return 0
    if t[0] == "ptr" and t[1] == base and not t[3]:
        return t[2]
    return None


def cond(p, x):
    """what the path's branches say about x != 0"""
    r = None
    for e in p.events:
        if e[0] == "br" and e[1][0] == "cmp" and e[1][1] in ("eq", "ne"):
            for a, b in ((e[1][2], e[1][3]), (e[1][3], e[1][2])):
                if b == ("k", 0) and strip(a) == x:
                    r = e[2] == (e[1][1] == "ne")
    return r


def flagtest(p, x, bit):
    for e in p.events:
        if e[0] == "br" and e[1][0] == "cmp" and e[1][1] in ("eq", "ne"):
            for a, b in ((e[1][2], e[1][3]), (e[1][3], e[1][2])):
                a = strip(a)
                if b[0] == "k" and a[0] == "op" and a[1] == "and" and has(a, lambda t: t == x) and has(a, lambda t: t == ("k", bit)):
                    if b[1] == 0:
                        return e[2] == (e[1][1] == "ne")
                    if b[1] == bit:
                        return e[2] == (e[1][1] == "eq")
    return None


def clears(t, x, bit):
    """stored flags value is flags & ~bit"""
    if t is None:
        return False
    t = strip(t)
    if t[0] == "op" and t[1] in ("and", "xor"):
        ks = [a[1] for a in t[2:] if a[0] == "k"]
        return bool(ks) and ((t[1] == "and" and (ks[0] & 0xff) == (0xff ^ bit)) or (t[1] == "xor" and ks[0] == bit))
    return False


def norm(t):
    from lin import lin
    c, d = lin(t)
    return c, tuple(sorted(d.items(), key=repr))
