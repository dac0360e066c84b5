"""C05: every jump and branch consumes time-slice budget."""
import ir, vm
from c01 import opcodes
from c02 import adv, where, relative

TECHNIQUE = "per-instruction dataflow summaries of the interpreter (LLVM IR): budget accounting on every branch path"
FORWARD = ("Switch", "SwitchLinear", "LiteralString")      # always move forward; entered through a counted jump


def holds_at_zero(c, dec):
    """truth of a comparison of the decremented budget with a constant, at budget 0; None if it is something else"""
    if c[0] != "cmp":
        return None
    a, b, p = c[2], c[3], c[1]
    if b == dec and a[0] == "k":
        a, b = b, a
        p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
    if a != dec or b[0] != "k":
        return None
    k = b[1]
    return {"eq": 0 == k, "ne": 0 != k, "slt": 0 < k, "sle": 0 <= k, "sgt": 0 > k, "sge": 0 >= k,
            "ult": 0 < k, "ule": 0 <= k, "ugt": 0 > k, "uge": 0 >= k}[p]


def truth_of(c, polarity, is_x):
    """does the branch (cond, polarity) say that the boolean-ish term x is true/false?  x recognised by is_x"""
    if c[0] == "cmp" and c[1] in ("eq", "ne"):
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if b == ("k", 0) and is_x(strip(a)):
                return polarity == (c[1] == "ne")
    if is_x(strip(c)):
        return polarity
    d, neg = vm.plain(c)
    if d != c:
        return truth_of(d, polarity != neg, is_x)
    return None


def strip(t):
    while t[0] in ("z", "s") or (t[0][0] == "t" and t[0][1:].isdigit()):
        t = t[1]
    return t


def check(R):
    R.rule("in the time-slice builds every handler that can continue at a displacement taken from the instruction stream stores budget-1 exactly once on "
           "every path, goes on only when that value is not zero or yielding is disabled, and otherwise suspends; every entry (call or resume) reloads the "
           "budget from the configured slice size and enables yielding exactly when that is not zero")
    R.assume("switch instructions only move forward and are reached through a counted jump; calls and returns are bounded by the stack")
    for cfg in ("slices", "cslices"):
        prog = ir.std(cfg)
        it = vm.Interp(prog)
        N = vm.Namer(prog)
        ops, last = opcodes(prog)
        nbr = 0

        def isx(name):
            return lambda t: t[0] == "ld" and N.a(t[1]) == name

        for k, n in sorted(ops.items()):
            ps = it.handler(k)
            br = any(p.end[0] == "dispatch" and relative(p.regs["PC"]) and adv(p.regs["PC"]) is None for p in ps)
            if not br or n in FORWARD:
                continue
            nbr += 1
            R.count("branch instructions")
            for p in ps:
                susp = any(e[0] == "store" and N.t(e[1]) == "ctx.yield_pc" for e in p.events)
                if p.end[0] != "dispatch" and not susp:
                    continue
                R.count("branch paths")
                decs = [e for e in p.events if e[0] == "store" and N.a(e[1]) == "w.sliceInstructionCount"]
                old = [e for e in decs if vm.addp(e[2], 1)[0] == "ld" and N.a(vm.addp(e[2], 1)[1]) == "w.sliceInstructionCount"]
                if len(decs) != 1 or len(old) != 1:
                    R.violation("budget:%s:%s" % (cfg, n), where(it, k), "%s changes the slice budget %d times (%s) on a path, expected one decrement"
                                % (n, len(decs), ", ".join(N.t(e[2]) for e in decs)))
                    continue
                dec = old[0][2]
                exhausted = None
                enabled = None
                for e in p.events:
                    if e[0] == "br":
                        h = holds_at_zero(e[1], dec)
                        if h is not None:
                            exhausted = (h == e[2])       # this path is the one budget 0 takes
                        t = truth_of(e[1], e[2], isx("w.yieldEnabled"))
                        if t is not None:
                            enabled = t
                if p.end[0] == "dispatch" and exhausted is not False and enabled is not False:
                    R.violation("ignored:%s:%s" % (cfg, n), where(it, k), "%s continues although the slice budget is used up" % n)
                if susp and (exhausted is not True or enabled is not True):
                    R.violation("spurious:%s:%s" % (cfg, n), where(it, k), "%s suspends the script while budget remains or yielding is disabled" % n)
        if nbr < 70:
            raise ir.AnalysisBroken("only %d branch instructions recognised in %s" % (nbr, cfg))
        # entry: budget reload
        w = vm.Walker(it.fn, {}, it, 2)
        w.go(0, None)
        for p in w.paths:
            R.count("entry paths")
            if p.end[0] != "dispatch":
                continue
            per = None
            st = {}
            for e in p.events:
                if e[0] == "br":
                    t = truth_of(e[1], e[2], isx("w.instructionsPerSlice"))
                    if t is not None:
                        per = t
                if e[0] == "store":
                    st[N.a(e[1])] = e[2]
            loc = "%s:%d %s" % (it.fn.file, it.fn.line, it.fn.short)
            en, ct = st.get("w.yieldEnabled"), st.get("w.sliceInstructionCount")
            if en is None:
                R.violation("entry-enable:" + cfg, loc, "execution starts without deciding whether yielding is enabled")
            elif en[0] == "k" and per is not None:
                if bool(en[1]) != per:
                    R.violation("entry-enable:" + cfg, loc, "yielding is %s when the slice size is %szero" % ("enabled" if en[1] else "disabled", "non" if per else ""))
            elif not (truth_of(en, True, isx("w.instructionsPerSlice"))):
                R.violation("entry-enable:" + cfg, loc, "yielding is set from %s, not from the slice size" % N.t(en))
            if per is not False and not (ct is not None and isx("w.instructionsPerSlice")(strip(ct))):
                R.violation("entry-budget:" + cfg, loc, "execution starts with slice budget %s instead of the configured slice size" % (N.t(ct) if ct else "left over"))
    R.floor("branch instructions", 140)
    R.floor("branch paths", 300)
    R.floor("entry paths", 20)
