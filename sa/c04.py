"""C04: stack protection covers every push."""
import ir, vm
from lin import lin, sub, add, Bounds, NEG
from c01 import opcodes
from c02 import where

TECHNIQUE = "inductive invariant over per-instruction dataflow summaries of the interpreter (LLVM IR)"
ST, FB = ("reg", "ST"), ("reg", "FB")
SLOT = 16


class Ctx:
    def __init__(self, R, prog, it, cfg):
        self.R, self.prog, self.it, self.cfg = R, prog, it, cfg
        self.N = vm.Namer(prog)
        self.err = prog.enum("WRError")["WR_ERR_stack_overflow"]
        o = it.off
        self.stack = ("ld", vm.mkptr(("arg", 0), o["stack"], ()), "ptr")

    def limit(self, t):
        """is t a stack limit term: ctx.stack + 16*stackSize + c (c <= 0)?  returns (c, other atoms)"""
        c, d = lin(t)
        d = dict(d)
        if d.pop(self.stack, 0) != 1:
            return None
        k = [a for a in d if a[0] == "ld" and self.N.t(a[1]) == "w.stackSize"]
        if len(k) != 1 or d.pop(k[0]) != SLOT:
            return None
        return c, d

    def guard(self, e):
        """br event -> (X term, delta) meaning X <= L - delta, or ('over',) for the failing side"""
        c = e[1]
        if c[0] != "cmp":
            return None
        for x, l, pred in ((c[2], c[3], c[1]), (c[3], c[2], {"uge": "ule", "ule": "uge", "ugt": "ult", "ult": "ugt"}.get(c[1]))):
            if pred is None:
                continue
            m = self.limit(l)
            if m is None or self.limit(x) is not None:
                continue
            p = pred if e[2] else NEG[pred]
            if p == "ult":
                return x, SLOT, m
            if p == "ule":
                return x, 0, m
            if p in ("uge", "ugt", "eq"):
                return None, "over", m
        return None


def run_paths(it, start):
    """paths of a region; loops unrolled five times where the region has one"""
    ps = start(2)
    if any(p.trunc for p in ps):
        ps = start(5)
    return ps


def check(R):
    R.rule("invariant: between instructions the stack top is below limit = context.stack + (stackSize-h) slots. Assuming it at the start of every "
           "handler (and of the entry/resume code), every path must (1) write stack slots only at addresses the tests passed so far bound by the end of "
           "the stack, (2) reach the next dispatch only with a stack top some passed test bounds below the limit, (3) leave through the stack-overflow "
           "error when a test fails")
    R.assume("a frame base and the locals addressed from it lie below the stack top of their own frame; functions called with a stack address write at most that slot")
    for cfg in ("slices", "cslices"):
        prog = ir.std(cfg)
        it = vm.Interp(prog)
        C = Ctx(R, prog, it, cfg)
        ops, last = opcodes(prog)
        # bytes between the limit and the end of the stack, from the tests themselves
        hs = set()
        for k in ops:
            for p in it.handler(k):
                for e in p.events:
                    g = C.guard(e) if e[0] == "br" else None
                    if g:
                        hs.add(-g[2][0])
        if not hs:
            raise ir.AnalysisBroken("no stack overflow test found")
        C.H = min(hs)
        R.sample({"config": cfg, "bytes above the limit": sorted(hs)})
        for k, n in sorted(ops.items()):
            def start(mv):
                it.maxvisit = mv
                return it.handler(k, mv)
            for p in run_paths(it, start):
                judge(C, p, n, where(it, k), [(lin(ST), SLOT), (lin(FB), SLOT)])
        # entry and resume
        def start(mv):
            w = vm.Walker(it.fn, {}, it, mv)
            w.go(0, None)
            return w.paths
        base = add(lin(C.stack), (0, {}))
        off = ("ld", vm.mkptr(("arg", 0), prog.offset("WRContext", "stackOffset"), ()), "i16")
        base = (base[0], dict(base[1]))
        base[1][off] = SLOT
        ysp = ("ld", vm.mkptr(("arg", 0), it.off["yield_stackTop"], ()), "ptr")
        yfb = ("ld", vm.mkptr(("arg", 0), it.off["yield_frameBase"], ()), "ptr")
        for p in run_paths(it, start):
            R.count("entry paths")
            judge(C, p, "entry", "%s:%d %s" % (it.fn.file, it.fn.line, it.fn.short), [(base, SLOT), (lin(ysp), SLOT), (lin(yfb), SLOT)],
                  roots=[C.stack, ysp])
    R.floor("handler paths", 1100)
    R.floor("pushes proved", 250)
    R.floor("overflow tests", 150)
    R.floor("stack writes proved", 300)


def judge(C, p, n, loc, facts, roots=()):
    R, N = C.R, C.N
    R.count("handler paths")
    B = Bounds()
    facts = list(facts)
    over = False
    H = C.H

    def isstack(t):
        _, d = lin(t)
        return any(k == 1 and (a == ST or a in roots) for a, k in d.items())

    for e in p.events:
        if e[0] == "br":
            g = C.guard(e)
            if g:
                R.count("overflow tests")
                m = g[2]
                if m[1]:
                    R.violation("limit:%s" % C.cfg, loc, "the stack limit %s is not measured from the start of the stack" % N.t(e[1]))
                if g[1] == "over":
                    over = True
                else:
                    facts.append((lin(g[0]), g[1]))
                continue
            B.learn(e)
        w = None
        if e[0] == "store":
            w = [e[1]]
        elif e[0] == "memcpy":
            w = [e[1]]
        elif e[0] == "call" or e[0] == "icall":
            w = [a for a in e[2] if a[0] in ("ptr", "reg") and isstack(a)]
        for a in w or ():
            if not isstack(a):
                continue
            R.count("stack writes proved")
            c, d = lin(a)
            c -= c % SLOT if all(x in (ST, FB) or x in roots for x in d) else 0
            if over:
                continue
            if not below_lin(B, facts, (c, d), H + SLOT):
                R.violation("write:%s:%s" % (C.cfg, n), e[-1].loc(), "%s: stack slot %s is written before any overflow test bounds it" % (n, N.t(a)))
    if over:
        errs = [e for e in p.events if e[0] == "store" and N.t(e[1]) == "w.err"]
        if p.end[0] != "ret" or not errs or errs[-1][2] != ("k", C.err):
            R.violation("unreported:%s:%s" % (C.cfg, n), loc, "%s: an exceeded stack limit does not end the call with the stack-overflow error" % n)
        return
    if p.end[0] == "dispatch":
        st = p.regs["ST"]
        if st != ST:
            R.count("pushes proved")
        if not below_lin(B, facts, lin(st), 0):
            R.violation("push:%s:%s" % (C.cfg, n), loc, "%s continues with stack top %s, which no overflow test on this path bounds" % (n, N.t(st)))


def below_lin(B, facts, lw, slack):
    """lw <= L - SLOT + slack provable from facts X <= L - delta?"""
    for X, dl in facts:
        d = sub(X, lw)
        if B.nonneg((d[0] + slack - SLOT + dl, d[1])):
            return True
    return False
