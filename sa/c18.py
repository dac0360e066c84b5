"""C18: a null result comes with a recorded reason."""
import ir, vm
from c01 import opcodes
from c02 import where
from c05 import strip, truth_of

TECHNIQUE = "path enumeration over the interpreter's handlers and the run/continue API (LLVM IR): every null return is preceded by an error store or a suspension"


def check(R):
    R.rule("every path on which the interpreter or a run/continue/call entry point returns null has stored a non-zero error code, tested that one is set, "
           "saved a resume point, or returns the null of another such entry point; every path into the interpreter clears the error first")
    for cfg in ("default", "compact", "really", "slices", "cslices", "mfail", "cmfail"):
        prog = ir.std(cfg)
        it = vm.Interp(prog)
        N = vm.Namer(prog)
        ops, last = opcodes(prog)
        entry = {it.fn.name}
        ypc = prog.offset("WRContext", "yield_pc")
        fns = []
        for f in prog.defined():
            if f.short in ("wr_callFunction", "wr_continue", "wr_executeContext", "wr_createContext", "wr_newContext", "wr_returnValueFromLastCall") and f.ret == "ptr":
                if f.short != "wr_returnValueFromLastCall":
                    entry.add(f.name)
                    fns.append(f)
        if len(fns) < 6:
            raise ir.AnalysisBroken("run/continue entry points not found")

        def reason(p):
            r = False
            for e in p.events:
                if e[0] == "store" and is_err(prog, N, e):
                    r = e[2] != ("k", 0)
                elif e[0] == "store" and N.a(e[1]) == "ctx.yield_pc":
                    r = e[2] != ("k", 0)
                elif e[0] == "br":
                    if truth_of(e[1], e[2], lambda t: t[0] == "ld" and err_addr(prog, N, t[1])):
                        r = True
                    got = []
                    if truth_of(e[1], e[2], lambda t: t[0] == "call" and t[1] in entry and not got.append(t)) is False:
                        # the null of another context: it must not be a suspension of that one
                        c = got[0][2][0]
                        pcv = ("ld", ("ptr", c, ypc, ()), "ptr")
                        if got[0][1] != it.fn.name or c == ("arg", 0) or \
                                any(x[0] == "br" and truth_of(x[1], x[2], lambda t: t == pcv) is False for x in p.events):
                            r = True
            return r

        def nullret(p):
            if p.end[0] != "ret" or p.end[1] is None:
                return False
            v = p.end[1]
            if v == ("k", 0):
                return True
            # the value is null on this path
            return any(e[0] == "br" and truth_of(e[1], e[2], lambda t: t == v) is False for e in p.events) and v[0] != "call"

        for k, n in sorted(ops.items()):
            for p in it.handler(k):
                R.count("handler paths")
                if nullret(p):
                    R.count("null returns")
                    if not reason(p):
                        R.violation("null:%s:%s" % (cfg, n), last_loc(p) or where(it, k), "%s returns no value without recording an error or a suspension" % n)
        for f in [it.fn] + fns:
            w = vm.Walker(f, {}, it if f is it.fn else None, 2)
            w.go(0, None)
            for p in w.paths:
                R.count("entry paths")
                if nullret(p):
                    R.count("null returns")
                    if not reason(p):
                        R.violation("null:%s:%s" % (cfg, f.dem), last_loc(p) or "%s:%d" % (f.file, f.line), "%s returns no value without recording an error" % f.short)
                if f is it.fn:
                    es = [e for e in p.events if e[0] == "store" and is_err(prog, N, e)]
                    if not es or es[0][2] != ("k", 0):
                        R.violation("clear:" + cfg, "%s:%d %s" % (f.file, f.line, f.short), "execution starts without clearing the previous error")
    R.floor("null returns", 300)
    R.floor("entry paths", 300)


def err_addr(prog, N, a):
    s = N.a(a)
    if s == "w.err":
        return True
    # a WRState* argument or context->w
    return a[0] == "ptr" and not a[3] and a[2] == prog.offset("WRState", "err") and a[1][0] in ("arg", "ld")


def is_err(prog, N, e):
    return err_addr(prog, N, e[1]) and e[3] == "i8"


def last_loc(p):
    for e in reversed(p.events):
        if hasattr(e[-1], "loc") and e[-1].line:
            return e[-1].loc()
    return None
