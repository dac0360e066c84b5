"""C26: the library never ends the process and produces console output only where that is its purpose."""
import ir
from ir import iter_ops
TECHNIQUE = "call-graph effect analysis over the IR (closed lists of process-ending and console functions)"
NOTE = "internal assertions are outside the claim; external functions are recognised by their C library names"

END = {"exit", "_exit", "_Exit", "quick_exit", "abort", "raise", "kill", "longjmp", "siglongjmp", "_longjmp", "__longjmp_chk", "__cxa_throw", "_ZSt9terminatev", "llvm.trap",
       "system", "fork", "execv", "execl", "execvp", "popen", "__cxa_rethrow", "signal", "sigaction", "err", "errx", "perror_exit", "llvm.debugtrap", "pthread_exit", "killpg", "atexit"}
OUT = {"printf", "puts", "putchar", "vprintf", "perror", "putc", "__printf_chk", "fputs", "fputc", "fprintf", "vfprintf", "__fprintf_chk", "fwrite", "fflush", "write", "dprintf", "putw", "psignal", "warn", "warnx", "syslog", "fputs_unlocked", "_IO_putc"}


def check(R):
    R.rule("no function refers to a process-ending function; console functions are used only by library callbacks, the output hook, the compiler's error report and developer dump helpers")
    for cfg in ("default", "compact", "slices", "mfail"):
        prog = ir.std(cfg)
        hook = prog.one("wr_stdout").name
        lib = {f.name for f in prog.defined() if f.file.startswith("discrete_src/lib/")}
        for f in prog.defined():
            R.count("functions")
            if f.file.startswith("discrete_src/debug/"):
                continue
            for I in f.insts():
                for o in iter_ops(I):
                    if o[0] == "fn" and o[1] in END:
                        R.violation("C26:end:%s:%s" % (f.short, o[1]), I.loc(), "%s calls %s" % (f.short, o[1]))
                    to = None
                    if o[0] == "fn" and o[1] in OUT:
                        to = o[1]
                    elif o[0] == "g" and o[1] in ("stdout", "stderr", "_ZSt4cout", "_ZSt4cerr"):
                        to = o[1]
                    elif o[0] == "fn" and o[1] == hook:
                        to = "wr_stdout"
                    if not to:
                        continue
                    R.count("console/file output references")
                    if f.name in lib and not reached_from_core(prog, f, lib) and not (console(f, I, to) and not for_output(prog, f)):
                        continue
                    if reports_compile_error(prog, f, I) or dead(prog, f):
                        R.count("compile error reports")
                        continue
                    R.violation("C26:out:%s:%s" % (f.short, to), I.loc(), "%s writes to the console (%s)" % (f.short, to))
            t = [I for I in f.insts() if I.op == "unreachable"]
    R.floor("functions", 2500)
    R.floor("console/file output references", 8)


FILES = {"fputs", "fputc", "fprintf", "vfprintf", "__fprintf_chk", "fwrite", "fflush", "putc", "_IO_putc", "putw", "fputs_unlocked"}


def console(f, I, to):
    """output that goes to the console rather than to a file or descriptor the script named"""
    if to in FILES:  # only to the console when handed stdout or stderr, whose use is reported itself
        return False
    if to in ("write", "dprintf"):
        fd = I.ops[1] if I.op in ("call", "invoke") and len(I.ops) > 1 else None
        return bool(fd) and constants(f, fd, set()) & {1, 2} != set()
    return True


def constants(f, o, seen):
    if o[0] == "c":
        return {o[1]}
    if o[0] != "i" or o[1] in seen:
        return set()
    seen.add(o[1])
    I = f.val[o[1]]
    if I.op in ("select", "zext", "sext", "trunc"):
        return set().union(*[constants(f, x, seen) for x in (I.ops[1:] if I.op == "select" else I.ops)])
    if I.op == "phi":
        return set().union(*[constants(f, x[0], seen) for x in I.ops])
    return set()


def for_output(prog, f):
    """the output hook, or a library function whose script name says that it prints"""
    if f.short in ("wr_stdout", "wr_printf", "wr_tprint"):
        return True
    for g in prog.defined():
        for I in g.insts():
            if I.op == "call" and I.ops and I.ops[0][0] == "fn" and "wr_registerLibraryFunction" in I.ops[0][1] and ["fn", f.name] in [list(o) for o in I.ops[1:]]:
                for o in I.ops[1:]:
                    if o[0] == "g":
                        d = (prog.globals.get(o[1]) or {}).get("init")
                        t = d[1] if d and d[0] == "data" and isinstance(d[1], str) else ""
                        if any(w in t for w in ("print", "log", "dump")):
                            return True
    return False


def dead(prog, f):
    """no caller in the library (developer helper)"""
    return not prog.callers().get(f.name) and not f.addr


def reached_from_core(prog, f, lib):
    """an output helper of lib/ that the core (vm, cc, utils) calls directly"""
    return any(c.fn.name not in lib and not c.fn.file.startswith(("discrete_src/debug/", "discrete_src/lib/")) for c in prog.callers().get(f.name, []))


def reports_compile_error(prog, f, I):
    """the compiler's entry point, on a path where an error was recorded: dominated by the true side of a test of m_err"""
    for B in f.blocks:
        t = B.insts[-1]
        if t.op != "br" or len(B.succ) != 2:
            continue
        c, tb, fb = f.cond(t)
        if c[0] != "i":
            continue
        ci = f.val[c[1]]
        if ci.op != "icmp" or ci.x not in ("ne", "eq"):
            continue
        z = [o for o in ci.ops if o[0] == "c" and o[1] == 0]
        v = [o for o in ci.ops if o[0] == "i"]
        if not z or not v:
            continue
        src = f.val[v[0][1]]
        while src.op in ("zext", "sext", "trunc"):
            src = f.val[src.ops[0][1]]
        name = None
        if src.op == "load":
            g = ir.gep_field(f, src.ops[0])
            if g:
                for st, off in ((g[2], g[3]), (g[0], g[1])):
                    for x in (prog.types.get("struct " + st) or {}).get("fields", []):
                        if x[1] == off and x[0] in ("m_err", "err"):
                            name = x[0]
        if not name:
            continue
        side = tb if ci.x == "ne" else fb
        if f.dominates(side, I.bb.i) and len(f.blocks[side].pred) == 1:
            return True
    return False
