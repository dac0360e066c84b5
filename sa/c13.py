"""C13: bytecode is never modified by execution."""
import ir
import taint
import vm
TECHNIQUE = "interprocedural pointer-provenance (taint) analysis over the IR, with per-instruction path summaries for the interpreter"
NOTE = "provenance is followed through arguments, returns, address arithmetic and context fields; pointers parked in script values or containers are not followed"

FIELDS = ("bottom", "codeStart", "stopLocation", "yield_pc")


def check(R):
    R.rule("no store, memory copy destination or writing callee receives an address derived from the bytecode block, the instruction pointer or the context's code pointers; "
           "release of the block happens only in context destruction (see C27)")
    for cfg in ("default", "compact", "really", "slices"):
        prog = ir.std(cfg)
        it = vm.Interp(prog)
        off = {prog.offset("WRContext", f): f for f in FIELDS}
        imported = prog.offset("WRContext", "imported")
        params = [("wr_createContext", 1)]
        for n in ("wr_run", "wr_import", "wr_newContext", "wr_compile"):
            if prog.by_name(n, must=False) and n != "wr_compile":
                params.append((n, 1))

        def codebase(a, d=0):
            """term is an address inside the bytecode"""
            while a[0] == "ptr":
                a = a[1]
            if a == ("reg", "PC"):
                return True
            if a[0] == "ld" and a[1][0] == "ptr" and a[1][2] in off and not a[1][3]:
                b = a[1][1]
                while b[0] == "ld" and b[1][0] == "ptr" and b[1][2] == imported:
                    b = b[1][1]
                return b == ("arg", 0)    # the running context or one it imported
            if a[0] == "sel":
                return any(codebase(x, d + 1) for x in a[2:4])
            return False
        seeds = set()
        seen_codeptr = 0
        for k in sorted(it.entries):
            for P in it.handler(k):
                R.count("handler paths")
                for e in P.events:
                    if e[0] in ("store", "memcpy", "memset"):
                        R.count("interpreter writes")
                        if codebase(e[1]):
                            I = e[-1]
                            R.violation("C13:op%d" % k, I.loc() if hasattr(I, "loc") else it.fn.file, "an instruction handler (opcode %d, %s build) writes into the bytecode it executes" % (k, cfg))
                    elif e[0] == "call":
                        for n, a in enumerate(e[2]):
                            if codebase(a):
                                seeds.add((e[1], n))
        T = taint.Taint(prog, [("WRContext", x) for x in FIELDS], params, nofields=("WRValue", "WRGCObject"), stop=lambda f: f.name == it.fn.name,
                        named=seeds)
        for f in prog.defined():
            if f.name == it.fn.name:
                continue
            for I in f.insts():
                if I.op == "store" and T.has(f, I.ops[1]):
                    R.violation("C13:%s" % f.short, I.loc(), "%s writes into the bytecode block" % f.short)
                elif I.op == "call" and len(I.ops) > 1 and T.has(f, I.ops[1]) and I.ops[0][0] == "fn" and \
                        (I.ops[0][1].startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or I.ops[0][1] in ("strcpy", "strncpy", "read", "fread", "snprintf", "sprintf")):
                    R.violation("C13:%s" % f.short, I.loc(), "%s copies into the bytecode block" % f.short)
        R.count("values derived from bytecode", len(T.vals))
        R.sample("%s: context fields holding code pointers: %s" % (cfg, sorted(x[1] for x in T.fields)))
    R.floor("values derived from bytecode", 600)
    R.floor("interpreter writes", 300)
