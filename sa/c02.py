"""C02: operand bytes per instruction agree between builds and with the disassembler."""
import ir, vm, cprop
from c01 import opcodes

LEVEL = "other"
PC = ("reg", "PC")


def adv(t):
    """final pc term -> constant advance or None"""
    if t == PC:
        return 0
    if t[0] == "ptr" and t[1] == PC and not t[3]:
        return t[2]
    return None


def relative(t):
    return t == PC or (t[0] == "ptr" and t[1] == PC)


def extent(p):
    """one past the last operand byte read on a path (constant offsets only)"""
    m = 0

    def walk(x):
        nonlocal m
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "code" and isinstance(x[1], int):
                m = max(m, x[1] + x[2] // 8)
                return
            for y in x:
                walk(y)
    for e in p.events:
        walk(e[:-1])
    for r, v in p.regs.items():
        if r in ("PC", "ST", "FB", "A", "B"):
            walk(v)
    return m


def lookahead(p):
    """(offset, opcode) when the path tested that the byte after the operands is a given opcode"""
    for e in p.events:
        if e[0] == "br" and e[2] and e[1][0] == "cmp" and e[1][1] == "eq":
            for a, b in ((e[1][2], e[1][3]), (e[1][3], e[1][2])):
                if b[0] == "k" and a[0] in ("code", "z"):
                    c = a if a[0] == "code" else a[1]
                    if c[0] == "code" and c[2] == 8:
                        return c[1], b[1]
    return None


def disasm_sizer(prog, last):
    """the function that maps an opcode to its operand size for the disassembler: by signature and switch"""
    best = None
    for f in prog.defined():
        if f.ret != "i32" or "disassemble" not in f.file:
            continue
        for B in f.blocks:
            t = B.insts[-1]
            if t.op == "switch" and len(t.x) > 60 and (best is None or len(t.x) > best[1]):
                best = (f, len(t.x))
    return best[0] if best else None


def check(R):
    R.rule("per opcode: the set of final-pc terms over all continuing handler paths is the same in the full-speed, compact and switch "
           "builds; all straight-line paths of one handler advance by one constant; every operand byte read lies inside that advance; "
           "the disassembler's size function, by constant propagation of the opcode, returns that constant")
    progs = {c: ir.std(c) for c in ("default", "compact", "really", "slices")}
    its = {c: vm.Interp(p) for c, p in progs.items()}
    nam = {c: vm.Namer(p) for c, p in progs.items()}
    ops, last = opcodes(progs["default"])
    H = {}
    length = {}
    for k, n in sorted(ops.items()):
        sets = {}
        for c, it in its.items():
            ps = [p for p in it.handler(k)]
            H[c, k] = ps
            s = set()
            for p in ps:
                R.count("handler paths")
                if p.end[0] == "dispatch":
                    s.add(nam[c].t(p.regs["PC"]))
            sets[c] = s
        ref = sets["default"]
        for c in its:
            R.count("pc update sets compared")
            if sets[c] != ref:
                blk = its[c].fn.blocks[its[c].entries[k]]
                R.violation("pc:%s:%s" % (c, n), where(its[c], k), "%s: %s build continues at %s, full-speed build at %s"
                            % (n, c, sorted(sets[c] - ref) or sorted(sets[c]), sorted(ref - sets[c]) or sorted(ref)))
    # constants, look-ahead resolved in a second pass
    for k, n in sorted(ops.items()):
        cs = {}
        looped = False
        for c, it in its.items():
            for p in H[c, k]:
                if p.trunc:
                    looped = True
                if p.end[0] == "dispatch":
                    a = adv(p.regs["PC"])
                    if a is not None:
                        la = lookahead(p)
                        if la:
                            cs.setdefault(("la", la[0], la[1], a), (c, p))
                        else:
                            cs.setdefault(a, (c, p))
        plain = sorted(x for x in cs if not isinstance(x, tuple))
        variable = any(p.end[0] == "dispatch" and relative(p.regs["PC"]) and adv(p.regs["PC"]) is None for p in H["default", k])
        if looped and len(plain) > 1:
            continue      # the advance depends on the literal's length
        if len(plain) > 1:
            R.violation("two-lengths:" + n, where(its["default"], k), "%s advances by %s operand bytes on different straight-line paths" % (n, plain))
        if plain:
            length[k] = plain[0]
        elif not variable:
            # does not continue here (return, stop, yield): operands are what it reads / the saved resume point
            for p in H["default", k]:
                for e in p.events:
                    if e[0] == "store" and nam["default"].t(e[1]) == "ctx.yield_pc" and adv(e[2]) is not None:
                        length[k] = adv(e[2])
    for k, n in sorted(ops.items()):
        if k in length:
            for c in its:
                for p in H[c, k]:
                    la = lookahead(p)
                    x = extent(p)
                    lim = length[k] + (1 if la else 0)
                    if p.end[0] == "dispatch" and la:
                        a = adv(p.regs["PC"])
                        if la[1] in length and a is not None and a != length[k] and a != la[0] + 1 + length[la[1]]:
                            R.violation("fused:" + n, where(its[c], k), "%s skips %d bytes over a following %s, expected %d"
                                        % (n, a, ops.get(la[1]), la[0] + 1 + length[la[1]]))
                        continue
                    R.count("operand extents")
                    if x > lim and not variablelen(n):
                        nxt = [e for e in p.events if e[0] == "br"]
                        # a test of the next opcode byte that was not taken
                        if any(peek(e, length[k]) for e in nxt) and x == length[k] + 1:
                            continue
                        R.violation("extent:%s:%s" % (c, n), where(its[c], k), "%s reads operand byte %d but is only %d operand bytes long" % (n, x - 1, length[k]))
    R.floor("handler paths", 1200)
    # disassembler
    f = disasm_sizer(progs["default"], last)
    if f is None:
        raise ir.AnalysisBroken("disassembler size function not found")
    cp = cprop.CP(progs["default"])
    argn = [i for i, a in enumerate(f.args) if a[1] == "i8"]
    if len(argn) != 1:
        raise ir.AnalysisBroken("opcode argument of the disassembler not identified")
    for k, n in sorted(ops.items()):
        args = [None] * len(f.args)
        args[argn[0]] = k
        rs = cp.call(f, args)
        R.count("disassembler sizes")
        if k in length:
            if rs != {length[k]} and not (rs == {None}):
                R.violation("disasm:" + n, "%s:%d %s" % (f.file, f.line, f.short), "disassembler steps over %s operand bytes of %s, the interpreter consumes %d"
                            % (sorted(x for x in rs if x is not None), n, length[k]))
            elif rs == {None}:
                R.violation("disasm-unknown:" + n, "%s:%d %s" % (f.file, f.line, f.short), "disassembler computes a data-dependent size for %s, the interpreter a fixed %d" % (n, length[k]))
        else:
            ext = max([extent(p) for p in H["default", k]] or [0])
            if rs != {None} and None not in rs and max(rs) < ext:
                R.violation("disasm-short:" + n, "%s:%d %s" % (f.file, f.line, f.short), "disassembler steps over %s bytes of %s, the interpreter reads %d" % (sorted(rs), n, ext))
    R.floor("disassembler sizes", 240)
    R.count("opcodes with fixed length", len(length))
    R.floor("opcodes with fixed length", 200)
    R.sample({ops[k]: v for k, v in list(length.items())[:40]})


def variablelen(n):
    return n in ("LiteralString", "Switch", "SwitchLinear", "CallFunctionByIndex")


def peek(e, off):
    c = e[1]
    if c[0] == "cmp" and c[1] in ("eq", "ne"):
        for a in (c[2], c[3]):
            if a[0] == "z":
                a = a[1]
            if a == ("code", off, 8):
                return True
    return False


def where(it, k):
    B = it.fn.blocks[it.entries[k]]
    for i in B.insts:
        if i.line:
            return i.loc()
    return it.fn.file
