"""C07: integer division and remainder on script-controlled values never trap.

Every sdiv/srem/udiv/urem instruction of the runtime and libraries whose divisor is not a constant is an obligation.  The divisor's possible
values at the instruction come from LLVM's branch-sensitive interval analysis (LazyValueInfo) on IR in which redundant loads were merged."""
import ir
from ir import AnalysisBroken
TECHNIQUE = "interval dataflow (LLVM LazyValueInfo) over every integer division in the IR, plus provenance slicing of the divisor"
NOTE = "trusts LLVM's interval analysis; moduli of internal hash tables (field m_mod, prime table, switch tables in bytecode) are exempt by provenance"

DIV = ("sdiv", "srem", "udiv", "urem")


def leaves(fn, o, prog, seen=None):
    """where a value comes from: constants, fields, other"""
    seen = set() if seen is None else seen
    if o[0] in ("c", "undef"):
        return {("c", o[1] if o[0] == "c" else None)}
    if o[0] != "i":
        return {("other", o[0])}
    if o[1] in seen:
        return set()
    seen.add(o[1])
    I = fn.val[o[1]]
    if I.op == "phi":
        r = set()
        for v, _ in I.ops:
            r |= leaves(fn, v, prog, seen)
        return r
    if I.op == "select":
        return leaves(fn, I.ops[1], prog, seen) | leaves(fn, I.ops[2], prog, seen)
    if I.op in ("zext", "sext", "trunc", "freeze"):
        return leaves(fn, I.ops[0], prog, seen)
    if I.op == "load":
        g = ir.gep_field(fn, I.ops[0])
        if g:
            for st, off in ((g[2], g[3]), (g[0], g[1])):
                s = prog.types.get("struct " + st)
                for f in (s or {}).get("fields", []):
                    if f[1] == off and f[0] == "m_mod":
                        return {("mod",)}
        b, off = ir.ptr_base(fn, I.ops[0])
        if b == ["a", 0] and fn.short.startswith("WRHashTable<"):
            return {("mod",)}    # the table's own field, read by one of its member functions
        if b[0] == "g" and prog.globals.get(b[1], {}).get("const"):
            return {("table", b[1])}
        if b[0] == "g" and prime_like(prog.globals.get(b[1], {})):
            return {("table", b[1])}
        return {("load", I.id)}
    return {(I.op, I.id)}


def prime_like(g):
    i = g.get("init")
    return bool(i and i[0] == "data" and isinstance(i[1], list) and len(i[1]) > 4)


def check(R):
    R.rule("at every integer division/remainder with a non-constant divisor in vm/, lib/ and utils/, the divisor cannot be 0, and for signed "
           "operations it cannot be -1 while the dividend can be the most negative value")
    R.assume("moduli of the runtime's own hash tables (m_mod, prime table, switch table size in bytecode) are non-zero by construction")
    for cfg in ("default", "compact", "slices", "trapdiv"):
        prog = ir.ranged(cfg)
        for f in prog.defined():
            if not f.file.startswith(("discrete_src/vm/", "discrete_src/lib/", "discrete_src/utils/")):
                continue
            for I in f.insts():
                if I.op not in DIV:
                    continue
                R.count("integer divisions seen")
                d = I.ops[1]
                lv = leaves(f, d, prog)
                if all(x[0] == "c" for x in lv):
                    if any(x[1] == 0 for x in lv):
                        R.violation("C07:%s:constant-zero" % f.short, I.loc(), "%s divides by a value that can be the constant 0" % f.short)
                    if I.op[0] == "s" and any(x[1] == -1 for x in lv) and I.x["min"]:
                        R.violation("C07:%s:overflow" % f.short, I.loc(), "%s divides by -1 while the dividend can be the most negative integer" % f.short)
                    continue
                if all(x[0] in ("mod", "table", "c") for x in lv):
                    R.count("table moduli (exempt)")
                    continue
                if is_code_read(f, d):
                    R.count("table moduli (exempt)")
                    continue
                # a sign-extended divisor: the interval of the narrow value is the informative one (a wrapped interval does not survive sext)
                x = I.x
                R.count("obligations")
                R.sample("%s %s in %s: zero=%d m1=%d min=%d" % (cfg, I.op, f.short, x["zero"], x["m1"], x["min"]))
                if x["zero"]:
                    R.violation("C07:%s:zero" % f.short, I.loc(), "%s (%s): the divisor of this %s can be zero when it is executed" % (f.short, cfg, I.op))
                if I.op[0] == "s" and x["m1"] and x["min"]:
                    R.violation("C07:%s:overflow" % f.short, I.loc(),
                                "%s (%s): this %s can divide the most negative integer by -1" % (f.short, cfg, I.op))
    R.floor("obligations", 15)
    R.floor("integer divisions seen", 60)


def is_code_read(fn, o):
    """divisor assembled from bytes reached through the bytecode pointer (16 bit operand)"""
    lv = set()

    def walk(o, seen):
        if o[0] == "c":
            return True
        if o[0] != "i" or o[1] in seen:
            return o[0] == "i"
        seen.add(o[1])
        I = fn.val[o[1]]
        if I.op in ("or", "shl", "zext", "sext", "trunc", "add", "and"):
            return all(walk(x, seen) for x in I.ops)
        if I.op == "phi":
            return all(walk(v, seen) for v, _ in I.ops)
        if I.op == "load" and I.ty in ("i8", "i16"):
            lv.add(I.id)
            return True
        return False
    if not walk(o, set()) or not lv:
        return False
    # the address is the interpreter's instruction pointer: it is what the dispatch loads opcodes through
    for l in lv:
        I = fn.val[l]
        b, _ = ir.ptr_base(fn, I.ops[0])
        if I.ty not in ("i8", "i16"):
            return False
        if fn.prog.config and not pc_like(fn, b):
            return False
    return True


def pc_like(fn, b):
    # a pointer that is also advanced and used to fetch the opcode of an indirect dispatch or switch, or a ROM table field
    if b[0] == "i":
        I = fn.val[b[1]]
        if I.op == "phi":
            for u in fn.uses().get(I.id, []):
                if u.op == "load" and u.ty == "i8":
                    return True
                if u.op == "getelementptr":
                    return True
        if I.op == "load":
            g = ir.gep_field(fn, I.ops[0])
            return bool(g)
    return b[0] == "a"
