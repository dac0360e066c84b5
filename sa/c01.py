"""C01: opcode enumeration, label table, switch labels and name table agree."""
import ir, vm

LEVEL = "other"


def cstr(prog, o):
    if o[0] != "g":
        return None
    g = prog.globals[o[1]]
    i = g.get("init")
    if not i:
        return None
    if i[0] == "data" and isinstance(i[-1], str):
        return i[-1].split("\0")[0]
    return None


def name_tables(prog, n):
    """constant arrays of at least n C strings: {global: [strings]}"""
    out = {}
    for g, d in prog.globals.items():
        i = d.get("init")
        if i and i[0] == "agg" and len(i[1]) >= n:
            ss = [cstr(prog, e) for e in i[1]]
            if all(s is not None for s in ss):
                out[g] = ss
    return out


def opcodes(prog):
    e = prog.enum("WROpcode")
    if "O_HASH_PLACEHOLDER" in e:
        last = e["O_HASH_PLACEHOLDER"]
    else:
        last = e["O_LAST"]
    return {v: n[2:] for n, v in e.items() if v < last}, last


def check(R):
    R.rule("for every enumerator of the opcode enumeration below the meta opcodes: the label table (table builds) and the "
           "case labels (switch build) hold an entry; the abstract handler summary (operand reads, stores, calls, branches, "
           "final pc/stack/frame) reached through the table equals the one reached through the switch; c_opcodeName[k] is the enumerator's name")
    table = ir.std("compact")
    sw = ir.std("really")
    dflt = ir.std("default")
    ops, last = opcodes(dflt)
    R.count("opcodes", len(ops))
    R.floor("opcodes", 240)
    for k in range(last):
        if k not in ops:
            R.violation("gap:%d" % k, "discrete_src/utils/opcode.h", "opcode number %d has no enumerator" % k)
    I = {c: vm.Interp(p) for c, p in (("compact", table), ("really", sw), ("default", dflt))}
    if I["compact"].mode == I["really"].mode:
        raise ir.AnalysisBroken("both configurations use the same dispatch mode")
    for c, it in I.items():
        for k, n in sorted(ops.items()):
            R.count("dispatch entries")
            if k not in it.entries:
                R.violation("missing:%s:%s" % (c, n), it.fn.file + ":%d" % it.fn.line, "opcode %s (%d) has no handler in the %s build" % (n, k, c))
    N1, N2 = vm.Namer(table), vm.Namer(sw)
    sums = {}
    for k, n in sorted(ops.items()):
        if k not in I["compact"].entries or k not in I["really"].entries:
            continue
        a = sorted(set(N1.path(p) for p in I["compact"].handler(k)))
        b = sorted(set(N2.path(p) for p in I["really"].handler(k)))
        R.count("handler pairs compared")
        R.count("handler paths", len(a) + len(b))
        ka, kb = list(map(strip, a)), list(map(strip, b))
        sums[k] = (tuple(ka), tuple(kb))
        if sorted(set(ka)) != sorted(set(kb)):
            blk = I["compact"].fn.blocks[I["compact"].entries[k]]
            blk2 = I["really"].fn.blocks[I["really"].entries[k]]
            R.violation("differ:" + n, "%s (table) / %s (switch)" % (loc(blk), loc(blk2)),
                        "opcode %s selects different implementations in the table and the switch interpreter" % n)
    R.floor("handler pairs compared", 240)
    # the full-speed table must list handlers in the same order as the compact one: same source label per opcode
    tabs = name_tables(dflt, last)
    cand = [t for t, ss in tabs.items() if sum(1 for k, n in ops.items() if k < len(ss) and ss[k] == n) > len(ops) // 2]
    if len(cand) != 1:
        raise ir.AnalysisBroken("opcode name table not found (%d candidates)" % len(cand))
    ss = tabs[cand[0]]
    for k, n in sorted(ops.items()):
        R.count("name table rows")
        if k >= len(ss) or ss[k] != n:
            R.violation("name:" + n, "%s:%d" % (ir.relfile(dflt.globals[cand[0]]["file"]), dflt.globals[cand[0]]["line"]),
                        "opcode %d is %s but the name table says %s" % (k, n, ss[k] if k < len(ss) else "<missing>"))
    R.sample({"opcode": "BZ8", "paths": [str(x)[:300] for x in sums.get(I["compact"].opnum.get("BZ8"), ((),))[0][:2]]})


def strip(p):
    end, regs, ev = p
    # value numbers of prologue temporaries are not comparable between builds
    return (end, regs, tuple(e for e in ev if "pro" not in e))


def loc(B):
    for i in B.insts:
        if i.line:
            return i.loc()
    return B.fn.file
