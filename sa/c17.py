"""C17: every error code has its own message."""
import difflib
import ir
from ir import AnalysisBroken
TECHNIQUE = "table/enum agreement over the IR's constant data plus a range rule on every constant stored as an error code"
NOTE = "decides the table contents and all constant error codes; message text is matched to the enumerator it is spelled after"


def check(R):
    R.rule("for every enumerator of the error enum below the warning marker, entry number (value) of the message table spells that enumerator; "
           "every constant stored in WRState::err or WRCompilationContext::m_err is such an enumerator or a user code")
    for cfg in ("default", "slices"):
        prog = ir.std(cfg)
        en = prog.enum("WRError")
        limit = en["WR_warning_enums_follow"]
        names = {v: k for k, v in en.items() if v < limit}
        g = prog.globals.get("c_errStrings")
        if not g:
            raise AnalysisBroken("message table not found")
        msgs = [text(prog, x) for x in elems(g["init"])]
        if len(names) < 40 or not msgs:
            raise AnalysisBroken("error enum or message table not understood")
        for v, n in sorted(names.items()):
            R.count("error codes")
            loc = "%s:%d c_errStrings[%d]" % (ir.relfile(g["file"]), g["line"], v)
            if v >= len(msgs) or msgs[v] is None:
                R.violation("C17:%s" % n, loc, "%s (%d) has no message" % (n, v))
                continue
            best = max(names.values(), key=lambda k: (difflib.SequenceMatcher(None, norm(k), norm(msgs[v])).ratio(), k == n))
            if best != n:
                R.violation("C17:%s" % n, loc, "the message for %s (%d) is \"%s\", which describes %s" % (n, v, msgs[v], best))
        if len(msgs) > len(names):
            R.violation("C17:extra", "%s:%d" % (ir.relfile(g["file"]), g["line"]), "%d messages for %d codes" % (len(msgs), len(names)))
        for f in prog.defined():
            for I in f.insts():
                if I.op == "store" and I.ops[0][0] == "c":
                    g2 = ir.gep_field(f, I.ops[1])
                    if not g2:
                        continue
                    for st, off in ((g2[0], g2[1]), (g2[2], g2[3])):
                        s = prog.types.get("struct " + st)
                        if s and any(x[1] == off and x[0] in ("err", "m_err") for x in s["fields"]):
                            R.count("constant error stores")
                            v = I.ops[0][1]
                            if v not in names and not (en["WR_USER"] <= v <= en["WR_ERR_LAST"]):
                                R.violation("C17:store:%s:%d" % (f.short, v), I.loc(), "%s records error code %d, which no message describes" % (f.short, v))
                            break
    R.floor("constant error stores", 60)


def norm(s):
    return s.lower().replace("_", " ").replace("wr err ", "").strip()


def elems(init):
    if init and init[0] in ("arr", "agg", "data"):
        return init[1]
    raise AnalysisBroken("message table has no readable initialiser: %r" % (init and init[0]))


def text(prog, x):
    while x[0] in ("cgep", "gep"):
        x = x[1]
    if x[0] != "g":
        return None
    i = prog.globals[x[1]].get("init")
    if not i:
        return None
    if i[0] == "str":
        return i[1]
    if i[0] == "data":
        return i[1] if isinstance(i[1], str) else "".join(chr(c) for c in i[1] if c)
    return None
