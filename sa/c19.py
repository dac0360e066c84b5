"""C19: operators interpret their operands with their actual types."""
import re
import multiprocessing
import ir
import vm
import absint
from absint import arith, T_INT, T_FLOAT, Fork
from vm import mkptr
import gcwalk
from lin import lin, add
from ir import AnalysisBroken
TECHNIQUE = "tag-domain abstract interpretation of every operator handler and the dispatch tables and routines it reaches, compared with the operator's definition per operand kind"
NOTE = "float rounding is not interpreted: terms are compared, not values; operand kinds an operator is not defined on (arithmetic on text or containers other than +, bit operations on floats) are outside the claim"

CONFIGS = ("default", "compact", "really")
ST = lambda o: (("reg", "ST"), o, ())
G = lambda k: (("G",), 0, ((("z", ("code", k, 8)), 16),))
L = lambda k: (("reg", "FB"), 0, ((("z", ("code", k, 8)), 16),))
ADDR = {"G": G, "L": L}

IOPS = {"Addition": "add", "Subtraction": "sub", "Multiplication": "mul", "Division": "sdiv", "Mod": "srem", "Or": "or", "And": "and",
        "XOR": "xor", "RightShift": "ashr", "LeftShift": "shl"}
FOPS = {"Addition": "fadd", "Subtraction": "fsub", "Multiplication": "fmul", "Division": "fdiv"}
ASSIGN = {"Add": "Addition", "Subtract": "Subtraction", "Multiply": "Multiplication", "Divide": "Division", "Mod": "Mod", "OR": "Or", "AND": "And",
          "XOR": "XOR", "RightShift": "RightShift", "LeftShift": "LeftShift"}


def spec(name):
    """(kind, operator, left, right, destination, stack change, operand bytes, branch width) or None"""
    m = re.match(r"Binary(%s)$" % "|".join(IOPS), name)
    if m:
        return ("bin", m.group(1), ST(-16), ST(-32), ST(-32), -16, 0, None)
    m = re.match(r"Binary(%s)AndStore(Global|Local)$" % "|".join(IOPS), name)
    if m:
        return ("bin", m.group(1), ST(-16), ST(-32), ADDR[m.group(2)[0]](0), -32, 1, None)
    m = re.match(r"Binary(%s)SkipLoad$" % "|".join(IOPS), name)
    if m:
        return ("bin", m.group(1), (("reg", "B"), 0, ()), (("reg", "A"), 0, ()), ST(0), 16, 0, None)
    m = re.match(r"([GL])([GL])Binary(%s)$" % "|".join(IOPS), name)
    if m:
        a, b, op = m.groups()
        return ("bin2", op, (a, b), None, ST(0), 16, 2, None)
    m = re.match(r"(%s)Assign(AndPop)?$" % "|".join(ASSIGN), name)
    if m:
        return ("asg", ASSIGN[m.group(1)], ST(-16), ST(-32), None if m.group(2) else ST(-32), -32 if m.group(2) else -16, 0, None)
    m = re.match(r"Compare(EQ|NE|LT|LE|GT|GE)$", name)
    if m:
        return ("cmp", m.group(1), ST(-16), ST(-32), ST(-32), -16, 0, None)
    m = re.match(r"CompareB(EQ|NE|LT|LE|GT|GE)(8?)$", name)
    if m:
        return ("cmp", m.group(1), ST(-16), ST(-32), None, -32, 0, 8 if m.group(2) else 16)
    m = re.match(r"(GG|LL)Compare(EQ|NE|LT|LE|GT|GE)(BZ8|BZ)?$", name)
    if m:
        a = ADDR[m.group(1)[0]]
        w = {"BZ": 16, "BZ8": 8}.get(m.group(3))
        return ("cmp", m.group(2), a(1), a(0), None if w else ST(0), 0 if w else 16, 2, w)
    m = re.match(r"([GL])SCompare(EQ|NE|LT|LE|GT|GE)(BZ8|BZ)?$", name)
    if m:
        a = ADDR[m.group(1)]
        w = {"BZ": 16, "BZ8": 8}.get(m.group(3))
        return ("cmp", m.group(2), a(0), ST(-16), None if w else ST(-16), -16 if w else 0, 1, w)
    m = re.match(r"(Logical)(And|Or)$", name)
    if m:
        return ("log", m.group(2), ST(-16), ST(-32), ST(-32), -16, 0, None)
    m = re.match(r"BL([AO])(8?)$", name)
    if m:
        return ("log", {"A": "And", "O": "Or"}[m.group(1)], ST(-16), ST(-32), None, -32, 0, 8 if m.group(2) else 16)
    m = re.match(r"(Local|Global)?BZ(8?)$", name)
    if m:
        c = ADDR[m.group(1)[0]](0) if m.group(1) else ST(-16)
        return ("log", "True", c, None, None, 0 if m.group(1) else -16, 1 if m.group(1) else 0, 8 if m.group(2) else 16)
    if name == "LogicalNot":
        return ("log", "Not", ST(-16), None, ST(-16), 0, 0, None)
    if name in ("Negate", "BitwiseNOT", "ToInt", "ToFloat"):
        return ("un", name, ST(-16), None, ST(-16), 0, 0, None)
    m = re.match(r"(Pre|Post)(In|De)crement(AndPop)?$", name)
    if m:
        return ("inc", (m.group(1), 1 if m.group(2) == "In" else -1), ST(-16), None, None if m.group(3) else ST(-16), -16 if m.group(3) else 0, 0, None)
    m = re.match(r"(Inc|Dec)(Local|Global)$", name)
    if m:
        return ("inc", ("var", 1 if m.group(1) == "Inc" else -1), ADDR[m.group(2)[0]](0), None, None, 0, 1, None)
    return None


class Skip(Exception):
    """operand kinds the operator is not defined on"""


class Unseen(Skip):
    """the path does not depend on the kind of this operand"""


class Spec:
    def __init__(self, E, st, alias):
        self.E, self.st, self.alias = E, st, alias

    def target(self, c):
        """cell that holds the value an operand designates (a variable for a reference, an element for a member)"""
        k = self.st.choices.get(c)
        if k == "R":
            return self.target((("refcell", self.alias.get(c, c)), 0, ()))
        if k == "Ev":
            o = ((("cont", c, "Ev")), 0, ())
            m = [x for x in self.st.choices if x[0] == ("data", o, "v")]
            if len(m) == 1:
                return m[0]
            return None
        if k == "Eh":
            m = [x for x in self.st.choices if x[0] == ("hb", c)]
            return m[0] if len(m) == 1 else None
        return c

    def value(self, c):
        """('i'|'f'|'s', term): the value the operand stands for"""
        k = self.st.choices.get(c)
        if k is None:
            raise Unseen("not looked at")
        if k == "Ec":
            o = ("obj", (("cont", c, "Ec"), 0, ()), "c")
            size = ("ld", mkptr(o, self.E.prog.offset("WRGCObject", "m_size"), ()), "i32")
            for l, v in self.st.lits.items():
                if l[0] == "ult" and l[2] == size:
                    if not v:
                        return ("i", ("k", 0))
                    return ("i", ("z", ("ld", mkptr(("data", (("cont", c, "Ec"), 0, ()), "c"), 0, ((("z", l[1]), 1),)), "i8")))
            raise Unseen("element")
        if k in ("R", "Ev", "Eh"):
            t = self.target(c)
            if t is None:
                if k == "Ev" and any(l[0] == "ult" and not v for l, v in self.st.lits.items()):
                    return ("i", ("k", 0))      # past the end reads as zero
                raise Unseen("element")
            return self.value(t) if t != c else self.plain(t)
        return self.plain(c)

    def plain(self, c):
        k = self.st.choices.get(c)
        if k == "I":
            return ("i", ("i", c))
        if k == "F":
            return ("f", ("f", c))
        if k == "S":
            return ("s", ("obj", c, "c"))
        raise Skip("container")

    def pair(self, op, lc, rc):
        """both operand values; a path that ignores one of them is only right where the operator is not defined anyway"""
        out = []
        for c in (lc, rc):
            try:
                out.append(self.value(c))
            except Unseen:
                out.append(None)
        if None in out:
            o = out[0] or out[1]
            if o and (o[0] == "s" and op != "Addition" or o[0] == "f" and op not in FOPS and op != "cmp"):
                raise Skip("outside")
            raise Bad("the result does not depend on the type of the %s operand" % ("left" if out[0] is None else "right"))
        return out

    def fl(self, v):
        if v[0] == "f":
            return v[1]
        return ("fk", float(v[1][1])) if v[1][0] == "k" else ("sitofp", v[1])

    def ask(self, f, *a):
        try:
            return f(self.st, *a)
        except Fork:
            return None

    def binary(self, op, a, b):
        """list of acceptable (class, term) results"""
        E = self.E
        if "s" in (a[0], b[0]):
            if op != "Addition":
                raise Skip("text")
            return [("s", ("cat", self.info(a), self.info(b), "c"))]
        if "f" in (a[0], b[0]):
            if op not in FOPS:
                raise Skip("float")
            x, y = self.fl(a), self.fl(b)
            if op == "Division":
                # any one test of the divisor against zero decides
                z = self.ask(E.fcmp, "oeq", y, ("fk", 0.0))
                if z is None and not (y[0] == "fk"):
                    raise Bad("the float divisor is not tested against zero")
                if z or y == ("fk", 0.0):
                    return [("f", ("fk", 0.0)), ("i", ("k", 0))]
            return [("f", arith(FOPS[op], x, y))]
        x, y = a[1], b[1]
        if op in ("Division", "Mod"):
            z = self.ask(E.icmp, "eq", y, ("k", 0))
            if z is None:
                raise Bad("the divisor is not tested against zero")
            if z:
                return [("i", ("k", 0))]
            if self.ask(E.icmp, "eq", y, ("k", -1)):
                return [("i", arith("sub", ("k", 0), x)), ("i", arith("mul", x, ("k", -1)))] if op == "Division" else [("i", ("k", 0))]
        return [("i", arith(IOPS[op], x, y))]

    def info(self, v):
        if v[0] == "s":
            return (("p64", v[1]), ("k", self.E.ARRAY))
        return (("i32", v[1]), ("k", T_INT)) if v[0] == "i" else (("float", v[1]), ("k", T_FLOAT))

    def compare(self, op, a, b):
        if a[0] == "s" or b[0] == "s":
            raise Skip("text")
        E = self.E
        if a[0] == "i" and b[0] == "i":
            p = {"EQ": "eq", "NE": "ne", "LT": "slt", "LE": "sle", "GT": "sgt", "GE": "sge"}[op]
            r = self.ask(E.icmp, p, a[1], b[1])
            if r is None:
                raise Bad("the outcome does not follow from comparing the two integers")
            return {r}
        x, y = self.fl(a), self.fl(b)
        if op in ("LT", "GT", "LE", "GE"):
            out = set()
            for p in {"LT": ("olt",), "GT": ("ogt",), "LE": ("ole", "ule"), "GE": ("oge", "uge")}[op]:
                r = self.ask(E.fcmp, p, x, y)
                if r is not None:
                    out.add(r)
            if not out:
                raise Bad("the outcome does not follow from comparing the two values as floats")
            return out
        out = set()
        for u, v in ((x, y), (y, x)):
            d = ("pure", "fabs", arith("fsub", u, v))
            for l, val in self.st.lits.items():
                if l[0] in ("fole", "folt") and l[1] == d and {("f", t[1]) if t[0] == "f" else t for t in leaves(l[2])} <= {x, y} | set(leaves(x)) | set(leaves(y)):
                    out.add(val)
                if l[0] in ("fole", "folt") and l[2] == d:
                    out.add(not val)
            r = self.ask(E.fcmp, "oeq", u, v)
            if r is not None:
                out.add(r)
        if not out:
            raise Bad("the outcome does not follow from comparing the two values as floats")
        return out if op == "EQ" else {not r for r in out}

    def truth(self, v):
        if v[0] == "s":
            raise Skip("text")
        if v[0] == "i":
            r = self.ask(self.E.icmp, "ne", v[1], ("k", 0))
        else:
            r = self.ask(self.E.fcmp, "une", v[1], ("fk", 0.0))
            if r is None:
                r = self.ask(self.E.fcmp, "one", v[1], ("fk", 0.0))
            if r is None:
                # testing the bit pattern instead treats -0.0 as true, everything else alike
                for l, val in self.st.lits.items():
                    if l[0] in ("eq", "ne") and ("k", 0) in l[1:] and any(t == v[1] for x in l[1:] for t in leaves(x)) and not any(t != v[1] for x in l[1:] for t in leaves(x)):
                        r = val == (l[0] == "ne")
        return r


def leaves(t):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] in ("i", "f", "z"):
        yield t
        return
    for x in t[1:]:
        yield from leaves(x)


class Bad(Exception):
    pass


_ev = {}


def evaluator(cfg, full):
    k = (cfg, full)
    if k not in _ev:
        p = ir.std(cfg)
        _ev[k] = absint.Eval(p, vm.Interp(p), full)
    return _ev[k]


def norm(raw, tag):
    """(class letter, term) of a stored value, or None"""
    if tag == ("k", T_INT) and raw[0] in ("i32",):
        return ("i", raw[1])
    if tag == ("k", T_FLOAT):
        if raw[0] == "float":
            return ("f", raw[1])
        if raw == ("i32", ("k", 0)):
            return ("f", ("fk", 0.0))
        return ("f", ("bits", raw))
    if raw[0] == "p64":
        return ("s" if raw[1][0] in ("obj", "cat") else "p", raw[1])
    return ("?", (raw, tag))


def final(E, r, c):
    raw, tag, nm = E.content(r.st, c)
    st = absint.State()
    st.choices = r.st.choices
    try:
        raw = raw if raw is not None else E.raw(st, nm)
        tag = tag if tag is not None else E.tag(st, nm)
    except Fork:
        return None
    return norm(raw, tag)


def changed(E, r, top):
    """cells outside the dead stack whose content differs from the initial one"""
    out = []
    st = r.st
    for c, (raw, tag, nm) in st.cells.items():
        b = c[0]
        if b[0] in ("loc", "g"):
            continue
        if b == ("reg", "ST") and not c[2] and c[1] >= top:
            continue
        s0 = absint.State()
        s0.choices = st.choices
        try:
            if nm == c and (raw is None or E.raw(s0, c) == raw) and (tag is None or E.tag(s0, c) == tag):
                continue
        except Fork:
            pass
        out.append(c)
    return out


def check_path(E, name, sp, r, alias):
    kind, op, lc, rc, dest, dst, nb, width = sp
    S = Spec(E, r.st, alias)
    if r.end[0] != "dispatch":
        raise Bad("the instruction does not continue with the next one")
    # ------------------------------------------------ value or outcome
    outcome = None
    expect = None
    writes = {}
    if kind == "bin2":
        a, b = lc
        lc, rc = ADDR[a](1), ADDR[b](0)
        x = S.binary(op, *S.pair(op, lc, rc))
        writes[dest] = x
    elif kind == "bin":
        writes[dest] = S.binary(op, *S.pair(op, lc, rc))
    elif kind == "asg":
        k = r.st.choices.get(lc)
        if k not in ("R", "Ev"):
            raise Skip("not a variable or element")
        t = S.target(lc)
        if t is None:
            raise Skip("past the end")
        a, b = S.pair(op, lc, rc)
        if "s" in (a[0], b[0]) and k != "R":
            raise Skip("text into an element")
        x = S.binary(op, a, b)
        writes[t] = x
        if dest:
            writes[dest] = x
    elif kind == "inc":
        k = r.st.choices.get(lc)
        if op[0] != "var" and k not in ("R", "Ev"):
            raise Skip("not a variable or element")
        if op[0] == "var" and k not in ("I", "F"):
            raise Skip("not a plain variable")
        t = S.target(lc)
        if t is None:
            raise Skip("past the end")
        a = S.value(lc)
        if a[0] == "s":
            raise Skip("text")
        x = ("i", arith("add", a[1], ("k", op[1]))) if a[0] == "i" else ("f", arith("fadd", a[1], ("fk", float(op[1]))))
        writes[t] = [x]
        if dest:
            # ++a[i] may leave the designation of the element, whose value is the new one
            if not (op[0] == "Pre" and k == "Ev" and final(E, r, dest) == ("p", ("cont", lc, "Ev"))):
                writes[dest] = [a if op[0] == "Post" else x]
    elif kind == "un":
        v = S.value(lc)
        if v[0] == "s":
            raise Skip("text")
        if op == "Negate":
            e = [("i", arith("sub", ("k", 0), v[1])), ("i", arith("mul", v[1], ("k", -1)))] if v[0] == "i" else [("f", ("fneg", v[1])), ("f", arith("fmul", v[1], ("fk", -1.0))), ("f", arith("fsub", ("fk", -0.0), v[1])), ("f", arith("fsub", ("fk", 0.0), v[1]))]
        elif op == "BitwiseNOT":
            if v[0] == "f":
                raise Skip("float")
            e = [("i", arith("xor", v[1], ("k", -1)))]
        elif op == "ToInt":
            e = [v] if v[0] == "i" else [("i", ("fptosi", v[1]))]
        else:
            e = [("f", S.fl(v))]
        writes[dest] = e
    elif kind == "cmp":
        outcome = S.compare(op, *S.pair("cmp", lc, rc))
    elif kind == "log":
        if op in ("True", "Not"):
            t = S.truth(S.value(lc))
            if t is None:
                raise Bad("the outcome does not follow from testing the operand against zero")
            outcome = {t if op == "True" else not t}
        else:
            t = []
            for c in (lc, rc):
                try:
                    t.append(S.truth(S.value(c)))
                except Skip as e:
                    if not isinstance(e, Unseen):
                        raise
                    t.append(None)
            if op == "And":
                o = False if False in t else True if None not in t else None
            else:
                o = True if True in t else False if None not in t else None
            if o is None:
                raise Bad("the outcome does not follow from testing the operands against zero")
            outcome = {o}
    # ------------------------------------------------ registers
    top = mkptr(("reg", "ST"), dst, ())
    if r.regs.get("ST") != top:
        raise Bad("stack top becomes %s, expected %s" % (E.show(r.regs.get("ST")), E.show(top)))
    pc = r.regs.get("PC")
    seq = mkptr(("reg", "PC"), nb + (2 if width else 0), ())
    if width:
        br = mkptr(("reg", "PC"), nb, ((("s", ("code", nb, width)), 1),))
        if pc == br:
            got = False
        elif pc == seq:
            got = True
        else:
            raise Bad("continues at %s, expected %s or %s" % (E.show(pc), E.show(seq), E.show(br)))
        if got not in outcome:
            raise Bad("branches although the condition holds" if not got else "does not branch although the condition fails")
    else:
        if pc != seq:
            raise Bad("continues at %s, expected %s" % (E.show(pc), E.show(seq)))
        if outcome is not None:
            writes[dest] = [("i", ("k", int(v))) for v in outcome]
    # ------------------------------------------------ memory
    for c, want in writes.items():
        got = final(E, r, c)
        if got not in want:
            raise Bad("%s receives %s, expected %s" % (E.cellname(c), E.show(got), E.show(want[0])))
    for c in changed(E, r, dst):
        if c not in writes:
            raise Bad("%s is modified" % E.cellname(c))
    ev = [e for e in r.st.events]
    if ev:
        raise Bad("calls %s" % E.show(ev[0][0]))


def one(job):
    name, cfg, full, al = job
    E = evaluator(cfg, full)
    sp = spec(name)
    E.allow = {"I", "F", "S"} if sp[0] in ("bin", "bin2", "asg", "cmp", "log", "un", "inc") else None
    alias = {}
    if al:
        alias = {sp[3]: sp[2]} if sp[3] and sp[0] != "bin2" else {ADDR[sp[2][1]](0): ADDR[sp[2][0]](1)}
    E.alias = alias
    n = skipped = 0
    bad = []
    try:
        rs = E.paths(E.it.opnum[name], {k: "R" for p in alias.items() for k in p} if alias else None)
    except AnalysisBroken as e:
        return name, cfg, 0, 0, [], str(e)
    finally:
        E.alias = {}
    for r in rs:
        try:
            check_path(E, name, sp, r, alias)
            n += 1
        except Skip:
            skipped += 1
        except Bad as e:
            bad.append((dict((E.show(k), v) for k, v in r.st.choices.items()), str(e)))
    return name, cfg, n, skipped, bad, None


def concat_rule(R, cfg):
    """the two pieces of a concatenation: the left operand's text first, the right operand's directly behind it, in an
    object of exactly their joint length"""
    prog = ir.std(cfg)
    for fn in prog.by_name("wr_concatStringCheck"):
        for p in gcwalk.paths(fn):
            if p.end[0] != "ret" or p.end[1] == ("k", 0):
                continue
            R.count("concatenation paths")
            text = {}
            for e in p.events:
                if e[0] == "call" and len(e[2]) >= 4 and e[2][0] in (("arg", 0), ("arg", 1)) and e[2][1][0] == "alloca":
                    text[e[2][1]] = (e[2][0][1], e[2][3])
            pieces = []
            for e in p.events:
                if e[0] != "memcpy":
                    continue
                dst = e[1] if e[1][0] == "ptr" else ("ptr", e[1], 0, ())
                base, src = dst[1], e[2]
                if base[0] != "ld" or base[1][0] != "ptr" or base[1][1][0] != "call":
                    continue
                off = lin(("ptr", ("k", 0), dst[2], dst[3]))
                if src in text:
                    who, ln = text[src][0], lin(("ld", text[src][1], "i32"))
                elif src[0] == "ld" and src[1][0] == "ptr" and src[1][1][0] == "ld" and src[1][1][1] in (("arg", 0), ("arg", 1)):
                    o = src[1][1]
                    who, ln = o[1][1], lin(("ld", ("ptr", o, prog.offset("WRGCObject", "m_size"), ()), "i32"))
                else:
                    continue
                pieces.append((off, who, ln, lin(e[3]), base[1][1]))
            if len(pieces) != 2 or pieces[0][4] != pieces[1][4]:
                R.sample("concatenation path not in the understood form (%s)" % cfg)
                R.count("concatenation paths not understood")
                continue
            a, b = sorted(pieces, key=lambda x: x[0] != (0, {}))
            where, key = "%s:%d wr_concatStringCheck" % (ir.relfile(fn.file), fn.line), "concat/%s" % cfg
            alloc = lin(a[4][2][1]) if len(a[4][2]) > 1 else None
            if a[0] != (0, {}):
                R.violation(key, where, "%s build: no piece of a concatenation starts at the beginning of the result" % cfg)
            elif (a[1], b[1]) != (0, 1):
                R.violation(key, where, "%s build: the text of operand %s is placed before that of operand %s" % (cfg, "right left".split()[1 - a[1]], "left right".split()[b[1]]))
            elif a[2] != a[3] or b[2] != b[3]:
                R.violation(key, where, "%s build: a piece of a concatenation is not copied with the length of its text" % cfg)
            elif b[0] != a[2]:
                R.violation(key, where, "%s build: the right operand's text does not start where the left one's ends" % cfg)
            elif alloc != add(a[2], b[2]):
                R.violation(key, where, "%s build: the result's length is not the sum of the lengths of its pieces" % cfg)
    R.floor("concatenation paths", 1)


def check(R):
    full = R.tier == "thorough"
    R.rule("for every operator instruction, every combination of operand kinds (integer, float, text, reference to one, container element) and every abstract path: "
           "the result term, its type tag, the place it is stored, the branch outcome and the stack change are those of the operator's definition; nothing else changes")
    for c in CONFIGS:
        evaluator(c, full)
    names = [n for n in evaluator("default", full).it.opnum if spec(n)]
    jobs = [(n, c, full, al) for c in CONFIGS for n in names for al in ((False, True) if spec(n)[0] in ("bin", "bin2", "asg", "cmp") else (False,))]
    with multiprocessing.Pool(8) as P:
        res = P.map(one, jobs, chunksize=4)
    for name, cfg, n, sk, bad, err in res:
        if err:
            R.sample("not analysed: %s/%s %s" % (name, cfg, err))
            R.count("instructions not analysed")
            continue
        R.count("operator instructions")
        R.count("abstract paths checked", n)
        R.count("paths on operands outside the claim", sk)
        if bad:
            E = evaluator(cfg, full)
            B = E.it.fn.blocks[E.it.entries[E.it.opnum[name]]]
            I = next((i for i in B.insts if i.line), B.insts[0])
            R.violation("%s/%s" % (name, cfg), "%s %s handler" % (I.loc(), name),
                        "%s build, %s on operands %s: %s (%d paths)" % (cfg, name, {k: v for k, v in bad[0][0].items() if len(k) < 90}, bad[0][1][:400], len(bad)))
    for c in ("default", "compact"):
        concat_rule(R, c)
    R.floor("operator instructions", 600)
    R.floor("abstract paths checked", 10000)
    R.assume("heap objects are at least 8-byte aligned; an element of a value array holds an integer, a float or a container")
