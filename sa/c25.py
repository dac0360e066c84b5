"""C25: the bytecode image is read back the way it was written."""
import ir
import vm
import loops
import image
from image import little, wide, emission, role
from vm import mkptr
from lin import lin, sub, add
from ir import AnalysisBroken

TECHNIQUE = "symbolic layout comparison over LLVM IR: byte emission trace of the linker and of its table builder (loops in closed form) against the byte positions, widths and signedness every reader uses"
NOTE = "positions are linear in the counts and section lengths, so decided for all of them; operand widths inside code are C02, checksum C08"
CONFIGS = ("default", "compact", "slices")


def fz(l):
    return l[0], tuple(sorted(l[1].items(), key=repr))


def loc(I, fn):
    return "%s:%d %s" % (fn.file, I.line if I is not None else fn.line, fn.short)


class Reader:
    """turns a reader's terms into positions of the image"""
    def __init__(self, prog, blk):
        self.prog, self.blk = prog, blk
        o = prog.offset
        self.fo = {(o("WRContext", "numLocalFunctions"), "i8"): "F", (o("WRContext", "globals"), "i16"): "G"}
        self.bottom = (o("WRContext", "bottom"), "ptr")

    def ctx(self, t):
        if t[0] == "ld" and t[1][0] == "ptr" and not t[1][3]:
            return self.fo.get((t[1][2], t[2]))
        if t[0] == "ld" and (0, t[2]) in self.fo:
            return self.fo[(0, t[2])] if not self.isblk(t[1]) else None

    def isblk(self, t):
        if t == self.blk:
            return True
        if t[0] == "ld" and t[2] == "ptr" and t[1][0] == "ptr" and t[1][2] == self.bottom[0] and not t[1][3]:
            return True
        return t[0] == "ptr" and self.isblk(t[1])

    def f(self, t):
        """linear form over B, F, G and reads"""
        if t[0] == "k":
            return t[1], {}
        if self.isblk(t) and t[0] != "ptr":
            return 0, {"B": 1}
        c = self.ctx(t)
        if c:
            return 0, {c: 1}
        if t[0] == "ptr":
            a = self.f(t[1])
            a = (a[0] + t[2], dict(a[1]))
            for v, s in t[3]:
                x = self.f(v)
                a = add(a, (x[0] * s, {k: n * s for k, n in x[1].items()}))
            return a
        r = little(t)
        if r:
            a = self.f(r[0])
            if a[1].get("B") == 1:
                return 0, {("rd", fz(a), r[1], r[2] if r[1] == 2 else None): 1}
            if t[0] == "ld":
                return 0, {t: 1}
        if t[0] in ("z", "s") or (t[0][:1] == "t" and t[0][1:].isdigit()):
            return self.f(t[1])
        if t[0] == "op" and t[1] in ("add", "sub"):
            return (add if t[1] == "add" else sub)(self.f(t[2]), self.f(t[3]))
        if t[0] == "op" and t[1] in ("mul", "shl"):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0] == "k" and (t[1] == "mul" or b is t[3]):
                    m = b[1] if t[1] == "mul" else 1 << b[1]
                    x = self.f(a)
                    return x[0] * m, {k: n * m for k, n in x[1].items()}
        if t[0] == "trip":
            a, b = self.f(t[1]), self.f(t[2])
            if a == (0, {}):
                return b
        return 0, {t: 1}


def flagval(c, flags, isflag):
    """value of a branch condition once the option flags are fixed; None if it does not depend on them"""
    def v(t):
        if t[0] == "k":
            return t[1]
        if isflag(t):
            return flags
        if t[0] in ("z", "s") or (t[0][:1] == "t" and t[0][1:].isdigit()):
            return v(t[1])
        if t[0] == "op" and t[1] in ("and", "or", "lshr", "shl"):
            a, b = v(t[2]), v(t[3])
            if a is None or b is None:
                return None
            return {"and": a & b, "or": a | b, "lshr": a >> b, "shl": a << b}[t[1]]
        if t[0] == "cmp":
            a, b = v(t[2]), v(t[3])
            if a is None or b is None:
                return None
            return int({"eq": a == b, "ne": a != b, "ugt": a > b, "sgt": a > b, "ult": a < b, "slt": a < b,
                        "uge": a >= b, "sge": a >= b, "ule": a <= b, "sle": a <= b}[t[1]])
        if t[0] == "sel":
            a = v(t[1])
            return None if a is None else v(t[2] if a else t[3])
        return None
    return v(c)


def under(paths, flags, isflag):
    for p in paths:
        if all(e[0] != "br" or flagval(e[1], flags, isflag) in (None, int(e[2])) for e in p.events):
            yield p


# ---------------------------------------------------------------- the writer
class Writer:
    def __init__(self, R, prog):
        self.R, self.prog = R, prog
        c = [f for f in prog.defined() if f.dem.startswith("WRCompilationContext::link(")]
        if len(c) != 1:
            raise AnalysisBroken("linker not found")
        self.fn = fn = c[0]
        o = prog.offset
        self.units = mkptr(("arg", 0), o("WRCompilationContext", "m_units"), ())
        L = loops.natural_loops(fn)
        mk = [I for I in fn.insts() if I.op == "call" and I.ops[0][0] == "fn" and "createLocalHashMap" in I.ops[0][1]]
        if not mk:
            raise AnalysisBroken("table builder call not found in the linker")
        cand = [h for h, b in L.items() if mk[0].bb.i in b]
        self.unit_head = max(cand, key=lambda h: len(L[h]))
        self.stream = None
        for I in fn.insts():
            if I.op == "call" and I.ops[0][0] == "fn" and role(prog, I.ops[0][1]) in ("byte", "append"):
                b = I.ops[1]
                if b[0] == "i" and fn.val[b[1]].op == "alloca" and role(prog, I.ops[0][1]) is not None and "WROpcodeStream" in prog.fns[I.ops[0][1]].dem:
                    self.stream = ("alloca", b[1])
                    break
        if not self.stream:
            raise AnalysisBroken("output stream of the linker not found")
        self.head = [p for p in image.walk(prog, fn, (self.unit_head,)) if p.end == ("stop", self.unit_head)]
        R.count("linker header paths", len(self.head))

    # names of the counts
    def is_units(self, t):
        return t[0] == "call" and "::count(" in self.dem(t[1]) and t[2] == (self.units,)

    def dem(self, n):
        f = self.prog.fns.get(n)
        return f.dem if f else ""

    def unit(self, t):
        """index of m_units[index] if t is such an element"""
        if t[0] == "call" and "::operator[](" in self.dem(t[1]) and t[2][0] == self.units:
            return t[2][1]

    def field(self, t):
        """(unit index, offset) for an address inside a unit"""
        base, off, var = (t[1], t[2], t[3]) if t[0] == "ptr" else (t, 0, ())
        u = self.unit(base)
        return (u, off) if u is not None and not var else (None, None)

    def locals_of(self, t):
        o = self.prog.offset
        if t[0] == "call" and "::count(" in self.dem(t[1]):
            u, off = self.field(t[2][0])
            if off == o("WRUnitContext", "bytecode") + o("WRBytecode", "localSpace"):
                return u

    def lens(self, t):
        """linear form of a length in F, G, SYM, SRC"""
        t = wide(t)
        if self.is_units(t):
            return 1, {"F": 1}
        if self.locals_of(t) == ("k", 0):
            return 0, {"G": 1}
        if t[0] == "k":
            return t[1], {}
        if t[0] == "ptr":
            a = self.lens(t[1])
            a = (a[0] + t[2], dict(a[1]))
            for v, s in t[3]:
                x = self.lens(v)
                a = add(a, (x[0] * s, {k: n * s for k, n in x[1].items()}))
            return a
        if t[0] == "trip":
            return sub(self.lens(t[2]), self.lens(t[1]))
        if t[0] == "op" and t[1] in ("add", "sub"):
            return (add if t[1] == "add" else sub)(self.lens(t[2]), self.lens(t[3]))
        return 0, {t: 1}

    def rounds(self, e):
        br = [x for x in e[2] if x[0] == "br"]
        for x in br[:1]:
            c = x[1]
            if c[0] == "cmp":
                for s, i0, k in e[3]:
                    if k == 1 and wide(c[2]) == s and c[1] in ("ult", "slt", "ne") and x[2]:
                        return sub(self.lens(c[3]), self.lens(i0))
                    if k == 1 and wide(c[3]) == s and c[1] in ("ugt", "sgt", "ne") and x[2]:
                        return sub(self.lens(c[2]), self.lens(i0))
        return None

    def layout(self, flags):
        """-> [(label, position, width)], end position, records"""
        out = []
        seen = set()
        for p in under(self.head, flags, lambda t: t == ("arg", 3)):
            its = emission(self.prog, p.events, self.stream)
            key = repr([x[:3] if x[0] != "rep" else (x[0], x[1][1]) for x in its])
            if key in seen:
                continue
            seen.add(key)
            out.append(self.place(its))
        if not out:
            raise AnalysisBroken("no linker path for option flags %d" % flags)
        if any(x[1] != out[0][1] for x in out[1:]):
            raise AnalysisBroken("linker layout depends on something besides the option flags")
        return out[0]

    def place(self, its):
        pos = (0, {})
        fields, i = [], 0
        recs = []
        while i < len(its):
            x = its[i]
            if x[0] == "B":
                # gather a little-endian field
                n = 1
                while i + n < len(its) and its[i + n][0] == "B" and its[i + n][1] == x[1] and x[1][0] != "k" and its[i + n][2] == x[2] + n:
                    n += 1
                if x[2] != 0:
                    fields.append(("partial", fz(pos), n, x))
                else:
                    fields.append((x[1], fz(pos), n, x))
                pos = add(pos, (n, {}))
                i += n
            elif x[0] == "blob":
                fields.append((("blob", x[1], x[2]), fz(pos), None, x))
                pos = add(pos, self.blen(x[2]))
                i += 1
            elif x[0] == "rep":
                if any(y[0] in ("B", "blob", "rep") and self.emits(y) for y in x[2]):
                    sf, send, srec = self.place(x[2])
                    n = self.rounds(x[1])
                    if n is None or send[1]:
                        raise AnalysisBroken("cannot size a repeated section of the linker's header")
                    recs.append((fz(pos), n, send[0], sf, x[2]))
                    pos = add(pos, (n[0] * send[0], {k: v * send[0] for k, v in n[1].items()}))
                i += 1
            else:
                i += 1
        return fields, pos, recs

    def emits(self, y):
        return y[0] in ("B", "blob") or y[0] == "rep" and any(self.emits(z) for z in y[2])

    def blen(self, t):
        return self.lens(t)


def check_pack(R, prog):
    for nm, n in (("wr_pack16", 2), ("wr_pack32", 4)):
        fn = prog.one(nm)
        for p in image.walk(prog, fn):
            m = image.Mem(prog)
            for e in p.events:
                if e[0] == "store":
                    m.store(e[1], e[2], e[3])
                elif e[0] in ("memcpy", "call"):
                    raise AnalysisBroken("%s is not a plain byte writer" % nm)
            R.count("byte-order obligations", n)
            for i in range(n):
                if m.b.get((("arg", 1), i)) != (("arg", 0), i):
                    R.violation("pack:%s:%d" % (nm, i), loc(None, fn), "byte %d of the packed value is %s, not byte %d of the value" % (i, m.b.get((("arg", 1), i)), i))
            if p.end != ("ret", ("arg", 1)):
                R.violation("pack-ret:" + nm, loc(None, fn), "%s does not return its buffer" % nm)


def check(R):
    R.rule("every field of the image is read at the position, width, byte order and signedness at which the linker wrote it: header, function records, "
           "global names, debug and source sections, start of the code, struct tables")
    base = ir.std("default")
    check_pack(R, base)
    W = Writer(R, base)
    lay = {fl: W.layout(fl) for fl in range(8)}
    rec = records(R, W, lay)
    tab = table(R, base)
    for cfg in CONFIGS:
        prog = ir.std(cfg)
        loader(R, cfg, prog, W, lay, rec)
        globals_reader(R, cfg, prog, W, lay)
        table_readers(R, cfg, prog, tab)
        operands(R, cfg, prog)
    R.floor("fields compared", 60)
    R.floor("code start positions", 24)
    R.floor("struct table reads", 6)


UNSIGNED = {"AssignToArrayAndPop": 0, "NewObjectTable": 0, "LiteralString": 0, "Switch": 0}


def operands(R, cfg, prog):
    """16-bit operands that hold counts and offsets are not read as signed numbers"""
    it = vm.Interp(prog)
    for nm, off in UNSIGNED.items():
        k = it.opnum[nm]
        for p in it.handler(k):
            R.count("fields compared")
            for e in list(p.events) + [tuple(p.regs.values())]:
                for x in e:
                    if isinstance(x, tuple) and any(s == ("s", ("code", off, 16)) for s in subterms(x)):
                        R.violation("operand-sign:%s:%s" % (cfg, nm), "%s:%d %s" % (it.fn.file, it.fn.blocks[it.entries[k]].insts[0].line, nm), "the unsigned 16-bit operand of %s is read as signed" % nm)


def header(R, W, lay):
    """label the three header bytes"""
    out = {}
    for fl, (fields, end, recs) in lay.items():
        for t, pos, n, x in fields:
            t2 = wide(t) if isinstance(t, tuple) else t
            lab = None
            if t2 == ("arg", 3):
                lab = "flags"
            elif W.locals_of(t2) == ("k", 0):
                lab = "globals"
            elif isinstance(t2, tuple) and t2[0] == "ptr" and t2[2] == -1 and W.is_units(t2[1]):
                lab = "functions"
            if lab:
                if out.setdefault(lab, (pos, n)) != (pos, n):
                    R.violation("header:" + lab, loc(None, W.fn), "%s is written at different positions depending on the options" % lab)
    if set(out) != {"flags", "globals", "functions"}:
        raise AnalysisBroken("header bytes not recognised: %s" % sorted(out))
    return out


def records(R, W, lay):
    """function record: field -> (offset, width); plus start and stride"""
    prog, fn = W.prog, W.fn
    o = prog.offset
    res = None
    for fl, (fields, end, recs) in lay.items():
        fr = [r for r in recs if r[1] == (0, {"F": 1})]
        if len(fr) != 1:
            raise AnalysisBroken("function records not recognised")
        start, n, size, sf, its = fr[0]
        d = {"start": start, "size": size}
        mark = None
        for x in its:
            if x[0] == "set":
                u, off = W.field(x[1])
                if off == o("WRUnitContext", "offsetInBytecode"):
                    mark = x[2]
        if mark is None or mark[0] != "size" or mark[1] != W.stream:
            raise AnalysisBroken("record position is not remembered")
        first = next(i for i, x in enumerate(its) if x[0] == "B")
        if its.index([x for x in its if x[0] == "set" and x[2] == mark][0]) > first:
            R.violation("record-mark", loc(None, fn), "the position of a function record is taken after part of it was written")
        for t, pos, w, x in sf:
            if not isinstance(t, tuple):
                continue
            t2 = wide(t)
            lab = None
            if t2[0] == "ld":
                u, off = W.field(t2[1])
                if off == o("WRUnitContext", "hash"):
                    lab = "hash"
                elif off == o("WRUnitContext", "arguments"):
                    lab = "arguments"
            elif t2[0] == "op" and t2[1] == "sub" and W.locals_of(wide(t2[2])) is not None and wide(t2[3])[0] == "ld":
                if W.field(wide(t2[3])[1])[1] == o("WRUnitContext", "arguments"):
                    lab = "frameSpaceNeeded"
            if lab:
                d[lab] = (pos[0], w)
        # the frame adjustment byte: 1 + arguments byte + locals byte
        for t, pos, w, x in sf:
            l = bytelin(t)
            if l is not None and l[0] and len(l[1]) >= 1:
                want = {("arguments",): 1, ("frameSpaceNeeded",): 1}
                nm = {}
                for a, k in l[1].items():
                    lab = None
                    if a[0] == "ld" and W.field(a[1])[1] == o("WRUnitContext", "arguments"):
                        lab = "arguments"
                    elif a[0] == "op" and a[1] == "sub" and W.locals_of(wide(a[2])) is not None:
                        lab = "frameSpaceNeeded"
                    elif W.locals_of(a) is not None:
                        lab = "locals"
                    nm[lab] = nm.get(lab, 0) + k
                if None in nm:
                    continue
                ok = l[0] == 1 and (nm == {"arguments": 1, "frameSpaceNeeded": 1} or nm == {"locals": 1})
                d["frameBaseAdjustment"] = (pos[0], w)
                if not ok:
                    R.violation("adjustment", loc(None, fn), "the frame adjustment of a function record is %s, not 1 + arguments + locals" % (l,))
        # placeholders patched later
        for lab, off, w in patches(R, W):
            d[lab] = (off, w)
        if res is not None and d != res:
            R.violation("record-options", loc(None, fn), "function records differ with the option flags")
        res = d
    miss = {"hash", "arguments", "frameSpaceNeeded", "frameBaseAdjustment", "namespaceOffset", "functionOffset"} - set(res)
    if miss:
        raise AnalysisBroken("fields of the function record not recognised: %s" % sorted(miss))
    used = sorted((v[0], v[0] + v[1], k) for k, v in res.items() if isinstance(v, tuple) and k != "start")
    for (a, b, k), (c, d2, k2) in zip(used, used[1:]):
        if b > c:
            R.violation("record-overlap", loc(None, fn), "%s and %s overlap in the function record" % (k, k2))
    return res


def bytelin(t):
    """t8 of a sum of bytes"""
    if not isinstance(t, tuple):
        return None
    t = wide(t)
    if t[0] not in ("ptr", "op"):
        return None

    def f(x):
        if x[0] == "b":
            return (0, {wide(x[1]): 1}) if x[2] == 0 else (0, {x: 1})
        if x[0] in ("z", "s") or (x[0][:1] == "t" and x[0][1:].isdigit()):
            return f(x[1])
        if x[0] == "k":
            return x[1], {}
        if x[0] == "ptr":
            a = f(x[1])
            a = (a[0] + x[2], a[1])
            for v, s in x[3]:
                y = f(v)
                a = add(a, (y[0] * s, {k: n * s for k, n in y[1].items()}))
            return a
        if x[0] == "op" and x[1] == "add":
            return add(f(x[2]), f(x[3]))
        return 0, {x: 1}
    return f(t)


def patches(R, W):
    """back-patched fields of the function records, from one round of the unit loop"""
    prog, fn = W.prog, W.fn
    o = prog.offset
    if getattr(W, "_patches", None) is not None:
        return W._patches
    res = {}
    tabpos = set()
    for bb, env, ev in image.once(prog, fn, W.unit_head):
        its = emission(prog, ev, W.stream)
        exported = any(e[0] == "call" and "createLocalHashMap" in e[1] for e in ev)
        grew = 0
        blobs = [i for i, x in enumerate(its) if x[0] == "blob"]
        for i, x in enumerate(its):
            if x[0] != "at":
                continue
            pos = x[1]
            base, off = (pos[1], pos[2]) if pos[0] == "ptr" and not pos[3] else (pos, 0)
            if base[0] != "ld" or W.field(base[1])[1] != o("WRUnitContext", "offsetInBytecode"):
                continue
            v = wide(x[3])
            R.count("fields compared")
            later = [b for b in blobs if b > i]
            codeblob = blobs[-1] if blobs else None
            n_before = sum(1 for b in blobs if b < i)
            if v == ("k", 0):
                lab = "namespaceOffset"
            elif v[0] == "size" and v[1] == W.stream:
                # appended after this position: the table or the code
                nxt = [b for k, b in enumerate(blobs) if k >= v[2]]
                lab = "functionOffset" if nxt and nxt[0] == codeblob else "namespaceOffset"
            else:
                R.violation("patch-value", loc(x[4], fn), "a function record is patched with %s" % vm.Namer(prog).t(v))
                continue
            if res.setdefault(lab, (off, x[2])) != (off, x[2]):
                R.violation("patch:" + lab, loc(x[4], fn), "%s is patched at offset %d (%d bytes) here but at %s elsewhere" % (lab, off, x[2], res[lab]))
            tabpos.add((lab, exported, v))
    if set(res) != {"namespaceOffset", "functionOffset"}:
        raise AnalysisBroken("record patches not recognised: %s" % res)
    W._patches = [(k, v[0], v[1]) for k, v in res.items()]
    return W._patches


def wpos(rd, lay_fields):
    """writer field at a reader's position"""
    for t, pos, n, x in lay_fields:
        if pos == rd:
            return t, n
    return None


def shift(pos):
    """writer positions are relative to the start of the block"""
    c, d = pos
    return fz((c, {**dict(d), "B": 1}))


def translate(R, W, l, fields, fn, what, key):
    """a reader's linear form with reads replaced by what the writer put there; None on mismatch"""
    out = (l[0], {})
    for a, k in l[1].items():
        if isinstance(a, tuple) and a and a[0] == "rd":
            addr = (a[1][0], dict(a[1][1]))
            addr = translate(R, W, addr, fields, fn, what, key)
            if addr is None:
                return None
            hit = [f for f in fields if shift(f[1]) == fz(addr)]
            if not hit:
                R.violation(key + ":position", loc(None, fn), "%s uses %d bytes at %s, where the linker starts no field" % (what, a[2], fmt(addr)))
                return None
            t, pos, n, x = hit[0]
            R.count("fields compared")
            if n != a[2]:
                R.violation(key + ":width", loc(None, fn), "%s reads %d bytes at %s, the linker writes %s" % (what, a[2], fmt(addr), n))
                return None
            if a[3]:
                R.violation(key + ":sign", loc(None, fn), "%s reads the unsigned 16-bit value at %s as signed" % (what, fmt(addr)))
                return None
            y = W.lens(t) if isinstance(t, tuple) else (0, {t: 1})
            out = add(out, (y[0] * k, {b: n2 * k for b, n2 in y[1].items()}))
        else:
            out = add(out, (0, {a: k}))
    return out


def fmt(l):
    c, d = l if isinstance(l, tuple) and isinstance(l[1], dict) else (l[0], dict(l[1]))
    return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, k if isinstance(k, str) else "(...)") for k, v in sorted(d.items(), key=repr)] + [str(c)])


def loader(R, cfg, prog, W, lay, rec):
    c = [f for f in prog.defined() if f.short == "wr_createContext"]
    if len(c) != 1:
        raise AnalysisBroken("loader not found")
    fn = c[0]
    hdr = header(R, W, lay)
    o = prog.offset
    rd = Reader(prog, ("arg", 1))
    w = loops.LoopWalker(fn, {})
    w.go(0, None)
    oks = [p for p in w.paths if p.end[0] == "ret" and p.end[1] != ("k", 0)]
    R.count("loader paths", len(oks))
    flagpos = hdr["flags"][0]

    def isflag(t):
        return t[0] == "ld" and t[2] == "i8" and fz(rd.f(t[1])) == shift(flagpos)
    for fl in range(8):
        fields, end, recs = lay[fl]
        n = 0
        seen = set()
        for p in under(oks, fl, isflag):
            n += 1
            C = p.end[1]
            at = lambda f: mkptr(C, o("WRContext", f), ())
            st = {}
            for e in p.events:
                if e[0] == "store":
                    st[e[1]] = (e[2], e[4])
            cs = st.get(at("codeStart"))
            if cs is None:
                raise AnalysisBroken("loader does not set codeStart")
            got = rd.f(cs[0])
            key = repr(fz(got))
            if key in seen:
                continue
            seen.add(key)
            R.count("code start positions")
            got = translate(R, W, got, fields, fn, "the loader (options %d)" % fl, "load:%s" % cfg)
            if got is None:
                continue
            want = (end[0], {**end[1], "B": 1})
            if got != want:
                R.violation("codestart:%s:%d" % (cfg, fl), loc(cs[1], fn), "with option flags %d the loader starts executing at %s, the linker put the code at %s" % (fl, fmt(got), fmt(want)))
            for f, lab in (("numLocalFunctions", "functions"), ("globals", "globals")):
                v = st.get(at(f))
                if v is None and o("WRContext", f) == 0:
                    v = st.get(C)
                R.count("fields compared")
                r = little(wide(v[0])) if v else None
                if r is None or fz(rd.f(r[0])) != shift(hdr[lab][0]) or r[1] != hdr[lab][1]:
                    R.violation("count:%s:%s" % (cfg, f), loc(v[1] if v else None, fn), "the loader takes %s from a different header byte than the linker wrote it to" % f)
            v = st.get(at("bottom"))
            if v is None or v[0] != ("arg", 1):
                R.violation("bottom:" + cfg, loc(None, fn), "offsets are relative to the start of the block, but bottom is set to something else")
        if not n:
            raise AnalysisBroken("no loader path for option flags %d" % fl)
    # function records
    lf = o("WRContext", "localFunctions")
    fsz = prog.struct("WRFunction")["size"]
    fields = ("namespaceOffset", "functionOffset", "hash", "arguments", "frameSpaceNeeded", "frameBaseAdjustment")
    seen = set()
    n = 0
    for p in oks:
        sets = [lin(e[2]) for e in p.events if e[0] == "store" and e[1] == mkptr(p.end[1], lf, ())]
        for e in p.events:
            if e[0] not in ("loop", "fill"):
                continue
            stores = [x for x in e[2] if x[0] == "store"] if e[0] == "loop" else [("store",) + x for x in e[4]]
            inds = e[3]
            for x in stores:
                # which record: the address in round 0 and its step per round
                first, stride = lin(x[1]), 0
                for t, k in list(first[1].items()):
                    i = [(i0, s) for sy, i0, s in inds if sy == t or sy == wide(t)]
                    if i:
                        b0 = lin(i[0][0])
                        first = add(first, (b0[0] * k, {q: z * k for q, z in b0[1].items()}))
                        first = add(first, (0, {t: -k}))
                        stride = None if stride is None or i[0][1] is None else stride + i[0][1] * k
                start = None
                for t in first[1]:
                    if t[0] == "ld" and t[2] == "ptr" and t[1][0] == "ptr" and t[1][2] == lf:
                        d = {q: z for q, z in add(first, (0, {t: -1}))[1].items() if z}
                        start = first[0] if not d else 1 << 40
                for b in sets:
                    d = add(first, (-b[0], {q: -z for q, z in b[1].items()}))
                    if not {q: z for q, z in d[1].items() if z}:
                        start = d[0]
                if start is None:
                    continue
                if stride != fsz or not 0 <= start < fsz:
                    R.violation("records:" + cfg, loc(x[4], fn), "function record %s is filled with stride %s" % (start, stride))
                    continue
                nm = [f for f in fields if o("WRFunction", f) == start]
                if not nm:
                    R.violation("records:" + cfg, loc(x[4], fn), "something between the fields of a function record is written")
                    continue
                nm = nm[0]
                seen.add(nm)
                n += 1
                R.count("fields compared")
                r = little(x[2]) or little(wide(x[2]))
                if r is None:
                    R.violation("record:%s:%s" % (cfg, nm), loc(x[4], fn), "%s of a function record is not assembled from consecutive bytes, least significant first" % nm)
                    continue
                ad = rd.f(r[0])
                # position in round 0 and per round
                pos, step = (ad[0], {}), 0
                for t, k in ad[1].items():
                    i = [(i0, s) for sy, i0, s in inds if sy == wide(t) or sy == t] if isinstance(t, tuple) else []
                    if i and i[0][1] is not None:
                        step += i[0][1] * k
                        b0 = rd.f(i[0][0])
                        pos = add(pos, (b0[0] * k, {q: z * k for q, z in b0[1].items()}))
                    else:
                        pos = add(pos, (0, {t: k}))
                want = add((rec["start"][0], dict(rec["start"][1])), (rec[nm][0], {"B": 1}))
                if fz(pos) != fz(want) or step != rec["size"]:
                    R.violation("record:%s:%s" % (cfg, nm), loc(x[4], fn), "%s is read at %s + %s per record, the linker wrote it at %s + %d per record" % (nm, fmt(pos), step, fmt(want), rec["size"]))
                width = {"i8": 1, "i16": 2, "i32": 4}.get(x[3])
                if r[1] != rec[nm][1] or width != rec[nm][1]:
                    R.violation("record-width:%s:%s" % (cfg, nm), loc(x[4], fn), "%s is written with %d bytes and read with %d into %s" % (nm, rec[nm][1], r[1], x[3]))
        if seen:
            break
    if seen != set(fields):
        R.violation("record-missing:" + cfg, loc(None, fn), "the loader never fills %s of the function records" % sorted(set(fields) - seen))


def globals_reader(R, cfg, prog, W, lay):
    """functions that walk the global name hashes: wr_getGlobalRef, disassembler"""
    hits = 0
    want = None
    for start, n, size, sf, its in lay[1][2]:
        if n == (0, {"G": 1}):
            want = (start, size, sf)
    if want is None:
        raise AnalysisBroken("global name section not recognised in the linker")
    start, size, sf = want
    lab = wide(sf[0][0])
    o = prog.offset
    ok = len(sf) == 1 and sf[0][2] == 4 and lab[0] == "ld" and lab[2] == "i32"
    if ok:
        b = lab[1]
        b, off = (b[1], b[2]) if b[0] == "ptr" else (b, 0)
        ok = b[0] == "call" and "operator[]" in W.dem(b[1]) and off == o("WRNamespaceLookup", "hash") and W.locals_of(("call", [n for n, f in W.prog.fns.items() if f.dem.startswith("WRarray<WRNamespaceLookup>::count(")][0], (b[2][0],))) == ("k", 0)
    if not ok:
        R.violation("globals-writer", loc(None, W.fn), "the global name section is not the 4-byte hash of each global in order")
    for fn in prog.defined():
        if fn.short not in ("wr_getGlobalRef", "wr_disassemble") and "isassemble" not in fn.short:
            continue
        for h, body in loops.natural_loops(fn).items():
            rd = Reader(prog, ("none",))
            try:
                w = loops.LoopWalker(fn, {})
                # values entering the loop
                outs = entry_paths(fn, h)
            except AnalysisBroken:
                continue
            for init in outs:
                for bb, env, ev in image.once(prog, fn, h):
                    for e in ev:
                        for x in e:
                            for s in subterms(x) if isinstance(x, tuple) else ():
                                r = little(s) if s and isinstance(s[0], str) and s[0] in ("op",) else None
                                if not r or r[1] != 4:
                                    continue
                                ad = lin(r[0])
                                ind = [(t, k) for t, k in ad[1].items() if t[0] == "ind" and t[1] == h and k == 1]
                                if len(ind) != 1 or ind[0][0][2] not in init:
                                    continue
                                i0 = rd.f(init[ind[0][0][2]])
                                if i0[1].get("B") != 1:
                                    continue
                                hits += 1
                                R.count("fields compared")
                                pos = add(i0, (ad[0], {}))
                                st = step(fn, h, ind[0][0], env, bb)
                                if fz(pos) != shift(start) or st != size or len(ad[1]) != 1:
                                    R.violation("globals:%s:%s" % (cfg, fn.short), loc(None, fn), "%s reads global names from %s + %s per name, the linker put them at %s + %d per name" % (fn.short, fmt(pos), st, fmt(start), size))
    if not hits:
        raise AnalysisBroken("no reader of the global names found")


def entry_paths(fn, h):
    """phi initial values of a loop header (constant-free symbolic, one per entry edge)"""
    body = loops.natural_loops(fn)[h]
    out = []
    for p in fn.blocks[h].pred:
        if p in body:
            continue
        w = loops.LoopWalker(fn, {})
        d = {}
        for I in fn.blocks[h].insts:
            if I.op != "phi":
                break
            for v, bb in I.ops:
                if bb == p:
                    d[I.id] = w.val(v)
        out.append(d)
    return out


def step(fn, h, sym, env, bb):
    w = loops.LoopWalker(fn, env)
    for v, pb in fn.val[sym[2]].ops:
        if pb == bb:
            return loops.step_of(w.val(v), sym)


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms(x)


# ------------------------------------------------------------- struct tables
def table(R, prog):
    """layout createLocalHashMap writes: {label: (offset, width)}, entries start/stride"""
    c = [f for f in prog.defined() if "::createLocalHashMap(" in f.dem]
    if len(c) != 1:
        raise AnalysisBroken("table builder not found")
    fn = c[0]
    o = prog.offset
    w = loops.LoopWalker(fn, {})
    w.go(0, None)
    res = None
    for p in w.paths:
        m = [e for e in p.events if e[0] == "icall"]
        if not m:
            continue
        R.count("table builder paths")
        buf = ("icall",) + tuple(m[0][1:3])
        d = {}
        unit = ("arg", 1)
        arr = mkptr(unit, o("WRUnitContext", "bytecode") + o("WRBytecode", "localSpace"), ())
        args = ("ld", mkptr(unit, o("WRUnitContext", "arguments"), ()), "i32")

        def isbuf(a):
            """offset into the new block"""
            l = lin(a)
            b = [t for t, k in l[1].items() if k == 1 and (t[0] == "icall" or t == ("ld", ("arg", 2), "ptr"))]
            if len(b) == 1:
                return sub(l, (0, {b[0]: 1}))
        modpos = None
        for e in p.events:
            if e[0] == "store":
                at = isbuf(e[1])
                if at is not None and not at[1]:
                    v = wide(e[2])
                    l = lin(v)
                    if v == args and e[3] == "i8":
                        d["arguments"] = (at[0], 1)
                    elif e[3] == "i8" and l[1].get(args) == -1 and len(l[1]) == 2 and l[0] == 0:
                        d["members"] = (at[0], 1)
            elif e[0] == "call" and role(prog, e[1]) in ("pack16", "pack32"):
                at = isbuf(e[2][1])
                if at is not None and not at[1]:
                    v = wide(e[2][0])
                    if v[0] == "ld":
                        d["mod"] = (at[0], 2 if role(prog, e[1]) == "pack16" else 4)
                        modpos = v
            elif e[0] == "loop":
                packs = [x for x in e[2] if x[0] == "call" and role(prog, x[1]) in ("pack16", "pack32")]
                if not packs:
                    continue
                ent(R, prog, fn, e, d, isbuf, p.events[:p.events.index(e)])
        if set(d) != {"members", "arguments", "mod", "start", "stride", "hash", "slot"}:
            raise AnalysisBroken("struct table layout not recognised: %s" % d)
        # allocation: start + stride * mod
        al = lin(m[0][2][0])
        k = [kk for t, kk in al[1].items()]
        if not (len(k) == 1 and k[0] >= d["stride"] and al[0] >= d["start"]):
            R.violation("table-alloc", loc(m[0][3] if len(m[0]) > 3 else None, fn), "the struct table is allocated with %s bytes for %d + %d per entry" % (fmt(al), d["start"], d["stride"]))
        if res is not None and res != d:
            raise AnalysisBroken("struct table layout varies")
        res = d
    if res is None:
        raise AnalysisBroken("struct table layout not recognised")
    return res


def ent(R, prog, fn, e, d, isbuf, before):
    """entry loop: the position is kept in memory (*size) or in an induction variable"""
    inds = {sy: (i0, z) for sy, i0, z in e[3]}
    size = ("ld", ("arg", 3), "i32")
    start0 = [x[2] for x in before if x[0] == "store" and x[1] == ("arg", 3)]
    for bb, env, ev in image.once(prog, fn, e[1]):
        R.count("table builder paths")
        pos = {}
        last = None
        for x in ev:
            if x[0] == "store" and x[1] == ("arg", 3):
                l = lin(x[2])
                if set(l[1]) != {size}:
                    raise AnalysisBroken("entry position of the struct table")
                last = l[0]
                continue
            if x[0] == "call" and role(prog, x[1]) == "pack32":
                a, lab, n, v = isbuf(x[2][1]), "hash", 4, x[2][0]
            elif x[0] == "store" and x[3] == "i8" and isbuf(x[1]) is not None:
                a, lab, n, v = isbuf(x[1]), "slot", 1, x[2]
            else:
                continue
            if a is None:
                raise AnalysisBroken("struct table entry outside the table")
            s, c = 0, a[0]
            for t, k in a[1].items():
                if t == size and k == 1 and start0 and start0[-1][0] == "k":
                    s, c = "mem", c + start0[-1][1]
                    continue
                i = inds.get(wide(t))
                if i is None or i[1] is None or i[0][0] != "k" or s == "mem":
                    raise AnalysisBroken("entry position of the struct table")
                s += i[1] * k
                c += i[0][1] * k
            if lab in pos:
                R.violation("table-entry", loc(None, fn), "an entry of the struct table has two %s fields" % lab)
            pos[lab] = (c, n, s)
        if set(pos) != {"hash", "slot"}:
            raise AnalysisBroken("entry of the struct table not recognised")
        strides = {last if z[2] == "mem" else z[2] for z in pos.values()}
        if len(strides) != 1:
            raise AnalysisBroken("stride of the struct table")
        first = min(z[0] for z in pos.values())
        r = {"start": first, "stride": strides.pop(), "hash": (pos["hash"][0] - first, 4), "slot": (pos["slot"][0] - first, 1)}
        for k, v in r.items():
            if d.setdefault(k, v) != v:
                R.violation("table-entry:" + k, loc(None, fn), "entries of the struct table are laid out differently depending on whether the slot is used")


def coherent(p):
    """no condition on an argument is taken both ways"""
    seen = {}
    for e in p.events:
        if e[0] == "br" and e[1][0] == "cmp" and e[1][2][0] == "arg" and e[1][3][0] == "k":
            k = (e[1][2], e[1][3])
            v = (e[1][1] == "ne") == e[2] if e[1][1] in ("eq", "ne") else None
            if v is not None and seen.setdefault(k, v) != v:
                return False
    return True


def romload(t, prog):
    """True if t is a load of some object's m_ROMHashTable pointer"""
    return t[0] == "ld" and t[2] == "ptr" and t[1][0] == "ptr" and t[1][2] == prog.offset("WRGCObject", "m_ROMHashTable") and not t[1][3]


def table_readers(R, cfg, prog, tab):
    o = prog.offset
    # construction of an object from its table
    c = [f for f in prog.defined() if f.short == "wr_newObjectTable"]
    if len(c) != 1:
        raise AnalysisBroken("object construction not found")
    fn = c[0]
    w = loops.LoopWalker(fn, {})
    w.go(0, None)
    n = 0
    for p in w.paths:
        rom = [e for e in p.events if e[0] == "store" and e[3] == "ptr" and e[1][0] == "ptr" and e[1][2] == o("WRGCObject", "m_ROMHashTable")]
        if not rom:
            continue
        if not coherent(p):
            continue
        n += 1
        T = None
        for e in p.events:
            if e[0] == "br" and e[1][0] == "cmp" and e[1][2] == ("arg", 3) and e[1][3] == ("k", 0):
                T = (0, {("arg", 3): 1}) if (e[1][1] == "ne") == e[2] else None
        rd = Reader(prog, ("none",))
        l = lin(rom[-1][2])
        if T is None:
            l = rd.f(rom[-1][2])
            at = [a for a in l[1] if isinstance(a, tuple) and a[0] != "rd"]
            off = [a for a in l[1] if a != "B"]
            if l[1].get("B") != 1 or len(off) != 1:
                raise AnalysisBroken("struct table address")
            a = off[0]
            raw = [s for s in subterms(rom[-1][2]) if little(s) and little(s)[1] == 2 and little(s)[0] == ("arg", 2)]
            sg = {little(s)[2] for s in raw if s[0] in ("z", "s")}
            R.count("struct table reads")
            if not raw:
                R.violation("table-operand:" + cfg, loc(rom[-1][4], fn), "the position of the struct table is not the 16-bit operand the linker fills in")
            elif True in sg:
                R.violation("table-sign:" + cfg, loc(rom[-1][4], fn), "the position of the struct table, an unsigned 16-bit offset, is read as signed")
            base = (0, {"B": 1, a: l[1][a]})
            L = rd.f
        else:
            base = T
            L = lin
        if sub(L(rom[-1][2]), base) != (tab["start"], {}):
            R.violation("table-start:" + cfg, loc(rom[-1][4], fn), "entries are looked up from table + %s, the linker puts them at table + %d" % (fmt(sub(L(rom[-1][2]), base)), tab["start"]))
        R.count("struct table reads")
        for e in p.events:
            if e[0] == "store" and e[3] == "i16" and e[1][0] == "ptr" and e[1][2] == o("WRGCObject", "m_mod"):
                r = little(e[2]) or little(wide(e[2]))
                R.count("struct table reads")
                if r is None or sub(L(r[0]), base) != (tab["mod"][0], {}) or r[1] != tab["mod"][1]:
                    R.violation("table-mod:" + cfg, loc(e[4], fn), "the table size is not read from where the linker wrote it (table + %d, %d bytes)" % tab["mod"])
            if e[0] == "call" and "getSVA" in e[1]:
                v = wide(e[2][1])
                R.count("struct table reads")
                if v[0] != "ld" or v[2] != "i8" or sub(L(v[1]), base) != (tab["members"][0], {}):
                    R.violation("table-members:" + cfg, loc(e[3], fn), "the member count is not the byte the linker wrote at table + %d" % tab["members"][0])
        # every other byte used is the argument count
        known = {tab["members"][0], tab["arguments"][0]}
        for e in p.events:
            for x in e:
                for s in subterms(x) if isinstance(x, tuple) else ():
                    if s and s[0] == "ld" and s[2] == "i8":
                        dd = sub(L(s[1]), base)
                        if not dd[1] and dd[0] not in known and not tab["mod"][0] <= dd[0] < tab["mod"][0] + tab["mod"][1]:
                            R.violation("table-byte:%s:%d" % (cfg, dd[0]), loc(fn.insts().__next__() if False else None, fn), "byte %d of the struct table is used as a count" % dd[0])
    if n < 2:
        raise AnalysisBroken("object construction paths not recognised")
    # look-ups
    hits = 0
    it = vm.Interp(prog)
    for fn in prog.defined():
        if fn is it.fn:
            paths = [p for nm, k in it.opnum.items() if k in it.entries for p in it.handler(k)]
        else:
            if not any(True for I in fn.insts() if I.op == "load" and I.ty == "ptr" and rom_field(fn, I, prog)):
                continue
            w = loops.LoopWalker(fn, {})
            try:
                w.go(0, None)
            except AnalysisBroken:
                continue
            paths = w.paths
        for s in sorted(set(lookups(paths, prog)), key=repr):
            addr, width, where = s
            l = lin(addr)
            rest = {t: k for t, k in l[1].items() if not romload(t, prog)}
            hits += 1
            R.count("struct table reads")
            ok = len(rest) == 1 and set(rest.values()) == {tab["stride"]} and (l[0], width) in (tab["hash"], tab["slot"])
            if not ok:
                R.violation("table-entry:%s:%s" % (cfg, fn.short), loc(None, fn), "a struct table entry is read at +%s, %d bytes, with stride %s; the linker writes hash %s and slot %s every %d bytes"
                            % (l[0], width, sorted(rest.values()), tab["hash"], tab["slot"], tab["stride"]))
    if hits < 4:
        raise AnalysisBroken("struct member look-ups not found")


def rom_field(fn, I, prog):
    b, off = ir.ptr_base(fn, I.ops[0])
    return off == prog.offset("WRGCObject", "m_ROMHashTable")


def lookups(paths, prog):
    """byte groups read through a ROM table pointer"""
    for p in paths:
        evs = list(p.events)
        while evs:
            e = evs.pop()
            if e[0] == "loop":
                evs += list(e[2])
            for x in list(e) + ([p.end[1]] if len(p.end) > 1 else []):
                if isinstance(x, tuple) and e[0] != "loop":
                    yield from groups(x, prog)


def groups(t, prog):
    if not isinstance(t, tuple) or not t:
        return
    if isinstance(t[0], str):
        r = little(t) if t[0] in ("op", "ld") or t[0][:1] == "t" else None
        if r and any(romload(a, prog) for a in lin(r[0])[1]):
            # whole-word loads are hash tables in memory, which share the pointer's slot
            if t[0] != "ld" or t[2] == "i8" and len(lin(r[0])[1]) > 1:
                yield r[0], r[1], None
            return
    for x in t:
        if isinstance(x, tuple):
            yield from groups(x, prog)
