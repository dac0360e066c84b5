"""C14: deserialising arbitrary bytes stays in bounds and reports failure."""
import ir
from ir import AnalysisBroken, ptr_base
from esp import Sim
from cursor import Cursor, lf, ladd, lscale

TECHNIQUE = "relational dataflow over the serializer's buffer cursor and the containers it fills, failure-propagation typestate, and equality of the record languages (finite automata) extracted from writer and reader, all on the LLVM IR"
NOTE = "decided for all buffers and values, in the arithmetic of integers that do not overflow; equality of the values themselves is N02"
CLS = "WRValueSerializer"


def fn(prog, dem):
    r = [f for f in prog.defined() if f.dem.startswith(dem + "(")]
    if len(r) != 1:
        raise AnalysisBroken("%s not found" % dem)
    return r[0]


def check(R):
    R.rule("read() and write() touch only bytes inside the buffer; a failed read, write or nested call always ends in a reported failure; elements are stored only inside the container allocated for them; "
           "a count is written in a 16-bit field only if it fits; the sequences of field widths and tags the writer can produce are exactly those the reader accepts")
    for cfg in ("default", "compact", "mfail"):
        one(R, ir.std(cfg), cfg)
    R.floor("buffer accesses", 9)
    R.floor("container accesses", 20)
    R.floor("fallible calls", 40)
    R.floor("record automaton states", 20)


def one(R, prog, cfg):
    off = {n: prog.offset(CLS, n) for n in ("m_pos", "m_size", "m_buf")}
    rd, wr = fn(prog, CLS + "::read"), fn(prog, CLS + "::write")
    ser, des = fn(prog, "wr_serializeEx"), fn(prog, "wr_deserializeEx")
    top = [fn(prog, "wr_serialize"), fn(prog, "wr_deserialize")]
    # 1. the buffer
    for f, grow in ((rd, False), (wr, True)):
        w = Cursor(f, ["a", 0], off["m_pos"], off["m_size"], off["m_buf"], unsigned=True)
        w.growing = grow
        w.CAP, w.DEPTH = 64, 3
        w.run_joined(w.start())
        R.count("buffer accesses", len(w.seen_access))
        for I, why in w.bad.values():
            R.violation("C14:buffer:%s:%s" % (f.short, why), I.loc(), "%s may go past %s" % (f.short, why))
    owners(R, prog, off, {rd.name, wr.name})
    # 2. failures are reported
    for f in [ser, des] + top:
        failures(R, prog, cfg, f, {rd.name, ser.name, des.name})
    # 3. containers
    containers(R, prog, des, rd)
    counts(R, prog, ser, wr)
    rounds(R, ser, ser)
    rounds(R, des, des)
    # 4. record languages
    a, b = Lang(prog, ser, wr.name, ser.name, True), Lang(prog, des, rd.name, des.name, False)
    A, B = a.automaton(), b.automaton()
    R.count("record automaton states", len(A[1]) + len(B[1]))
    d = differ(A, B)
    if d:
        word, inw, inr = d
        R.violation("C14:language", (ser if inw else des).file, "record [%s] is %s" % (
            " ".join(show(x) for x in word), "written but not accepted by the reader" if inw else "accepted by the reader but never written"))


def show(x):
    return "data" if x == "N" else "%d-byte field" % x if isinstance(x, int) else "value(%d*i+%d)" % x[1:] if x[0] == "R" else "%s=%s" % x


def owners(R, prog, off, inside):
    """outside read/write the buffer pointer is only set up, handed over whole, released or measured"""
    for f in prog.defined():
        if f.name in inside or f.file.startswith("discrete_src/debug/"):
            continue
        for I in f.insts():
            g = ir.gep_field(f, I.ops[0]) if I.op == "load" else None
            if not g or g[0] != CLS or g[1] != off["m_buf"]:
                continue
            R.count("buffer pointer uses")
            for u in f.uses().get(I.id, []):
                if u.op in ("load", "getelementptr") or u.op == "store" and u.ops[1] == ["i", I.id]:
                    R.violation("C14:escape:%s" % f.short, u.loc(), "%s accesses the serializer's buffer without its bounds check" % f.short)
                elif u.op == "call" and u.ops[0][0] == "fn" and u.ops[0][1].startswith("llvm.memcpy") and not sizedctor(prog, f, u, I, off):
                    R.violation("C14:escape:%s" % f.short, u.loc(), "%s copies into or out of the serializer's buffer with an unrelated length" % f.short)
    for f in prog.defined():
        if f.short.startswith(CLS + "::" + CLS):
            ctor(R, prog, f, off)


def sizedctor(prog, f, u, I, off):
    n = u.ops[3]
    while n[0] == "i" and f.val[n[1]].op in ("zext", "sext", "trunc"):
        n = f.val[n[1]].ops[0]
    return f.short.startswith(CLS + "::") and n[0] == "a"


def ctor(R, prog, f, off):
    """the recorded size is the allocated size (or 0), the position starts at 0"""
    sizes, allocs = [], []
    for I in f.insts():
        if I.op == "store":
            b, o = ptr_base(f, I.ops[1])
            if b != ["a", 0]:
                continue
            if o == off["m_pos"] and not (I.ops[0][0] == "c" and I.ops[0][1] == 0):
                R.violation("C14:ctor:pos", I.loc(), "a serializer does not start at position 0")
            if o == off["m_size"]:
                sizes.append((I, I.ops[0]))
        if I.op == "call" and I.ops[0][0] == "i" and f.val[I.ops[0][1]].op == "load" and f.val[I.ops[0][1]].ops[0] == ["g", "g_malloc"]:
            n = I.ops[1]
            while n[0] == "i" and f.val[n[1]].op in ("zext", "sext"):
                n = f.val[n[1]].ops[0]
            allocs.append(n)
    R.count("constructors")
    for I, v in sizes:
        if v[0] == "c" and v[1] == 0:
            continue
        if v not in allocs:
            R.violation("C14:ctor:size", I.loc(), "the size recorded for the buffer is not the size allocated")


class Fail(Sim):
    def __init__(self, f, fallible, flagoff):
        Sim.__init__(self, f)
        self.SPLIT = True
        self.fallible = fallible
        self.flagoff = flagoff
        self.rets = []
        self.handed = []

    def strip(self, o):
        while o[0] == "i" and self.f.val[o[1]].op in ("zext", "trunc", "sext", "freeze"):
            o = self.f.val[o[1]].ops[0]
        return o

    def step(self, I, st):
        if I.op == "call" and I.ops[0][0] == "fn" and I.ops[0][1] in self.fallible:
            return (frozenset(x for x in st if x != ("call", I.id)) | {("open", I.id)},)
        if I.op == "call" and I.ops[0][0] == "fn" and "getOwnership" in I.ops[0][1]:
            self.handed.append((I, st))
        return (st,)

    def refine(self, o, pol, st):
        o = self.strip(o)
        if o[0] != "i":
            return st
        I = self.f.val[o[1]]
        if I.op == "icmp" and I.x in ("eq", "ne") and I.ops[1][0] == "c" and I.ops[1][1] == 0:
            return self.refine(I.ops[0], (I.x == "ne") == pol, st)
        if I.op == "call" and I.ops[0][0] == "fn" and I.ops[0][1] in self.fallible:
            st = st - {("open", I.id)}
            return st if pol else st | {"X"}
        if I.op == "call" and I.ops[0][0] == "fn" and "failed" in I.ops[0][1] or I.op == "load" and ir.gep_field(self.f, I.ops[0]) and self.flagoff is not None and ir.gep_field(self.f, I.ops[0])[:2] == (CLS, self.flagoff):
            return st | {"X"} if pol else st | {"sound"}
        return st

    def ret(self, I, value, st):
        self.rets.append((I, value, st))


def failures(R, prog, cfg, f, fallible):
    try:
        flag = prog.offset(CLS, "m_failed")
    except Exception:
        flag = None
    for I in f.calls():
        if I.ops[0][0] == "fn" and I.ops[0][1] in fallible:
            R.count("fallible calls")
            if not f.uses().get(I.id):
                R.violation("C14:ignored:%s" % f.short, I.loc(), "%s ignores the result of %s: a part that could not be written or read is not reported" % (f.short, prog.fns[I.ops[0][1]].short))
    w = Fail(f, fallible, flag)
    w.run(frozenset())
    for I, v, st in w.rets:
        R.count("return paths")
        if "X" in st and v != 0:
            R.violation("C14:swallowed:%s" % f.short, I.loc(), "%s can report success although a part failed" % f.short)
        opens = {x[1] for x in st if isinstance(x, tuple) and x[0] == "open"}
        if opens and v not in (0,):
            src = sources(f, I.ops[0])
            if v is not None or any(("i", o) not in {tuple(x) for x in src} for o in opens):
                R.violation("C14:untested:%s" % f.short, I.loc(), "%s can report success without having looked at the result of a part" % f.short)
    for I, st in w.handed:
        R.count("hand-over sites")
        if "X" in st or any(isinstance(x, tuple) and x[0] == "open" for x in st) or cfg == "mfail" and "sound" not in st:
            R.violation("C14:partial:%s" % f.short, I.loc(), "a partial result can be handed out")


def sources(f, o, seen=None):
    seen = set() if seen is None else seen
    while o[0] == "i" and f.val[o[1]].op in ("zext", "trunc", "sext", "freeze"):
        o = f.val[o[1]].ops[0]
    if o[0] == "i":
        if o[1] in seen:
            return []
        seen.add(o[1])
        I = f.val[o[1]]
        if I.op == "phi":
            return [x for v, b in I.ops for x in sources(f, v, seen)]
        if I.op == "and":
            return [x for v in I.ops for x in sources(f, v, seen)]
        if I.op == "select":
            return [x for v in I.ops for x in sources(f, v, seen)]
        return [("i", o[1])]
    return []


# ---- containers filled by the reader
class Fill(Cursor):
    def __init__(self, prog, f, rd):
        Cursor.__init__(self, f, ["none"], -1, -1, -1, unsigned=True)
        self.prog, self.rd = prog, rd
        self.locals = {I.id for I in f.insts() if I.op == "alloca" and I.x in ("i8", "i16", "i32")}
        g = prog
        self.vd = g.offset("WRGCBase", "m_Vdata")
        self.ht = g.offset("WRGCObject", "m_hashTable")
        self.T = {k: g.enum_value(k) for k in ("SV_VALUE", "SV_CHAR", "SV_HASH_TABLE")}

    def data(self, o, st):
        """(which, byte index) when o points into the data of a container"""
        idx, n = lf(0), 0
        while o[0] == "i" and n < 30:
            n += 1
            I = self.f.val[o[1]]
            if I.op == "getelementptr":
                idx = ladd(idx, lf(I.x["off"]))
                for v, s in I.x["var"]:
                    idx = ladd(idx, lscale(self.form(v, st), s))
                o = I.ops[0]
                continue
            if I.op in ("bitcast", "freeze"):
                o = I.ops[0]
                continue
            if I.op == "load":
                g = ir.gep_field(self.f, I.ops[0])
                if g and g[2] in ("WRGCBase", "WRGCObject"):
                    if g[3] == self.vd and g[2] == "WRGCBase" or g[1] == self.vd:
                        return "v", idx
                    if g[1] == self.ht or g[2] == "WRGCObject" and g[3] == self.ht:
                        return "h", idx
            return None
        return None

    def access(self, I, ptr, n, st):
        d = self.data(ptr, st)
        if d is None:
            return
        self.seen_access[(I.bb.i, I.idx)] = I
        which, idx = d
        cap = None
        for k, v in st[1]:
            if isinstance(k, tuple) and k[0] == "cap":
                if k[1] == self.T["SV_VALUE"] and which == "v":
                    cap = lscale(v, 16)
                elif k[1] == self.T["SV_CHAR"] and which == "v":
                    cap = v
                elif k[1] == self.T["SV_HASH_TABLE"]:
                    cap = lscale(ladd(v, lf(1)), 32 if which == "v" else 4)
        if cap is None:
            self.fail(I, "a container whose size is not known here")
            return
        if not self.implied(idx, st[0]):
            self.fail(I, "the start of the container")
        if not self.implied(ladd(ladd(cap, idx, -1), n, -1), st[0], 3):
            self.fail(I, "the end of the container allocated")

    WIDTH = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "float": 4}

    def step(self, I, st):
        if I.op == "load" and self.var(I.ops[0]) is None:
            st = self.redefine(st, I.id)
            self.access(I, I.ops[0], lf(self.WIDTH.get(I.ty, 8)), st)
            return (st,)
        if I.op == "store" and self.var(I.ops[1]) is None:
            self.access(I, I.ops[1], lf(self.WIDTH.get(I.x, 8)), st)
            return (st,)
        return Cursor.step(self, I, st)

    def call(self, I, st):
        n = I.ops[0][1] if I.ops[0][0] == "fn" else ""
        for k, o in enumerate(I.ops[1:], 1):
            if self.data(o, st) is not None:
                if n == self.rd.name:
                    self.access(I, o, self.form(I.ops[3], st), st)
                else:
                    self.access(I, o, lf(16), st)
        r = Cursor.call(self, I, st)
        if "getSVA" in n:
            t = I.ops[3]
            if t[0] != "c":
                self.fail(I, "a container of unknown kind")
                return r
            out = []
            for s in r:
                sz = self.form(I.ops[2], s)
                if not self.implied(sz, s[0]):
                    self.fail(I, "a sensible size: a container of negative size is requested")
                env = frozenset((k, v) for k, v in s[1] if not (isinstance(k, tuple) and k[0] == "cap"))
                out.append((s[0], env | {(("cap", t[1]), sz)}))
            return tuple(out)
        return r

    def ret(self, I, value, st):
        pass

    def start(self):
        return frozenset(), frozenset()

    def refine(self, o, pol, st):
        r = Cursor.refine(self, o, pol, st)
        if r is None or o[0] != "i":
            return r
        I = self.f.val[o[1]]
        if I.op == "icmp" and I.x in ("eq", "ne") and (I.x == "ne") == pol and I.ops[1][0] == "c" and I.ops[1][1] == 0:
            a = self.form(I.ops[0], st)
            if len(a[1]) == 1 and a[0] == 0 and a[1][0][1] == 1 and self.nonneg_atom(a[1][0][0]):
                return self.learn(r, ladd(a, lf(-1)))
        return r


def containers(R, prog, des, rd):
    w = Fill(prog, des, rd)
    w.run_joined(w.start())
    R.count("container accesses", len(w.seen_access))
    for I, why in w.bad.values():
        R.violation("C14:container:%s" % why, I.loc(), "%s may go past %s" % (des.short, why))
    # tables larger than the largest table size do not exist
    hash_limit(R, prog, des)


def hash_limit(R, prog, des):
    """a hash table request is guarded by the largest size the growth table has"""
    T = prog.enum_value("SV_HASH_TABLE")
    for I in des.calls():
        if I.ops[0][0] == "fn" and "getSVA" in I.ops[0][1] and I.ops[3] == ["c", T, 32]:
            R.count("hash table requests")
            w = Limit(des, I)
            w.run(frozenset())
            if w.bad or not w.hit:
                R.violation("C14:tablesize", I.loc(), "a hash table larger than any table size can be requested (the growth table is searched past its end)")


class Limit(Sim):
    def __init__(self, f, call):
        Sim.__init__(self, f)
        self.target = call
        self.bad, self.hit = False, False

    def base(self, o):
        while o[0] == "i" and self.f.val[o[1]].op in ("zext", "sext", "trunc", "sub", "add"):
            o = self.f.val[o[1]].ops[0]
        if o[0] == "i" and self.f.val[o[1]].op == "load":
            return repr(self.f.val[o[1]].ops[0])
        return repr(o)

    def step(self, I, st):
        if I is self.target:
            self.hit = True
            if self.base(I.ops[2]) not in st:
                self.bad = True
        if I.op == "call" and any(o[0] == "i" and self.f.val[o[1]].op == "alloca" for o in I.ops[1:]):
            st = frozenset(x for x in st if x not in {repr(o) for o in I.ops[1:]})
        return (st,)

    def refine(self, o, pol, st):
        if o[0] != "i":
            return st
        I = self.f.val[o[1]]
        if I.op != "icmp":
            return st
        for a, b, sw in ((I.ops[0], I.ops[1], False), (I.ops[1], I.ops[0], True)):
            k = self.limit(b)
            if k is None:
                continue
            x = I.x
            if sw:
                x = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(x, x)
            ok = (x[1:] in ("gt", "ge") and not pol) or (x[1:] in ("lt", "le") and pol)
            strict = x[1:] in ("gt", "le")
            if ok and (k <= 49157 or not strict and k <= 49158):
                return st | {self.base(a)}
        return st

    def limit(self, o):
        while o[0] == "i" and self.f.val[o[1]].op in ("zext", "sext", "trunc"):
            o = self.f.val[o[1]].ops[0]
        if o[0] == "c":
            return o[1]
        if o[0] == "i" and self.f.val[o[1]].op == "load":
            p = self.f.val[o[1]].ops[0]
            b, off = ptr_base(self.f, p)
            if b[0] == "g" and off is not None:
                t = self.f.prog.globals.get(b[1], {})
                v = t.get("init") if isinstance(t, dict) else None
                if "c_primeTable" in b[1]:
                    return 49157 if off == 32 else None
        return None


# ---- 16-bit counts
class Small(Sim):
    def __init__(self, prog, f):
        Sim.__init__(self, f)
        self.prog = prog
        self.bad, self.n = [], 0

    def src(self, o):
        """field a 32-bit value was loaded from"""
        while o[0] == "i" and self.f.val[o[1]].op in ("zext", "sext", "freeze"):
            o = self.f.val[o[1]].ops[0]
        if o[0] == "i" and self.f.val[o[1]].op == "load" and self.f.val[o[1]].ty == "i32":
            g = ir.gep_field(self.f, self.f.val[o[1]].ops[0])
            if g:
                return g[0], g[1]
        return None

    def step(self, I, st):
        if I.op == "trunc" and I.ty == "i16":
            s = self.src(I.ops[0])
            if s:
                self.n += 1
                if s not in st:
                    self.bad.append(I)
        return (st,)

    def refine(self, o, pol, st):
        if o[0] != "i":
            return st
        I = self.f.val[o[1]]
        if I.op == "icmp" and I.ops[1][0] == "c":
            s = self.src(I.ops[0])
            k = I.ops[1][1]
            x = I.x
            if s and (x in ("ugt", "sgt") and not pol and k <= 65535 or x in ("uge", "sge") and not pol and k <= 65536 or x in ("ult",) and pol and k <= 65536 or x in ("ule",) and pol and k <= 65535):
                return st | {s}
        return st


def counts(R, prog, ser, wr):
    w = Small(prog, ser)
    w.run(frozenset())
    R.count("16-bit counts", w.n)
    for I in w.bad:
        R.violation("C14:count", I.loc(), "an element count that may exceed 65535 is stored in a 16-bit field: the reader would get a partial value")


# ---- every element is written and read
def rounds(R, f, rec):
    """a counted loop over the elements starts at the first, goes on to the last, with a counter that can reach it"""
    from loops import natural_loops
    for h, body in natural_loops(f).items():
        if not any(I.op == "call" and I.ops[0] == ["fn", rec.name] for b in body for I in f.blocks[b].insts):
            continue
        B = f.blocks[h]
        t = B.insts[-1]
        out = [b for b in B.succ if b not in body]
        if t.op != "br" or len(out) != 1 or t.ops[0][0] != "i" or f.val[t.ops[0][1]].op != "icmp":
            continue
        c = f.val[t.ops[0][1]]
        stay = c.x if t.ops[2][1] in body else NEG[c.x]

        def strip(o, w=64):
            while o[0] == "i" and f.val[o[1]].op in ("zext", "sext", "trunc", "freeze"):
                o = f.val[o[1]].ops[0]
            return o
        for a, b, pred in ((c.ops[0], c.ops[1], stay), (c.ops[1], c.ops[0], SWAP[stay])):
            i, n = strip(a), strip(b)
            ph = f.val[i[1]] if i[0] == "i" else None
            if ph is None or ph.op != "phi" or ph.bb.i != h or len(ph.ops) != 2 or n[0] != "i":
                continue
            start = [v for v, x in ph.ops if (x[1] if isinstance(x, list) else x) not in body]
            nxt = [strip(v) for v, x in ph.ops if (x[1] if isinstance(x, list) else x) in body]
            if len(start) != 1 or len(nxt) != 1 or start[0][0] != "c" or nxt[0][0] != "i":
                continue
            st = f.val[nxt[0][1]]
            if st.op != "add" or st.ops[1][0] != "c" or st.ops[1][1] != 1 or strip(st.ops[0]) != i:
                continue
            R.count("element loops")
            N = f.val[n[1]]
            why = None
            if start[0][1] != 0:
                why = "does not start at the first element"
            elif pred not in ("slt", "ult", "ne"):
                why = "does not stop after the last element"
            elif N.op in ("add", "sub", "lshr", "ashr", "udiv", "sdiv", "and") and N.ops[1][0] == "c":
                why = "does not visit as many elements as the record holds"
            elif N.op == "load" and min(16, int(N.ty[1:])) > int(ph.ty[1:]):   # counts fit in 16 bits (rule above)
                why = "counts with %d bits up to a %d-bit count: it never gets there" % (int(ph.ty[1:]), int(N.ty[1:]))
            if why:
                R.violation("C14:rounds:%s" % f.short, c.loc(), "%s: the loop over the elements %s" % (f.short, why))


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


# ---- record languages
class Lang(Sim):
    def __init__(self, prog, f, prim, rec, writer):
        Sim.__init__(self, f)
        self.prog, self.prim, self.rec, self.writer = prog, prim, rec, writer
        self.flagtest = set()

    def strip(self, o):
        while o[0] == "i" and self.f.val[o[1]].op in ("zext", "trunc", "sext", "freeze"):
            o = self.f.val[o[1]].ops[0]
        return o

    # state: (known local bytes, labels of this block)
    def step(self, I, st):
        loc, lab = st
        if any(x[0] == ("as", I.id) for x in loc):
            loc = frozenset(x for x in loc if x[0] != ("as", I.id))
        if I.op == "store":
            b, off = ptr_base(self.f, I.ops[1])
            if b[0] == "i" and self.f.val[b[1]].op == "alloca":
                loc = frozenset(x for x in loc if x[0] != b[1])
                if I.ops[0][0] == "c":
                    loc = loc | {(b[1], I.ops[0][1])}
                else:
                    # a flag computed from a condition: one case per outcome, remembered for later tests of the same condition
                    c = self.choice(I.ops[0])
                    if c:
                        q, t, e = c
                        known = [x[1] for x in loc if x[0] == ("as", q)]
                        return tuple((loc | {(b[1], v), (("as", q), pol)}, lab) for pol, v in ((True, t), (False, e)) if pol in known or not known)
        elif I.op == "call" and I.ops[0][0] == "fn":
            if I.ops[0][1] == self.prim:
                n = I.ops[3]
                k = n[1] if n[0] == "c" else "N"
                lab = lab + (k,)
                b, off = ptr_base(self.f, I.ops[2])
                if self.writer:
                    for x, v in loc:
                        if b == ["i", x] and k == 1:
                            lab = lab + (("flag", bool(v)),)
                else:
                    loc = frozenset(x for x in loc if b != ["i", x[0]])
            elif I.ops[0][1] == self.rec:
                lab = lab + (("R",) + self.slot(I.ops[2 if self.writer else 1]),)
        return ((loc, lab),)

    def choice(self, o):
        """(condition, value if true, value if false) of a value that depends on one condition"""
        while o[0] == "i" and self.f.val[o[1]].op in ("zext", "trunc", "freeze"):
            I = self.f.val[o[1]]
            if I.ops[0][0] == "i" and self.f.val[I.ops[0][1]].ty == "i1":
                q, neg = self.canon(I.ops[0])
                return (q, 0, 1) if neg else (q, 1, 0)
            o = I.ops[0]
        if o[0] == "i" and self.f.val[o[1]].op == "select":
            I = self.f.val[o[1]]
            if I.ops[0][0] == "i" and I.ops[1][0] == "c" and I.ops[2][0] == "c":
                q, neg = self.canon(I.ops[0])
                return (q, I.ops[2][1], I.ops[1][1]) if neg else (q, I.ops[1][1], I.ops[2][1])

    def canon(self, o):
        neg, o = False, self.strip(o)
        while o[0] == "i" and self.f.val[o[1]].op == "xor" and self.f.val[o[1]].ops[1][0] == "c":
            o, neg = self.strip(self.f.val[o[1]].ops[0]), not neg
        return o[1], neg

    def linear(self, o):
        """(coefficient, constant) of an index in its one loop variable"""
        o = self.strip(o)
        if o[0] == "c":
            return 0, o[1]
        I = self.f.val[o[1]] if o[0] == "i" else None
        if I is not None and I.op in ("add", "or", "sub", "mul", "shl"):
            a, b = self.linear(I.ops[0]), self.linear(I.ops[1])
            if I.op in ("add", "or"):
                return a[0] + b[0], a[1] + b[1]
            if I.op == "sub":
                return a[0] - b[0], a[1] - b[1]
            if not b[0]:
                k = b[1] if I.op == "mul" else 1 << b[1]
                return a[0] * k, a[1] * k
        return 1, 0

    def slot(self, o):
        """which element: byte stride and byte offset from the start of the data"""
        a, c = 0, 0
        while o[0] == "i" and self.f.val[o[1]].op in ("getelementptr", "bitcast", "phi"):
            I = self.f.val[o[1]]
            if I.op == "phi":       # a pointer stepped by a constant
                step = [ptr_base(self.f, v) for v, b in I.ops]
                ks = [k for b, k in step if b == ["i", I.id] and k]
                rest = [v for (v, _), (b, k) in zip(I.ops, step) if b != ["i", I.id]]
                if len(ks) != 1 or len(rest) != 1:
                    break
                a, o = a + ks[0], rest[0]
                continue
            if I.op == "getelementptr":
                c += I.x["off"]
                for v, s in I.x["var"]:
                    x, y = self.linear(v)
                    a, c = a + x * s, c + y * s
            o = I.ops[0]
        return a, c

    def byteload(self, o):
        o = self.strip(o)
        return o[0] == "i" and self.f.val[o[1]].op == "load" and self.f.val[o[1]].ty == "i8"

    def refine(self, o, pol, st):
        o = self.strip(o)
        if o[0] != "i":
            return st
        I = self.f.val[o[1]]
        loc, lab = st
        if (("as", o[1]), not pol) in loc:
            return None
        if I.op == "call" and I.ops[0][0] == "fn" and I.ops[0][1] in (self.prim, self.rec):
            return st if pol else None
        if I.op == "icmp" and I.x in ("eq", "ne") and I.ops[1][0] == "c" and self.byteload(I.ops[0]):
            eq = (I.x == "eq") == pol
            k = I.ops[1][1] & 0xFF
            if k == 0:
                return (loc, lab + (("flag", not eq),)) if not self.writer else st
            if eq:
                return loc, lab + (("tag", k),)
        if I.op == "load" and I.ty == "i8" and not self.writer:
            return loc, lab + (("flag", pol),)
        return st

    def case(self, o, k, st):
        if k is not None and self.byteload(o):
            return st[0], st[1] + (("tag", k & 0xFF),)
        return st

    def ret(self, I, value, st):
        self.ends.append((value, st))

    def automaton(self):
        """(start, {state: [(labels, state)]}, accepting)"""
        start = (0, (), frozenset())
        trans, acc, work = {}, set(), [start]
        END = "end"
        while work:
            k = work.pop()
            if k in trans:
                continue
            self.ends = []
            b, asg, loc = k
            out = []
            for (nb, na), (nl, lab) in self.block((b, asg), (loc, ())):
                nk = (nb, na, nl)
                out.append((lab, nk))
                work.append(nk)
            for v, (nl, lab) in self.ends:
                if v != 0:
                    out.append((lab, END))
            trans[k] = out
            if len(trans) > 5000:
                raise AnalysisBroken("record automaton of %s does not converge" % self.f.short)
        trans[END] = []
        # expand multi-label edges
        t2, n = {}, 0
        for k, es in trans.items():
            t2.setdefault(k, [])
            for lab, nk in es:
                cur = k
                for j, l in enumerate(lab):
                    nxt = nk if j == len(lab) - 1 else ("mid", k, n, j)
                    t2.setdefault(cur, []).append((l, nxt))
                    cur = nxt
                    t2.setdefault(cur, [])
                if not lab:
                    t2[k].append((None, nk))
                n += 1
        return start, t2, {END}


def closure(t, s):
    s = set(s)
    w = list(s)
    while w:
        for l, n in t.get(w.pop(), []):
            if l is None and n not in s:
                s.add(n)
                w.append(n)
    return frozenset(s)


def differ(A, B):
    """shortest word in exactly one of the two languages"""
    s0 = closure(A[1], {A[0]}), closure(B[1], {B[0]})
    seen, q = {s0}, [(s0, ())]
    while q:
        (a, b), w = q.pop(0)
        ia, ib = bool(a & A[2]), bool(b & B[2])
        if ia != ib:
            return w, ia, ib
        labs = {l for s in a for l, n in A[1].get(s, []) if l is not None} | {l for s in b for l, n in B[1].get(s, []) if l is not None}
        for l in sorted(labs, key=repr):
            na = closure(A[1], {n for s in a for m, n in A[1].get(s, []) if m == l})
            nb = closure(B[1], {n for s in b for m, n in B[1].get(s, []) if m == l})
            if (na, nb) not in seen and (na or nb):
                seen.add((na, nb))
                q.append(((na, nb), w + (l,)))
    return None
