"""C20: element accesses stay inside their container."""
import ir
from ir import AnalysisBroken, ptr_base
import bounds
import vm
from bounds import Walk, Prover, Facts, WID, SIZES, ty_bits, f_add, f_scale, hdr_struct
from loops import contains

TECHNIQUE = "guard analysis on LLVM IR: every element access, element pointer handed out, element move and length change in the indexing code must follow from the comparisons of its path with the container's current length (value ranges plus at most two comparisons, machine wrap-around included), with contracts for growing and creating arrays that are themselves checked"
NOTE = "scope: the index operator, element references, array iteration, array::* and _remove; hash tables, serialised data (C14) and text functions are not part of this check"
# helpers whose accesses are justified by their callers: analysed inside them
FOLD = ("_Z16wr_arrayInsertExP7WRValuejjS0_P9WRContext", "_Z16wr_arrayRemoveExP7WRValuejiS0_P9WRContext", "_Z20arrayElementToTargetjP7WRValueS0_")
BIG = 1 << 26                # elements; more than any container that can exist


def effects(prog):
    """function name -> {"H","V"}: object header fields / values it may write"""
    direct, calls = {}, {}
    H = Walk.HDR
    for f in prog.defined():
        s = set()
        c = set()
        for I in f.insts():
            if I.op == "store":
                b, off = ptr_base(f, I.ops[1])
                if b[0] == "i" and (f.val[b[1]].op == "alloca" or fresh(f, f.val[b[1]])) or b[0] == "g":
                    continue
                if hdr_struct(f, I.ops[1]):
                    if (off, I.x) in H:
                        s.add("H")
                elif not named(f, I.ops[1], ("WRContext", "WRState", "WRLibraryCleanup")) and I.x != "i8":
                    s.add("V")
            elif I.op == "call":
                o = I.ops[0]
                if o[0] == "fn":
                    if not o[1].startswith("llvm."):
                        c.add(o[1])
                else:
                    t = f.val[o[1]] if o[0] == "i" else None
                    if t is None or not (t.op == "load" and t.ops[0][0] == "g" and t.ops[0][1] in ("g_malloc", "g_free")):
                        s |= {"H", "V"}
        direct[f.name], calls[f.name] = s, c
    # a new object, and a hash table that moves its entries, leave other values alone
    keep = {prog.one(n).name for n in ("WRContext::getSVA", "WRGCObject::get", "WRContext::gc")}
    ch = True
    while ch:
        ch = False
        for n in direct:
            for m in calls[n]:
                e = direct.get(m, set())
                if m in keep:
                    e = e - {"V"} if m == prog.one("WRGCObject::get").name else set()
                if not e <= direct[n]:
                    direct[n] |= e
                    ch = True
    for m in keep:
        direct[m] = direct[m] - {"V"} if m == prog.one("WRGCObject::get").name else set()
    return direct


def fresh(f, I):
    if I.op != "call" or I.ops[0][0] != "i":
        return False
    t = f.val[I.ops[0][1]]
    return t.op == "load" and t.ops[0] == ["g", "g_malloc"]


def named(f, o, names):
    if o[0] != "i":
        return False
    I = f.val[o[1]]
    st = I.x.get("st", "") if I.op == "getelementptr" and I.x else ""
    return any(n in st for n in names)


class B(Prover):
    def __init__(self, fn, K, paths=None):
        self.K = K
        self.log, self.stale, self.pending, self.becomes = [], {}, [], {}
        Prover.__init__(self, fn, paths=paths)

    def start(self):
        self.log, self.stale, self.pending, self.becomes = [], {}, [], {}
        return Prover.start(self)

    # ---- objects
    def ty(self, F, obj):
        K = self.K
        if obj[0] == "ld" and obj[2] == "ptr":
            v = obj[1]
            if v[0] == "call" and v[1] == K.ifarray:
                return K.VALUE
            for t in K.terms(F, lambda t: t[0] == "ld" and t[1] == ("ptr", v, K.o_x, ()) and t[2] == "i8"):
                e = F.V(t, 8, False)
                for x, ty in ((K.X_HASH, K.HASH), (K.X_STRUCT, K.VALUE)):
                    if self.equal(F, e, x):
                        return ty
        if obj[0] == "call" and obj[1] == self.K.sva and obj[2][2][0] == "k":
            return obj[2][2][1]
        for t in set(Walk.FIELDS.get((obj, "i8"), ())) | set(K.terms(F, lambda t: t[0] == "ld" and t[1] == obj and t[2] == "i8")):
            e = F.V(t, 8, False)
            for v in self.K.kinds:
                if self.equal(F, e, v):
                    return v
            if F.isne(t, 8, K.CHAR) and self.listy(F, obj):
                return K.VALUE
        return None

    def listy(self, F, obj):
        """an array or a string"""
        K = self.K
        if obj == ("arg", 0) and self.fn.name == K.grow:
            return True
        if obj[0] == "ld" and obj[2] == "ptr":
            v = obj[1]
            for t in K.terms(F, lambda t: t[0] == "ld" and t[1] == ("ptr", v, K.o_x, ()) and t[2] == "i8"):
                if self.equal(F, F.V(t, 8, False), K.X_ARRAY):
                    return True
        return False

    @staticmethod
    def equal(F, e, v):
        return F.proves((e[0] - v, e[1])) and F.proves((v - e[0], {x: -n for x, n in e[1].items()}))

    def caps(self, F, obj, ty):
        """known lower bounds of the bytes in the object's data block"""
        K = self.K
        if self.pending and any(self.equal(F, F.V(x, 8, False), 0) for x in K.terms(F, lambda x: x[0] == "ld" and x[1] == ("g", "g_mallocFailed"))):
            for t, v in self.pending:
                F.eq(F.V(t, 32, False), v)
                self.becomes[t] = v
        out = []
        if ty in (K.VALUE, K.CHAR):
            u = 16 if ty == K.VALUE else 1
            if obj[0] == "call" and obj[1] == K.sva:
                out.append(f_scale(F.V(obj[2][1], 32, False), u))
            for t in Walk.FIELDS.get((("ptr", obj, K.o_size, ()), "i32"), ()):
                out.append(f_scale(self.becomes.get(t) or F.V(t, 32, False), u))
        elif ty in (K.HASH, K.VOID):
            u = 32 if ty == K.HASH else 16
            for t in Walk.FIELDS.get((("ptr", obj, K.o_mod, ()), "i16"), ()):
                out.append(f_scale(F.V(t, 16, False), u))
        return out

    def need(self, F, a, n, I, what):
        """a: address, n: linear form of the bytes touched"""
        K = self.K
        r = self.root(a)
        if r[0] == "ld" and r[2] == "ptr" and r[1][0] == "ptr" and not r[1][3] and r[1][2] == K.o_data and r[1] in Walk.DATA:
            obj = r[1][1]
            ty = self.ty(F, obj)
            if obj in self.stale and not self.silent and (len(r) == 3 or r[3] in self.stale[obj]):
                K.fail(self.fn, I, what, "the storage the container had before it was grown")
                return
            K.saw(self.fn, I, self.silent)
            if self.silent:
                return
            if ty in (K.HASH, K.VOID) or K.hashy(F, obj):
                return
            if ty is None and (a == r or a[0] == "ptr" and a[1] == r and all(sc == 1 for _, sc in a[3]) and a[3]):
                ty = K.CHAR          # a byte below the element count is inside whatever the kind
            if ty is None:
                K.fail(self.fn, I, what, "the kind of the container is not established")
                return
            if n[1] and F.proves((-n[0], {x: -k for x, k in n[1].items()})) or not n[1] and n[0] <= 0:
                return               # nothing is touched
            cs = self.caps(F, obj, ty)
            why = "its length is not consulted"
            for c in cs:
                why = self.inside(F, a, n, r, c)
                if why is None:
                    return
            K.fail(self.fn, I, what, why)

    def event(self, e, F):
        k = e[0]
        self.event1(e, F, k)
        self.log.append((k, e[-1].id))

    def event1(self, e, F, k):
        if k in ("load", "store"):
            ty = e[2] if k == "load" else e[3]
            self.need(F, e[1], ((ty_bits(ty) or 64) // 8, {}), e[-1], "read" if k == "load" else "write")
            self.raw(F, e[1], e[-1], k)
            if k == "store":
                self.escape(F, e[2], e[-1])
                self.lengths(e, F)
        elif k == "memcpy":
            n = F.V(e[3], 64, False)
            self.need(F, e[1], n, e[-1], "copy to")
            self.need(F, e[2], n, e[-1], "copy from")
        elif k == "call":
            if e[1].startswith(("llvm.memset", "llvm.memmove")) or e[1] in ("memcpy", "memmove", "memset"):
                n = F.V(e[2][2], 64, False)
                self.need(F, e[2][0], n, e[-1], "fill or copy to")
                if "memset" not in e[1]:
                    self.need(F, e[2][1], n, e[-1], "copy from")
            else:
                for x in e[2]:
                    self.escape(F, x, e[-1])
                self.contract(e, F)
        elif k == "icall":
            for x in e[2]:
                self.escape(F, x, e[-1])

    def raw(self, F, a, I, k):
        """a byte of a host array"""
        K = self.K
        if a[0] != "ptr" or len(a[3]) != 1 or a[3][0][1] != 1 or a[2]:
            return
        r = a[1]
        if r[0] != "ld" or r[2] != "ptr" or r[1] in Walk.DATA or self.silent:
            return
        V = r[1]
        if V[0] == "ptr" and V[2] % 16:
            return
        if not K.rawly(F, V):
            return
        K.count("host array bytes", I)
        v = F.V(a[3][0][0], 64, False)
        for t in K.raws(F, V):
            c = F.V(t, F.width(t, 32), False)
            if F.proves(f_add((c[0] - 1, c[1]), v, -1)):
                return
        K.fail(self.fn, I, "read" if k == "load" else "write", "byte of a host array without its length being consulted")

    def escape(self, F, t, I):
        """a pointer to an element handed on"""
        if t[0] == "ptr" and t[3] and self.root(t) != t and any(s == 16 for _, s in t[3]):
            self.need(F, t, (16, {}), I, "element handed out")

    def contract(self, e, F):
        K = self.K
        if e[1] == K.grow:
            X, n = e[2]
            v = F.V(n, 32, False)
            if not self.silent:
                K.count("arrays grown", e[-1])
                if not F.proves((BIG - v[0], {x: -k for x, k in v[1].items()})):
                    K.fail(self.fn, e[-1], "grow to", "an index with no upper bound: the new length can wrap around")
                    return
                if not any(F.proves(f_add((v[0] + 1, v[1]), F.V(t, 32, False), -1)) for t in Walk.FIELDS.get((("ptr", X, K.o_size, ()), "i32"), ())):
                    K.fail(self.fn, e[-1], "grow to", "an index not shown to be at or past the present length: the elements would not fit")
                    return
                self.stale[X] = set(self.log)
            t = ("ld", ("ptr", X, K.o_size, ()), "i32", ("call", e[-1].id))
            WID[t] = 32
            u = ("ld", X, "i8", ("call", e[-1].id))      # growing keeps the kind
            kn = {v for p in K.terms(F, lambda p: p[0] == "ld" and p[1] == X and p[2] == "i8") for v in K.kinds if self.equal(F, F.V(p, 8, False), v)}
            if len(kn) > 1:
                F.false = True
                return
            SIZES.add(t)
            Walk.FIELDS.setdefault((t[1], "i32"), set()).add(t)
            if K.cfg not in K.mf:
                F.eq(F.V(t, 32, False), (v[0] + 1, v[1]))
                self.becomes[t] = (v[0] + 1, v[1])
            else:                        # there growing may fail, and says so
                self.pending.append((t, (v[0] + 1, v[1])))
        elif e[1] == K.sva and not self.silent and e[2][2] == ("k", K.VALUE):
            v = F.V(e[2][1], 32, False)
            K.count("arrays created", e[-1])
            if not F.proves((BIG - v[0], {x: -k for x, k in v[1].items()})):
                K.fail(self.fn, e[-1], "create", "an array with no upper bound on its size: the byte count can wrap around")

    def lengths(self, e, F):
        """a store to a container's length: never above what it was"""
        K = self.K
        a = e[1]
        if not (a[0] == "ptr" and not a[3] and a[2] == K.o_size and e[3] == "i32" and hdr_struct(self.fn, e[4].ops[1])) or self.silent:
            return
        obj = a[1]
        if self.fn.name in K.makers or obj[0] == "call" and obj[1] == K.sva:
            return
        K.count("length changes", e[-1])
        v = F.V(e[2], 32, False)
        for t in Walk.FIELDS.get((a, "i32"), ()):
            if F.proves(f_add(F.V(t, 32, False), v, -1)):
                return
        K.fail(self.fn, e[-1], "set length", "not shown to be at most the present length")

    def done(self, p, F):
        end = self.end
        if end[0] == "ret" and end[1] and not F.false:
            I = self.fn.blocks[-1].insts[-1]
            self.escape(F, end[1], I)
            if self.fn.name == self.K.ifarray and end[1] != ("k", 0):
                if self.ty(F, ("ld", end[1], "ptr")) != self.K.VALUE or not self.K.xt(F, end[1], self.K.X_ARRAY):
                    self.K.fail(self.fn, I, "vouch for", "a value not shown to be an array of values")


class G(Prover):
    """the two functions that give a container its storage"""

    def __init__(self, fn, K, grow):
        self.K, self.grow = K, grow
        Prover.__init__(self, fn)

    def start(self):
        F = Prover.start(self)
        K = self.K
        a = F.V(("arg", 1), 32, False)
        F.ge((BIG - a[0], {x: -k for x, k in a[1].items()}))
        self.o = ("ptr", ("arg", 0), K.o_size, ())
        self.d = ("ptr", ("arg", 0), K.o_data, ())
        self.old = ("ld", self.o, "i32")
        self.size, self.data, self.kind, self.fills = None, None, None, []
        if self.grow:
            WID[self.old] = 32
            SIZES.add(self.old)
            F.ge(f_add((a[0] + 1, a[1]), F.V(self.old, 32, False), -1))
        return F

    def event(self, e, F):
        k = e[0]
        if k == "store":
            if e[1] == self.o and e[3] == "i32":
                self.size = (e[2], e[-1])
            elif e[1] == self.d and e[3] == "ptr":
                self.data = (e[2], e[-1])
            elif e[1] == ("arg", 0) and e[3] == "i8":
                self.kind = e[2]
        elif k == "memcpy":
            self.fills.append(("copy", e[1], e[3], e[-1], e[2]))
        elif k == "call" and e[1].startswith("llvm.memset"):
            self.fills.append(("zero", e[2][0], e[2][2], e[-1], None))

    def done(self, p, F):
        K = self.K
        if F.false or p.end[0] != "ret" or self.data is None:
            return
        m = self.data[0]
        end = self.fn.blocks[-1].insts[-1]
        if m[0] != "icall" or m[1][:2] != ("ld", ("g", "g_malloc")):
            if self.size is not None and not (self.size[0] == ("k", 0)):
                K.fail(self.fn, self.size[1], "set length", "on a path that has no new storage for it")
            return
        if F.proves((0, {x: -k for x, k in F.V(m, 64, False)[1].items()})):
            if self.size is not None and self.size[0] != ("k", 0):
                K.fail(self.fn, self.size[1], "set length", "although no memory was obtained")
            return
        t = self.kind if self.kind is not None else ("ld", ("arg", 0), "i8")
        unit = None
        for tt in [t] + [x for x in (t,) if x[0] == "t8"]:
            for sg in (True, False):
                for v, u in ((K.VALUE, 16), (K.CHAR, 1)):
                    if B.equal(F, F.V(tt, 8, sg), v):
                        unit = u
        if unit is None:
            if F.isne(t, 8, K.CHAR):
                unit = 16            # arrays and strings are the kinds that grow
            else:
                return
        K.R.count("storage paths")
        size = F.V(self.size[0], 32, False) if self.size else F.V(self.old, 32, False)
        want = F.V(("arg", 1), 32, False)
        if self.grow:
            want = (want[0] + 1, want[1])
        d = f_add(size, want, -1)
        if not (F.proves(d) and F.proves(f_scale(d, -1))):
            K.fail(self.fn, self.size[1] if self.size else end, "set length", "not the length that was asked for")
            return
        have = F.V(m[2][0], 64, False)
        if not F.proves(f_add(have, f_scale(size, unit), -1)):
            K.fail(self.fn, self.data[1], "allocate", "fewer bytes than %d per element of the new length" % unit)
            return
        lo = (0, {})
        for kind, a, n, I, src in self.fills:
            if self.root(a) != m:
                continue
            n = F.V(n, 64, False)
            why = self.inside(F, a, n, m, have)
            if why:
                K.fail(self.fn, I, "fill", why)
                return
            off = f_add(F.V(a, 64), F.V(m, 64), -1)
            if kind == "copy" and src is not None and self.grow:
                r = self.root(src)
                if r == ("ld", self.d, "ptr") and not F.proves(f_add(f_scale(F.V(self.old, 32, False), unit), n, -1)):
                    K.fail(self.fn, I, "copy from", "past the end of the old elements")
                    return
            if F.proves(f_add(lo, off, -1)):       # no gap
                lo = f_add(off, n)
        clear = self.grow or any(e[0] == "br" and e[2] and e[1] in (("t1", ("z", ("arg", 3))), ("arg", 3), ("t1", ("arg", 3)), ("t1", ("z", ("t1", ("arg", 3))))) for e in p.events)
        if clear and not F.proves(f_add(lo, f_scale(size, unit), -1)):
            K.fail(self.fn, end, "fill", "some of the new elements keep whatever the memory held")


class K:
    mf = ("mfail", "cmfail", "smfail")

    def __init__(self, R, prog, cfg):
        self.R, self.prog, self.cfg = R, prog, cfg
        o = prog.offset
        self.o_data, self.o_size, self.o_mod, self.o_tab = o("WRGCBase", "m_Vdata"), o("WRGCObject", "m_size"), o("WRGCBase", "m_mod"), o("WRGCObject", "m_hashTable")
        ev = prog.enum_value
        self.VALUE, self.CHAR, self.HASH, self.VOID = ev("SV_VALUE"), ev("SV_CHAR"), ev("SV_HASH_TABLE"), ev("SV_VOID_HASH_TABLE")
        self.kinds = (self.VALUE, self.CHAR, self.HASH, self.VOID)
        self.sva = prog.one("WRContext::getSVA").name
        self.grow = prog.one("wr_growValueArray").name
        self.ifarray = prog.one("wr_ifValueArray").name
        self.makers = {prog.one("wr_growValueArray").name}
        self.o_x, self.o_p2 = o("WRValue", "xtype"), o("WRValue", "p2")
        self.X_HASH, self.X_STRUCT, self.X_ARRAY, self.X_RAW = ev("WR_EX_HASH_TABLE"), ev("WR_EX_STRUCT"), ev("WR_EX_ARRAY"), ev("WR_EX_RAW_ARRAY")
        Walk.HDR = {(0, "i8"): 1, (self.o_mod, "i16"): 1, (self.o_data, "ptr"): 1, (self.o_size, "i32"): "size", (self.o_tab, "ptr"): 1}
        Walk.FIELDS, Walk.DATA = {}, set()
        fx = effects(prog)
        Walk.FX = staticmethod(lambda n: fx.get(n, set()))
        self.seen, self.bad, self.cnt = {}, {}, set()

    def fresh(self):
        for t in (WID, SIZES, Walk.FIELDS, Walk.DATA):
            t.clear()

    def count(self, what, I):
        if (what, I.id, I.fn.name if hasattr(I, "fn") else "") not in self.cnt:
            self.cnt.add((what, I.id, I.fn.name if hasattr(I, "fn") else ""))
            self.R.count(what)

    def terms(self, F, pred):
        out = []

        def walk(t):
            if isinstance(t, tuple):
                if t and isinstance(t[0], str) and pred(t):
                    if t not in out:
                        out.append(t)
                for x in t:
                    walk(x)
        for f in F.f:
            for a in f[1]:
                walk(a)
        return out

    def xt(self, F, V, want):
        """xtype of V (its top bits) known to be `want`"""
        for t in self.terms(F, lambda t: t[0] == "ld" and t[1] == ("ptr", V, self.o_x, ()) and t[2] == "i8"):
            e = F.V(t, 8, False)
            if B.equal(F, e, want):
                return True
            for m in self.terms(F, lambda u: u[0] == "op" and u[1] == "and" and any(w == t or w in (("z", t), ("s", t)) for w in u[2:])):
                g = F.V(m, F.width(m, 32), False)
                if B.equal(F, g, want):
                    return True
        return False

    def hashy(self, F, obj):
        if obj[0] == "ld" and obj[2] == "ptr":
            return self.xt(F, obj[1], self.X_HASH)
        return obj[0] == "call" and obj[1] == self.sva and obj[2][2] in (("k", self.HASH), ("k", self.VOID))

    def rawly(self, F, V):
        if any(self.xt(F, V, x) for x in (self.X_ARRAY, self.X_HASH, self.X_STRUCT)):
            return False         # tested before: not on this path
        return self.xt(F, V, self.X_RAW)

    def raws(self, F, V):
        """terms of the path's comparisons that are computed from V's length field"""
        return self.terms(F, lambda t: t[0] in ("op", "t32", "z") and self.has(t, ("ptr", V, self.o_p2, ())))

    def has(self, t, a):
        if not isinstance(t, tuple):
            return False
        if t[:1] == ("ld",) and t[1] == a:
            return True
        return t[0] in ("op", "t32", "z", "s") and any(self.has(x, a) for x in t[1:])

    def saw(self, fn, I, silent):
        self.seen[(fn.name, I.id if I else None)] = 1

    def fail(self, fn, I, what, why):
        k = (fn.name, I.id if I else None, what)
        if k not in self.bad:
            self.bad[k] = (fn, I, what, why)

    FILES = ("discrete_src/vm/index.cpp", "discrete_src/vm/operations", "discrete_src/lib/std_container.cpp")
    ALSO = ("wr_getNextValue", "WRValue::indexArray")
    NOT = ("wr_concatStringCheck", "WRValue::getHashEx", "wr_valueFromConfirmedStruct")

    def functions(self):
        for f in self.prog.defined():
            if f.file.startswith(self.FILES) and f.short not in self.NOT or f.short in self.ALSO:
                yield f


def check(R):
    R.rule("every read, write, copy or move of an element of an array or string, and every element pointer handed on, lies below the container's length as the comparisons of its path establish it (the kind of the container decides the element size)")
    R.rule("a byte of a host array is touched only below the length the value carries")
    R.rule("an array is grown only to an index that is bounded and not below its present length, created only with a bounded size, and its length is otherwise never raised")
    R.rule("after growing, the old storage is not used; an access relies on growing only where it cannot have failed")
    R.rule("wr_growValueArray and WRGCObject::init provide what the rules above take for granted: the length asked for, bytes for every element, old elements kept, new ones zero")
    R.assume("containers hold fewer than 2^25 elements")
    R.assume("two value pointers on one path are different values unless compared")
    for cfg in ("default", "compact", "mfail"):
        prog = ir.std(cfg, fold=FOLD)
        k = K(R, prog, cfg)
        for f in k.functions():
            R.count("functions analysed")
            k.fresh()
            B(f, k).run()
        for n, g in (("wr_growValueArray", True), ("WRGCObject::init", False)):
            k.fresh()
            R.count("functions analysed")
            G(prog.one(n), k, g).run()
        it = vm.Interp(prog)
        for o in ("O_Remove", "O_InitArray"):
            R.count("instruction handlers analysed")
            k.fresh()
            B(it.fn, k, paths=it.walk(prog.enum_value(o), lambda fn, env, i: Walk(fn, env, i))).run()
        R.count("element accesses", len(k.seen))
        for fn, I, what, why in k.bad.values():
            R.violation("%s:%s:%s" % (fn.short, what, why), "%s %s [%s]" % (I.loc() if I else fn.file, fn.short, cfg), "%s %s" % (what, why))
    R.floor("functions analysed", 600)
    R.floor("element accesses", 60)
    R.floor("arrays grown", 6)
    R.floor("length changes", 9)
    R.floor("storage paths", 9)
