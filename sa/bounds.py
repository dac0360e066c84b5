"""Buffer bounds along the paths of a function.

Values are linear forms over integers (machine wrap-around included: a sum of
machine words is used as a sum only where the facts of the path keep it inside
the word).  Facts come from the branches of the path, from constant-step loops
and from contracts of callees; a goal follows from the value ranges of its terms
plus at most two comparisons the path went through (no solver).  Object header fields are read per epoch: a load
names the last event that could have changed the field."""
import vm
from vm import mkptr
import gcwalk
from gcwalk import Rec, RecBody
from loops import contains, subst
from lin import NEG
from ir import ptr_base, AnalysisBroken
from math import gcd

WID = {}                     # term -> bits
SIZES = set()                # lengths of containers (no container reaches 2^25 elements)


def ty_bits(ty):
    if ty == "ptr":
        return 64
    if ty and ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    return None


class Walk(Rec):
    """terms with memory epochs.  fx: effects(name) -> set of "H" (object headers), "V" (other memory)"""
    FX = None
    HDR = {}                 # (offset, type) of tracked header fields

    def note(self, t, ty):
        w = ty_bits(ty)
        if w and t not in WID:
            WID[t] = w
        return t

    def eval(self, I, pure=False):
        v = Rec.eval(self, I, pure)
        if v is not None and v[0] != "k":
            self.note(v, I.ty)
        return v

    def call(self, I):
        Rec.call(self, I)
        if I.id in self.env:
            t = self.env[I.id]
            n = len(self.events)
            if I.ops[0][0] != "fn" or self.FX(I.ops[0][1]) or True:
                # results of separate calls are separate values unless nothing was written in between
                last = self.dirty(n - 1)
                if last is not None:
                    t = t + (("@", last),)
                    self.env[I.id] = t
            self.note(t, I.ty)

    def tag(self, k):
        e = self.events[k]
        if e[0] == "rec":
            return ("rec", e[1].head)
        return (e[0], e[-1].id)

    def base0(self):
        return getattr(self, "outer", None)

    def dirty(self, k):
        """last event before k that writes any shared memory"""
        for j in range(k - 1, -1, -1):
            e = self.events[j]
            if e[0] == "store" and not self.local(e[1]) or e[0] in ("memcpy",) or e[0] in ("call", "icall") and self.effects(e) or e[0] == "rec" and self.rec_effects(e[1]):
                return self.tag(j)
        return self.base0()

    @staticmethod
    def local(a):
        r = a[1] if a[0] == "ptr" else a
        return r[0] in ("alloca", "g")

    def effects(self, e):
        if e[0] == "call":
            return self.FX(e[1])
        if e[0] == "icall":
            t = e[1]
            if t[0] == "ld" and t[1] in (("g", "g_malloc"), ("g", "g_free")):
                return set()
            return {"H", "V"}
        return set()

    def rec_effects(self, L):
        s = set()
        for b, _ in L.back:
            for e in b:
                if e[0] == "store" and not self.local(e[1]):
                    s.add("H" if self.header_addr(e[1], e[3]) and hdr_struct(self.fn, e[4].ops[1]) else "W")
                elif e[0] in ("call", "icall"):
                    s |= self.effects(e)
                elif e[0] == "rec":
                    s |= self.rec_effects(e[1])
        return s

    def header_addr(self, a, ty):
        if a[0] == "ptr" and not a[3]:
            return (a[2], ty) in self.HDR
        return (0, ty) in self.HDR and a[0] != "ptr"

    def load(self, a, ty, I):
        v = self._load(a, ty, I)
        if v[0] == "ld" and self.header_addr(a, ty) and hdr_struct(self.fn, I.ops[0]):
            self.FIELDS.setdefault((a, ty), set()).add(v)
            if self.HDR.get((a[2] if a[0] == "ptr" else 0, ty)) == "size":
                SIZES.add(v)
        return v

    FIELDS = {}

    def _load(self, a, ty, I):
        root, off, var = (a[1], a[2], a[3]) if a[0] == "ptr" else (a, 0, ())
        if root == ("reg", "PC"):
            return Rec.load(self, a, ty, I)
        hdr = self.header_addr(a, ty) and hdr_struct(self.fn, I.ops[0])
        if ty == "ptr" and hdr:
            self.DATA.add(a)
        loc = root[0] in ("alloca", "g")
        for k in range(len(self.events) - 1, -1, -1):
            e = self.events[k]
            if e[0] == "store":
                if e[1] == a and e[3] == ty:
                    return e[2]
                r2, o2, v2 = (e[1][1], e[1][2], e[1][3]) if e[1][0] == "ptr" else (e[1], 0, ())
                if loc != (r2[0] in ("alloca", "g")):
                    continue
                if loc and r2 != root:
                    continue
                if root == r2 and not var and not v2 and not self.overlap(off, ty, o2, e[3]):
                    continue
                w1, w2 = ty_bits(ty), ty_bits(e[3])
                if root == r2 and not var and not v2 and e[2][0] == "k" and isinstance(e[2][1], int) and w1 and w2 and w1 < w2 and o2 <= off and off * 8 + w1 <= o2 * 8 + w2:
                    return ("k", (e[2][1] >> (off - o2) * 8) & (1 << w1) - 1)      # part of a constant
                if not loc and hdr != (self.header_addr(e[1], e[3]) and hdr_struct(self.fn, e[4].ops[1])):
                    continue          # object headers and values do not overlap
                if not loc and not hdr and root != r2:
                    continue          # two value pointers on a path are taken to be different values
                if not var and not v2 and not loc:
                    if hdr and not self.overlap(off, ty, o2, e[3]):
                        continue
                    if not hdr and not self.overlap(off % 16, ty, o2 % 16, e[3]):
                        continue          # another field of a value
                return ("ld", a, ty, self.tag(k))
            if e[0] == "memcpy" and not hdr and (loc == self.local(e[1])) and contains(e[1], root):
                return ("ld", a, ty, self.tag(k))
            if e[0] in ("call", "icall"):
                fx = self.effects(e)
                if loc:
                    if any(contains(x, root) for x in e[2]) or root[0] == "g" and e[0] == "icall" and fx:
                        return ("ld", a, ty, self.tag(k))
                elif ("H" if hdr else "V") in fx:
                    if not (hdr and self.untouched(e, root)):
                        return ("ld", a, ty, self.tag(k))
            if e[0] == "rec":
                fx = self.rec_effects(e[1])
                if loc:
                    if root[0] == "alloca" and self.rec_local(e[1], root):
                        return ("ld", a, ty, self.tag(k))
                elif ("H" if hdr else "V") in fx:
                    return ("ld", a, ty, self.tag(k))
        o = self.base0()
        if o is not None and not (loc and not self.outer_local.get(root, True)):
            if loc or ("H" if hdr else "V") in self.outer_fx:
                return ("ld", a, ty, o)
        return ("ld", a, ty)

    DATA = set()             # addresses of tracked pointer fields of objects
    outer_fx = ()
    outer_local = {}

    def untouched(self, e, root):
        return False

    def rec_local(self, L, root):
        for b, _ in L.back:
            for e in b:
                if e[0] in ("store", "memcpy") and contains(e[1], root) or e[0] in ("call", "icall") and any(contains(x, root) for x in e[2]):
                    return True
                if e[0] == "rec" and self.rec_local(e[1], root):
                    return True
        return False

    @staticmethod
    def overlap(o1, t1, o2, t2):
        a = (ty_bits(t1) or 64) // 8
        b = (ty_bits(t2) or 64) // 8
        return o1 < o2 + b and o2 < o1 + a

    def summarise(self, b, came, body):
        # what one round of the loop can write decides which loads inside it are new each round
        fn = self.fn
        fx = set()
        loc = {}
        for x in body:
            for I in fn.blocks[x].insts:
                if I.op == "store":
                    bb, off = ptr_base(fn, I.ops[1])
                    if bb[0] == "i" and fn.val[bb[1]].op == "alloca":
                        loc[("alloca", bb[1])] = True
                    elif bb[0] == "g":
                        pass
                    else:
                        g = I.ops[1]
                        if hdr_struct(fn, g):
                            if (off, I.x) in self.HDR:
                                fx.add("H")
                elif I.op == "call":
                    c = I.ops[0]
                    if c[0] == "fn" and c[1].startswith("llvm.mem"):
                        pass
                    elif c[0] == "fn":
                        fx |= self.FX(c[1])
                    else:
                        t = fn.val[c[1]] if c[0] == "i" else None
                        if t is None or not (t.op == "load" and t.ops[0][0] == "g" and t.ops[0][1] in ("g_malloc", "g_free")):
                            fx |= {"H", "V"}
                    for o in I.ops[1:]:
                        bb, _ = ptr_base(fn, o) if o[0] == "i" else (o, 0)
                        if bb[0] == "i" and fn.val[bb[1]].op == "alloca":
                            loc[("alloca", bb[1])] = True
        self._inner = (b, fx, loc)
        return Rec.summarise(self, b, came, body)

    def body_walker(self, fn, env, it, loops, b, body):
        W = self.BODYCLASS(fn, env, it, loops, b, body)
        hb, fx, loc = self._inner
        W.outer = ("loop", hb) if (fx or loc) else self.base0()
        W.outer_fx = set(fx) | set(self.outer_fx)
        if not fx and not loc:
            W.outer_fx = self.outer_fx
        W.outer_local = {I: loc.get(I, False) for I in [("alloca", i.id) for i in fn.insts() if i.op == "alloca"]}
        # stores made before the loop are still there for what the loop does not write
        W.before = (self, list(self.events))
        return W


def hdr_struct(fn, o):
    if o[0] != "i":
        return False
    I = fn.val[o[1]]
    st = I.x.get("st", "") if I.op == "getelementptr" and I.x else ""
    return "WRGC" in st


class WalkBody(Walk, RecBody):
    def __init__(self, fn, env, it, loops, head, body):
        RecBody.__init__(self, fn, env, it, loops, head, body)

    def _load(self, a, ty, I):
        v = Walk._load(self, a, ty, I)
        if v[0] == "ld" and len(v) == 3:
            # not written in the loop: as before the loop
            up, ev = self.before
            save, up.events = up.events, ev
            try:
                v = up._load(a, ty, I)
            finally:
                up.events = save
        return v


Walk.BODYCLASS = WalkBody


# ---------------------------------------------------------------------- linear facts
def f_add(a, b, s=1):
    d = dict(a[1])
    for x, k in b[1].items():
        n = d.get(x, 0) + s * k
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return a[0] + s * b[0], d


def f_scale(a, k):
    return a[0] * k, ({x: n * k for x, n in a[1].items()} if k else {})


def key(f):
    return f[0], tuple(sorted(((id_of(x), n) for x, n in f[1].items())))


_ids = {}


def id_of(x):
    if x not in _ids:
        _ids[x] = len(_ids)
    return _ids[x]


class Facts:
    def __init__(self):
        self.f = []
        self.keys = set()
        self.memo = {}
        self.ne = []
        self.extra = set()
        self.iv = {}             # atom -> interval, from comparisons with constants
        self.defs = {}           # 64-bit loop variable -> start + step * rounds

    def isne(self, t, w, v):
        """t != v was tested"""
        for sg in (True, False):
            e = self.V(t, w, sg)
            k = key((e[0] - v, e[1]))
            if any(key(d) == k or key(f_scale(d, -1)) == k for d in self.ne):
                return True
        return False

    def copy(self):
        n = Facts()
        n.f, n.keys, n.ne, n.extra, n.iv, n.false = list(self.f), set(self.keys), list(self.ne), set(self.extra), dict(self.iv), self.false
        n.defs = dict(self.defs)
        return n

    def ge(self, e):
        """e >= 0 is known"""
        if not e[1]:
            if e[0] < 0:
                self.false = True
            return
        g = 0
        for n in e[1].values():
            g = gcd(g, n)
        if g > 1 and e[0] % g:               # whole numbers
            e = (e[0] - e[0] % g, e[1])
        if len(e[1]) == 1:
            (x, n), = e[1].items()
            l, h = self.iv.get(x, (None, None))
            if n > 0:
                b = -(e[0] // n)
                l = b if l is None or b > l else l
            else:
                b = e[0] // -n
                h = b if h is None or b < h else h
            self.iv[x] = (l, h)
            if l is not None and h is not None and l > h:
                self.false = True
        k = key(e)
        if k not in self.keys:
            self.keys.add(k)
            self.f.append(e)
            self.memo = {}

    false = False

    def eq(self, a, b):
        self.ge(f_add(a, b, -1))
        self.ge(f_add(b, a, -1))

    # ---- ranges of atoms
    def arange(self, x):
        l, h = self.arange0(x)
        if x in self.iv:
            a, b = self.iv[x]
            l = a if l is None or a is not None and a > l else l
            h = b if h is None or b is not None and b < h else h
        return l, h

    def arange0(self, x):
        if x[0] == "m":
            w, sg = x[1], x[2]
            t = x[3]
            if w > 64:
                return None, None
            if t in SIZES:
                return 0, 1 << 25
            if t[0] == "op" and t[1] == "and":
                for k in (t[2], t[3]):
                    if k[0] == "k" and k[1] >= 0:
                        return 0, k[1]
            if t[0] == "op" and t[1] == "lshr" and t[3][0] == "k":
                y = t[2]
                if y[0] == "op" and y[1] == "and":
                    for k in (y[2], y[3]):
                        if k[0] == "k" and k[1] >= 0:
                            return 0, k[1] >> t[3][1]
                return 0, ((1 << w) - 1) >> t[3][1]
            if sg:
                return -(1 << (w - 1)), (1 << (w - 1)) - 1
            return 0, (1 << w) - 1
        return None, None

    # ---- value of a term
    def width(self, t, d=32):
        if t in WID:
            return WID[t]
        k = t[0]
        if k == "ld":
            return ty_bits(t[2]) or d
        if k == "code":
            return t[2]
        if k[0] == "t" and k[1:].isdigit():
            return int(k[1:])
        if k in ("alloca", "g", "fresh", "reg", "fn"):
            return 64
        if k in ("z", "s"):
            return d if d > 32 else max(d, 32)
        if k in ("ptr", "op"):
            for x in ((t[1],) if k == "ptr" else (t[2], t[3])):
                if x[0] != "k":
                    return self.width(x, d)
        if k == "hav" or k == "ind":
            return WID.get(t, d)
        return d

    def V(self, t, w=None, sg=False, depth=0):
        k = t[0]
        if k == "k":
            w = w or 64
            v = t[1]
            if sg:
                v &= (1 << w) - 1
                return (v - (1 << w) if v >> (w - 1) else v), {}
            return (v & ((1 << w) - 1)) if w < 64 else v, {}
        if w is None:
            w = self.width(t, 32)
        if w >= 64 and t in self.defs:
            return self.defs[t]
        m = (t, w, sg)
        if m in self.memo:
            return self.memo[m]
        r = self._V(t, w, sg, depth)
        self.memo[m] = r
        return r

    def atom(self, t, w, sg):
        if sg and w < 64:
            u = ("m", w, False, t)
            if self.proves(((1 << (w - 1)) - 1, {u: -1})):
                return 0, {u: 1}
        return 0, {("m", w, sg if w < 64 else False, t): 1}

    def fit(self, e, t, w, sg):
        """e as the w-bit value of t, if it cannot wrap"""
        if w >= 64:
            return e
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if self.proves((e[0] - lo, e[1])) and self.proves((hi - e[0], {x: -n for x, n in e[1].items()})):
            return e
        return None

    def _V(self, t, w, sg, depth):
        k = t[0]
        if depth > 12:
            return self.atom(t, w, sg)
        if k == "z":
            x = t[1]
            iw = self.width(x, 32)
            if iw == w:                 # a redundant extension
                return self.V(x, w, sg, depth + 1)
            return self.V(x, iw, False, depth + 1)
        if k == "s":
            x = t[1]
            iw = self.width(x, 32)
            e = self.V(x, iw, True, depth + 1)
            if sg or w >= 64 or self.proves(e):
                return e
            return self.atom(t, w, sg)
        if k[0] == "t" and k[1:].isdigit():
            x = t[1]
            n = int(k[1:])
            e = self.V(x, self.width(x, 64), sg, depth + 1)
            r = self.fit(e, t, n, sg)
            if r is not None:
                return r
            e = self.V(x, self.width(x, 64), not sg, depth + 1)
            r = self.fit(e, t, n, sg)
            return r if r is not None else self.atom(t, n, sg)
        if k == "ptr":
            for s2 in ((sg,) if w >= 64 else (sg, not sg)):
                e = self.V(t[1], w, s2, depth + 1)
                e = (e[0] + t[2], e[1])
                for v, sc in t[3]:
                    e = f_add(e, f_scale(self.V(v, w, s2 if w < 64 else True, depth + 1), sc))
                r = self.fit(e, t, w, sg)
                if r is not None:
                    return r
            return self.atom(t, w, sg)
        if k == "op":
            op, a, b = t[1], t[2], t[3]
            if op in ("add", "sub", "mul"):
                for s2 in ((sg,) if w >= 64 else (sg, not sg)):
                    ea, eb = self.V(a, w, s2, depth + 1), self.V(b, w, s2, depth + 1)
                    if op == "mul":
                        if not eb[1]:
                            e = f_scale(ea, eb[0])
                        elif not ea[1]:
                            e = f_scale(eb, ea[0])
                        else:
                            break
                    else:
                        e = f_add(ea, eb, 1 if op == "add" else -1)
                    r = self.fit(e, t, w, sg)
                    if r is not None:
                        return r
                return self.atom(t, w, sg)
            if op in ("urem", "srem"):
                r = self.atom(t, w, False)
                if t not in self.extra:
                    self.extra.add(t)
                    eb = self.V(b, w, False, depth + 1)
                    self.ge(f_add((eb[0] - 1, eb[1]), r, -1))
                return r
            if op in ("lshr", "udiv") and b[0] == "k":
                n = (1 << b[1]) if op == "lshr" else b[1]
                r = self.atom(t, w, False)
                if t not in self.extra:
                    self.extra.add(t)
                    ea = self.V(a, w, False, depth + 1)
                    self.ge(f_add(ea, f_scale(r, n), -1))
                    self.ge(f_add((f_scale(r, n)[0] + n - 1, f_scale(r, n)[1]), ea, -1))
                return r
            if op == "and":
                r = self.atom(t, w, False)
                if t not in self.extra:
                    self.extra.add(t)
                    for x in (a, b):
                        if x[0] != "k":
                            ex = self.V(x, w, False, depth + 1)
                            self.ge(f_add(ex, r, -1))
                return r
            return self.atom(t, w, sg)
        return self.atom(t, w, sg)

    # ---- proof
    def proves(self, g, cap=220):
        """g >= 0 follows"""
        if not g[1]:
            return g[0] >= 0
        if self.false:
            return True
        k = ("p",) + key(g)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = self._proves(g, cap)
        self.memo[k] = r
        return r

    def _proves(self, g, cap):
        # intervals first
        lo = g[0]
        for x, n in g[1].items():
            l, h = self.arange(x)
            b = l if n > 0 else h
            if b is None:
                lo = None
                break
            lo += n * b
        if lo is not None and lo >= 0:
            return True
        # otherwise at most two comparisons of the path, added up
        def low(e):
            r = e[0]
            for x, n in e[1].items():
                l, h = self.arange(x)
                b = l if n > 0 else h
                if b is None:
                    return None
                r += n * b
            return r
        at = set(g[1])
        first = [f for f in self.f if any(f[1].get(x, 0) * g[1][x] > 0 for x in at if x in f[1])]
        for f in first:
            for m in (1, 16):
                e = f_add(g, f_scale(f, m), -1)
                r = low(e)
                if r is not None and r >= 0:
                    return True
        for f in first:
            for m in (1, 16):
                e = f_add(g, f_scale(f, m), -1)
                if len(e[1]) > 6:
                    continue
                for h in self.f:
                    if h is not f and any(h[1].get(x, 0) * e[1][x] > 0 for x in e[1] if x in h[1]):
                        for m2 in (1, 16):
                            r = low(f_add(e, f_scale(h, m2), -1))
                            if r is not None and r >= 0:
                                return True
        return False

    # ---- learning
    def branch(self, c, pol):
        k = c[0]
        if k == "t1" and c[1][0] == "ld" and c[1][2] == "i8":       # a bool
            return self.branch(("cmp", "ne", c[1], ("k", 0)), pol)
        if k in ("z", "s") or k == "t1":
            return self.branch(c[1], pol)
        if k == "op" and c[1] == "xor" and c[3] in (("k", -1), ("k", 1)):
            return self.branch(c[2], not pol)
        if k == "op" and c[1] == "xor" and c[2] in (("k", -1), ("k", 1)):
            return self.branch(c[3], not pol)
        if k == "op" and (c[1] == "and" and pol or c[1] == "or" and not pol):
            self.branch(c[2], pol)
            self.branch(c[3], pol)
            return
        if k == "sel" and c[3] == ("k", 0) and pol:      # a && b
            self.branch(c[1], True)
            self.branch(c[2], True)
            return
        if k == "sel" and c[2] in (("k", 1), ("k", -1)) and not pol:
            self.branch(c[1], False)
            self.branch(c[3], False)
            return
        if k != "cmp":
            return
        pred, a, b = c[1], c[2], c[3]
        if not pol:
            pred = NEG[pred]
        if b == ("k", 0) and pred in ("eq", "ne") and WID.get(a) == 1:
            return self.branch(a, pred == "ne")
        x = a if a[0] != "k" else b
        w = self.width(x, 32)
        if a[0] == "ptr" or b[0] == "ptr":
            w = max(self.width(a, 32) if a[0] != "k" else 0, self.width(b, 32) if b[0] != "k" else 0)
        if pred in ("eq", "ne") and (a[0] in ("alloca", "g") and b == ("k", 0) or b[0] in ("alloca", "g") and a == ("k", 0)):
            if pred == "eq":
                self.false = True
            return
        if pred in ("eq", "ne"):
            for sg in ((True, False) if w < 64 else (False,)):
                ea, eb = self.V(a, w, sg), self.V(b, w, sg)
                if pred == "eq":
                    self.eq(ea, eb)
                    if sg:
                        self.link(list(ea[1]) + list(eb[1]))
                else:
                    d = f_add(ea, eb, -1)
                    self.ne.append(d)
                    if self.proves(d):
                        self.ge((d[0] - 1, d[1]))
                    else:
                        n = f_scale(d, -1)
                        if self.proves(n):
                            self.ge((n[0] - 1, n[1]))
            return
        sg = pred[0] == "s"
        ea, eb = self.V(a, w, sg), self.V(b, w, sg)
        d = f_add(eb, ea, -1)
        p = pred[1:]
        if p == "lt":
            self.ge((d[0] - 1, d[1]))
        elif p == "le":
            self.ge(d)
        elif p == "gt":
            n = f_scale(d, -1)
            self.ge((n[0] - 1, n[1]))
        else:
            self.ge(f_scale(d, -1))
        if sg:
            self.link(list(ea[1]) + list(eb[1]))
        self.unwrap(a, w)
        self.unwrap(b, w)

    def unwrap(self, t, w):
        """t = x + k in w bits, known to lie where that has one solution without wrap-around"""
        if w >= 64 or t[0] != "ptr" or t[3] or not t[2]:
            return
        e = self.V(t, w, False)
        if len(e[1]) != 1 or ("m", w, False, t) not in e[1]:
            return
        l, h = self.arange(("m", w, False, t))
        k = t[2]
        if k < 0 and h is not None and h - k < 1 << w or k > 0 and l is not None and l >= k:
            x = self.V(t[1], w, False)
            self.eq(x, (e[0] - k, e[1]))
            self.memo = {}

    def link(self, atoms):
        """a signed value known to be non-negative is its unsigned value"""
        for x in atoms:
            if x[0] == "m" and x[2] is True and self.proves((0, {x: 1})):
                self.eq((0, {x: 1}), (0, {("m", x[1], False, x[3]): 1}))


class Prover:
    """runs facts over the events of every path of a function and hands each access to check()"""
    MAX = 3000

    def __init__(self, fn, walk=Walk, paths=None):
        self.fn = fn
        for k, a in enumerate(fn.args):
            w = ty_bits(a[1])
            if w:
                WID.setdefault(("arg", k), w)     # overwritten per function below
        self.ptr_init = {}
        if paths is None:
            w = walk(fn, {})
            for k, a in enumerate(fn.args):
                b = ty_bits(a[1])
                if b:
                    WID[("arg", k)] = b
            w.go(0, None)
            paths = w.paths
        self.paths = paths

    def run(self):
        for p in self.paths:
            for ev, F in self.splits(list(p.events), p.end):
                self.path = p
                self.events(ev, F)
                self.done(p, F)

    def done(self, p, F):
        pass

    def start(self):
        return Facts()

    # ---- selects become separate paths
    def splits(self, evs, end):
        conds = []

        def find(t):
            if not isinstance(t, tuple):
                return
            if t and t[0] == "sel" and t[1] not in conds and not (t[3] == ("k", 0) and WID.get(t) == 1) and not (t[2] == ("k", 1) and WID.get(t) == 1):
                conds.append(t[1])
            for x in t:
                find(x)
        for e in evs:
            if e[0] == "rec":
                for b, nx in e[1].back:
                    for x in b:
                        if x[0] != "rec":
                            find(x[1:-1])
                for i0 in e[1].init.values():
                    find(i0)
            else:
                find(e[1:-1])
        find(end)
        conds = conds[:4]
        self.end = end
        if not conds:
            yield evs, self.start()
            return
        for bits in range(1 << len(conds)):
            m = {}
            pre = []
            for i, c in enumerate(conds):
                pol = bool(bits >> i & 1)
                m[c] = pol
                pre.append(("br", c, pol, None))
            self.end = tuple(self.resolve(x, m) if isinstance(x, tuple) else x for x in end)
            yield pre + [self.resolve_ev(e, m) for e in evs], self.start()

    def resolve(self, t, m):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "sel" and t[1] in m:
            return self.resolve(t[2] if m[t[1]] else t[3], m)
        n = tuple(self.resolve(x, m) for x in t)
        if n != t:
            if n and n[0] == "ptr":
                o = n
                n = mkptr(n[1], n[2], n[3])
            if n[0] in ("t32", "t16", "t8", "z", "s") and n[1][0] == "k" and n[1][1] >= 0:
                n = n[1]
            if t in WID and n[0] != "k":
                WID.setdefault(n, WID[t])
        return n

    def resolve_ev(self, e, m):
        if e[0] == "rec":
            L = e[1]
            N = gcwalk.Loop()
            N.head, N.sym = L.head, L.sym
            N.init = {s: self.resolve(t, m) for s, t in L.init.items()}
            N.step, N.leave, N.ret = L.step, L.leave, L.ret
            N.back = [([self.resolve_ev(x, m) for x in b], {s: self.resolve(t, m) for s, t in nx.items()}) for b, nx in L.back]
            return ("rec", N)
        return (e[0],) + tuple(self.resolve(x, m) if isinstance(x, tuple) else x for x in e[1:])

    # ---- one path
    def events(self, evs, F):
        for e in evs:
            if F.false:
                return
            k = e[0]
            if k == "br":
                F.branch(e[1], e[2])
            elif k == "sw":
                if e[2] is not None:
                    F.branch(("cmp", "eq", e[1], ("k", e[2])), True)
                else:
                    for v, _ in e[3].x:
                        F.branch(("cmp", "eq", e[1], ("k", v)), False)
            elif k == "rec":
                self.loop(e[1], F)
            else:
                self.event(e, F)

    def event(self, e, F):
        pass

    def loop(self, L, F):
        inds = []
        for s, i0 in L.init.items():
            st = L.step.get(s)
            if i0 is None or not st:
                continue
            w = WID.get(s) or F.width(i0, 32)
            WID[s] = w
            WID[("hav",) + s[1:]] = w
            if w >= 64:
                self.ptr_init[s] = self.ptr_init[("hav",) + s[1:]] = i0
            inds.append([s, i0, st, w, None])
        # which induction values cannot wrap (each round's own tests decide)
        for rnd in range(2):
            for x in inds:
                if x[4] is not None:
                    continue
                s, i0, st, w, _ = x
                for mode in ((False,) if w >= 64 else (False, True)):
                    G = F.copy()
                    self.ind_facts(G, [y for y in inds if y[4] is not None] + [[s, i0, st, w, mode]], True)
                    ok = True
                    for b, nx in L.back:
                        H = G.copy()
                        sil, self.silent = self.silent, True
                        self.events(b, H)
                        self.silent = sil
                        if H.false:
                            continue
                        e = H.V(s, w, mode)
                        if w < 64 and H.fit((e[0] + st, e[1]), s, w, mode) is None:
                            ok = False
                            break
                    if ok:
                        x[4] = mode
                        break
        good = [x for x in inds if x[4] is not None]
        G = F.copy()
        self.ind_facts(G, good, True)
        for b, nx in L.back:
            self.events(b, G.copy())
        self.ind_facts(F, good, False)

    silent = False

    def ind_facts(self, F, inds, body):
        d = []
        for s, i0, st, w, mode in inds:
            x = s if body else ("hav",) + s[1:]
            WID[x] = w
            b = F.V(i0, w, mode)
            if w >= 64 and x not in F.defs:
                n = ("rounds", inds[0][0], body)
                F.ge((0, {n: 1}))
                F.memo = {}
                F.defs[x] = f_add(b, (0, {n: st}))
            a = F.V(x, w, mode)
            diff = f_add(a, b, -1)
            F.ge(diff if st > 0 else f_scale(diff, -1))
            if mode is True:
                F.link(list(a[1]) + list(b[1]))
            d.append((diff, st))
        for i in range(1, len(d)):
            a, b = f_scale(d[0][0], d[i][1]), f_scale(d[i][0], d[0][1])
            F.eq(a, b)

    def root(self, a, depth=0):
        """buffer a pointer term is based on"""
        r = a[1] if a[0] == "ptr" else a
        if r in self.ptr_init and depth < 5:
            return self.root(self.ptr_init[r], depth + 1)
        return r

    def inside(self, F, a, n, root, cap):
        """0 <= a - root and a - root + n <= cap; -> None or the failing side"""
        off = f_add(F.V(a, 64), F.V(root, 64), -1)
        if not F.proves(off):
            return "before the start"
        if not F.proves(f_add(f_add(cap, off, -1), n, -1)):
            return "past the end"
        return None
