"""Linear normal form of walker terms, and a small interval argument over path
conditions.  Nothing is solved: bounds come from the zero-extension of loads
and from comparisons the path went through."""


def lin(t):
    """term -> (const, {atom: coef}); sign/zero extensions of sums are looked through (no wrap-around assumed)"""
    c, d = _lin(t)
    return c, {a: k for a, k in d.items() if k}


def _lin(t):
    k = t[0]
    if k == "k":
        return t[1], {}
    if k == "ptr":
        c, d = _lin(t[1])
        d = dict(d)
        c += t[2]
        for v, s in t[3]:
            c2, d2 = _lin(v)
            c += c2 * s
            for a, n in d2.items():
                d[a] = d.get(a, 0) + n * s
        return c, d
    if k in ("z", "s"):
        x = t[1]
        if x[0] == "k" and (k == "s" or x[1] >= 0):
            return x[1], {}
        if x[0] == "ptr" or (x[0] == "op" and x[1] in ("sub", "add", "mul")):
            return _lin(x)
        if k == "s" and narrow(x):
            return 0, {t: 1}     # (the signed reading of a byte is not its unsigned one)
        return 0, {x: 1}
    if k == "op" and t[1] in ("add", "sub"):
        c, d = _lin(t[2])
        c2, d2 = _lin(t[3])
        s = 1 if t[1] == "add" else -1
        d = dict(d)
        for a, n in d2.items():
            d[a] = d.get(a, 0) + n * s
        return c + s * c2, d
    if k == "op" and t[1] == "mul":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0] == "k":
                c, d = _lin(a)
                return c * b[1], {x: n * b[1] for x, n in d.items()}
    return 0, {t: 1}


def sub(a, b):
    c = a[0] - b[0]
    d = dict(a[1])
    for x, n in b[1].items():
        d[x] = d.get(x, 0) - n
    return c, {x: n for x, n in d.items() if n}


def add(a, b):
    return sub(a, (-b[0], {x: -n for x, n in b[1].items()}))


SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
NEG = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}


def narrow(a):
    return atom_range(a)[1] is not None


def atom_range(a):
    """range of an atom as it stands (the zero-extended value of a narrow load)"""
    if a[0] == "s" and a[1][0] != "s":
        l, h = atom_range(a[1])
        if h is not None:
            return -((h + 1) // 2), (h + 1) // 2 - 1
        return None, None
    if a[0] == "code":
        return 0, (1 << a[2]) - 1
    if a[0] == "ld" and a[2] in ("i8", "i16"):
        return 0, (1 << int(a[2][1:])) - 1
    if a[0] == "t8":
        return 0, 255
    return None, None


class Bounds:
    """lower/upper bounds of atoms along one path"""
    def __init__(self):
        self.lo, self.hi = {}, {}
        self.facts = []          # linear expressions known >= 0

    def range(self, a):
        l, h = atom_range(a)
        if a in self.lo:
            l = self.lo[a] if l is None else max(l, self.lo[a])
        if a in self.hi:
            h = self.hi[a] if h is None else min(h, self.hi[a])
        return l, h

    def learn(self, e):
        """e = br event"""
        c = e[1]
        if c[0] != "cmp":
            return
        pred = c[1] if e[2] else NEG[c[1]]
        a, b = lin(c[2]), lin(c[3])
        d = sub(b, a)            # b - a
        if pred in ("slt", "ult"):
            self._ge(d, 1)
        elif pred in ("sle", "ule"):
            self._ge(d, 0)
        elif pred in ("sgt", "ugt"):
            self._ge(sub((0, {}), d), 1)
        elif pred in ("sge", "uge"):
            self._ge(sub((0, {}), d), 0)
        elif pred == "eq":
            self._ge(d, 0)
            self._ge(sub((0, {}), d), 0)
        elif pred == "ne" and len(d[1]) == 1:
            (x, n), = d[1].items()
            if abs(n) == 1:
                v = -d[0] * n if n == 1 else d[0]
                l, h = self.range(x)
                if l is not None and l == v:
                    self.lo[x] = v + 1

    def _ge(self, d, k):
        """d >= k"""
        self.facts.append((d[0] - k, d[1]))
        if len(d[1]) == 1:
            (x, n), = d[1].items()
            if n > 0:
                v = -((d[0] - k) // n)
                l, _ = self.range(x)
                if l is None or v > l:
                    self.lo[x] = v
            else:
                v = (d[0] - k) // (-n)
                _, h = self.range(x)
                if h is None or v < h:
                    self.hi[x] = v

    def lower(self, e):
        """lower bound of linear expression, None = unknown"""
        r = e[0]
        for x, n in e[1].items():
            l, h = self.range(x)
            b = l if n > 0 else h
            if b is None:
                return None
            r += n * b
        return r

    def nonneg(self, e):
        b = self.lower(e)
        if b is not None and b >= 0:
            return True
        for f in self.facts:      # one fact as a premise
            b = self.lower(sub(e, f))
            if b is not None and b >= 0:
                return True
        return False
