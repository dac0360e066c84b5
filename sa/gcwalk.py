"""Path walk that keeps every loop as a record: what one round does on each of
its paths, how the induction values change, how it is left."""
import vm
from vm import Path, mkptr
from loops import LoopWalker, _Body, natural_loops, subst, subst_ev, step_of, contains
from lin import lin, sub, NEG, SWAP


class Loop:
    __slots__ = ("head", "init", "step", "back", "leave", "ret", "sym")

    def __repr__(self):
        return "<loop %d>" % self.head


class Rec(LoopWalker):
    """events: store/call/icall/memcpy/br/sw as in Walker, ("load", address, type, I), ("rec", Loop)"""

    def load(self, a, ty, I):
        root = a[1] if a[0] == "ptr" else a
        if root[0] == "alloca":      # a local: only calls that get its address change it
            for e in reversed(self.events):
                if e[0] == "store" and e[1] == a and e[3] == ty:
                    return e[2]
                if e[0] in ("store", "memcpy") and contains(e[1], root) or e[0] in ("call", "icall") and any(contains(x, root) for x in e[2]) or e[0] == "rec":
                    break
            return ("ld", a, ty)
        return LoopWalker.load(self, a, ty, I)

    def eval(self, I, pure=False):
        v = LoopWalker.eval(self, I, pure)
        if I.op == "load" and not pure:
            self.events.append(("load", self.val(I.ops[0]), I.ty, I))
        return v

    def body_walker(self, fn, env, it, loops, b, body):
        return RecBody(fn, env, it, loops, b, body)

    def summarise(self, b, came, body):
        fn = self.fn
        B = fn.blocks[b]
        init, sym = {}, {}
        for I in B.insts:
            if I.op != "phi":
                break
            for v, bb in I.ops:
                if bb == came:
                    init[I.id] = self.val(v)
            sym[I.id] = ("ind", b, I.id)
        env = dict(self.env)
        env.update(sym)
        for x in body:
            for I in fn.blocks[x].insts:
                if I.id not in sym:
                    env.pop(I.id, None)
        W = self.body_walker(fn, env, self.it, self.loops, b, body)
        W.run()
        L = Loop()
        L.head, L.sym = b, sym
        L.init = {s: init[i] for i, s in sym.items()}
        L.step, L.back, L.leave = {}, [], []
        per = {s: set() for s in sym.values()}
        for bb, e, ev in W.back:
            W.env, W.events = e, list(ev)
            nxt = {}
            for i, s in sym.items():
                for v, pb in fn.val[i].ops:
                    if pb == bb:
                        nxt[s] = W.val(v)
                per[s].add(step_of(nxt.get(s), s))
            L.back.append((ev, nxt))
        for s, st in per.items():
            L.step[s] = next(iter(st)) if len(st) == 1 else None
        L.ret = [(p.events, p.end) for p in W.paths]
        out = []
        m = {s: (L.init[s] if L.step[s] == 0 else ("hav", b, i)) for i, s in sym.items()}
        for tgt, src, e, ev in W.leave:
            L.leave.append(ev)
            out.append((tgt, src, {k: subst(v, m) for k, v in e.items()}, self.events + [("rec", L)] + [subst_ev(x, m) for x in ev]))
        for p in W.paths:
            end = tuple(subst(x, m) if isinstance(x, tuple) else x for x in p.end)
            self.paths.append(Path(self.events + [("rec", L)] + [subst_ev(x, m) for x in p.events], end, {}))
        return out


class RecBody(Rec):
    def __init__(self, fn, env, it, loops, head, body):
        Rec.__init__(self, fn, env, it, loops)
        self.head, self.body = head, body
        self.back, self.leave = [], []

    run = _Body.run
    leaving = _Body.leaving
    skip = _Body.skip

    def header(self, b, came):
        if b == self.head:
            return None
        return LoopWalker.header(self, b, came)


def paths(fn):
    w = Rec(fn, {})
    w.go(0, None)
    return w.paths


def space(L, x):
    """the addresses a loop visits through the term x: (first, step, length) with length = step * rounds as a linear
    form, or None.  Loops tested before each round only."""
    ind = [s for s in L.init if contains(x, s)]
    if not ind or any(L.step[s] in (None,) for s in ind):
        return None
    first = subst(x, {s: L.init[s] for s in ind})
    lx = lin(x)
    st = 0
    for s in ind:
        c = sum(k for a, k in lx[1].items() if a == s or a[0] in ("z", "s") and a[1] == s)
        if not c:
            return None
        st += c * L.step[s]
    conds = set()
    for ev in L.leave:
        br = [e for e in ev if e[0] == "br"]
        if len(br) != 1 or any(e[0] in ("store", "call", "icall", "memcpy", "rec") for e in ev):
            return None       # not a plain test before the round
        conds.add((br[0][1], br[0][2]))
    if len(conds) != 1 or L.ret:
        return None
    c, pol = conds.pop()
    if c[0] != "cmp":
        return None
    pred, a, b = c[1], c[2], c[3]
    cont = pred if not pol else NEG.get(pred)
    for p, q, pr in ((a, b, cont), (b, a, SWAP.get(cont))):
        js = [s for s in L.init if contains(p, s)]
        if len(js) != 1 or any(contains(q, s) for s in L.init) or L.step[js[0]] is None:
            continue
        s = js[0]
        lp = lin(p)
        k = sum(n for t, n in lp[1].items() if t == s or t[0] in ("z", "s") and t[1] == s) * L.step[s]
        p0 = lin(subst(p, {s: L.init[s]}))
        if k > 0 and pr in ("slt", "ult", "ne", "sle", "ule"):
            d = sub(lin(q), p0)
        elif k < 0 and pr in ("sgt", "ugt", "ne", "sge", "uge"):
            d = sub(p0, lin(q))
            k = -k
        else:
            continue
        if pr in ("sle", "ule", "sge", "uge"):
            d = (d[0] + abs(k), d[1])
        if st % k and k % st:
            return None
        num = (d[0] * st, {t: n * st for t, n in d[1].items()})
        if num[0] % k or any(n % k for n in num[1].values()):
            return None
        return lin(first), st, (num[0] // k, {t: n // k for t, n in num[1].items()})
    return None


MASK = {"i1": 1, "i8": 0xFF, "i16": 0xFFFF, "i32": 0xFFFFFFFF}


def ev(t, asm):
    """value of a term under assumptions {term: int}; None when it does not follow"""
    if t in asm:
        return asm[t]
    k = t[0]
    if k == "k":
        return t[1]
    if k in ("z", "s"):
        return ev(t[1], asm)
    if k[:1] == "t" and k[1:].isdigit():
        v = ev(t[1], asm)
        return None if v is None else v & ((1 << int(k[1:])) - 1)
    if k == "cmp":
        if t[2] == t[3]:
            return int(t[1] in ("eq", "sle", "sge", "ule", "uge"))
        a, b = ev(t[2], asm), ev(t[3], asm)
        if a is None or b is None:
            return None
        if t[1][0] == "u" or t[1] in ("eq", "ne"):
            a, b = a & 0xFFFFFFFFFFFFFFFF, b & 0xFFFFFFFFFFFFFFFF
        return int({"eq": a == b, "ne": a != b, "ult": a < b, "slt": a < b, "ule": a <= b, "sle": a <= b, "ugt": a > b, "sgt": a > b, "uge": a >= b, "sge": a >= b}[t[1]])
    if k == "op":
        a, b = ev(t[2], asm), ev(t[3], asm)
        if t[1] == "and" and (a == 0 or b == 0):
            return 0
        if a is None or b is None:
            return None
        f = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: (a ^ b) & 1 if t[3] == ("k", -1) else a ^ b, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
             "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: a >> b}.get(t[1])
        return f() if f else None
    if k == "sel":
        c = ev(t[1], asm)
        return None if c is None else ev(t[2] if c else t[3], asm)
    return None


def feasible(evs, asm):
    """can the branches of a path be taken under the assumptions?"""
    for e in evs:
        if e[0] == "br":
            v = ev(e[1], asm)
            if v is not None and bool(v & 1 if e[1][0] != "cmp" else v) != e[2]:
                return False
        elif e[0] == "sw":
            v = ev(e[1], asm)
            if v is not None:
                if e[2] is not None and v != e[2]:
                    return False
                if e[2] is None and any(a[0] == v for a in e[3].x):
                    return False
    return True
