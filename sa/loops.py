"""Path walk with loop summaries.

A loop whose induction variables change by constants is replaced by its closed
form: the number of rounds T follows from the exit test, induction variables
become start + step*T, and the stores of one round become one ("fill", ...)
event.  Loops that do not fit become ("loop", ...) events with unknown
results."""
import vm
from vm import Walker, Path, mkptr, addp, plain
from ir import AnalysisBroken
from lin import lin, SWAP, NEG


def natural_loops(fn):
    """header -> set of body blocks"""
    if getattr(fn, "_loops", None) is not None:
        return fn._loops
    dom = fn.idom()
    out = {}
    for b, B in enumerate(fn.blocks):
        if b not in dom:
            continue
        for s in B.succ:
            if fn.dominates(s, b):
                body = {s}
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [q for q in fn.blocks[x].pred if q in dom]
                out.setdefault(s, set()).update(body)
    fn._loops = out
    return out


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if t and t[0] == "ptr":
        b = subst(t[1], m)
        return mkptr(b, t[2], tuple((subst(v, m), s) for v, s in t[3]))
    if t and t[0] == "op" and t[1] in ("add", "sub"):
        a, b = subst(t[2], m), subst(t[3], m)
        return ("op", t[1], a, b)
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def contains(t, s):
    if t == s:
        return True
    return isinstance(t, tuple) and any(contains(x, s) for x in t)


class LoopWalker(Walker):
    BODY = None       # walker class for one round of an inner loop

    def __init__(self, fn, env, it=None, loops=None):
        Walker.__init__(self, fn, env, it, 1)
        self.loops = natural_loops(fn) if loops is None else loops
        self.inner = None

    def header(self, b, came):
        """loop entered from outside at b"""
        body = self.loops.get(b)
        if body is None or came in body:
            return None
        if self.stop is not None and (self.stop is self.fn.blocks[b] or any(self.fn.blocks[x] is self.stop for x in body)):
            return None       # the interpreter loop itself
        return body

    def summarise(self, b, came, body):
        """-> list of (target block, came block, env, events) continuing outside, plus finished paths"""
        fn = self.fn
        B = fn.blocks[b]
        init, sym = {}, {}
        for I in B.insts:
            if I.op != "phi":
                break
            for v, bb in I.ops:
                if bb == came:
                    init[I.id] = self.val(v)
            sym[I.id] = ("ind", b, I.id)
        env = dict(self.env)
        env.update(sym)
        # blocks of the body may hold values of an earlier visit
        for x in body:
            for I in fn.blocks[x].insts:
                if I.id not in sym:
                    env.pop(I.id, None)
        W = (self.BODY or _Body)(fn, env, self.it, self.loops, b, body)
        W.run()
        back = W.back
        steps = {}
        for i, s in sym.items():
            st = set()
            for bb, e, ev in back:
                W.env = e
                nv = None
                for v, pb in fn.val[i].ops:
                    if pb == bb:
                        nv = W.val(v)
                st.add(step_of(nv, s))
            steps[i] = st.pop() if len(st) == 1 else None
        T = None
        out = []
        fills_ok = all(e[0] in ("store", "br", "sw") for _, _, ev in back for e in ev) and len(back) == 1
        for tgt, src, e, ev in W.leave:
            trip = self.trip(ev, sym, steps, init)
            m = {}
            for i, s in sym.items():
                k = steps[i]
                if k is None:
                    m[s] = ("hav", b, i)
                elif k == 0:
                    m[s] = init[i]
                else:
                    t = trip if trip is not None else ("rounds", b)
                    m[s] = self.closed(init[i], k, t)
            pre = {}
            for i, s in sym.items():
                pre[s] = init[i]
            if fills_ok and back[0][2]:
                stores = []
                for x in back[0][2]:
                    if x[0] == "store":
                        stores.append((x[1], x[2], x[3], x[4]))
                evs = [("fill", b, trip if trip is not None else ("rounds", b), tuple((s, init[i], steps[i]) for i, s in sym.items()), tuple(stores))] if stores else []
            else:
                evs = [("loop", b, tuple((subst_ev(x, {}) for _, _, ev2 in back for x in ev2)), tuple((s, init[i], steps[i]) for i, s in sym.items()))] if any(ev2 for _, _, ev2 in back) else []
            ne = {}
            for k2, v in e.items():
                ne[k2] = subst(v, m)
            out.append((tgt, src, ne, self.events + evs + [subst_ev(x, m) for x in ev]))
        for p in W.paths:      # returns inside the loop
            m = {}
            for i, s in sym.items():
                m[s] = ("hav", b, i) if steps[i] is None else self.closed(init[i], steps[i], ("rounds", b))
            end = tuple(subst(x, m) if isinstance(x, tuple) else x for x in p.end)
            self.paths.append(Path(self.events + [subst_ev(x, m) for x in p.events], end, {k: subst(v, m) for k, v in p.regs.items()}))
        return out

    @staticmethod
    def closed(i0, k, t):
        if t == ("k", 0):
            return i0
        return mkptr(i0, 0, ((t, k),)) if i0 != ("k", 0) or k != 1 else t

    def trip(self, ev, sym, steps, init):
        """rounds completed when the path leaves through its last test"""
        br = [e for e in ev if e[0] == "br"]
        if not br:
            return None
        c, pol = br[-1][1], br[-1][2]
        if c[0] != "cmp":
            return None
        pred, a, b = c[1], c[2], c[3]
        cont = pred if not pol else NEG.get(pred)      # condition under which the loop goes on
        for x, y, p in ((a, b, cont), (b, a, SWAP.get(cont))):
            for i, s in sym.items():
                off = ind_off(x, s)
                if off is None or any(contains(y, z) for z in sym.values()):
                    continue
                k = steps[i]
                if k is not None and abs(k) > 1 and (p == "ne" or p in (("slt", "ult") if k > 0 else ("sgt", "ugt"))):
                    # stepping pointer against an end that lies a whole number of steps away
                    q = quotient(y, addp(init[i], off), k)
                    if q is not None:
                        return ("trip", ("k", 0), q)
                if k == 1 and p in ("slt", "ult", "ne"):
                    return ("trip", addp(init[i], off), y)
                if k == 1 and p in ("sle", "ule"):
                    return ("trip", addp(init[i], off), addp(y, 1))
                if k == -1 and p in ("sgt", "ugt", "ne"):
                    return ("trip", y, addp(init[i], off))
                if k == -1 and p in ("sge", "uge"):
                    return ("trip", y, addp(init[i], off + 1))
        return None

    def go(self, b, came):
        stack = [(b, came, dict(self.env), list(self.events))]
        self.walk(stack)

    def walk(self, stack):
        while stack:
            b, came, env, ev = stack.pop()
            if len(self.paths) > vm.MAXPATHS:
                raise AnalysisBroken("too many paths")
            self.env, self.events = env, ev
            B = self.fn.blocks[b]
            if B is self.stop:
                regs = {}
                for p in self.it.phis:
                    for v, bb in p.ops:
                        if bb == came:
                            regs[self.it.roles[p.id]] = self.val(v)
                if self.it.mode == "table":
                    regs["PC"] = mkptr(regs["PC"], -1, ())
                self.paths.append(Path(self.events, ("dispatch",), regs))
                continue
            if self.leaving(b, came):
                continue
            body = self.header(b, came)
            if body is not None:
                stack += self.summarise(b, came, body)
                continue
            self.block_insts(B, came, self.skip(b))
            t = B.insts[-1]
            if t.op == "ret":
                v = self.val(t.ops[0]) if t.ops else None
                self.paths.append(Path(self.events, ("ret", v), {}))
            elif t.op == "unreachable":
                self.paths.append(Path(self.events, ("unreachable",), {}))
            elif t.op == "br" and len(t.ops) == 3:
                c, neg = plain(self.val(t.ops[0]))
                for tgt, pol in ((t.ops[2][1], True), (t.ops[1][1], False)):
                    if c[0] == "k" and (bool(c[1]) != neg) != pol:
                        continue
                    stack.append((tgt, b, dict(self.env), self.events + ([("br", c, pol != neg, t)] if c[0] != "k" else [])))
            elif t.op == "br":
                stack.append((t.ops[0][1], b, self.env, self.events))
            elif t.op == "switch":
                c = self.val(t.ops[0])
                if c[0] == "k":
                    m = [a for a in t.x if a[0] == c[1]]
                    stack.append((m[0][1] if m else t.ops[1][1], b, self.env, self.events))
                    continue
                for v, tgt in list(t.x) + [(None, t.ops[1][1])]:
                    stack.append((tgt, b, dict(self.env), self.events + [("sw", c, v, t)]))
            else:
                raise AnalysisBroken("unexpected terminator %s" % t.op)

    def leaving(self, b, came):
        return False

    def skip(self, b):
        return False


class _Body(LoopWalker):
    """one round of a loop"""
    def __init__(self, fn, env, it, loops, head, body):
        LoopWalker.__init__(self, fn, env, it, loops)
        self.head, self.body = head, body
        self.back, self.leave = [], []
        self.first = True

    def run(self):
        self.walk([(self.head, None, dict(self.env), [])])

    def header(self, b, came):
        if b == self.head:
            return None
        return LoopWalker.header(self, b, came)

    def leaving(self, b, came):
        if b == self.head:
            if came is None:
                return False
            self.back.append((came, dict(self.env), list(self.events)))
            return True
        if b not in self.body:
            self.leave.append((b, came, dict(self.env), list(self.events)))
            return True
        return False

    def skip(self, b):
        return b == self.head


def quotient(y, x, k):
    """(y - x) / k when that is a plain linear term"""
    from lin import lin
    try:
        a, b = lin(y), lin(x)
    except Exception:
        return None
    c, d = a[0] - b[0], dict(a[1])
    for t, n in b[1].items():
        d[t] = d.get(t, 0) - n
    d = {t: n for t, n in d.items() if n}
    if c % k or any(n % k for n in d.values()) or not d:
        return None
    if not c and list(d.values()) == [k]:
        return next(iter(d))
    return mkptr(("k", 0), c // k, tuple((t, n // k) for t, n in d.items()))


def subst_ev(e, m):
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)


def ind_off(x, s):
    """constant offset of x from induction variable s (width changes looked through)"""
    while isinstance(x, tuple) and x and (x[0] in ("z", "s") or x[0][:1] == "t" and x[0][1:].isdigit()):
        x = x[1]
    if x == s:
        return 0
    if x[0] == "ptr" and x[1] == s and not x[3]:
        return x[2]
    return None


def step_of(nv, s):
    if nv is None:
        return None
    x = nv
    for _ in range(4):
        if x == s:
            return 0
        if x[0] == "ptr" and not x[3]:
            o = ind_off(x[1], s)
            if o is not None:
                return x[2] + o
        if x[0] in ("z", "s") or x[0][:1] == "t" and x[0][1:].isdigit():
            x = x[1]
            continue
        y = vm.low(x, 32)
        if y is x:
            return None
        x = y
    return None
