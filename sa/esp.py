"""Path-sensitive property simulation over one function: every reachable
(block, known truth values, property state) triple is visited once.  Only
values that steer control flow more than once (flags, cleanup selectors, merged
results) are tracked, so the search is finite and small."""
from ir import AnalysisBroken

UNDEF = "undef"


class Sim:
    KEEP = 6
    SPLIT = False      # one case per outcome of a merged truth value that steers later
    LIMIT = 200000

    def __init__(self, f):
        self.f = f
        u = f.uses()
        self.tracked = set()
        for I in f.insts():
            if I.op == "phi":
                if any(v[0] in ("c", "null", "undef") for v, b in I.ops):
                    self.tracked.add(I.id)
            elif I.op in ("icmp", "call", "load", "trunc") and I.ty == "i1" and len(u.get(I.id, [])) > 1:
                self.tracked.add(I.id)
        def steers(v, seen):
            for I in u.get(v, []):
                if I.op in ("br", "switch", "ret", "select") or I.op == "icmp" and any(o[0] in ("c", "null") for o in I.ops):
                    return True
                if I.op in ("phi", "trunc", "zext", "sext", "freeze", "xor") and I.id not in seen:
                    seen.add(I.id)
                    if steers(I.id, seen):
                        return True
            return False
        grew = True
        while grew:
            grew = False
            for I in f.insts():
                if I.op == "phi" and I.id not in self.tracked and any(v[0] == "i" and v[1] in self.tracked for v, b in I.ops):
                    self.tracked.add(I.id)
                    grew = True
        self.tracked = {v for v in self.tracked if f.val[v].op != "phi" or steers(v, {v})}
        self.same = self.correlated()

    def correlated(self):
        """comparison -> (dominating comparison of the same value with the same constant, same truth?)"""
        f, groups, out = self.f, {}, {}
        NEG = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}
        for I in f.insts():
            if I.op != "icmp" or I.ops[1][0] != "c":
                continue
            o, ext = I.ops[0], ()
            while o[0] == "i" and f.val[o[1]].op in ("zext", "sext"):
                ext += (f.val[o[1]].op, f.val[o[1]].ty)
                o = f.val[o[1]].ops[0]
            if o[0] == "a" or o[0] == "i" and f.val[o[1]].op == "phi":
                groups.setdefault((tuple(o[:2]), ext, I.ops[1][1]), []).append((I, o))
        for g in groups.values():
            for I, o in g:
                if o[0] == "i" and f.val[o[1]].bb is not I.bb:
                    continue       # the leader sits where the value is defined, so it is never stale
                for J, _ in g:
                    if J is not I and f.inst_dominates(I, J) and J.x in (I.x, NEG[I.x]) and J.id not in out and I.id not in out:
                        out[J.id] = (I.id, J.x == I.x)
                        self.tracked.add(I.id)
        return out

    argconst = {}      # parameters with a known constant value

    # ---- to be overridden
    def step(self, I, st):
        """states after a non-branch instruction"""
        return (st,)

    def refine(self, o, pol, st):
        """state knowing that operand o is true/false; None when impossible"""
        return st

    def case(self, o, k, st):
        """state knowing that switch operand o equals k (k None: none of the cases)"""
        return st

    def ret(self, I, value, st):
        pass

    def phi(self, I, v, st):
        """state after phi I took the operand v"""
        return st

    # ---- engine
    def get(self, asg, o):
        if o[0] == "c":
            return o[1]
        if o[0] == "null":
            return 0
        if o[0] == "undef":
            return UNDEF
        if o[0] == "a":
            return self.argconst.get(o[1])
        if o[0] == "i":
            for k, v in asg:
                if k == o[1]:
                    return v
            I = self.f.val[o[1]]
            if o[1] in self.same:
                k, eq = self.same[o[1]]
                v = self.get(asg, ["i", k])
                if v is not None and v != UNDEF:
                    return int(bool(v) == eq)
            if I.op in ("trunc", "zext", "freeze", "sext"):
                v = self.get(asg, I.ops[0])
                if v is None or v == UNDEF:
                    return v
                if I.ty == "i1":
                    return v & 1
                return v
            if I.op == "xor" and I.ops[1][0] == "c" and I.ty == "i1":
                v = self.get(asg, I.ops[0])
                return None if v is None else UNDEF if v == UNDEF else int(not v)
            if I.op == "icmp" and I.x in ("eq", "ne"):
                a, b = self.get(asg, I.ops[0]), self.get(asg, I.ops[1])
                if a is not None and b is not None and UNDEF not in (a, b):
                    return int((a == b) == (I.x == "eq"))
        return None

    def put(self, asg, k, v):
        asg = tuple(x for x in asg if x[0] != k)
        if v is not None:
            asg = ((k, v),) + asg
        return asg[:self.KEEP]

    def truth(self, o, pol, st, depth=0):
        """refine through negation and && / || selects"""
        if st is None or o[0] != "i" or depth > 10:
            return st
        I = self.f.val[o[1]]
        if I.op == "xor" and I.ty == "i1" and I.ops[1][0] == "c":
            return self.truth(I.ops[0], not pol, st, depth + 1)
        return self.refine(o, pol, st)

    def run(self, init):
        f = self.f
        seen = set()
        work = [(0, (), init)]
        self.visited = 0
        while work:
            b, asg, st = work.pop()
            if (b, asg, st) in seen:
                continue
            seen.add((b, asg, st))
            self.visited += 1
            if len(seen) > self.LIMIT:
                raise AnalysisBroken("%s: too many path states" % f.short)
            B = f.blocks[b]
            sts = [st]
            t = B.insts[-1]
            for I in B.insts[:-1]:
                if I.op == "phi":
                    continue
                if I.id in self.tracked:
                    asg = self.put(asg, I.id, None)
                new = []
                for s in sts:
                    for n in self.step(I, s):
                        if n not in new:
                            new.append(n)
                sts = new
            for s in sts:
                if t.op == "ret":
                    self.ret(t, self.get(asg, t.ops[0]) if t.ops else None, s)
                    continue
                for nb, na, ns in self.succ(B, t, asg, s):
                    if ns is not None:
                        work.extend(self.enter(B, nb, na, ns))
        return seen

    # ---- one merged state per (block, known truth values)
    def join(self, a, b, widen):
        raise NotImplementedError

    recording = True

    def run_joined(self, init):
        f = self.f
        state = {(0, ()): init}
        work = [(0, ())]
        order = {b: n for n, b in enumerate(f.rpo())}
        self.recording = False
        rounds = 0
        count = {}
        while work:
            rounds += 1
            if rounds > self.LIMIT:
                raise AnalysisBroken("%s: no fixpoint" % f.short)
            k = min(work, key=lambda x: order[x[0]])
            work.remove(k)
            for nk, ns in self.block(k, state[k]):
                if nk not in state:
                    state[nk] = ns
                else:
                    count[nk] = count.get(nk, 0) + 1
                    j = self.join(state[nk], ns, count[nk] > 12)
                    if j == state[nk]:
                        continue
                    state[nk] = j
                if nk not in work:
                    work.append(nk)
        self.recording = True
        for k in state:
            self.block(k, state[k])
        self.visited = len(state)
        return state

    def block(self, key, st):
        b, asg = key
        B = self.f.blocks[b]
        sts = [st]
        t = B.insts[-1]
        for I in B.insts[:-1]:
            if I.op == "phi":
                continue
            if I.id in self.tracked:
                asg = self.put(asg, I.id, None)
            sts = [n for s in sts for n in self.step(I, s)]
        out = []
        for s in sts:
            if t.op == "ret":
                self.ret(t, self.get(asg, t.ops[0]) if t.ops else None, s)
                continue
            for nb, na, ns in self.succ(B, t, asg, s):
                if ns is not None:
                    out.extend(((x, y), z) for x, y, z in self.enter(B, nb, na, ns))
        return out

    def succ(self, B, t, asg, st):
        c = self.f.cond(t)
        if c:
            o, T, F = c
            v = self.get(asg, o)
            if v == UNDEF:
                return [(T, asg, st), (F, asg, st)]
            out = []
            for tgt, pol in ((T, True), (F, False)):
                if v is not None and bool(v) != pol:
                    continue
                na = self.put(asg, o[1], int(pol)) if o[0] == "i" and o[1] in self.tracked else asg
                out.append((tgt, na, self.truth(o, pol, st)))
            return out
        if t.op == "switch":
            v = self.get(asg, t.ops[0])
            out = []
            if v is not None and v != UNDEF:
                for k, tgt in t.x:
                    if k == v:
                        return [(tgt, asg, self.case(t.ops[0], k, st))]
                return [(t.ops[1][1], asg, self.case(t.ops[0], None, st))]
            for k, tgt in t.x:
                na = self.put(asg, t.ops[0][1], k) if t.ops[0][0] == "i" and t.ops[0][1] in self.tracked else asg
                out.append((tgt, na, self.case(t.ops[0], k, st)))
            out.append((t.ops[1][1], asg, self.case(t.ops[0], None, st)))
            return out
        return [(s, asg, st) for s in B.succ]

    def enter(self, B, nb, asg, st):
        out = [(asg, st)]
        N = self.f.blocks[nb]
        for I in N.insts:
            if I.op != "phi":
                break
            for v, p in I.ops:
                if p == B.i:
                    new = []
                    for na, s in out:
                        x = self.get(asg, v)
                        if self.SPLIT and I.id in self.tracked and x is None and I.ty == "i1" and v[0] == "i":
                            # a merged truth value that steers later: one case per outcome
                            for pol in (True, False):
                                s2 = self.truth(v, pol, s)
                                if s2 is not None:
                                    s2 = self.phi(I, v, s2)
                                if s2 is not None:
                                    new.append((self.put(na, I.id, int(pol)), s2))
                            continue
                        if I.id in self.tracked:
                            na = self.put(na, I.id, x)
                        s = self.phi(I, v, s)
                        if s is not None:
                            new.append((na, s))
                    out = new
                    break
        return [(nb, na, s) for na, s in out]
