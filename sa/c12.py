"""C12: a collection traces everything reachable before it releases anything."""
import ir
import vm
from ir import AnalysisBroken
from gcwalk import paths, space, ev, feasible
from lin import lin, sub
from loops import subst, contains

TECHNIQUE = "path enumeration with loop summaries (iteration spaces as linear forms) over the collector's functions, conditions decided under type assumptions, on the LLVM IR"
NOTE = "roots of other contexts are not part of the claim"

VALUE = 16


def name(e):
    return e[1] if e[0] == "call" else ""


class Col:
    def __init__(self, R, prog, cfg):
        self.R, self.prog, self.cfg = R, prog, cfg
        g = {n: prog.one("WRContext::" + n) for n in ("gc", "mark", "markBase", "markOwner")}
        self.fn = g
        self.n = {k: f.name for k, f in g.items()}
        o = prog.offset
        self.flags = o("WRGCBase", "m_flags")
        self.type = o("WRGCBase", "m_type")
        self.mod = o("WRGCBase", "m_mod")
        self.vdata = o("WRGCBase", "m_Vdata")
        self.next = o("WRGCBase", "m_nextGC")
        self.size = o("WRGCObject", "m_size")
        self.table = o("WRGCObject", "m_hashTable")
        self.MARK = prog.enum_value("GCFlag_Marked")
        self.SV = {k: prog.enum_value("SV_" + k) for k in ("VALUE", "HASH_TABLE", "HASH_INTERNAL", "CHAR")}

    def bad(self, key, I, msg):
        where = I.loc() if hasattr(I, "loc") else "%s:%d" % (I.file, I.line)
        self.R.violation("C12:" + key, where, "%s (%s)" % (msg, self.cfg))

    # ---- terms
    def at(self, base, off):
        return base if off == 0 else ("ptr", base, off, ())

    def ld(self, base, off, ty):
        return ("ld", self.at(base, off), ty)

    def sets_mark(self, e, obj):
        """store that sets the mark flag of obj"""
        if e[0] != "store" or e[1] != self.at(obj, self.flags):
            return False
        old = self.ld(obj, self.flags, e[3])
        return all((ev(e[2], {old: x}) or 0) & self.MARK for x in (0, 1, 5))

    def clears_only_mark(self, e, obj):
        if e[0] != "store" or e[1] != self.at(obj, self.flags):
            return None
        old = self.ld(obj, self.flags, e[3])
        w = [ev(e[2], {old: x}) for x in (2, 3, 6, 7)]
        return all(v is not None and (v & 7) == (x & ~self.MARK) for v, x in zip(w, (2, 3, 6, 7)))

    def marks(self, evs, x):
        return any(name(e) == self.n["mark"] and e[2][1] == x for e in evs)

    # ---- mark(): every container value leads to its object
    def check_mark(self):
        f = self.fn["mark"]
        s = ("arg", 1)
        xt = self.ld(s, 11, "i8")
        obj = self.ld(s, 0, "ptr")
        ps = [p for p in paths(f) if p.end[0] == "ret"]
        for X in (0x60, 0xA0, 0xC0, 0xE0):
            asm = {xt: X, self.ld(obj, self.flags, "i8"): 0}
            for p in ps:
                self.R.count("paths of the marking functions")
                if not feasible(p.events, asm):
                    continue
                if not any(name(e) == self.n["markBase"] and e[2][1] == obj for e in p.events):
                    self.bad("mark-skips", self.last(p, f), "mark() can return without tracing a value of container type 0x%X whose object is not marked yet" % X)
        for X in (0xA0, 0xC0, 0xE0):
            r = self.ld(s, 0, "ptr")
            asm = {xt: 0x80, self.ld(r, 11, "i8"): X}
            for p in ps:
                if feasible(p.events, asm) and not any(name(e) in (self.n["mark"], self.n["markBase"]) for e in p.events):
                    self.bad("mark-member", self.last(p, f), "mark() can return without tracing the container a member reference points at")

    def last(self, p, f):
        for e in reversed(p.events):
            if len(e) > 3 and hasattr(e[-1], "loc"):
                return e[-1]
        return f

    # ---- markBase(): every element of an object
    def check_base(self):
        f = self.fn["markBase"]
        o = ("arg", 1)
        ps = [p for p in paths(f) if p.end[0] == "ret"]
        vd = self.ld(o, self.vdata, "ptr")
        for kind in ("VALUE", "HASH_TABLE", "CHAR", "HASH_INTERNAL"):
            asm = {self.ld(o, self.type, "i8"): self.SV[kind]}
            seen = 0
            for p in ps:
                if not feasible(p.events, asm):
                    continue
                self.R.count("paths of the marking functions")
                seen += 1
                first = next((k for k, e in enumerate(p.events) if e[0] == "rec" or name(e) in self.n.values()), len(p.events))
                if not any(self.sets_mark(e, o) for e in p.events[:first]):
                    late = any(self.sets_mark(e, o) for e in p.events)
                    self.bad("base-own-mark", self.last(p, f), "markBase() %s the object's own mark%s" % ("sets" if late else "never sets", " only after following references out of it: a cyclic structure recurses without end" if late else ""))
                if kind == "VALUE":
                    self.cover(f, p.events, "elements of an array or struct", lin(vd), lambda st: (0, {self.ld(o, self.size, "i32"): 16}), None)
                if kind == "HASH_TABLE":
                    inner = ("ptr", vd, -self.hdr() + self.flags, ())
                    if not any(e[0] == "store" and e[1] == inner and (ev(e[2], {("ld", inner, e[3]): 0}) or 0) & self.MARK for e in p.events):
                        self.bad("base-table", self.last(p, f), "markBase() does not mark the value block of a hash table")
                    self.cover_hash(f, p.events, o, vd)
            if not seen:
                raise AnalysisBroken("no path of markBase for %s" % kind)

    def hdr(self):
        return self.prog.struct("WRGCBase")["size"]

    def cover(self, f, evs, what, start, length, skip):
        """some loop calls mark() on start, start+16, ... for the whole length"""
        tried = None
        und = False
        for e in evs:
            if e[0] != "rec":
                continue
            L = e[1]
            args = {x[2][1] for b, _ in L.back for x in b if name(x) == self.n["mark"]}
            for a in args:
                sp = space(L, a)
                if sp is None:
                    und = und or L
                    continue
                d = sub(sp[0], start)
                if d[1] or abs(d[0]) > 64:
                    continue
                tried = (L, a, sp)
                I = next(x[-1] for b, _ in L.back for x in b if name(x) == self.n["mark"])
                self.R.count("traced ranges")
                if d[0] != 0 or sp[1] != VALUE:
                    self.bad("range-start", I, "%s: the %s are not all traced: the walk starts %d bytes from the first and moves %d bytes at a time" % (f.short, what, d[0], sp[1]))
                want = length(sp[1])
                r = sub(sp[2], want)
                if r[1] or r[0] < 0:
                    self.bad("range-end", I, "%s: the walk over the %s does not cover all of them" % (f.short, what))
                elif r[0] > 0:
                    self.bad("range-over", I, "%s: the walk over the %s goes past the last one" % (f.short, what))
                for b, _ in L.back:
                    if not self.marks(b, a) and (skip is None or feasible(b, skip)):
                        self.bad("range-skip", b[-1][-1] if b and hasattr(b[-1][-1], "loc") else I, "%s: a round of the walk over the %s can pass without tracing its value" % (f.short, what))
                return L
        if tried is None and not und:
            self.bad("range-missing", f, "%s: the %s are not traced" % (f.short, what))
        if und:
            self.R.count("walks of unknown shape")
        return None

    def cover_hash(self, f, evs, o, vd):
        for e in evs:
            if e[0] != "rec":
                continue
            L = e[1]
            args = {x[2][1] for b, _ in L.back for x in b if name(x) == self.n["mark"]}
            if not args:
                continue
            sps = {a: space(L, a) for a in args}
            if any(s is None for s in sps.values()):
                self.R.count("walks of unknown shape")
                return
            I = next(x[-1] for b, _ in L.back for x in b if name(x) == self.n["mark"])
            self.R.count("traced ranges")
            starts = {}
            for a, (s0, st, ln) in sps.items():
                d = sub(s0, lin(vd))
                if d[1]:
                    continue
                if st == VALUE:
                    starts.update({0: (a, ln), VALUE: (a, ln)})
                    want = (0, {self.ld(o, self.mod, "i16"): 32})
                elif st == 2 * VALUE:
                    starts[d[0]] = (a, ln)
                    want = (0, {self.ld(o, self.mod, "i16"): 32})
                r = sub(ln, want)
                if r[1] or r[0] < 0:
                    self.bad("hash-end", I, "%s: the walk over a hash table does not cover all of its slots" % f.short)
                elif r[0] > 0:
                    self.bad("hash-over", I, "%s: the walk over a hash table goes past its last slot" % f.short)
            for off, what in ((0, "values"), (VALUE, "keys")):
                if off not in starts:
                    self.bad("hash-%s" % what, I, "%s: the %s of a hash table are not traced" % (f.short, what))
            # slots may be passed over only when their hash is the empty mark
            ind = [s for s in L.init]
            for b, _ in L.back:
                if all(self.marks(b, a) for a, _ in starts.values()):
                    continue
                hs = [x[1] for x in b if x[0] == "load" and contains(x[1], self.ld(o, self.table, "ptr"))]
                if not hs or any(feasible(b, {("ld", h, "i32"): v for h in hs}) for v in (0, 1, 255, 12345, 0x7FFFFFFF, -1)):
                    self.bad("hash-skip", I, "%s: an occupied slot of a hash table can be passed over" % f.short)
            return
        self.bad("hash-missing", f, "%s: the contents of hash tables are not traced" % f.short)

    # ---- every block of hash-table values carries the count the collector searches by
    def check_blocks(self):
        n = 0
        for f in self.prog.defined():
            st = [I for I in f.insts() if I.op == "store"]
            at = {}
            for I in st:
                b = ir.ptr_base(f, I.ops[1])
                if b is not None:
                    at.setdefault((repr(b[0]), b[1]), []).append(I)
            for (b, off), l in at.items():
                for I in l:
                    if off != self.type or I.x != "i8" or I.ops[0][0] != "c" or I.ops[0][1] != self.SV["HASH_INTERNAL"]:
                        continue
                    g = f.val.get(I.ops[1][1]) if I.ops[1][0] == "i" else None
                    if g is None or g.op != "getelementptr" or "WRGC" not in str((g.x or {}).get("st")):
                        continue
                    n += 1
                    cnt = [J for (b2, o2), l2 in at.items() if o2 == self.mod and (b2 == b or b2 != repr(["a", 0])) for J in l2 if J.x == "i16" and (f.inst_dominates(J, I) or f.inst_dominates(I, J))]
                    if not cnt:
                        self.bad("block-count", I, "%s makes a block of hash-table values without recording how many it holds: a reference into it does not keep it" % f.short)
        if not n:
            raise AnalysisBroken("no block of hash-table values is made")

    # ---- markOwner(): the block a reference points into
    def check_owner(self):
        f = self.fn["markOwner"]
        el = ("arg", 1)
        for p in paths(f):
            if p.end[0] != "ret":
                continue
            for e in p.events:
                if e[0] != "rec":
                    continue
                L = e[1]
                if len(L.init) != 1:
                    continue
                s = next(iter(L.init))
                if L.init[s] != self.ld(("arg", 0), self.prog.offset("WRContext", "svAllocated"), "ptr"):
                    self.bad("owner-list", f, "markOwner() does not search from the head of the allocated list")
                for b, nx in L.back:
                    if nx.get(s) != self.ld(s, self.next, "ptr"):
                        self.bad("owner-next", f, "markOwner() does not move to the next allocated object")
                    for kind, lo, hi in (("VALUE", self.ld(s, self.vdata, "ptr"), None), ("HASH_INTERNAL", ("ptr", s, self.hdr(), ()), None)):
                        asm = {self.ld(s, self.type, "i8"): self.SV[kind]}
                        cmps = [x for x in b if x[0] == "br" and x[1][0] == "cmp" and el in (x[1][2], x[1][3])]
                        asm.update(inside(cmps, el, lin(lo), self.len(s, kind)))
                        if feasible(b, asm):
                            self.bad("owner-miss", f, "markOwner() can pass over the object that holds the referenced element (%s)" % kind)
                self.R.count("traced ranges")

    def len(self, s, kind):
        if kind == "VALUE":
            return (0, {self.ld(s, self.size, "i32"): 16})
        return (0, {self.ld(s, self.mod, "i16"): 32})

    # ---- gc(): roots, then sweep
    def check_gc(self):
        f = self.fn["gc"]
        c = ("arg", 0)
        o = lambda n: self.prog.offset("WRContext", n)
        free = lambda e: e[0] == "icall" and e[1] == ("ld", ("g", "g_free"), "ptr")
        csize = self.prog.struct("WRContext")["size"]
        for p in paths(f):
            if p.end[0] != "ret":
                continue
            recs = [(k, e[1]) for k, e in enumerate(p.events) if e[0] == "rec"]
            sweep = [(k, L) for k, L in recs if any(free(e) for b, _ in L.back for e in b)]
            if not sweep:
                if any(free(e) for e in p.events):
                    self.bad("free-outside", f, "gc() releases an object outside the sweep")
                continue
            self.R.count("collection paths")
            if len(sweep) != 1:
                raise AnalysisBroken("gc(): several sweep loops")
            k, S = sweep[0]
            before = p.events[:k]
            st = ("cmp", "ne", ("arg", 1), ("k", 0))
            full = feasible(p.events, {("arg", 1): 4096})
            glob = self.cover(f, before, "globals", lin(("ptr", c, csize, ())), lambda s: (0, {self.ld(c, o("globals"), "i16"): 16}), None)
            if full:
                a0 = lin(("ptr", ("ld", ("ptr", c, o("stack"), ()), "ptr"), 0, ((("z", ("ld", ("ptr", c, o("stackOffset"), ()), "i16")), 16),)))
                L = self.cover(f, before, "live stack", a0, lambda s: sub(lin(("arg", 1)), a0), None)
                if L:
                    self.stack_refs(f, L)
                self.perm(f, before, c, o("svAllocated"))
            if any(e[0] in ("call",) and e[1] in self.n.values() for e in p.events[k + 1:]) or any(e[0] == "rec" and any(name(x) in self.n.values() for b, _ in e[1].back for x in b) for e in p.events[k + 1:]):
                self.bad("late-mark", f, "gc() marks after the sweep")
            self.sweep(f, S, c, o("svAllocated"), free)

    def stack_refs(self, f, L):
        """a reference on the stack keeps the container it points into"""
        args = {x[2][1] for b, _ in L.back for x in b if name(x) == self.n["mark"]}
        for s in args:
            ref = {self.ld(s, 8, "i8"): 2, self.ld(s, 11, "i8"): 0}
            mem = {self.ld(s, 8, "i8"): 3, self.ld(s, 11, "i8"): 0x80}
            for what, asm in (("reference", ref), ("member reference", mem)):
                for b, _ in L.back:
                    if feasible(b, asm) and not any(name(e) == self.n["markOwner"] for e in b):
                        self.bad("stack-%s" % what.split()[0], f, "gc(): a %s on the stack does not keep the container it points into" % what)

    def perm(self, f, evs, c, off):
        head = self.ld(c, off, "ptr")
        for e in evs:
            if e[0] != "rec":
                continue
            L = e[1]
            for s, i in L.init.items():
                if i == head and any(name(x) == self.n["markBase"] for b, _ in L.back for x in b):
                    for b, nx in L.back:
                        asm = {self.ld(s, self.flags, "i8"): self.prog.enum_value("GCFlag_Perm")}
                        if feasible(b, asm) and not any(name(x) == self.n["markBase"] and x[2][1] == s for x in b):
                            self.bad("perm-skip", f, "gc() does not trace an object marked permanent")
                        if nx.get(s) != self.ld(s, self.next, "ptr"):
                            self.bad("perm-next", f, "gc() does not visit every allocated object when it looks for permanent ones")
                    return
        self.bad("perm-missing", f, "gc() does not trace permanent objects")

    def sweep(self, f, L, c, off, free):
        head = self.at(c, off)
        cur = {s for s in L.init if any(free(e) and e[2][0] == s for b, _ in L.back for e in b)}
        if len(cur) != 1:
            raise AnalysisBroken("gc(): sweep does not release its current object")
        cur = cur.pop()
        fl = self.ld(cur, self.flags, "i8")
        nextp = self.ld(cur, self.next, "ptr")
        if L.init[cur] != ("ld", head, "ptr"):
            self.bad("sweep-start", f, "gc(): the sweep does not start at the head of the allocated list")
        others = [s for s in L.init if s != cur]
        for b, nx in L.back:
            I = next((x[-1] for x in reversed(b) if hasattr(x[-1], "loc")), f)
            frees = [k for k, e in enumerate(b) if free(e)]
            perm = self.prog.enum_value("GCFlag_Perm")
            for asm, marked in (({fl: self.MARK}, True), ({fl: 0}, False), ({fl: perm, ("arg", 1): 0}, False)):
                if not feasible(b, asm):
                    continue
                self.R.count("sweep cases")
                if marked:
                    if frees:
                        self.bad("sweep-frees-marked", I, "gc(): a marked object can be released")
                    if not any(self.clears_only_mark(e, cur) for e in b):
                        self.bad("sweep-keeps-mark", I, "gc(): the mark of a surviving object is not cleared, so it and what it refers to are never traced again")
                    if nx[cur] != nextp:
                        self.bad("sweep-next", I, "gc(): the sweep does not move on to the next object")
                    for s in others:
                        if nx.get(s) != cur and L.step.get(s) is None:
                            self.bad("sweep-prev", I, "gc(): the surviving object is not remembered as the predecessor for unlinking")
                else:
                    if not frees:
                        self.bad("sweep-leaks", I, "gc(): an unmarked object is not released")
                        continue
                    if len(frees) > 1:
                        self.bad("sweep-twice", I, "gc(): an object is released twice")
                    k = frees[0]
                    unlink = [j for j, e in enumerate(b) if e[0] == "store" and e[2] == nextp and (e[1] == head or any(e[1] == self.at(s, self.next) for s in others))]
                    if not unlink or unlink[0] > k and not any(e[0] == "load" and contains(e[1], cur) for e in b[k:]) and False:
                        self.bad("sweep-unlink", I, "gc(): a released object stays in the allocated list")
                    else:
                        e = b[unlink[0]] if unlink else None
                        if e:
                            for s in others:
                                zero = feasible(b, {s: 0})
                                some = feasible(b, {s: 4096})
                                if e[1] == head and some or e[1] != head and zero:
                                    self.bad("sweep-unlink-wrong", e[-1], "gc(): a released object is unlinked from the wrong place")
                    if any(e[0] == "load" and e[1] in (self.at(cur, x) for x in (self.next, self.flags, self.type, self.vdata, self.size)) for e in b[k + 1:]):
                        self.bad("sweep-uaf", I, "gc(): an object is read after it was released")
                    if not any(name(e) in self.clears() and e[2][0] == cur for e in b[:k]):
                        self.bad("sweep-content", I, "gc(): an object is released without releasing what it owns")
                    new = nx[cur]
                    if new not in (nextp, ("ld", head, "ptr")) and not any(new == self.ld(s, self.next, "ptr") for s in others):
                        self.bad("sweep-next", I, "gc(): the sweep does not move on to the next object")
                    for s in others:
                        if nx.get(s) != s:
                            self.bad("sweep-prev", I, "gc(): the predecessor used for unlinking is a released object")

    def clears(self):
        return {f.name for f in self.prog.fns.values() if f.short in ("WRGCBase::clear", "WRGCObject::clear")}

    # ---- where collections happen
    def check_sites(self):
        tops = self.tops()
        for f in self.prog.defined():
            if f.file.startswith(("discrete_src/debug/", "discrete_src/cc/")) or f.short == "wr_callFunction":
                continue
            calls = [I for I in f.calls() if I.ops[0] == ["fn", self.n["gc"]]]
            if not calls:
                continue
            known = tops.get(f.name, {})
            for p in small_paths(f):
                for j, e in enumerate(p.events):
                    if e[0] == "call" and e[1] == self.n["gc"]:
                        half = half_built(p.events, j)
                        if half is not None:
                            self.bad("half:%s" % f.short, half, "%s collects between giving a value its container type and giving it its object" % f.short)
            for I in calls:
                self.R.count("collection points")
                o = I.ops[2]
                if o[0] == "null":
                    continue
                b, off = ir.ptr_base(f, o)
                if b[0] != "a" or b[1] not in known:
                    self.R.count("collection points with an unrelated top")
                    continue
                self.R.count("collection points of callbacks")
                for k, wrote in sorted(known[b[1]], key=repr):
                    t = None if off is None or k is None or off % VALUE else off // VALUE + k
                    if t not in (0, 1):
                        self.bad("top:%s" % f.short, I, "%s collects with a stack top %s slots from the callback's result slot" % (f.short, t))
                    elif t == 0 and (wrote or self.wrote_result(f, I, ("a", b[1]), -k)):
                        self.bad("top:%s" % f.short, I, "%s collects after storing its result, with a stack top that leaves the result out" % f.short)

    def tops(self):
        """function -> {parameter: {(distance in slots from a callback's result slot, result stored before)}}"""
        taken = set()
        for f in self.prog.defined():
            for I in f.insts():
                for o in (I.ops[1:] if I.op == "call" else I.ops):
                    if isinstance(o, list) and o and o[0] == "fn":
                        taken.add(o[1])
        out, todo = {}, []
        for f in self.prog.defined():
            if f.name in taken and len(f.args) == 3 and [t for _, t in f.args] == ["ptr", "i32", "ptr"]:
                out[f.name] = {0: {(0, False)}}
                todo.append(f.name)
        while todo:
            f = self.prog.fns[todo.pop()]
            for I in f.calls():
                g = self.prog.fns.get(I.ops[0][1]) if I.ops[0][0] == "fn" else None
                if g is None or not g.blocks or g.name == self.n["gc"] or g.short == "wr_callFunction" or g.name == f.name:
                    continue
                for i, o in enumerate(I.ops[1:1 + len(g.args)]):
                    if g.args[i][1] != "ptr":
                        continue
                    b, off = ir.ptr_base(f, o)
                    if b[0] != "a" or b[1] not in out[f.name]:
                        continue
                    for k, wrote in list(out[f.name][b[1]]):
                        t = (None if off is None or k is None or off % VALUE else k + off // VALUE, wrote or self.wrote_result(f, I, ("a", b[1]), -(k or 0)))
                        have = out.setdefault(g.name, {}).setdefault(i, set())
                        if t not in have and len(have) < 12:
                            have.add(t)
                            todo.append(g.name)
        return out

    def wrote_result(self, f, I, top, at=0):
        for J in f.insts():
            t = None
            if J.op == "store":
                t = J.ops[1]
            elif J.op == "call" and J.ops[0][0] == "fn" and J.ops[0][1].startswith("llvm.memcpy"):
                t = J.ops[1]
            if t is None:
                continue
            b, off = ir.ptr_base(f, t)
            if tuple(b[:2]) == top and off is not None and at * VALUE <= off < (at + 1) * VALUE and reaches(f, J, I):
                return True
        return False


def small_paths(f):
    try:
        return paths(f)
    except AnalysisBroken:
        return []


def reaches(f, J, I):
    if J.bb is I.bb and J.idx < I.idx:
        return True
    seen, st = set(), [J.bb.i]
    while st:
        b = st.pop()
        for s in f.blocks[b].succ:
            if s == I.bb.i:
                return True
            if s not in seen:
                seen.add(s)
                st.append(s)
    return False


def inside(cmps, el, lo, ln):
    """truth of comparisons of el with the ends of its block [lo, lo+ln)"""
    out = {}
    for x in cmps:
        t = x[1]
        for a, b, p in ((t[2], t[3], t[1]), (t[3], t[2], {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(t[1], t[1]))):
            if a != el:
                continue
            d = sub(lin(b), lo)
            if not d[1] and d[0] == 0:
                if p in ("uge", "ult"):
                    out[t] = int(p == "uge")
            e = sub(d, ln)
            if not e[1] and e[0] == 0:
                if p in ("uge", "ult"):
                    out[t] = int(p == "ult")
    return out


def half_built(evs, j):
    """a value that carries a container type at event j but gets its object only later"""
    tags = {}
    for x in evs[:j]:
        if x[0] == "store" and x[2][0] == "k" and (x[2][1] >> 24 & 0xFF) in (0x60, 0xA0, 0xC0, 0xE0) and x[3] in ("i32", "i64"):
            tags[lin_key(x[1], -8)] = x[-1]
    if not tags:
        return None
    had = {lin_key(x[1], 0) for x in evs[:j] if x[0] in ("store", "memcpy")}
    for x in evs[j + 1:]:
        if x[0] == "store" and x[3] in ("ptr", "i64"):
            k = lin_key(x[1], 0)
            if k in tags and k not in had:
                return tags[k]
    return None


def lin_key(a, off):
    c, d = lin(a)
    return c + off, tuple(sorted(d.items(), key=repr))


def interp_sites(R, prog, cfg):
    """collections of the interpreter itself: everything that stays on the stack is below the given top, and no slot
    above the ones in use is (it can hold a value whose object is gone)"""
    it = vm.Interp(prog)
    gcn = prog.one("WRContext::gc").name
    inv = {v: k for k, v in it.opnum.items()}
    inits = {f.name for f in prog.fns.values() if f.short == "WRValue::init"}
    base = ("ptr", ("ld", ("ptr", ("arg", 0), it.off["stack"], ()), "ptr"), 0,
            ((("z", ("ld", ("ptr", ("arg", 0), prog.offset("WRContext", "stackOffset"), ()), "i16")), VALUE),))
    todo = [(inv[k], lin(("reg", "ST")), it.handler(k)) for k in sorted(it.entries) if k in inv]
    w = vm.Walker(it.fn, {}, it, 2)
    w.go(0, None)
    todo.append(("call entry", lin(base), w.paths))
    for n, st, ps in todo:
        for p in ps:
            for j, e in enumerate(p.events):
                if not (e[0] == "call" and e[1] == gcn):
                    continue
                R.count("interpreter collection points")
                d = sub(lin(e[2][1]), st)
                if d[1] or d[0] % VALUE:
                    R.count("collection points with an unrelated top")
                    continue

                def written(evs):
                    out = set()
                    for x in evs:
                        t = None
                        if x[0] == "store":
                            t = x[1]
                        elif x[0] == "memcpy":
                            t = x[1]
                        elif x[0] == "call" and x[1] in inits:
                            t = x[2][0]
                        if t is None:
                            continue
                        q = sub(lin(t), st)
                        if not q[1] and (x[0] != "store" or q[0] % VALUE >= 8):
                            out.add(q[0] // VALUE)
                    return out
                half = half_built(p.events, j)
                if half is not None:
                    R.violation("C12:half:%s" % n, half.loc(), "%s collects between giving a value its container type and giving it its object: the collection follows whatever the value held before (%s)" % (n, cfg))
                a = d[0] // VALUE
                before, after = written(p.events[:j]), written(p.events[j + 1:])
                stale = [k for k in range(0, a) if k not in before]
                if stale:
                    R.violation("C12:stale:%s" % n, e[-1].loc(), "%s collects with a stack top that includes slot %d above the stack, which it has not set: the slot can hold a value whose object was released (%s)" % (n, stale[0], cfg))
                if p.end[0] == "dispatch":
                    q = sub(lin(p.regs["ST"]), st)
                    if not q[1]:
                        lost = [k for k in range(a, q[0] // VALUE) if k not in after]
                        if lost:
                            R.violation("C12:lost:%s" % n, e[-1].loc(), "%s collects with a stack top that leaves out a slot still in use (%d): its object can be released (%s)" % (n, lost[0], cfg))


def check(R):
    R.rule("mark() leads from every container value to its object; markBase() marks an object before following references and walks every element, key and value of it; a collection walks all globals, the whole stack up to the given "
           "top (references keep the container they point into) and permanent objects before the sweep; the sweep releases exactly the unmarked objects, after their contents, unlinked, never touching them again, and clears the mark of the others; "
           "collection points in library code pass a top that includes the arguments and a stored result; collection points of the interpreter pass a top that covers the slots left in use and no slot above them")
    for cfg in ("default", "compact", "slices", "mfail"):
        prog = ir.std(cfg)
        c = Col(R, prog, cfg)
        c.check_mark()
        c.check_base()
        c.check_owner()
        c.check_blocks()
        c.check_gc()
        c.check_sites()
        interp_sites(R, prog, cfg)
    R.floor("traced ranges", 8)
    R.floor("sweep cases", 8)
    R.floor("collection points", 8)
