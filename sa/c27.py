"""C27: teardown releases everything once; creation links everything teardown walks."""
import ir
from ir import AnalysisBroken
from gcwalk import paths, ev, feasible
from loops import contains

TECHNIQUE = "path enumeration with loop records over the creating and destroying functions: must-release / must-unlink order obligations on every path, decided on LLVM IR terms"
NOTE = "sweeping itself is C12; resources held in local variables are C24"

FREE = ("ld", ("g", "g_free"), "ptr")


class T:
    def __init__(self, R, prog, cfg):
        self.R, self.prog, self.cfg = R, prog, cfg
        self.o = prog.offset
        self.names = {}
        for n in ("wr_destroyContextEx", "wr_destroyContext", "wr_freeGCChain", "WRContext::gc", "wr_createContext"):
            self.names[n] = prog.one(n).name
        self.clear = {f.name for f in prog.fns.values() if f.short in ("WRGCBase::clear", "WRGCObject::clear")}

    def bad(self, key, f, e, msg):
        I = e[-1] if e is not None and hasattr(e[-1], "loc") else None
        self.R.violation("C27:" + key, I.loc() if I else "%s:%d" % (f.file, f.line), "%s: %s (%s)" % (f.short, msg, self.cfg))

    def fld(self, base, struct, name, extra=0):
        off = self.o(struct, name) + extra
        return base if off == 0 else ("ptr", base, off, ())

    def rets(self, n):
        f = self.prog.one(n)
        ps = [p for p in paths(f) if p.end[0] == "ret"]
        self.R.count("paths", len(ps))
        self.R.count("functions")
        return f, ps

    def call(self, e, n):
        return e[0] == "call" and (e[1] == self.names.get(n) or n == "clear" and e[1] in self.clear)

    @staticmethod
    def free(e):
        return e[0] == "icall" and e[1] == FREE

    def touched(self, evs, base):
        """an access through base, or base given to a function"""
        for e in evs:
            if e[0] in ("load", "store"):
                a = e[1]
                if a == base or a[0] == "ptr" and a[1] == base:
                    return e
            if e[0] == "call" and base in e[2] or e[0] == "icall" and base in e[2]:
                return e
            if e[0] == "rec":
                for b, _ in e[1].back:
                    t = self.touched(b, base)
                    if t:
                        return t
        return None

    def flat(self, evs):
        for e in evs:
            if e[0] == "rec":
                for b, _ in e[1].back:
                    yield from self.flat(b)
            else:
                yield e

    # ---------------------------------------------------------------- destroy
    def context_ex(self):
        f, ps = self.rets("wr_destroyContextEx")
        c = ("arg", 0)
        for p in ps:
            E = p.events
            g = [k for k, e in enumerate(E) if self.call(e, "WRContext::gc") and e[2][0] == c]
            ch = [k for k, e in enumerate(E) if self.call(e, "wr_freeGCChain") and e[2][0] == ("ld", self.fld(c, "WRContext", "svAllocated"), "ptr")]
            if not g and not ch:
                self.bad("objects", f, None, "the objects of the context are not released")
            if g:
                e = E[g[0]]
                if e[2][1] != ("k", 0):
                    self.bad("objects-top", f, e, "the final collection still treats the stack as live")
                hint = [x for x in E[:g[0]] if x[0] == "store" and x[1] == self.fld(c, "WRContext", "allocatedMemoryHint")]
                if not hint or not (hint[-1][2][0] == "k" and (hint[-1][2][1] & 0xFFFFFFFF) == 0xFFFFFFFF):
                    self.bad("objects-hint", f, e, "the final collection can be skipped: the memory hint is not raised above every limit")
                gl = [x for x in E[:g[0]] if x[0] == "store" and x[1] == self.fld(c, "WRContext", "globals")]
                if not gl or gl[-1][2] != ("k", 0):
                    self.bad("objects-globals", f, e, "the final collection still traces the globals, so what they hold is leaked")
            reg = self.o("WRContext", "registry")
            chain = ("ld", ("ptr", c, reg + self.o("WRGCBase", "m_nextGC"), ()), "ptr")
            if not any(self.call(e, "wr_freeGCChain") and e[2][0] == chain for e in E):
                self.bad("registry", f, None, "the function registry's tables are not released")
            own = self.prog.enum_value("WRC_OwnsMemory")
            fl = ("ld", self.fld(c, "WRContext", "flags"), "i8")
            blk = ("ld", self.fld(c, "WRContext", "bottom"), "ptr")
            fr = [e for e in E if self.free(e) and e[2][0] == blk]
            if feasible(E, {fl: own, blk: 4096}) and len(fr) != 1:
                self.bad("block", f, fr[-1] if fr else None, "an owned bytecode block is released %d times" % len(fr))
            if feasible(E, {fl: 0xFF & ~own}) and fr:
                self.bad("block-borrowed", f, fr[0], "a bytecode block the caller kept is released")
            self.last(f, E, c, "the context")

    def last(self, f, E, obj, what):
        fr = [k for k, e in enumerate(E) if self.free(e) and e[2][0] == obj]
        self.R.count("obligations")
        if len(fr) != 1:
            self.bad("self", f, E[fr[-1]] if fr else None, "%s is released %d times" % (what, len(fr)))
        if fr:
            t = self.touched(E[fr[0] + 1:], obj)
            if t:
                self.bad("after", f, t, "%s is used after it was released" % what)

    def context(self):
        f, ps = self.rets("wr_destroyContext")
        c = ("arg", 0)
        nxt = self.o("WRContext", "nextStateContextLink")
        done = 0
        for p in ps:
            E = p.events
            d = [k for k, e in enumerate(E) if self.call(e, "wr_destroyContextEx") and self.same(e[2][0], c, E)]
            if not d:
                continue
            done += 1
            self.R.count("obligations", 3)
            if len(d) > 1:
                self.bad("twice", f, E[d[1]], "the context is destroyed twice")
            k = d[0]
            head = ("ld", self.fld(("ld", self.fld(c, "WRContext", "w"), "ptr"), "WRState", "contextList"), "ptr")
            unl = False
            for e in E[:k]:
                if e[0] != "store":
                    continue
                v = e[2]
                isnext = v[0] == "ld" and v[1][0] == "ptr" and v[1][2] == nxt and (self.same(v[1][1], c, E) or v[1][1] == head)
                if isnext and (e[1] == head[1] or e[1][0] == "ptr" and e[1][2] == nxt and not self.same(e[1][1], c, E)):
                    unl = True
                    # the right place: the head only without a predecessor
                    if e[1][0] == "ptr" and e[1][1][0] == "hav" and e[1][2] == nxt:
                        if feasible(E, {e[1][1]: 0}):
                            self.bad("unlink-null", f, e, "the predecessor used to unlink the context can be missing")
            if not unl:
                self.bad("unlink", f, E[k], "the context is destroyed while it is still in the state's list")
            imp = self.imports(f, E[:k], c)
            if not imp:
                self.bad("imports", f, E[k], "imported contexts are not destroyed")
            t = self.touched(E[k + 1:], c)
            if t:
                self.bad("after", f, t, "the context is used after it was destroyed")
        if not done:
            self.bad("never", f, None, "no path destroys the context")

    def same(self, t, c, E):
        if t == c:
            return True
        return any(e[0] == "br" and e[1][0] == "cmp" and e[1][1] in ("eq", "ne") and e[2] == (e[1][1] == "eq") and {e[1][2], e[1][3]} == {t, c} for e in E)

    def imports(self, f, E, c):
        """a loop that destroys c->imported until the list is back at c"""
        imp = self.o("WRContext", "imported")
        slot = ("ptr", c, imp, ())
        for e in E:
            if e[0] != "rec":
                continue
            L = e[1]
            if not any(self.call(x, "wr_destroyContextEx") for b, _ in L.back for x in b):
                continue
            if not any(contains(t, slot) for t in list(L.init.values())) and not any(x[0] == "load" and x[1] == slot for b, _ in L.back for x in b):
                continue
            for b, nx in L.back:
                ks = [k for k, x in enumerate(b) if self.call(x, "wr_destroyContextEx")]
                if len(ks) != 1:
                    self.bad("imports-round", f, b[ks[-1]] if ks else None, "a round over the imported contexts destroys %d of them" % len(ks))
                    continue
                d = b[ks[0]][2][0]
                if not (d == ("ld", slot, "ptr") or d in L.init):
                    self.bad("imports-which", f, b[ks[0]], "something other than the current imported context is destroyed")
                late = [x for x in b[ks[0] + 1:] if x[0] == "load" and x[1] == ("ptr", d, imp, ())]
                if late:
                    self.bad("imports-after", f, late[0], "an imported context is read after it was destroyed")
                nxt = ("ld", ("ptr", d, imp, ()), "ptr")
                if not any(x[0] == "load" and x[1] == ("ptr", d, imp, ()) for x in b[:ks[0]]):
                    self.bad("imports-next", f, b[ks[0]], "the rest of the imported contexts is forgotten")
                elif d == ("ld", slot, "ptr"):      # the list head itself is the cursor
                    st = [x for x in b if x[0] == "store" and x[1] == slot]
                    if not st:
                        self.bad("imports-stuck", f, b[ks[0]], "the list of imported contexts still names one that was destroyed")
                    else:
                        a = {nxt: 4096, c: 8192}
                        if feasible(b, a) and ev(st[-1][2], a) != 4096:
                            self.bad("imports-rest", f, st[-1], "the rest of the imported contexts is forgotten")
                        a = {nxt: 8192, c: 8192}
                        if feasible(b, a) and ev(st[-1][2], a) != 0:
                            self.bad("imports-end", f, st[-1], "the walk over the imported contexts goes on into the importer")
            self.R.count("obligations")
            return True
        return False

    def state(self):
        f, ps = self.rets("wr_destroyState")
        w = ("arg", 0)
        lst = ("ld", self.fld(w, "WRState", "contextList"), "ptr")
        reg = self.o("WRState", "globalRegistry")
        chain = ("ld", ("ptr", w, reg + self.o("WRGCBase", "m_nextGC"), ()), "ptr")
        for p in ps:
            E = p.events
            ctx = [k for k, e in enumerate(E) if e[0] == "rec" and any(self.call(x, "wr_destroyContext") for b, _ in e[1].back for x in b)]
            if not ctx:
                self.bad("contexts", f, None, "the contexts of the state are not destroyed")
            else:
                L = E[ctx[0]][1]
                for b, nx in L.back:
                    d = [x for x in b if self.call(x, "wr_destroyContext")]
                    if not d:
                        self.bad("contexts-skip", f, None, "a context can be passed over when the state is destroyed")
                    elif d[0][2][0] != lst and d[0][2][0] not in L.init:
                        self.bad("contexts-which", f, d[0], "the contexts destroyed are not those of the state's list")
            clean = [k for k, e in enumerate(E) if e[0] == "rec" and any(self.free(x) for b, _ in e[1].back for x in b)]
            node = ("ld", self.fld(w, "WRState", "libCleanupFunctions"), "ptr")
            if not clean:
                self.bad("cleanup", f, None, "the registered clean-up entries are not released")
            for k in clean:
                for b, nx in E[k][1].back:
                    fr = [j for j, x in enumerate(b) if self.free(x)]
                    if len(fr) != 1:
                        self.bad("cleanup-free", f, None, "a clean-up entry is released %d times" % len(fr))
                        continue
                    n = b[fr[0]][2][0]
                    if not any(x[0] == "icall" and not self.free(x) and (x[1] == ("ld", n, "ptr") or x[1][0] == "ld" and x[1][1][0] == "ptr" and x[1][1][1] == n) for x in b[:fr[0]]):
                        self.bad("cleanup-call", f, b[fr[0]], "a registered clean-up function is not called before its entry goes")
                    late = [x for x in b[fr[0] + 1:] if x[0] == "load" and (x[1] == n or x[1][0] == "ptr" and x[1][1] == n)]
                    if late:
                        self.bad("cleanup-after", f, late[0], "a clean-up entry is read after it was released")
            fc = [k for k, e in enumerate(E) if self.call(e, "wr_freeGCChain") and e[2][0] == chain]
            if len(fc) != 1:
                self.bad("registry", f, None, "the tables of the library registry are released %d times" % len(fc))
            elif ctx and fc[0] < ctx[0]:
                self.bad("order", f, E[fc[0]], "the library registry goes before the contexts that use it")
            self.last(f, E, w, "the state")

    def chain(self):
        f, ps = self.rets("wr_freeGCChain")
        nx = self.o("WRGCBase", "m_nextGC")
        ok = False
        for p in ps:
            for e in p.events:
                if e[0] != "rec":
                    continue
                L = e[1]
                for b, n in L.back:
                    fr = [k for k, x in enumerate(b) if self.free(x)]
                    if len(fr) != 1:
                        self.bad("chain", f, None, "a link of the chain is released %d times" % len(fr))
                        continue
                    o = b[fr[0]][2][0]
                    ok = True
                    self.R.count("obligations")
                    if o not in L.init or n.get(o) != ("ld", ("ptr", o, nx, ()), "ptr"):
                        self.bad("chain-next", f, b[fr[0]], "the walk does not go from each link to the next")
                    late = self.touched(b[fr[0] + 1:], o)
                    if late:
                        self.bad("chain-after", f, late, "a link is read after it was released")
                    if not any(self.call(x, "clear") and x[2][0] == o for x in b[:fr[0]]):
                        self.bad("chain-content", f, b[fr[0]], "a link is released without what it owns")
        if not ok:
            self.bad("chain-none", f, None, "nothing of the chain is released")

    def clears(self):
        f, ps = self.rets("WRGCBase::clear")
        o = ("arg", 0)
        ty = ("ld", self.fld(o, "WRGCBase", "m_type"), "i8")
        data = ("ld", self.fld(o, "WRGCBase", "m_Vdata"), "ptr")
        for kind, own in (("SV_VALUE", 1), ("SV_CHAR", 1), ("SV_HASH_TABLE", 0), ("SV_VOID_HASH_TABLE", 0), ("SV_HASH_INTERNAL", 0), ("SV_HASH_ENTRY", 0)):
            v = self.prog.enum_value(kind)
            for p in ps:
                if not feasible(p.events, {ty: v}):
                    continue
                n = len([e for e in p.events if self.free(e) and e[2][0] == data])
                self.R.count("obligations")
                if n != own:
                    self.bad("clear:" + kind, f, None, "the data block of a %s object is released %d times (it is %s)" % (kind, n, "its own" if own else "a chained block of its own"))

    def container(self):
        f, ps = self.rets("wr_destroyContainer")
        ob = ("ld", ("arg", 0), "ptr")
        for p in ps:
            E = p.events
            if not any(self.call(e, "wr_freeGCChain") and e[2][0] == ("ld", ("ptr", ob, self.o("WRGCBase", "m_nextGC"), ()), "ptr") for e in E):
                self.bad("container", f, None, "the keys and tables of a container are not released")
            self.last(f, E, ob, "the container object")

    # ---------------------------------------------------------------- create
    def links(self):
        nx = self.o("WRGCBase", "m_nextGC")
        for n, head in (("WRContext::getSVA", self.fld(("arg", 0), "WRContext", "svAllocated")), ("WRGCObject::growHash", ("ptr", ("arg", 0), nx, ())),
                        ("wr_addToContainerEx", ("ptr", ("ld", ("arg", 1), "ptr"), nx, ()))):
            f = self.prog.one(n)
            ps = [p for p in paths(f) if p.end[0] == "ret"]
            self.R.count("functions")
            for p in ps:
                E = list(p.events)
                new = [e for e in E if e[0] == "icall" and e[1] == ("ld", ("g", "g_malloc"), "ptr")]
                if not new:
                    continue
                blk = ("icall", new[-1][1], new[-1][2])
                if any(self.free(e) and e[2][0] == blk for e in E):
                    continue
                if not feasible(E, {blk: 4096}):
                    continue       # the allocation failed
                self.R.count("obligations")
                ins = [k for k, e in enumerate(E) if e[0] == "store" and e[1] == head and e[2] == blk]
                nxt = [k for k, e in enumerate(E) if e[0] == "store" and e[1] == ("ptr", blk, nx, ()) and e[2] == ("ld", head, "ptr")]
                if not ins:
                    self.bad("link", f, new[-1], "a new block is not put on the list teardown walks")
                elif not nxt or nxt[0] > ins[0]:
                    self.bad("link-rest", f, E[ins[0]], "putting a new block on the list drops the blocks that were there")

    def owner(self):
        f, ps = self.rets("wr_createContext")
        own = self.prog.enum_value("WRC_OwnsMemory")
        for p in ps:
            if p.end[1] == ("k", 0):
                continue
            C = p.end[1]
            E = p.events
            fl = [e for e in E if e[0] == "store" and e[1] == self.fld(C, "WRContext", "flags")]
            self.R.count("obligations")
            for take in (0, 1):
                asm = {("arg", 3): take}
                if not feasible(E, asm):
                    continue
                a2 = dict(asm)
                a2[("ld", self.fld(C, "WRContext", "flags"), "i8")] = 0
                if any(bool(v & own) != bool(take) for v in self.values(fl[-1][2] if fl else ("k", 0), a2, E)):
                    self.bad("ownership", f, fl[-1] if fl else None, "a block %s is %s" % (("handed over", "not recorded as owned") if take else ("kept by the caller", "recorded as owned")))
            b = [e for e in E if e[0] == "store" and e[1] == self.fld(C, "WRContext", "bottom")]
            if not b or b[-1][2] != ("arg", 1):
                self.bad("bottom", f, b[-1] if b else None, "the context does not remember its bytecode block")
        f, ps = self.rets("wr_newContext")
        for p in ps:
            C = p.end[1]
            if C == ("k", 0) or not feasible(p.events, {C: 4096}):
                continue
            E = p.events
            head = self.fld(("arg", 0), "WRState", "contextList")
            ins = [k for k, e in enumerate(E) if e[0] == "store" and e[1] == head and e[2] == C]
            nxt = [k for k, e in enumerate(E) if e[0] == "store" and e[1] == self.fld(C, "WRContext", "nextStateContextLink") and e[2] == ("ld", head, "ptr")]
            self.R.count("obligations")
            if not ins:
                self.bad("new-link", f, None, "a new context is not put on the state's list")
            elif not nxt or nxt[0] > ins[0]:
                self.bad("new-rest", f, E[ins[0]], "putting a new context on the state's list drops the others")
        f, ps = self.rets("wr_import")
        c = ("arg", 0)
        imp = self.o("WRContext", "imported")
        for p in ps:
            E = p.events
            mk = [e for e in E if self.call(e, "wr_createContext")]
            if not mk:
                raise AnalysisBroken("wr_import does not create a context")
            C = ("call", mk[-1][1], mk[-1][2])
            if not feasible(E, {C: 4096}):
                continue
            d = [k for k, e in enumerate(E) if self.call(e, "wr_destroyContextEx") and e[2][0] == C]
            ins = [k for k, e in enumerate(E) if e[0] == "store" and e[1] == ("ptr", c, imp, ()) and e[2] == C]
            self.R.count("obligations")
            if d:
                if ins:
                    self.bad("import-failed", f, E[ins[0]], "a destroyed import stays in the list")
                if not self.imports(f, E[:d[0]], C):
                    self.bad("import-nested", f, E[d[0]], "what a failed import had imported itself is not destroyed")
                t = self.touched(E[d[0] + 1:], C)
                if t:
                    self.bad("import-after", f, t, "a destroyed import is used")
                continue
            if not ins:
                self.bad("import-link", f, None, "an imported context is not put on the importer's list")
                continue
            old = ("ld", ("ptr", c, imp, ()), "ptr")
            rest = [k for k, e in enumerate(E) if e[0] == "store" and e[1][0] == "ptr" and e[1][2] == imp and e[1][1] != c and (e[2] in (old, c) or contains(e[2], old))]
            had = {old: 4096, c: 8192}
            if feasible(E, had) and rest and all(ev(E[k][2], had) not in (4096, None) for k in rest):
                rest = []
            if not rest:
                self.bad("import-rest", f, E[ins[0]], "importing a second unit forgets the ones imported before")
            # what the unit imported itself must not be overwritten
            if any(E[k][1][1] == C for k in rest) and not any(x[0] == "rec" for x in E[:rest[0]]) and feasible(E, {("ld", ("ptr", C, imp, ()), "ptr"): 4096}):
                self.bad("import-own", f, E[rest[0]], "what the imported unit had imported itself is forgotten")

    # ---------------------------------------------------------------- the final collection
    def sweep(self):
        f, ps = self.rets("WRContext::gc")
        fo = self.o("WRGCBase", "m_flags")
        mark = self.prog.enum_value("GCFlag_Marked")
        kinds = [0, self.prog.enum_value("GCFlag_Perm")]
        for p in ps:
            if not feasible(p.events, {("arg", 1): 0}):
                continue
            for x in p.events:
                if x[0] != "rec":
                    continue
                for b, _ in x[1].back:
                    for e in b:
                        if self.free(e) and e[2][0] in x[1].init:
                            cur = e[2][0]
                            break
                    else:
                        continue
                    break
                else:
                    continue
                self.R.count("obligations")
                for b, _ in x[1].back:
                    for k in kinds:
                        if k & mark:
                            continue
                        if feasible(b, {("ld", ("ptr", cur, fo, ()), "i8"): k, ("arg", 1): 0}) and not any(self.free(e) and e[2][0] == cur for e in b):
                            self.bad("final", f, next((e for e in reversed(b) if hasattr(e[-1], "loc")), None), "the collection that tears a context down keeps an object%s" % (" marked permanent" if k else ""))

    def values(self, t, asm, E):
        """the values a term can have on a path, its unknown parts taken as zero or not"""
        v = ev(t, asm)
        if v is not None:
            return [v]
        at = []

        def atoms(x):
            if not isinstance(x, tuple) or x in asm or x in at:
                return
            if x[0] in ("ld", "arg", "call", "icall", "hav", "ind", "alloca", "g", "ptr"):
                at.append(x)
            else:
                for y in x[1:]:
                    atoms(y)
        atoms(t)
        out = []
        for bits in range(1 << min(len(at), 6)):
            a = dict(asm)
            for i, x in enumerate(at[:6]):
                a[x] = 4096 if bits >> i & 1 else 0
            v = ev(t, a)
            if v is not None and feasible(E, a):
                out.append(v)
        return out

    # ---------------------------------------------------------------- replaced buffers
    def buffers(self):
        data = self.o("WRGCBase", "m_Vdata")
        init = {self.prog.one(n).name for n in ("WRGCObject::init", "WRGCObject::growHash")}
        for f in self.prog.defined():
            if f.name in init or not f.file.startswith(("discrete_src/vm/", "discrete_src/lib/", "discrete_src/utils/")) or f.short == "wr_callFunction":
                continue
            hit = False
            for I in f.insts():
                if I.op == "store" and I.x == "ptr":
                    g = ir.gep_field(f, I.ops[1])
                    if g and g[2] in ("WRGCBase", "WRGCObject", "class.WRGCBase", "class.WRGCObject") and g[3] == data:
                        hit = True
            if not hit:
                continue
            self.R.count("functions")
            for p in paths(f):
                if p.end[0] != "ret":
                    continue
                E = list(p.events)
                for k, e in enumerate(E):
                    if e[0] != "store" or e[3] != "ptr" or not (e[1][0] == "ptr" and e[1][2] == data and not e[1][3]):
                        continue
                    old = ("ld", e[1], "ptr")
                    if e[2] == old:
                        continue
                    back = any(x[0] == "store" and x[1] == e[1] and x[2] == old for x in E[k + 1:])
                    freed = [j for j, x in enumerate(E) if self.free(x) and x[2][0] == old]
                    if e[1][1][0] in ("call", "icall") and e[1][1][0] == "icall":
                        continue
                    self.R.count("obligations")
                    if not back and not freed:
                        self.bad("replaced:" + f.short, f, e, "the data block of an object is replaced without releasing the old one")
                    if back and freed:
                        self.bad("restored:" + f.short, f, e, "the data block of an object is released and put back")


def check(R):
    R.rule("on every path: destroying a context raises the hint above any limit, drops the globals and collects with no live stack, releases the registry tables, the block exactly when owned and the context last; it is unlinked and its imports "
           "are destroyed (each read before it goes) first; destroying a state runs and releases the clean-up entries, destroys all contexts, then the registry, then itself; chains and containers release every link with its contents; creation "
           "puts every block, context and import on the list teardown walks without dropping what was there, and records ownership as given; replacing an object's data block releases the old one")
    for cfg in ("default", "compact", "slices", "mfail"):
        prog = ir.std(cfg)
        t = T(R, prog, cfg)
        for m in (t.context_ex, t.context, t.state, t.chain, t.clears, t.container, t.links, t.owner, t.sweep, t.buffers):
            m()
    R.floor("obligations", 60)
    R.floor("functions", 40)
