"""C08: bytecode is executed only after its integrity check passed."""
import ir
import vm
import taint
from ir import AnalysisBroken
from lin import lin, sub, Bounds, NEG
TECHNIQUE = "path-sensitive typestate over the loader's IR paths (unchecked -> sized -> verified) plus provenance of the block pointer"
NOTE = "loops of the loader are unrolled twice for the path enumeration; the checksum routine is checked to visit every byte, not to be collision free"

MINSIZE = 7      # three header bytes and the four checksum bytes


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms(x)


def base_of(a):
    while a[0] == "ptr":
        a = a[1]
    return a


def reads(t, blk):
    """loads through the block pointer inside a term"""
    for s in subterms(t):
        if s and s[0] == "ld" and base_of(s[1]) == blk:
            yield s


def crc_off(ld, blk, size):
    """offset from the end of the block if the address is block + size + constant"""
    c, d = lin(ld[1])
    d = dict(d)
    if d.pop(blk, None) != 1:
        return None
    if d.pop(size, None) == 1 and not d:
        return c
    return None


class Gate:
    def __init__(self, prog, R):
        self.prog, self.R = prog, R
        self.hashes = set()
        self.valid = {}

    def is_gate(self, cond, blk, size):
        """(pred) if cond compares the stored checksum with the computed one"""
        if cond[0] != "cmp" or cond[1] not in ("eq", "ne"):
            return None
        for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
            offs = set()
            other = False
            for r in reads(a, blk):
                o = crc_off(r, blk, size)
                if o is None:
                    other = True
                else:
                    w = int(r[2][1:]) // 8
                    offs |= set(range(o, o + w))
            if other or offs != {-4, -3, -2, -1}:
                continue
            c, d = lin(b)
            hs = [x for x in d if x[0] == "call" and len(x[2]) >= 2 and x[2][0] == blk and sub(lin(x[2][1]), lin(size)) == (-4, {})]
            if len(hs) == 1 and len(d) == 1 and c != 0:
                self.hashes.add(hs[0][1])
                return cond[1]
        return None

    def passed(self, e, blk, size):
        """True/False if the branch event decides the integrity check, None otherwise"""
        cond, pol = e[1], e[2]
        g = self.is_gate(cond, blk, size)
        if g:
            return pol == (g == "eq")
        # a validity predicate called on the same block
        c, p = cond, pol
        if c[0] == "cmp" and c[1] in ("eq", "ne") and c[3] == ("k", 0):
            p = pol == (c[1] == "ne")
            c = c[2]
        while c[0] in ("z", "t1", "t8", "s"):
            c = c[1]
        if c[0] == "op" and c[1] == "and" and ("k", 1) in c[2:4]:
            c = c[2] if c[3] == ("k", 1) else c[3]
        if c[0] == "call" and len(c[2]) >= 2 and c[2][0] == blk and c[2][1] == size and self.validator(c[1]):
            return p
        return None

    def validator(self, name):
        """function(block, size, ..) returning true only for a block whose checksum matches"""
        if name not in self.valid:
            f = self.prog.fns.get(name)
            self.valid[name] = False
            if f and not f.decl:
                w = vm.Walker(f, {})
                w.go(0, None)
                ok = True
                for P in w.paths:
                    if P.end[0] != "ret":
                        continue
                    v = P.end[1]
                    st = self.run(P, ("arg", 0), ("arg", 1), None)
                    if v == ("k", 0):
                        continue
                    g = None
                    if st is not True:
                        # returns the comparison itself
                        g = self.is_gate(v if v[0] != "z" else v[1], ("arg", 0), ("arg", 1))
                    if not (st is True or g == "eq"):
                        ok = False
                self.valid[name] = ok
        return self.valid[name]

    def run(self, P, blk, size, on_early):
        """state at the end of the path: True verified, False failed, None never decided; on_early(e, why) for premature use of contents"""
        st = None
        B = Bounds()
        for e in P.events:
            if st is not True and on_early:
                if e[0] == "br":
                    rs = list(reads(e[1], blk))
                    if rs or any(s[0] == "call" and blk in s[2] for s in subterms(e[1]) if s and s[0] == "call"):
                        if not B.nonneg(sub(lin(size), (MINSIZE, {}))):
                            on_early(e, "size")
                        for r in rs:
                            o = crc_off(r, blk, size)
                            if o is None or not -4 <= o <= -1:
                                on_early(e, "contents")
                elif e[0] == "store":
                    if any(True for _ in reads(e[2], blk)) or e[2] == blk or base_of(e[2]) == blk:
                        on_early(e, "contents")
                elif e[0] in ("icall", "memcpy"):
                    if any(base_of(a) == blk or any(True for _ in reads(a, blk)) for a in e[2] if isinstance(a, tuple)) and e[0] != "icall":
                        on_early(e, "contents")
            if e[0] == "br":
                p = self.passed(e, blk, size)
                if p is not None:
                    if st is None or st is True:
                        st = p
                B.learn(e)
        self.last = B
        return st


def covers_all(f, R):
    """the checksum routine's loop visits bytes 0..len-1 of its first argument: a load of one byte through a pointer/index that starts at the argument (0), steps by one,
    and whose loop is left only when the count reaches the second argument"""
    for I in f.insts():
        if I.op == "load" and I.ty == "i8":
            # induction variables in the loop
            for B in f.blocks:
                for ph in B.insts:
                    if ph.op != "phi" or len(ph.ops) != 2:
                        continue
                    step = None
                    start = None
                    for v, _ in ph.ops:
                        if v[0] == "i" and f.val[v[1]].op in ("add", "getelementptr", "sub") and depends(f, v, ph.id):
                            n = f.val[v[1]]
                            if n.op == "add" and n.ops[1][0] == "c":
                                step = n.ops[1][1]
                            elif n.op == "sub" and n.ops[1][0] == "c":
                                step = -n.ops[1][1]
                            elif n.op == "getelementptr" and not n.x["var"]:
                                step = n.x["off"]
                        else:
                            start = v
                    if step in (1, -1) and start is not None:
                        yield I, ph, start, step


def depends(f, o, pid, d=6):
    if o[0] != "i" or d == 0:
        return False
    if o[1] == pid:
        return True
    I = f.val[o[1]]
    if I.op in ("phi", "load", "call"):
        return False
    return any(depends(f, x, pid, d - 1) for x in ir.iter_ops(I))


def check_hash(R, prog, f):
    cand = list(covers_all(f, R))
    addr_ok = False
    count_ok = False
    for I, ph, start, step in cand:
        # pointer walks from the argument, or index from zero added to it
        b = I.ops[0]
        if depends(f, b, ph.id) or b == ["i", ph.id]:
            root = start
            while root[0] == "i" and f.val[root[1]].op in ("bitcast", "freeze"):
                root = f.val[root[1]].ops[0]
            if root == ["a", 0] and step == 1:
                addr_ok = True
            if root[0] == "c" and root[1] == 0 and step == 1:
                r, _ = ir.ptr_base(f, b)
                g = f.val[b[1]] if b[0] == "i" else None
                if g is not None and g.op == "getelementptr" and g.ops[0] == ["a", 0] and g.x["off"] == 0:
                    addr_ok = True
            if root == ["a", 1] and step == -1:
                addr_ok = True
        # the loop test involves the length
        for B in f.blocks:
            t = B.insts[-1]
            if t.op == "br" and len(B.succ) == 2:
                c = f.cond(t)[0]
                if c[0] == "i" and f.val[c[1]].op == "icmp":
                    ci = f.val[c[1]]
                    sides = ci.ops
                    for a, o in ((sides[0], sides[1]), (sides[1], sides[0])):
                        av = a[0] == "i" and (a[1] == ph.id or depends(f, a, ph.id))
                        # counting up to the length; exact: phi against len, or phi+1 against len at the bottom
                        if av and o == ["a", 1] and start[0] == "c" and start[1] == 0 and step == 1 and ci.x in ("slt", "ult", "ne", "eq", "sge", "uge", "sgt", "ugt"):
                            count_ok = True
                        if av and o[0] == "c" and o[1] == 0 and start == ["a", 1] and step == -1:
                            count_ok = True
                        if av and o[0] == "i" and f.val[o[1]].op == "getelementptr" and f.val[o[1]].ops[0] == ["a", 0] and start == ["a", 0]:
                            count_ok = True
    return addr_ok and count_ok


def check(R):
    R.rule("on every path of the loader the block's contents are read, stored or used only after (size >= %d) and (stored checksum == checksum(block, size-4) + version) were established; "
           "a context is returned only on verified paths, the other paths record the bad-CRC error and return null; nothing else reads a block on its way to the loader or installs a code pointer" % MINSIZE)
    for cfg in ("default", "compact", "slices", "mfail"):
        prog = ir.std(cfg)
        f = prog.one("wr_createContext")
        BAD = prog.enum_value("WR_ERR_bad_bytecode_CRC")
        err = prog.offset("WRState", "err")
        G = Gate(prog, R)
        w = vm.Walker(f, {})
        w.go(0, None)
        blk, size = ("arg", 1), ("arg", 2)
        nver = nbad = 0
        for P in w.paths:
            R.count("loader paths")

            def early(e, why):
                I = e[-1]
                loc = I.loc() if hasattr(I, "loc") else f.file
                R.violation("C08:early:%s" % why, loc, "wr_createContext (%s) uses the block %s" % (
                    cfg, "before knowing it is at least %d bytes long" % MINSIZE if why == "size" else "contents before the checksum was verified"))
            st = G.run(P, blk, size, early)
            if P.end[0] != "ret":
                if st is not True:
                    R.violation("C08:loop", f.file, "wr_createContext iterates before verification")
                continue
            if P.end[1] != ("k", 0):
                nver += 1
                if st is not True:
                    R.violation("C08:unverified", "%s:%d" % (f.file, f.line), "wr_createContext (%s) can return a context without a matching checksum" % cfg)
                else:
                    # the function table lies inside the block
                    fr = [x for x in table_bound(P, blk)]
                    if fr and not G.last.nonneg(sub(lin(size), fr[0])):
                        R.violation("C08:table", "%s:%d" % (f.file, f.line), "wr_createContext (%s) reads function records without knowing that they lie inside the block" % cfg)
            elif st is not True:
                nbad += 1
                es = [e for e in P.events if e[0] == "store" and e[1] == ("ptr", ("arg", 0), err, ())]
                if not es or es[-1][2] != ("k", BAD):
                    R.violation("C08:report", "%s:%d" % (f.file, f.line), "wr_createContext (%s) rejects a block without recording the bad-CRC error" % cfg)
        if not nver or nbad < 1:
            raise AnalysisBroken("loader paths not understood")
        pv = prog.by_name("wr_isBytecodeValid", must=False)
        if pv and not G.validator(pv[0].name):
            R.violation("C08:predicate", "%s:%d" % (pv[0].file, pv[0].line), "wr_isBytecodeValid (%s) can accept a block whose checksum does not match" % cfg)
        for h in G.hashes:
            hf = prog.fns[h]
            R.count("checksum routines")
            if not check_hash(R, prog, hf):
                R.violation("C08:hash:%s" % hf.short, "%s:%d" % (hf.file, hf.line), "%s does not visit every byte of its input exactly once" % hf.short)
        if not G.hashes and not any(G.valid.values()):
            raise AnalysisBroken("no checksum routine recognised")
        # code pointers are installed only by the loader
        for g in prog.defined():
            for I in g.insts():
                if I.op == "store" and g.name != f.name:
                    fn = taint.field_name(prog, g, I.ops[1])
                    if fn in (("WRContext", "bottom"), ("WRContext", "codeStart")):
                        R.violation("C08:install:%s" % g.short, I.loc(), "%s installs a code pointer without the loader's check" % g.short)
        # nobody looks at the block before the loader did
        todo = [(prog.one(n).name, 1) for n in ("wr_run", "wr_import", "wr_newContext")]
        seen = set()
        while todo:
            n, k = todo.pop()
            if (n, k) in seen or n == f.name or n in G.hashes or G.valid.get(n):
                continue
            seen.add((n, k))
            g = prog.fns.get(n)
            if not g or g.decl:
                continue
            if G.validator(n) and k == 0:
                continue
            R.count("functions handing a block on")
            for I in g.insts():
                if I.op == "load" and ir.ptr_base(g, I.ops[0])[0] == ["a", k]:
                    R.violation("C08:peek:%s" % g.short, I.loc(), "%s reads the block before it was verified" % g.short)
                if I.op == "call" and I.ops[0][0] == "fn":
                    for j, a in enumerate(I.ops[1:]):
                        if ir.ptr_base(g, a)[0] == ["a", k]:
                            todo.append((I.ops[0][1], j))
                            if I.ops[0][1] == f.name and not (a == ["a", k] and I.ops[3] == ["a", k + 1]):
                                R.violation("C08:args:%s" % g.short, I.loc(), "%s does not hand the whole block to the loader" % g.short)
    R.floor("loader paths", 100)
    R.floor("checksum routines", 4)
    R.floor("functions handing a block on", 8)


def table_bound(P, blk):
    """(record size * count + header + trailer) linear expression implied by the header byte 1"""
    cnt = ("ld", ("ptr", blk, 1, ()), "i8")
    for e in P.events:
        for t in e[1:3]:
            if isinstance(t, tuple) and any(s == cnt for s in subterms(t)):
                return [(7, {cnt: 11})]
    return []
