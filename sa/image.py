"""Byte-level view of the bytecode image: what the linker appends, what a
reader takes out, both as linear positions."""
import ir
import vm
import loops
from vm import mkptr
from lin import lin, sub, add
from ir import AnalysisBroken


def wide(t):
    """look through width changes"""
    while isinstance(t, tuple) and t and (t[0] in ("z", "s") or (isinstance(t[0], str) and t[0][:1] == "t" and t[0][1:].isdigit())):
        t = t[1]
    return t


def byte_of(t, i):
    """byte i (0 = least significant) of a term -> canonical (term, index)"""
    while True:
        if not isinstance(t, tuple):
            return t, i
        if t[0] == "k":
            return ("k", (t[1] >> (8 * i)) & 255), 0
        if t[0] in ("z", "s") or (isinstance(t[0], str) and t[0][:1] == "t" and t[0][1:].isdigit()):
            t = t[1]
            continue
        if t[0] == "op" and t[1] in ("lshr", "ashr") and t[3][0] == "k" and t[3][1] % 8 == 0:
            t, i = t[2], i + t[3][1] // 8
            continue
        if t[0] == "op" and t[1] in ("sdiv", "udiv") and t[3][0] == "k" and t[3][1] in (256, 65536, 1 << 24) and t[1] == "udiv":
            t, i = t[2], i + {256: 1, 65536: 2, 1 << 24: 3}[t[3][1]]
            continue
        if t[0] == "op" and t[1] == "and":
            ks = [x for x in t[2:4] if x[0] == "k"]
            vs = [x for x in t[2:4] if x[0] != "k"]
            if len(ks) == 1 and (ks[0][1] >> (8 * i)) & 255 == 255:
                t = vs[0]
                continue
        return t, i


def classes(prog):
    """walkers for which size() of a growing stream is not the same value before and after an append"""
    if getattr(prog, "_tagged", None):
        return prog._tagged

    class Tag:
        def call(self, I):
            loops.LoopWalker.call(self, I)
            c = I.ops[0]
            if c[0] == "fn" and role(prog, c[1]) == "size":
                a = self.val(I.ops[1])
                self.env[I.id] = ("size", a, sum(1 for e in self.events if grows(prog, e, a)))

    class Body(Tag, loops._Body):
        pass
    Body.BODY = Body

    class Walk(Tag, loops.LoopWalker):
        BODY = Body
        stops = ()

        def leaving(self, b, came):
            if b in self.stops:
                self.paths.append(vm.Path(list(self.events), ("stop", b), {}))
                return True
            return False
    prog._tagged = (Walk, Body)
    return prog._tagged


def grows(prog, e, stream):
    if e[0] == "call" and role(prog, e[1]) in ("append", "byte", "stream") and e[2][0] == stream:
        return True
    if e[0] == "loop":
        return any(grows(prog, x, stream) for x in e[2])
    return False


def role(prog, name):
    f = prog.fns.get(name)
    d = f.dem if f else ""
    if d.startswith("WROpcodeStream::append(") or d.startswith("WRstr::append(char const*, unsigned int"):
        return "append"
    if d.startswith("WROpcodeStream::operator+=(unsigned char)"):
        return "byte"
    if d.startswith("WROpcodeStream::operator+=(") or d.startswith("WRstr::append(WRstr"):
        return "stream"
    if d.startswith("WROpcodeStream::size(") or d.startswith("WRstr::size("):
        return "size"
    if d.startswith("wr_pack16("):
        return "pack16"
    if d.startswith("wr_pack32("):
        return "pack32"
    if d.startswith("WROpcodeStream::p_str(") or d.startswith("WROpcodeStream::operator[]("):
        return "at"
    return None


def walk(prog, fn, stops=()):
    w = classes(prog)[0](fn, {})
    w.stops = stops
    w.go(0, None)
    return w.paths


def once(prog, fn, head):
    """one round of a loop of fn: back-edge event lists"""
    L = loops.natural_loops(fn)
    W = classes(prog)[1](fn, {I.id: ("ind", head, I.id) for I in fn.blocks[head].insts if I.op == "phi"}, None, L, head, L[head])
    W.run()
    return W.back


class Mem:
    """bytes of local buffers along one path"""
    def __init__(self, prog):
        self.prog = prog
        self.b = {}

    def store(self, a, v, ty):
        n = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}.get(ty)
        base, off, var = (a[1], a[2], a[3]) if a[0] == "ptr" else (a, 0, ())
        if n is None or var:
            return
        for i in range(n):
            self.b[(base, off + i)] = self.byte(v, i)

    def byte(self, v, i):
        t, i = byte_of(v, i)
        # a byte read back from a local buffer is the byte stored there
        if t[0] == "ld" and t[2] == "i8" and i == 0:
            a = t[1]
            k = (a[1], a[2]) if a[0] == "ptr" and not a[3] else (a, 0)
            if k in self.b:
                return self.b[k]
        return t, i

    def resolve(self, t):
        """replace loads of local bytes inside a term by what was stored (as byte-valued terms)"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "ld" and t[2] == "i8":
            a = t[1]
            k = (a[1], a[2]) if a[0] == "ptr" and not a[3] else (a, 0)
            if k in self.b:
                x, i = self.b[k]
                return ("b", x, i)
        if t[0] in ("ld", "size"):
            return t
        return tuple(self.resolve(x) if isinstance(x, tuple) else x for x in t)

    def take(self, p, n):
        base, off = (p[1], p[2]) if p[0] == "ptr" and not p[3] else (p, 0)
        r = []
        for i in range(n):
            if (base, off + i) not in self.b:
                return None
            r.append(self.b[(base, off + i)])
        return r


def emission(prog, events, stream, mem=None):
    """events of a path -> items: ("B", term, i) one byte; ("blob", ptr, len);
    ("rep", loop event, items); ("at", offset, width, value) patches; ("mark", event index)"""
    mem = mem or Mem(prog)
    out = []
    for e in events:
        if e[0] == "store":
            v = mem.resolve(e[2])
            mem.store(e[1], v, e[3])
            if e[1][0] != "alloca" and not (e[1][0] == "ptr" and e[1][1][0] == "alloca"):
                base, off, var = (e[1][1], e[1][2], e[1][3]) if e[1][0] == "ptr" else (e[1], 0, ())
                if base[0] == "call" and role(prog, base[1]) == "at" and base[2][0] == stream and not var:
                    out.append(("at", vm.addp(base[2][1], off), 1, v, e[4]))
                else:
                    out.append(("set", e[1], v, e[4]))
        elif e[0] == "call":
            r = role(prog, e[1])
            if r in ("pack16", "pack32"):
                n = 2 if r == "pack16" else 4
                v = mem.resolve(e[2][0])
                mem.store(e[2][1], v, "i%d" % (8 * n))
                p = e[2][1]
                base, off, var = (p[1], p[2], p[3]) if p[0] == "ptr" else (p, 0, ())
                if base[0] == "call" and role(prog, base[1]) == "at" and base[2][0] == stream:
                    out.append(("at", vm.addp(base[2][1], off), n, v, e[3]))
            elif r == "byte" and e[2][0] == stream:
                out.append(("B",) + mem.byte(e[2][1], 0))
            elif r == "append" and e[2][0] == stream:
                p, n = e[2][1], e[2][2]
                while p[0] == "call" and role(prog, p[1]) in ("pack16", "pack32"):
                    p = p[2][1]
                bs = mem.take(p, n[1]) if n[0] == "k" and n[1] <= 16 else None
                if bs is not None:
                    out += [("B",) + b for b in bs]
                else:
                    out.append(("blob", p, n, e[3]))
            elif r == "stream" and e[2][0] == stream:
                out.append(("blob", e[2][1], ("size", e[2][1], 0), e[3]))
            else:
                # unknown callee may write through a pointer to a local buffer
                for a in e[2]:
                    base = a[1] if a[0] == "ptr" else a
                    if base[0] == "alloca" and role(prog, e[1]) is None:
                        for k in [k for k in mem.b if k[0] == base]:
                            del mem.b[k]
        elif e[0] == "loop":
            its = emission(prog, e[2], stream, mem)
            if any(x[0] in ("B", "blob", "rep", "at", "set") for x in its):
                out.append(("rep", e, its))
    return out


# ------------------------------------------------------------------ readers
def little(t):
    """(address, bytes, signed) of a value assembled from consecutive bytes, least significant first, or a plain load; None otherwise"""
    s = None
    if not t or not isinstance(t[0], str):
        return None
    if t[0] in ("z", "s"):
        s, t = t[0] == "s", t[1]
    if t[0][:1] == "t" and t[0][1:].isdigit():
        w = int(t[0][1:]) // 8
        r = little(t[1])
        if r and r[1] >= w and r[1] in (1, 2, 4):
            if r[1] == w or not isinstance(r[2], bool) or True:
                return r[0], w, s
        return None
    if t[0] == "ld":
        n = {"i8": 1, "i16": 2, "i32": 4}.get(t[2])
        return (t[1], n, s) if n else None
    parts = {}

    def collect(x, sh):
        if x[0] in ("z", "s"):
            # an 8-bit load extended: sign only matters above its own bits
            return collect(x[1], sh)
        if x[0] == "op" and x[1] in ("or", "add"):
            return collect(x[2], sh) and collect(x[3], sh)
        if x[0] == "op" and x[1] in ("mul", "shl"):
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if b[0] == "k" and (x[1] == "mul" or b is x[3]):
                    m = b[1] if x[1] == "mul" else 1 << b[1]
                    k = {1: 0, 256: 1, 65536: 2, 1 << 24: 3}.get(m & 0xffffffff)
                    if k is not None:
                        return collect(a, sh + k)
            return False
        if x[0] == "ld" and x[2] == "i8":
            if sh in parts:
                return False
            parts[sh] = x[1]
            return True
        return False
    if not collect(t, 0):
        return None
    n = len(parts)
    if sorted(parts) != list(range(n)) or n not in (2, 4):
        return None
    a0 = lin(parts[0])
    for i in range(1, n):
        if sub(lin(parts[i]), a0) != (i, {}):
            return None
    return parts[0], n, (s if s is not None else (None if n == 4 else False))
