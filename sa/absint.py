"""Tag-domain abstract interpretation of instruction handlers and of the operator
routines they dispatch to.

Every WRValue the handler touches is an abstract cell: a type tag from a finite
domain and a symbolic payload named after the cell.  A cell's tag is split into
its alternatives the first time it is inspected; a comparison whose operands are
not constants is split into both outcomes.  No condition is ever solved: the only
pruning is that one comparison has one outcome on a path and that a term equal to
one constant is not equal to another.  Dispatch tables are read at the constant
index the tags give, so calls through them are followed; routines without loops
are followed into, everything else is an opaque event.
"""
from vm import (mkptr, addp, binop, conv, Walker, Namer)
from ir import AnalysisBroken
import struct

SLOT = 16
T_INT, T_FLOAT, T_REF, T_EX = 0, 1, 2, 3
MEMBER = 0x80


class Fork(Exception):
    def __init__(self, what, key, opts):
        self.what, self.key, self.opts = what, key, opts


class Frame:
    __slots__ = ("fn", "bb", "ix", "env", "came", "seen", "dst", "uid")

    def copy(self):
        f = Frame()
        f.fn, f.bb, f.ix, f.env, f.came, f.seen, f.dst, f.uid = self.fn, self.bb, self.ix, dict(self.env), self.came, dict(self.seen), self.dst, self.uid
        return f


class State:
    __slots__ = ("frames", "cells", "mem", "lits", "eqs", "choices", "events", "n", "uid")

    def __init__(self):
        self.frames, self.cells, self.mem, self.lits, self.eqs, self.choices, self.events, self.n, self.uid = [], {}, {}, {}, {}, {}, [], 0, 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.cells, s.mem, s.lits, s.eqs, s.choices = dict(self.cells), dict(self.mem), dict(self.lits), dict(self.eqs), dict(self.choices)
        s.events, s.n, s.uid = list(self.events), self.n, self.uid
        return s


class Result:
    __slots__ = ("st", "end", "regs")

    def __init__(self, st, end, regs):
        self.st, self.end, self.regs = st, end, regs


FNEG = {"oeq": "une", "one": "ueq", "olt": "uge", "ole": "ugt", "ogt": "ule", "oge": "ult"}
FNEG.update({v: k for k, v in list(FNEG.items())})


def ordered(lits, lit):
    """what the order axioms say about a comparison, given other comparisons of the same two terms"""
    k, a, b = lit
    g = lits.get
    if k in ("slt", "ult"):
        if g((k, b, a)) or g(("eq", a, b)) or g(("eq", b, a)):
            return False
        if g((k, b, a)) is False and (g(("eq", a, b)) is False or g(("eq", b, a)) is False):
            return True
    elif k == "eq":
        for o in ("slt", "ult"):
            if g((o, a, b)) or g((o, b, a)):
                return False
            if g((o, a, b)) is False and g((o, b, a)) is False:
                return True
    elif k == "folt":
        if g(("folt", b, a)) or g(("fole", b, a)) or g(("foeq", a, b)) or g(("foeq", b, a)) or g(("fole", a, b)) is False:
            return False
    elif k == "fole":
        if g(("folt", a, b)) or g(("foeq", a, b)) or g(("foeq", b, a)):
            return True
        if g(("folt", b, a)):
            return False
    elif k == "foeq":
        if g(("folt", a, b)) or g(("folt", b, a)):
            return False
    return None


def fkey(x):
    return struct.pack("<f", x)


def isfk(t):
    return t[0] == "fk"


ARITH = ("add", "sub", "shl", "or", "and", "xor", "mul", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "fadd", "fsub", "fmul", "fdiv")


def arith(op, a, b):
    """canonical term of a two-operand operation"""
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        if isfk(b) and op == "fsub":
            op, b = "fadd", ("fk", -b[1])
        if op in ("fadd", "fmul") and repr(b) < repr(a):
            a, b = b, a
        return ("fop", op, a, b)
    if op in ("add", "sub"):
        if a[0] == "k" and b[0] == "k":
            return ("k", a[1] + b[1] if op == "add" else a[1] - b[1])
        if b[0] == "k":
            return addp(a, b[1] if op == "add" else -b[1])
        if op == "add":
            if a[0] == "k":
                return addp(b, a[1])
            if repr(b) < repr(a):
                a, b = b, a
        return ("op", op, a, b)
    if a[0] == "k" and b[0] == "k" and op in ("lshr", "ashr"):
        return ("k", a[1] >> b[1])
    return binop(op, a, b)


class Eval:
    def __init__(self, prog, it=None, full=False):
        self.prog, self.it = prog, it
        self.full = full
        self.alias = {}
        self.allow = None          # value kinds the operands of the analysed instruction range over
        self.ctx = prog.struct("WRContext")["size"]
        self.N = Namer(prog)
        self.stackmem = ("ld", mkptr(("arg", 0), prog.offset("WRContext", "stack"), ()), "ptr")
        g = prog.enum("WRGCObjectType")
        self.SV = g
        ex = prog.enum("WRExType")
        self.ARRAY = T_EX | ex["WR_EX_ARRAY"] << 24
        self.HASH = T_EX | ex["WR_EX_HASH_TABLE"] << 24
        self.tables = {}
        for n, gl in prog.globals.items():
            init = gl.get("init")
            if init and init[0] in ("arr", "agg") and init[1] and all(e[0] in ("fn", "null") for e in init[1]) and any(e[0] == "fn" for e in init[1]):
                self.tables[n] = init[1]
        self.wrglob = {n for n, gl in prog.globals.items() if gl.get("type") == "%struct.WRValue"}
        self.concat = {f.name for f in prog.by_name("wr_concatStringCheck")}
        self.hash = {f.name for f in prog.defined() if f.short in ("WRValue::getHash", "WRValue::getHashEx")}
        self.acyc = {}
        self.wrlocal = {}
        self.steps = 0
        self.truncated = 0
        self.blocks = set()
        self.followed = set()

    # ------------------------------------------------------------- cells
    def cell(self, a):
        """address term -> (cell key, field) or None"""
        base, off, var = (a[1], a[2], a[3]) if a[0] == "ptr" else (a, 0, ())
        k = base[0]
        if k == "reg":
            if base[1] == "PC":
                return None
        elif base == ("arg", 0):
            if off < self.ctx:
                return None
            off -= self.ctx
            base = ("G",)
        elif k in ("refcell", "cont"):
            pass
        elif base == self.stackmem:
            pass
        elif k == "data":
            if any(s % SLOT for _, s in var):
                return None
        elif k == "hb":
            if off < 24:
                return None
            off -= 24
        elif k == "loc":
            if not self.wrlocal.get(base[1:], True):
                return None
        elif k == "g":
            if base[1] not in self.wrglob:
                return None
        else:
            return None
        f = off % SLOT
        return (base, off - f, var), f

    def options(self, c, st):
        base = c[0][0] if isinstance(c[0], tuple) else c[0]
        if base == "cont":
            k = c[0][2]
            return [{"Ev": "A", "Ec": "S"}[k]]
        if base in ("refcell",):
            return ["I", "F", "S"] + (["A", "H"] if self.full else [])
        if base in ("data", "hb"):
            return ["I", "F", "S"] + (["A"] if self.full else [])
        return ["I", "F", "R", "Ev", "S"] + (["Ec", "Eh", "A", "H"] if self.full else ["Ec"])

    def kind(self, st, name):
        k = st.choices.get(name)
        if k is None:
            if name[0] == "undef":
                return "U"
            o = self.options(name, st)
            if self.allow is not None:
                o = [x for x in o if x in self.allow or x in ("R", "Ev", "Ec", "Eh") or len(o) == 1]
            if len(o) == 1:
                st.choices[name] = o[0]
                return o[0]
            raise Fork("kind", name, o)
        return k

    def content(self, st, c):
        """(raw, tag, name of initial content)"""
        v = st.cells.get(c)
        if v is None:
            nm = ("undef", c) if c[0][0] in ("loc", "g") else c
            v = (None, None, nm)
        return v

    def raw(self, st, c):
        r, t, nm = self.content(st, c)
        if r is not None:
            return r
        k = self.kind(st, nm)
        if k == "I":
            return ("i32", ("i", nm))
        if k == "F":
            return ("float", ("f", nm))
        if k == "R":
            return ("p64", ("refcell", self.alias.get(nm, nm)))
        if k in ("Ev", "Ec"):
            return ("p64", ("cont", nm, k))
        if k == "Eh":
            return ("p64", ("hb", nm))
        if k == "S":
            return ("p64", ("obj", nm, "c"))
        if k == "A":
            return ("p64", ("obj", nm, "v"))
        if k == "H":
            return ("p64", ("obj", nm, "h"))
        return ("i32", ("undef",))

    def tag(self, st, c):
        r, t, nm = self.content(st, c)
        if t is not None:
            return t
        k = self.kind(st, nm)
        if k in ("I", "F", "R"):
            return ("k", "IFR".index(k))
        if k in ("Ev", "Ec", "Eh"):
            return ("p2", nm)
        if k in ("S", "A"):
            return ("k", self.ARRAY)
        if k == "H":
            return ("k", self.HASH)
        return ("undef",)

    def load_cell(self, st, c, f, ty):
        if f == 0:
            cls, t = self.raw(st, c)
            if ty in ("ptr", "i64"):
                return t if cls == "p64" else ("raw", cls, t)
            if ty == "i32":
                if cls == "i32":
                    return t
                if cls == "float":
                    if isfk(t):
                        return ("k", struct.unpack("<i", fkey(t[1]))[0])
                    return ("bits", t)
                return ("lo32", t)
            if ty == "float":
                if cls == "float":
                    return t
                if cls == "i32":
                    if t[0] == "k":
                        return ("fk", struct.unpack("<f", struct.pack("<i", t[1]))[0])
                    return ("asf", t)
                return ("asf", ("lo32", t))
            return ("part", ty, t)
        if f == 8:
            t = self.tag(st, c)
            if ty in ("ptr", "i64", "i32"):
                return t
            if ty == "i8":
                if t[0] == "k":
                    return ("k", t[1] & 0xff)
                if t[0] == "p2":
                    return ("k", T_EX)
            return ("part", ty, t)
        if f == 11 and ty == "i8":
            t = self.tag(st, c)
            if t[0] == "k":
                return ("k", t[1] >> 24 & 0xff)
            if t[0] == "p2":
                return ("k", MEMBER)
            return ("part", "x", t)
        return ("part", (f, ty), self.tag(st, c))

    def store_cell(self, st, c, f, ty, v):
        r, t, nm = self.content(st, c)
        if f == 0:
            if ty in ("ptr", "i64"):
                if v[0] == "raw":
                    r = (v[1], v[2])
                elif v[0] == "k":
                    r = ("i32", v)
                else:
                    r = ("p64", v)
            elif ty == "float":
                r = ("float", v)
            elif ty == "i32":
                r = ("i32", v)
            else:
                r = ("i32", ("part", ty, v))
        elif f == 8:
            if ty in ("i64", "ptr"):
                t = v
            elif ty == "i8" and v[0] == "k":
                old = self.tag(st, c)
                t = ("k", old[1] & ~0xff | v[1]) if old[0] == "k" else ("mix", old, v)
            else:
                t = ("mix", ty, v)
        else:
            t = ("mix", (f, ty), v, self.tag(st, c))
        st.cells[c] = (r, t, nm)

    # ------------------------------------------------------------- conditions
    def decide(self, st, lit, neg=False):
        if lit in st.lits:
            return st.lits[lit] != neg
        if lit[0] == "eq" and lit[2][0] == "k":
            known = st.eqs.get(lit[1])
            if known is not None:
                return (known == lit[2]) != neg
        if lit[0] in ("eq", "slt", "ult", "folt", "fole", "foeq"):
            v = ordered(st.lits, lit)
            if v is not None:
                return v != neg
        raise Fork("lit", lit, [True, False])

    def icmp(self, st, pred, a, b):
        if a[0] == "k" and b[0] == "k":
            x, y = a[1], b[1]
            if pred[0] == "u":
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred if pred in ("eq", "ne") else pred[1:]]
        if pred in ("eq", "ne"):
            if a == b:
                return pred == "eq"
            if a[0] == "fn" and b[0] == "fn":
                return pred == "ne"
            if a[0] == "k" or (b[0] != "k" and repr(b) < repr(a)):
                a, b = b, a
            if b[0] == "k":
                while a[0] in ("z", "s"):
                    a = a[1]
                # an object or cell address is never null and its low byte never a small tag
                if a[0] in ("loc", "refcell", "cont", "obj", "hb", "data", "fn", "g") and b[1] == 0:
                    return pred == "ne"
                if a[0] == "part" and a[2][0] in ("obj",) and 0 < b[1] < 8:
                    return pred == "ne"
                if a[0] == "ptr" and not a[3] and a[1][0] != "reg" and a[1][0] in ("i", "ld", "call") and isinstance(a[2], int):
                    a, b = a[1], ("k", b[1] - a[2])
            return self.decide(st, ("eq", a, b), pred == "ne")
        s = pred[0]
        if pred[1:] == "gt":
            return self.decide(st, (s + "lt", b, a))
        if pred[1:] == "lt":
            return self.decide(st, (s + "lt", a, b))
        if pred[1:] == "ge":
            return self.decide(st, (s + "lt", a, b), True)
        return self.decide(st, (s + "lt", b, a), True)

    def fcmp(self, st, pred, a, b):
        if isfk(a) and isfk(b):
            x, y = a[1], b[1]
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        if pred in ("oeq", "une"):
            for x, y in ((a, b), (b, a)):
                if isfk(y) and y[1] == 0.0 and x[0] == "sitofp":
                    return self.icmp(st, "eq" if pred == "oeq" else "ne", x[1], ("k", 0))
            if repr(b) < repr(a):
                a, b = b, a
            return self.decide(st, ("foeq", a, b), pred == "une")
        if pred in ("ogt", "oge", "ugt", "uge"):
            a, b, pred = b, a, pred[0] + {"gt": "lt", "ge": "le"}[pred[1:]]
        if pred[0] == "u":        # ult(a,b) = !(b ole a)
            return self.decide(st, ("fo" + {"lt": "le", "le": "lt"}[pred[1:]], b, a), True)
        return self.decide(st, ("f" + pred, a, b))

    # ------------------------------------------------------------- values
    def val(self, st, F, o):
        k = o[0]
        if k == "i":
            v = F.env.get(o[1])
            if v is not None:
                return v
            I = F.fn.val[o[1]]
            if I.op == "alloca":
                v = self.local(F.uid, I)
            elif self.it and F.fn is self.it.fn and len(st.frames) and st.frames[0] is F:
                v = self.pro(I)
            else:
                v = ("x?", I.id)
            F.env[o[1]] = v
            return v
        if k == "a":
            if self.it and F is st.frames[0]:
                return ("arg", o[1])
            return F.env.get(("a", o[1]), ("arg", o[1]))
        if k == "c":
            return ("k", o[1])
        if k == "null":
            return ("k", 0)
        if k in ("f", "cf"):
            return ("fk", float(o[1]))
        if k == "cgep":
            return mkptr(self.val(st, F, o[1]), o[2], ())
        if k in ("g", "fn"):
            return (k, o[1])
        if k == "undef":
            return ("undef",)
        return ("x", repr(o))

    def local(self, uid, I):
        if (uid, I.id) not in self.wrlocal:
            self.wrlocal[(uid, I.id)] = "WRValue" in (I.x or "")
        return ("loc", uid, I.id)

    def pro(self, I):
        if I.op == "alloca":
            return self.local(0, I)
        if not hasattr(self, "_pw"):
            self._pw = Walker(self.it.fn, {}, self.it)
        return self._pw.outside(I)

    def eval(self, st, F, I):
        op = I.op
        V = lambda n: self.val(st, F, I.ops[n])
        if op == "alloca":
            return self.local(F.uid, I)
        if op == "getelementptr":
            if I.x is None:
                return ("gep?", I.id)
            return mkptr(V(0), I.x["off"], tuple((self.val(st, F, v), s) for v, s in I.x["var"]))
        if op in ("bitcast", "addrspacecast", "ptrtoint", "inttoptr", "freeze"):
            return V(0)
        if op == "load":
            return self.load(st, V(0), I.ty)
        if op in ("zext", "sext", "trunc"):
            v = V(0)
            if v[0] == "k" and op == "zext":
                w = I.ops[0]
                src = F.fn.val[w[1]].ty if w[0] == "i" else None
                if src and src[0] == "i":
                    return ("k", v[1] & ((1 << int(src[1:])) - 1))
            if v[0] in ("i", "op") and op in ("zext", "sext") and I.ty == "i64":
                return ("z" if op == "zext" else "s", v)
            return conv(op, I.ty, v)
        if op in ARITH:
            return arith(op, V(0), V(1))
        if op == "fneg":
            return ("fneg", V(0))
        if op == "sitofp":
            v = V(0)
            return ("fk", float(v[1])) if v[0] == "k" else ("sitofp", v)
        if op in ("fpext", "fptrunc", "fptosi", "uitofp", "fptoui"):
            return (op, V(0))
        if op == "icmp":
            return ("k", int(self.icmp(st, I.x, V(0), V(1))))
        if op == "fcmp":
            return ("k", int(self.fcmp(st, I.x, V(0), V(1))))
        if op == "select":
            c = V(0)
            if c[0] == "k":
                return V(1) if c[1] else V(2)
            return V(1) if self.decide(st, ("true", c)) else V(2)
        return ("v", op) + tuple(self.val(st, F, o) for o in I.ops)

    def load(self, st, a, ty):
        c = self.cell(a)
        if c:
            return self.load_cell(st, c[0], c[1], ty)
        base, off, var = (a[1], a[2], a[3]) if a[0] == "ptr" else (a, 0, ())
        if base == ("reg", "PC") and not var and ty in ("i8", "i16", "i32"):
            return ("code", off, int(ty[1:]))
        if base[0] == "g" and base[1] in self.tables and not var and ty == "ptr":
            e = self.tables[base[1]]
            if off % 8 == 0 and 0 <= off // 8 < len(e):
                return ("fn", e[off // 8][1]) if e[off // 8][0] == "fn" else ("k", 0)
        if base[0] == "obj" and not var:
            if off == 0 and ty == "i8":
                return ("k", self.SV[{"c": "SV_CHAR", "v": "SV_VALUE", "h": "SV_HASH_TABLE"}[base[2]]])
            if off == 8 and ty == "ptr":
                return ("data", base[1], base[2])
        if base[0] == "hb" and not var:
            if off == 0 and ty == "i8":
                return ("k", self.SV["SV_HASH_INTERNAL"])
            if off == 11 and ty == "i8":
                return ("k", 0)
        if base[0] == "cont" and off == 0 and ty == "i8":
            return ("part", ty, ("obj",))
        v = st.mem.get((a, ty))
        if v is None and base[0] == "loc":
            o = st.mem.get(("out", base))
            return ("ld", mkptr(o, off, var), ty) if o is not None else ("undef",)
        return v if v is not None else ("ld", a, ty)

    # ------------------------------------------------------------- calls
    def acyclic(self, fn):
        r = self.acyc.get(fn.name)
        if r is None:
            succ = {}
            for B in fn.blocks:
                t = B.insts[-1]
                s = [o[1] for o in t.ops if isinstance(o, list) and o and o[0] == "bb"] if t.op != "switch" else [t.ops[1][1]] + [b for _, b in t.x]
                succ[B.i] = s
            color = {}

            def dfs(b):
                stack = [(b, iter(succ[b]))]
                color[b] = 1
                while stack:
                    x, it = stack[-1]
                    for y in it:
                        if color.get(y) == 1:
                            return False
                        if y not in color:
                            color[y] = 1
                            stack.append((y, iter(succ[y])))
                            break
                    else:
                        color[x] = 2
                        stack.pop()
                return True
            r = dfs(0) and sum(len(B.insts) for B in fn.blocks) < 500
            self.acyc[fn.name] = r
        return r

    def call(self, st, F, I):
        """True if a frame was pushed"""
        c = I.ops[0]
        t = ("fn", c[1]) if c[0] == "fn" else self.val(st, F, c)
        args = [self.val(st, F, o) for o in I.ops[1:]]
        if t[0] == "fn":
            n = t[1]
            if n.startswith(("llvm.dbg", "llvm.lifetime")):
                return False
            if n.startswith(("llvm.fabs", "llvm.fmuladd")) or n in ("fabsf", "fabs"):
                F.env[I.id] = ("pure", "fabs", args[0])
                return False
            if n in self.concat:
                F.env[I.id] = ("k", int(self.do_concat(st, args)))
                return False
            if n in self.hash:
                c = self.cell(args[0])
                if c:
                    tg = self.tag(st, c[0])
                    if tg[0] == "k" and tg[1] & 0xff in (T_INT, T_FLOAT):
                        F.env[I.id] = self.load_cell(st, c[0], 0, "i32")
                    else:
                        F.env[I.id] = ("hash", self.raw(st, c[0]), tg)
                    return False
            fn = self.prog.fns.get(n)
            if fn is not None and not fn.decl and len(st.frames) < 14 and not fn.short.startswith("WRGCObject::") and sum(f.fn is fn for f in st.frames) < 3 and self.acyclic(fn):
                self.push(st, fn, args, I.id)
                return True
            nm = fn.short if fn is not None else n
        else:
            nm = ("thru", t)
        st.n += 1
        if n_mem(nm):
            st.events.append((nm, tuple(args), None))
            F.env[I.id] = args[0]
            return False
        snap = tuple(self.snap(st, a) for a in args)
        outs = args
        args = [("tmp",) if a[0] == "loc" or a[0] == "ptr" and a[1][0] == "loc" else a for a in args]
        st.events.append((nm, tuple(args), snap))
        for k, a in enumerate(outs):
            b = a[1] if a[0] == "ptr" else a
            if b[0] == "loc" and not self.cell(a):
                for m in [m for m in st.mem if (m[0][1] if m[0][0] == "ptr" else m[0]) == b]:
                    del st.mem[m]
                st.mem[("out", b)] = ("out", nm if isinstance(nm, str) else "?", k, st.n)
            c = self.cell(a)
            if c and c[1] == 0 and not (fn_readonly(self.prog, t, k)):
                st.cells[c[0]] = (None, None, (("post", st.n, c[0]),) + c[0][1:])
        F.env[I.id] = ("call", nm if isinstance(nm, str) else "?", tuple(args), st.n)
        return False

    def snap(self, st, a):
        c = self.cell(a)
        if not c or c[1]:
            return None
        return st.cells.get(c[0])

    def do_concat(self, st, args):
        cs = [self.cell(a) for a in args]
        if any(c is None for c in cs):
            raise AnalysisBroken("string concatenation on an address that is not a value")
        info = []
        for c in cs[:2]:
            r, t = self.raw(st, c[0]), self.tag(st, c[0])
            info.append((r, t))
        isstr = [t == ("k", self.ARRAY) and r[1][0] in ("obj", "cat") and r[1][-1] == "c" for r, t in info]
        if not any(isstr):
            return False
        nm = self.content(st, cs[2][0])[2]
        st.cells[cs[2][0]] = (("p64", ("cat", info[0], info[1], "c")), ("k", self.ARRAY), nm)
        return True

    def push(self, st, fn, args, dst):
        self.followed.add(fn.short)
        F = Frame()
        st.uid += 1
        F.fn, F.bb, F.ix, F.came, F.seen, F.dst, F.uid = fn, 0, 0, None, {0: 1}, dst, (st.uid, fn.name)
        F.env = {("a", k): v for k, v in enumerate(args)}
        st.frames.append(F)
        # locals of a re-used frame number are undefined again: the number is fresh on every push

    # ------------------------------------------------------------- driver
    def enter(self, st, F, b):
        came, F.came = F.came, None
        src = F.bb
        B = F.fn.blocks[b]
        new = {}
        for I in B.insts:
            if I.op != "phi":
                break
            for v, bb in I.ops:
                if bb == src:
                    new[I.id] = self.val(st, F, v)
                    break
        F.env.update(new)
        F.seen[b] = F.seen.get(b, 0) + 1
        F.bb, F.ix = b, 0

    def step(self, st):
        """runs one instruction; returns a Result when the path ended"""
        F = st.frames[-1]
        B = F.fn.blocks[F.bb]
        I = B.insts[F.ix]
        op = I.op
        self.steps += 1
        if op == "phi":
            F.ix += 1
            return None
        if op == "store":
            a, v = self.val(st, F, I.ops[1]), self.val(st, F, I.ops[0])
            c = self.cell(a)
            if c:
                self.store_cell(st, c[0], c[1], I.x, v)
            else:
                st.mem[(a, I.x)] = v
            F.ix += 1
            return None
        if op == "call":
            if not self.call(st, F, I):
                F.ix += 1
            return None
        if op == "ret":
            v = self.val(st, F, I.ops[0]) if I.ops else None
            if len(st.frames) == 1:
                return Result(st, ("ret", v), {})
            st.frames.pop()
            G = st.frames[-1]
            if v is not None:
                G.env[F.dst] = v
            G.ix += 1
            return None
        if op == "unreachable":
            return Result(st, ("unreachable",), {})
        if op == "br" or op == "switch":
            if op == "br" and len(I.ops) == 1:
                tgt = I.ops[0][1]
            elif op == "br":
                c = self.val(st, F, I.ops[0])
                t = bool(c[1]) if c[0] == "k" else self.decide(st, ("true", c))
                tgt = I.ops[2][1] if t else I.ops[1][1]
            else:
                c = self.val(st, F, I.ops[0])
                if c[0] != "k":
                    raise Fork("sw", c, [v for v, _ in I.x] + [None])
                m = [b for v, b in I.x if v == c[1]]
                tgt = m[0] if m else I.ops[1][1]
            if self.it and len(st.frames) == 1 and F.fn.blocks[tgt] is self.it.disp:
                regs = {}
                for p in self.it.phis:
                    for v, bb in p.ops:
                        if bb == F.bb:
                            regs[self.it.roles[p.id]] = self.val(st, F, v)
                if self.it.mode == "table":
                    regs["PC"] = mkptr(regs["PC"], -1, ())
                return Result(st, ("dispatch",), regs)
            if F.seen.get(tgt, 0) >= 3:
                self.truncated += 1
                return Result(st, ("loop",), {})
            self.enter(st, F, tgt)
            return None
        F.env[I.id] = self.eval(st, F, I)
        F.ix += 1
        return None

    def run(self, st, limit=6000):
        out = []
        todo = [st]
        while todo:
            st = todo.pop()
            while True:
                try:
                    r = self.step(st)
                except Fork as e:
                    for o in e.opts:
                        s = st.copy()
                        if e.what == "kind":
                            s.choices[e.key] = o
                        elif e.what == "lit":
                            s.lits[e.key] = o
                            if o and e.key[0] == "eq" and e.key[2][0] == "k":
                                s.eqs[e.key[1]] = e.key[2]
                        else:
                            F = s.frames[-1]
                            I = F.fn.blocks[F.bb].insts[F.ix]
                            if I.ops[0][0] == "i":
                                F.env[I.ops[0][1]] = ("k", o if o is not None else -1)
                            s.lits[("case", e.key, o)] = True
                        todo.append(s)
                    break
                if r is not None:
                    if r.end[0] != "loop":
                        out.append(r)
                    if len(out) > limit:
                        raise AnalysisBroken("too many abstract paths")
                    break
        return out

    def handler(self, opcode, preset=None):
        return [self.pinned(r) for r in self.paths(opcode, preset)]

    def paths(self, opcode, preset=None):
        it = self.it
        st = State()
        if preset:
            st.choices.update(preset)
        F = Frame()
        F.fn, F.bb, F.ix, F.came, F.dst, F.uid = it.fn, it.disp.i, 0, None, None, 0
        F.env = {p.id: ("reg", it.roles[p.id]) for p in it.phis}
        F.seen = {}
        st.frames.append(F)
        if it.mode == "switch":
            F.env = {k: (mkptr(v, -1, ()) if v == ("reg", "PC") else v) for k, v in F.env.items()}
            w = Walker(it.fn, F.env, it)
            w.block_insts(it.disp, None, skip_phi=True)
            F.env.update(w.env)
        self.enter(st, F, it.entries[opcode])
        return self.run(st)

    # ------------------------------------------------------------- reporting
    def initial(self, st, c):
        v = self.content(State(), c)
        return v

    def show(self, t):
        return show(self.N, t)

    def effects(self, r, known=()):
        """canonical observable effect of one path; known: kinds of call results the path it is compared with looked at"""
        st = r.st
        kn = State()
        kn.choices = dict(known)
        out = []
        top = None
        if r.end[0] == "dispatch":
            s = r.regs.get("ST")
            if s == ("reg", "ST"):
                top = 0
            elif s is not None and s[0] == "ptr" and s[1] == ("reg", "ST") and not s[3]:
                top = s[2]
        for c, (raw, tag, nm) in st.cells.items():
            b = c[0]
            if b[0] in ("loc", "g"):
                continue
            if b == ("reg", "ST") and (r.end[0] != "dispatch" or (top is not None and not c[2] and c[1] >= top)):
                continue
            if nm in kn.choices and (raw is None or tag is None):
                raw, tag = raw if raw is not None else self.raw(kn, nm), tag if tag is not None else self.tag(kn, nm)
            k = st.choices.get(c)
            if nm == c and raw is not None and tag is not None and k is not None:
                s0 = State()
                s0.choices = st.choices
                if self.raw(s0, c) == raw and self.tag(s0, c) == tag:
                    continue
            out.append("%s=%s/%s" % (self.cellname(c), show(self.N, tag) if tag is not None else "same", self.rawname(raw, tag if tag is not None else {"F": ("k", T_FLOAT)}.get(st.choices.get(nm))) if raw is not None else "same" + ("" if nm == c else show(self.N, nm))))
        for (a, ty), v in st.mem.items():
            if a == "out":
                continue
            b = a[1] if a[0] == "ptr" else a
            if b[0] in ("loc",) or (b[0] == "g"):
                continue
            if v == ("ld", a, ty):
                continue
            out.append("%s:%s=%s" % (self.N.a(a) if a[0] in ("ptr", "arg", "reg") else show(self.N, a), ty, show(self.N, v)))
        out.sort()
        ev = tuple("%s(%s)" % (n if isinstance(n, str) else show(self.N, n[1]), ",".join(show(self.N, a) for a in args)) for n, args, _ in st.events)
        regs = tuple("%s=%s" % (x, show(self.N, r.regs[x])) for x in ("PC", "ST", "FB") if x in r.regs)
        end = r.end[0] + (" " + show(self.N, r.end[1]) if len(r.end) > 1 and r.end[1] else "")
        return end, regs, tuple(out), ev

    def cellname(self, c):
        return show(self.N, c)

    def rawname(self, raw, tag):
        cls, t = raw
        if t[0] == "k" and tag == ("k", T_FLOAT) and cls == "i32":
            return show(self.N, ("fk", struct.unpack("<f", struct.pack("<i", t[1]))[0]))
        return ("" if t[0] in ("k", "fk") else cls + ":") + show(self.N, t)

    def fold(self, t, eqs):
        """a term with the constants the path pinned put in"""
        if not isinstance(t, tuple) or not t:
            return t
        if t in eqs:
            return eqs[t]
        k = t[0]
        if k == "ptr":
            b = self.fold(t[1], eqs)
            if b[0] == "k" and not t[3]:
                return ("k", b[1] + t[2])
            return mkptr(b, t[2], tuple((self.fold(v, eqs), s) for v, s in t[3]))
        n = tuple(self.fold(x, eqs) for x in t)
        if n == t:
            return t
        if k in ("z", "s") and n[1][0] == "k":
            return n[1]
        if k == "op" and n[2][0] == "k" and n[3][0] == "k" and n[1] in ("add", "sub", "mul"):
            return ("k", {"add": n[2][1] + n[3][1], "sub": n[2][1] - n[3][1], "mul": n[2][1] * n[3][1]}[n[1]])
        return n

    def pinned(self, r, e=None):
        """the path's result with every operand byte the path pinned replaced by its constant"""
        st = r.st
        if e is None:
            e = self.pins(r)
        if not e:
            return r
        n = State()
        n.choices = {self.fold(k, e): v for k, v in st.choices.items()}
        n.cells = {self.cellfold(k, e): (self.fold(a, e), self.fold(b, e), self.fold(c, e)) for k, (a, b, c) in st.cells.items()}
        n.mem = {(self.fold(a, e), ty): self.fold(v, e) for (a, ty), v in st.mem.items()}
        n.lits = {k if k[0] == "eq" and k[1] in e else self.fold(k, e): v for k, v in st.lits.items()}
        n.eqs, n.n, n.uid = st.eqs, st.n, st.uid
        n.events = [(nm, self.fold(a, e), b) for nm, a, b in st.events]
        return Result(n, self.fold(r.end, e), {k: self.fold(v, e) for k, v in r.regs.items()})

    def pins(self, r):
        return {k: v for k, v in r.st.eqs.items() if k[0] == "code"}

    def cellfold(self, c, e):
        p = mkptr(c[0], c[1], tuple((self.fold(v, e), s) for v, s in c[2]))
        return (p[1], p[2], p[3]) if p[0] == "ptr" else (p, 0, ())

    def conds(self, r):
        return ({show(self.N, k): v for k, v in r.st.choices.items()},
                {show(self.N, k): v for k, v in r.st.lits.items()},
                {show(self.N, k): v[1] for k, v in r.st.eqs.items()})


def n_mem(nm):
    return isinstance(nm, str) and nm.startswith(("llvm.mem", "memset", "memcpy", "memmove"))


_RO = {}


def fn_readonly(prog, t, k):
    """library const methods and the like do not change their argument cell"""
    if t[0] != "fn":
        return False
    if prog not in _RO:
        import c10
        _RO[prog] = c10.writes_param(prog)
    return (t[1], k) not in _RO[prog]


def show(N, t):
    if t is None:
        return "-"
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    if t[0] == "fk":
        return "%rf" % t[1]
    if isinstance(t[0], str) and t[0] in ("k", "code", "z", "s", "ptr", "arg", "reg", "ld", "op", "g", "fn") and len(t) > 1:
        try:
            return N.t(t)
        except Exception:
            pass
    return "(" + " ".join(show(N, x) for x in t) + ")"


def compatible(p, q):
    """could both paths be taken by one machine state?"""
    for a, b in zip(p, q):
        for k, v in a.items():
            if k in b and b[k] != v:
                return False
    for x, y in ((p, q), (q, p)):
        for t, k in x[2].items():
            for l, v in y[1].items():
                pre = "(eq %s " % t
                if v and l.startswith(pre) and l[len(pre):-1] != str(k):
                    return False
                if not v and l == "(eq %s %s)" % (t, k):
                    return False
    return True
