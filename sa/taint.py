"""interprocedural, flow-insensitive provenance of pointers: which SSA values may point into an object class"""
import ir
from ir import iter_ops

PROP = ("getelementptr", "bitcast", "phi", "select", "freeze", "inttoptr", "ptrtoint", "add", "sub", "addrspacecast")


def field_name(prog, f, o):
    g = ir.gep_field(f, o)
    if not g:
        return None
    for st, off in ((g[2], g[3]), (g[0], g[1])):
        s = prog.types.get("struct " + st)
        for x in (s or {}).get("fields", []):
            if x[1] == off:
                return (st, x[0])
    return None


class Taint:
    """fields: initial (struct, field) sources; params: (short name, index) sources; nofields: structs whose fields never become sources"""

    def __init__(self, prog, fields=(), params=(), nofields=(), stop=lambda f: False, arith=False, extra=None, named=()):
        self.prog, self.fields, self.nofields = prog, set(fields), set(nofields)
        self.vals = set()          # (fn name, "i"/"a", id)
        self.why = {}
        self.ret = set()
        self.ops = PROP if arith else PROP[:6]
        callers = prog.callers()
        for short, k in params:
            for f in prog.by_name(short):
                self.vals.add((f.name, "a", k))
        for n, k in named:
            self.vals.add((n, "a", k))
        flist = [f for f in prog.defined() if not stop(f)]
        changed = True
        while changed:
            changed = False
            for f in flist:
                for I in f.insts():
                    key = (f.name, "i", I.id)
                    if I.op == "load":
                        if key in self.vals:
                            continue
                        fn = field_name(prog, f, I.ops[0])
                        if fn in self.fields and I.ty == "ptr" or extra and extra(f, I):
                            self.vals.add(key)
                            changed = True
                    elif I.op in self.ops:
                        if key in self.vals:
                            continue
                        src = [I.ops[0]] if I.op == "getelementptr" else [v for v, _ in I.ops] if I.op == "phi" else I.ops[1:] if I.op == "select" else I.ops
                        if any(self.has(f, o) for o in src):
                            self.vals.add(key)
                            changed = True
                    elif I.op == "store":
                        if I.ops[0][0] in ("i", "a") and self.has(f, I.ops[0]):
                            fn = field_name(prog, f, I.ops[1])
                            if fn and fn not in self.fields and fn[0] not in self.nofields:
                                self.fields.add(fn)
                                self.why[fn] = I.loc()
                                changed = True
                    elif I.op == "call":
                        t = I.ops[0]
                        if t[0] == "fn" and t[1] in prog.fns and not prog.fns[t[1]].decl:
                            for k, a in enumerate(I.ops[1:]):
                                if a[0] in ("i", "a") and self.has(f, a) and (t[1], "a", k) not in self.vals:
                                    self.vals.add((t[1], "a", k))
                                    changed = True
                            if t[1] in self.ret and key not in self.vals:
                                self.vals.add(key)
                                changed = True
                    elif I.op == "ret" and I.ops and I.ops[0][0] in ("i", "a") and self.has(f, I.ops[0]):
                        if f.name not in self.ret:
                            self.ret.add(f.name)
                            changed = True

    def has(self, f, o):
        while o[0] == "cgep":
            o = o[1]
        return o[0] in ("i", "a") and (f.name, o[0], o[1]) in self.vals
