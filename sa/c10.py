"""C10: independent virtual machines share no hidden mutable state."""
import ir
from ir import AnalysisBroken, iter_ops
TECHNIQUE = "whole-program mod/escape analysis of every non-constant global in the IR"
NOTE = ("a global counts as written if its address reaches a store, a memory intrinsic's destination, or a callee that may write through the parameter; "
        "the process-wide hooks named in the property are the only exemptions")

HOOKS = {"g_malloc", "g_free", "g_mallocFailed", "wr_Seed"}


def const_only(f, o, prog, depth=8):
    """value built from constants only (constant arguments to functions that read nothing mutable are accepted)"""
    if o[0] in ("c", "cf", "null", "undef", "fn", "g", "cgep", "str"):
        return True
    if o[0] != "i" or not depth:
        return False
    I = f.val[o[1]]
    if I.op == "call":
        return I.ops[0][0] == "fn" and all(const_only(f, x, prog, depth - 1) for x in I.ops[1:])
    if I.op in ("load", "phi", "alloca"):
        return False
    return all(const_only(f, x, prog, depth - 1) for x in iter_ops(I))


def writes_param(prog):
    """(function, arg) pairs whose pointee may be written or whose pointer may be kept"""
    W = {}
    changed = True
    fl = prog.defined()
    while changed:
        changed = False
        for f in fl:
            for a in range(len(f.args)):
                if (f.name, a) in W:
                    continue
                w = first_write(f, ["a", a], W, prog)
                if w:
                    W[(f.name, a)] = w
                    changed = True
    return W


READONLY = {"strlen", "strcmp", "strncmp", "strstr", "memcmp", "printf", "memchr", "strchr", "atoi", "strtol", "fopen", "stat", "open", "puts", "strrchr"}


def first_write(f, root, W, prog):
    """instruction through which the object root points at may be modified, or None"""
    todo, seen = [root], set()
    while todo:
        o = todo.pop()
        k = (o[0], o[1])
        if k in seen:
            continue
        seen.add(k)
        us = f.uses().get(o[1] if o[0] == "i" else ("a", o[1]), []) if o[0] != "g" else [I for I in f.insts() if any(base(x) == o for x in iter_ops(I))]
        for u in us:
            hits = [n for n, x in enumerate(u.ops) if isinstance(x, list) and base(x) == o]
            if u.op == "load" or u.op in ("icmp", "ptrtoint"):
                continue
            if u.op == "store":
                if base(u.ops[1]) == o or base(u.ops[0]) == o:
                    return u
            elif u.op in ("getelementptr", "bitcast", "phi", "select", "freeze", "addrspacecast"):
                if u.op == "getelementptr" and base(u.ops[0]) != o:
                    continue
                todo.append(["i", u.id])
            elif u.op == "call":
                t = u.ops[0]
                for n in hits:
                    if n == 0:
                        continue
                    if t[0] == "fn":
                        cn = t[1]
                        if cn.startswith(("llvm.lifetime", "llvm.dbg", "llvm.invariant")) or cn in READONLY:
                            continue
                        if cn.startswith(("llvm.memcpy", "llvm.memmove")):
                            if n == 1:
                                return u
                            continue
                        c = prog.fns.get(cn)
                        if c and not c.decl:
                            if (cn, n - 1) in W:
                                return u
                            continue
                    return u
            elif u.op == "ret":
                return u
            elif u.op in ("br", "switch"):
                continue
            else:
                return u
    return None


def base(x):
    while x[0] == "cgep":
        x = x[1]
    return x


def check(R):
    R.rule("every non-constant global of the program is either never written after static initialisation, or is one of the documented process-wide hooks, "
           "or a monotonic task-id counter, or a one-time initialised constant, or a scratch value whose every field is written before it is read on each use")
    for cfg in ("default", "compact", "slices", "mfail", "floatfmt"):
        prog = ir.std(cfg)
        W = writes_param(prog)
        users = {}
        for f in prog.defined():
            if f.name.startswith(("_GLOBAL__", "__cxx_global")):
                continue
            for I in f.insts():
                for o in iter_ops(I):
                    b = base(o)
                    if b[0] == "g":
                        users.setdefault(b[1], set()).add(f.name)
        for g, d in prog.globals.items():
            if d.get("const") or d.get("decl") or g.startswith(("llvm.", "_ZGV")):
                continue
            R.count("mutable-typed globals")
            if g in HOOKS:
                continue
            for fn in sorted(users.get(g, ())):
                f = prog.fns[fn]
                if is_init(prog, f):
                    continue
                w = first_write(f, ["g", g], W, prog)
                if not w:
                    continue
                R.count("written globals")
                why = excuse(prog, f, g, d, users[g])
                if why:
                    R.sample("%s: %s written in %s: %s" % (cfg, g, f.short, why))
                    continue
                R.violation("C10:%s:%s" % (d.get("name") or g, f.short), w.loc(), "%s writes (or hands out) the process-wide variable %s, which every virtual machine shares" % (f.short, d.get("name") or g))
    R.floor("mutable-typed globals", 100)
    R.floor("written globals", 5)


def is_init(prog, f):
    return "_GLOBAL__" in f.name or "__cxx_global_var_init" in f.name or f.name.startswith("__cxx")


def accesses(f, g):
    """(instruction, byte offset, size or None, kind) for direct loads/stores of g in f; None if used in another way"""
    return None


def excuse(prog, f, g, d, users):
    # one-time initialised constant (function-local static guarded by the compiler)
    if "_ZGV" + g[2:] in prog.globals or g.startswith("_ZZ"):
        st = [I for u in users for I in prog.fns[u].insts() if I.op == "store" and base(I.ops[1]) == ["g", g]]
        guarded = "_ZGV" + g[2:] in prog.globals
        if guarded and st and all(const_only(S.fn, S.ops[0], prog) and after_guard(S, "_ZGV" + g[2:]) for S in st) and not other_writes(prog, users, g):
            return "initialised once from constants"
        return None
    # counter: every store stores (load of itself + 1), nothing else writes
    st = [I for u in users for I in prog.fns[u].insts() if I.op == "store" and base(I.ops[1]) == ["g", g]]
    if st and not other_writes(prog, users, g) and all(is_inc(S, g) for S in st) and counter_value_private(prog, users, g):
        return "monotonic counter used only to number tasks"
    # scratch: a value object; each function that mentions it writes a field before reading that field
    if d.get("type") == "%struct.WRValue" and scratch(prog, users, g):
        return "scratch value, completely written before each use"
    return None


def other_writes(prog, users, g):
    for u in users:
        f = prog.fns[u]
        for I in f.insts():
            if any(base(x) == ["g", g] for x in iter_ops(I)):
                if I.op == "load" or I.op == "store" and base(I.ops[0]) != ["g", g]:
                    continue
                if I.op == "call" and I.ops[0][0] == "fn" and I.ops[0][1].startswith(("llvm.invariant", "__cxa_guard", "llvm.lifetime")):
                    continue
                return I
    return None


def after_guard(S, guard):
    f = S.fn
    return any(I.op == "call" and I.ops[0] == ["fn", "__cxa_guard_acquire"] and f.inst_dominates(I, S) for I in f.insts())


def is_inc(S, g):
    f = S.fn
    v = S.ops[0]
    if v[0] != "i":
        return False
    I = f.val[v[1]]
    return I.op == "add" and I.ops[1][0] == "c" and I.ops[1][1] > 0 and I.ops[0][0] == "i" and f.val[I.ops[0][1]].op == "load" and base(f.val[I.ops[0][1]].ops[0]) == ["g", g]


def counter_value_private(prog, users, g):
    """the value only flows into an object field or a return value/comparison, never into pointers or branches of the interpreter"""
    for u in users:
        f = prog.fns[u]
        for I in f.insts():
            if I.op == "load" and base(I.ops[0]) == ["g", g]:
                for x in f.uses().get(I.id, []):
                    if x.op not in ("add", "store"):
                        return False
    return True


def scratch(prog, users, g):
    # WRValue: two fields, value union at 0 (8 bytes) and the type word p2; a read or a hand-out (ret, call argument) must be preceded on every path
    # by writes to both
    vsz = None
    for u in users:
        f = prog.fns[u]
        if is_init(prog, f):
            continue
        n = len(f.blocks)
        # forward "must have written" sets
        IN = {0: frozenset()}
        full = frozenset(("v", "t"))
        work = [0]
        state = {0: frozenset()}
        bad = []
        toff = prog.offset("WRValue", "p2") if any(x[0] == "p2" for x in prog.struct("WRValue")["fields"]) else 8

        def step(s, I, report):
            refs = [x for x in iter_ops(I) if base(x) == ["g", g]]
            derived = I.op == "getelementptr" and refs
            if I.op == "store" and (refs or ptr_to(f, I.ops[1], g) is not None):
                off = ptr_to(f, I.ops[1], g)
                if base(I.ops[0]) == ["g", g]:
                    if s != full:
                        report.append(I)
                    return s
                if off is None:
                    report.append(I)
                    return s
                return s | {"t" if off >= toff else "v"}
            if I.op == "load":
                off = ptr_to(f, I.ops[0], g)
                if off is not None and ("t" if off >= toff else "v") not in s:
                    report.append(I)
                return s
            if I.op == "call":
                t = I.ops[0][1] if I.ops[0][0] == "fn" else ""
                if t.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and len(I.ops) > 1 and ptr_to(f, I.ops[1], g) == 0:
                    return full
                for k, a in enumerate(I.ops[1:]):
                    if ptr_to(f, a, g) is not None:
                        c = prog.fns.get(t)
                        # assignment operator / deref target: writes the whole object first
                        if c and not c.decl and k == 0 and "operator=" in c.dem:
                            s = full
                        elif s != full and not (c and "getHash" in c.dem and "v" in s and "t" in s):
                            report.append(I)
                return s
            if I.op in ("ret", "phi", "select") and refs and s != full:
                if I.op == "ret" or True:
                    report.append((I, s))
            return s
        order = list(range(n))
        state = {i: None for i in order}
        state[0] = frozenset()
        work = [0]
        while work:
            b = work.pop()
            s = state[b]
            for I in f.blocks[b].insts:
                if I.op == "phi":
                    continue
                s = step(s, I, [])
            for k in f.blocks[b].succ:
                ns = s if state[k] is None else state[k] & s
                if ns != state[k]:
                    state[k] = ns
                    work.append(k)
        rep = []
        out = {}
        for b in order:
            if state[b] is None:
                continue
            s = state[b]
            for I in f.blocks[b].insts:
                if I.op == "phi":
                    continue
                s = step(s, I, rep)
            out[b] = s
        for b in order:
            for I in f.blocks[b].insts:
                if I.op == "phi":
                    for v, pb in I.ops:
                        if base(v) == ["g", g] and out.get(pb[1] if isinstance(pb, list) else pb, full) != full:
                            rep.append(I)
        if rep:
            return False
    return True


def ptr_to(f, o, g):
    b, off = ir.ptr_base(f, o)
    if b == ["g", g]:
        return off if off is not None else None
    return None
