"""C09: all dynamic memory goes through the installed allocator pair."""
import ir
from ir import AnalysisBroken, iter_ops
TECHNIQUE = "whole-program reference analysis of the IR (closed list of heap functions) plus provenance of released pointers"
NOTE = "covers the translation units of the Linux builds (debug front end and board ports excluded); heap functions are recognised from a closed list of C/C++ runtime names"

HEAP = {"malloc", "calloc", "realloc", "reallocarray", "free", "cfree", "strdup", "strndup", "__strdup", "__strndup", "aligned_alloc", "posix_memalign",
        "memalign", "valloc", "pvalloc", "asprintf", "vasprintf", "getline", "getdelim", "mmap", "munmap", "mmap64", "sbrk", "brk", "wcsdup",
        "open_memstream", "realpath", "get_current_dir_name", "scandir", "__asprintf_chk", "__vasprintf_chk", "getcwd", "tempnam", "fmemopen"}


def heapish(n):
    return n in HEAP or n.startswith(("_Znw", "_Zna", "_Zdl", "_Zda"))


def check(R):
    R.rule("no function refers to a C/C++ runtime heap function; the hooks g_malloc/g_free are written only by the installer, each from its own "
           "argument, are called directly where used, and released pointers are never stack, global or interior addresses")
    for cfg in ("default", "compact", "slices", "mfail"):
        prog = ir.std(cfg)
        for h in ("g_malloc", "g_free"):
            if h not in prog.globals:
                raise AnalysisBroken("allocator hook %s not found" % h)
        for g, d in prog.globals.items():
            for n in names(d.get("init")):
                if heapish(n):
                    R.count("static initialisers naming a heap function")
                    if not (g == "g_malloc" and n == "malloc" or g == "g_free" and n == "free"):
                        R.violation("C09:init:%s:%s" % (g, n), "%s:%d" % (d.get("file", ""), d.get("line", 0)), "%s is initialised with %s" % (g, n))
        installer = set()
        for f in prog.defined():
            R.count("functions")
            for I in f.insts():
                for o in iter_ops(I):
                    if o[0] == "fn" and heapish(o[1]):
                        R.violation("C09:%s:%s" % (f.short, o[1]), I.loc(), "%s uses %s instead of the installed allocator" % (f.short, o[1]))
                    if o[0] == "g" and o[1] in ("g_malloc", "g_free"):
                        if I.op == "load":
                            R.count("allocator hook reads")
                            for u in f.uses().get(I.id, []):
                                use(R, f, I, u, o[1])
                        elif I.op == "store" and I.ops[1] == o:
                            installer.add((f.name, o[1], tuple(map(str, I.ops[0]))))
                            if I.ops[0][0] != "a":
                                R.violation("C09:hook:%s" % f.short, I.loc(), "%s sets %s to something other than what the host passed" % (f.short, o[1]))
                        else:
                            R.violation("C09:hook:%s" % f.short, I.loc(), "%s takes the address of %s" % (f.short, o[1]))
        byf = {}
        for n, g, v in installer:
            byf.setdefault(n, {})[g] = v
        for n, m in byf.items():
            f = prog.fns[n]
            R.count("hook installers")
            if m.get("g_malloc") != ("a", "0") or m.get("g_free") != ("a", "1"):
                R.violation("C09:installer", "%s:%d %s" % (f.file, f.line, f.short), "%s does not install both halves of the pair it is given" % f.short)
            else:
                # on every path
                for g in ("g_malloc", "g_free"):
                    for B in f.blocks:
                        if B.insts[-1].op == "ret" and not any(S.op == "store" and S.ops[1] == ["g", g] and f.inst_dominates(S, B.insts[-1]) for S in f.insts()):
                            R.violation("C09:installer", "%s:%d %s" % (f.file, f.line, f.short), "%s can return without installing %s" % (f.short, g))
    R.floor("hook installers", 4)
    R.floor("allocator calls", 100)
    R.floor("release calls", 80)


def names(i):
    if isinstance(i, list):
        if len(i) >= 2 and i[0] == "fn":
            yield i[1]
        for x in i:
            yield from names(x)
    elif isinstance(i, dict):
        for x in i.values():
            yield from names(x)


def use(R, f, L, u, hook):
    if u.op in ("icmp",):
        return
    if not (u.op == "call" and u.ops[0] == ["i", L.id]):
        R.violation("C09:hookcopy:%s" % f.short, u.loc(), "%s keeps a copy of the allocator hook %s, which goes stale when the host installs another pair" % (f.short, hook))
        return
    if hook == "g_malloc":
        R.count("allocator calls")
        return
    R.count("release calls")
    b, off = ir.ptr_base(f, u.ops[1])
    bad = None
    if b[0] == "g":
        bad = "a global object"
    elif b[0] == "i" and f.val[b[1]].op == "alloca":
        bad = "a stack object"
    elif b[0] == "i" and f.val[b[1]].op in ("load", "call") and (off is None or off != 0):
        bad = "an address inside an allocation"
    if bad:
        R.violation("C09:release:%s" % f.short, u.loc(), "%s releases %s" % (f.short, bad))
