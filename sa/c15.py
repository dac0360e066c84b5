"""C15: the tokenizer never reads past the end of the source text."""
import ir
from ir import AnalysisBroken, ptr_base
from cursor import Cursor
from c16 import Compiler, CLS

TECHNIQUE = "relational dataflow analysis (linear facts between source position, source length and local values, LLVM IR) of every method that reads the source text, plus who-may-write analysis of the position and of the text"
NOTE = "decided for all source texts, in the arithmetic of integers that do not overflow"


class Tok(Cursor):
    callees = ()

    def touches(self, I, o):
        return o == self.this and I.ops[0][0] == "fn" and I.ops[0][1] in self.callees


def check(R):
    R.rule("on every path, each access to source text is at an index i for which 0 <= i < length follows from the tests passed; the position is 0 <= position <= length whenever a method starts and ends; only the start of compile() sets the text, its length and the initial position")
    for cfg in ("default",):
        prog = ir.std(cfg)
        C = Compiler(prog)
        off = {n: prog.offset(CLS, n) for n in ("m_pos", "m_sourceLen", "m_source")}
        comp = C.one("compile")
        users = {}
        for f in prog.defined():
            for I in f.insts():
                if I.op in ("load", "store"):
                    k = 0 if I.op == "load" else 1
                    x = C.field(f, I.ops[k])
                    if x in off.values():
                        users.setdefault(f.name, set()).add((I.op, x))
        movers = {n for n, u in users.items() if ("store", off["m_pos"]) in u}
        work, cs = list(movers), prog.callers()
        while work:
            for c in cs.get(work.pop(), []):
                if c.fn.name not in movers:
                    movers.add(c.fn.name)
                    work.append(c.fn.name)
        for n, u in sorted(users.items()):
            f = prog.fns[n]
            for I in f.insts():
                if I.op == "store" and C.field(f, I.ops[1]) in (off["m_source"], off["m_sourceLen"]) and f is not comp and "WRCompilationContext::WRCompilationContext" not in f.dem:
                    R.violation("C15:replaced:%s" % f.short, I.loc(), "%s replaces the source text while it is being read" % f.short)
            if f is comp:
                begin(R, C, comp, off)
                continue
            if f.name not in C.ms:
                if ("load", off["m_source"]) in u:
                    R.violation("C15:reader:%s" % f.short, f.file, "%s reads the source text outside the compiler's own methods" % f.short)
                continue
            R.count("methods")
            w = Tok(f, ["a", 0], off["m_pos"], off["m_sourceLen"], off["m_source"])
            w.callees = movers
            w.run_joined(w.start())
            R.count("accesses", len(w.seen_access))
            R.count("path states", w.visited)
            for I, why in w.bad.values():
                R.violation("C15:%s:%s:%d" % (f.short.split("::")[-1], why, I.line), I.loc(), "%s may go past %s" % (f.short, why))
    R.floor("methods", 4)
    R.floor("accesses", 50)


def begin(R, C, comp, off):
    """compile() stores text, length and position 0 from its parameters before anything else runs"""
    for I in comp.insts():
        if I.op == "store":
            x = C.field(comp, I.ops[1])
            if x == off["m_pos"] and not (I.ops[0][0] == "c" and I.ops[0][1] == 0):
                R.violation("C15:begin:pos", I.loc(), "compilation does not start at the beginning of the text")
            if x == off["m_source"] and I.ops[0] != ["a", 1] or x == off["m_sourceLen"] and I.ops[0] != ["a", 2]:
                R.violation("C15:begin:text", I.loc(), "the recorded source text or length is not the one given")
            if x in off.values():
                R.count("initial stores")
                for J in comp.insts():
                    if J.op == "call" and J.ops[0][0] == "fn" and J.ops[0][1] in C.ms and not comp.inst_dominates(I, J):
                        R.violation("C15:begin:late", I.loc(), "the text, length or position may be set only after parsing started")
                        break
