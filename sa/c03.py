"""C03: the compact and switch builds give every instruction the same meaning as the full-speed build."""
import re
import multiprocessing
import ir
import vm
import absint
from ir import AnalysisBroken
TECHNIQUE = "tag-domain abstract interpretation of every instruction handler in each build; effects of compatible abstract paths are compared"
NOTE = "container lookup, allocation and library routines are opaque (same source in every build); operand kinds an operator is not defined on are outside the claim"

PAIRS = (("default", "compact"), ("default", "really"))


def scope(name):
    """value kinds an operator is defined on (None: all)"""
    if re.search(r"^Binary(RightShift|LeftShift|And|Or|XOR|Mod)(SkipLoad)?$|^(Mod|OR|AND|XOR|RightShift|LeftShift)Assign", name):
        return {"I"}
    if re.search(r"Subtract|Multipl|Divi|Increment|Decrement|^(Inc|Dec)(Local|Global)$", name):
        return {"I", "F"}
    if name.startswith("AddAssign"):
        return {"I", "F", "S"}
    return None


def target(name):
    """the operand an assigning instruction writes is a variable or an element, not a temporary"""
    return bool(re.search(r"^(Subtract|Add|Mod|Multiply|Divide|OR|AND|XOR|RightShift|LeftShift)Assign|^(Pre|Post)(In|De)crement", name))


def outside(name, ch):
    if target(name) and ch.get("(ST -16 ())") in ("I", "F", "S", "A", "H"):
        return True
    # text is appended to variables; a container element does not take it in any build
    if name.startswith("AddAssign") and ch.get("(ST -16 ())") in ("Ev", "Ec", "Eh") and "S" in (ch.get("(ST -32 ())"), ch.get("((refcell (ST -32 ())) 0 ())")):
        return True
    return False


LIVE = {"LLValues": "AB", "LGValues": "AB", "GLValues": "AB", "GGValues": "AB", "Return": "A", "ReturnZero": "A"}
_ev = {}


def evaluator(cfg, full):
    k = (cfg, full)
    if k not in _ev:
        p = ir.std(cfg)
        _ev[k] = absint.Eval(p, vm.Interp(p), full)
    return _ev[k]


def one(job):
    name, cfgs, full = job
    ref, oth = cfgs
    R = []
    for c in cfgs:
        E = evaluator(c, full)
        E.allow = scope(name)
        try:
            R.append((E, E.paths(E.it.opnum[name])))
        except AnalysisBroken as e:
            return name, oth, 0, 0, None, str(e)
    pairs = 0

    def eff(E, r, e, known):
        x = E.effects(E.pinned(r, e), known)
        return x + tuple("%s=%s" % (g, E.show(E.fold(r.regs[g], e))) for g in LIVE.get(name, "") if g in r.regs)
    EA, pa = R[0]
    EB, pb = R[1]
    ca = [(EA.conds(r), EA.pins(r)) for r in pa]
    cb = [(EB.conds(r), EB.pins(r)) for r in pb]
    own = {}
    groups = {}
    for j, (c, _) in enumerate(cb):
        groups.setdefault(tuple(sorted(c[0].items())), []).append(j)
    bad = None
    for i, r in enumerate(pa):
        ci, pi = ca[i]
        if outside(name, ci[0]):
            continue
        for key, js in groups.items():
            if any(ci[0].get(k, v) != v for k, v in key):
                continue
            for j in js:
                cj, pj = cb[j]
                if not absint.compatible(ci, cj):
                    continue
                ch = dict(ci[0])
                ch.update(cj[0])
                if outside(name, ch):
                    continue
                pairs += 1
                e = dict(pi)
                e.update(pj)
                known = tuple(sorted((k, v) for k, v in list(r.st.choices.items()) + list(pb[j].st.choices.items()) if k[0][0] == "post"))
                ek = (tuple(sorted(e.items())), known)
                x = own.get((0, i, ek))
                if x is None:
                    x = own[(0, i, ek)] = eff(EA, r, e, known)
                y = own.get((1, j, ek))
                if y is None:
                    y = own[(1, j, ek)] = eff(EB, pb[j], e, known)
                if x != y and bad is None:
                    lits = dict(ci[1])
                    lits.update(cj[1])
                    bad = (ch, lits, x, y)
    return name, oth, len(pa) + len(pb), pairs, bad, None


def differ(x, y):
    lab = ("ends", "registers", "memory", "calls", "carried", "carried")
    out = []
    for n, a, b in zip(lab, x, y):
        if a != b:
            if isinstance(a, tuple) and isinstance(b, tuple):
                a, b = [v for v in a if v not in b], [v for v in b if v not in a]
            out.append("%s: full-speed %s, this build %s" % (n, str(a)[:300], str(b)[:300]))
    return "; ".join(out)


def check(R):
    full = R.tier == "thorough"
    R.rule("for every instruction and every pair of abstract paths (full-speed build, other build) whose operand kinds and branch outcomes agree: "
           "same end, same PC/stack-top/frame registers, same stores to live memory, same opaque calls with the same arguments")
    for a, b in PAIRS:
        evaluator(a, full), evaluator(b, full)
    base = evaluator("default", full)
    names = [n for n in base.it.opnum if base.it.opnum[n] in base.it.entries and not n.endswith("PLACEHOLDER") and n != "LAST"]
    jobs = [(n, p, full) for p in PAIRS for n in names]
    jobs.sort(key=lambda j: not re.search("Division|Divide|Compare", j[0]))
    with multiprocessing.Pool(8) as P:
        res = P.map(one, jobs, chunksize=2)
    skipped = []
    for name, cfg, np, pairs, bad, err in res:
        if err:
            skipped.append("%s/%s: %s" % (name, cfg, err))
            continue
        R.count("instructions compared")
        R.count("abstract paths", np)
        R.count("path pairs compared", pairs)
        if not pairs:
            skipped.append("%s/%s: no compatible paths" % (name, cfg))
        if bad:
            E = evaluator(cfg, full)
            B = E.it.fn.blocks[E.it.entries[E.it.opnum[name]]]
            I = next((i for i in B.insts if i.line), B.insts[0])
            R.violation("%s/%s" % (name, cfg), "%s %s handler" % (I.loc(), name),
                        "the %s build gives %s a different meaning; operands %s; %s" % (cfg, name, {k: v for k, v in bad[0].items() if len(k) < 80}, differ(bad[2], bad[3])))
    for s in skipped:
        R.sample("not compared: " + s)
    R.count("instructions not compared", len(skipped))
    R.floor("instructions compared", 470)
    R.floor("path pairs compared", 20000)
    R.assume("an opaque call does not change memory the handler reads on both sides of it")
    R.assume("heap objects are at least 8-byte aligned")
