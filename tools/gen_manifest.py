#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present in sa/."""
import json, os, importlib, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "sa"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "N01": "equivalence of source semantics and optimised bytecode for all programs needs a semantics of both and a proof or a solver; no dataflow or typestate argument in reach bounds it (instruction-level parts are C01-C03, C19, C25)",
 "N02": "equality of whole value graphs after a round trip depends on runtime values and hash-table insertion order; the static part (tags, widths, bounds, failure propagation) is C14",
 "N03": "correct rounding is a numeric property of each input; no static argument in reach decides it",
 "N04": "wall-clock time between turns depends on the host and on library callbacks, which no analysis of this source can bound; the instruction-accounting part is C05",
 "C23": "whether one of the ~45 narrowing conversions of the compiler loses bits depends on counts accumulated over the whole program; an interval analysis of the linker and emitters was built but did not finish on a behaviour-preserving rewrite, so it is not registered (see DESIGN.md)",
 "C28": "the room left in a destination is in most places the result of an earlier formatting call (snprintf, wr_itoa, the running column), a runtime quantity that no fact on the path bounds, and several helpers break the statement today (see DESIGN.md)",
}
checks, na = [], []
for p in props:
    id = p["id"]
    f = os.path.join(V, "sa", id.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module(id.lower())
        checks.append({"property": id, "quick_cmd": "python3 sa/run.py %s quick" % id, "thorough_cmd": "python3 sa/run.py %s thorough" % id,
                       "evidence_file": "evidence/%s.json" % id, "technique": getattr(m, "TECHNIQUE", "static analysis"),
                       "level": "other", "level_note": getattr(m, "NOTE", "static analysis of the compiled program's IR; trusts clang's front end and the analysis in sa/")})
    else:
        na.append({"property": id, "reason": NA.get(id, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na,
           "notes": "every check compiles /repo's current discrete_src to LLVM IR and decides on that; nothing of /repo is executed"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
