#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V = "discrete_src/vm/vm.cpp"
prop("C01", "Every opcode runs the same handler in every dispatch mode",
 "For every opcode number the compiler can place in bytecode, the address-table interpreter and the switch interpreter select the same instruction implementation, and no opcode number is left without one. The diagnostic name table lists the same instruction at the same number.",
 ["programs", "configurations"], "every opcode value, in the address-table and the switch build",
 "the suite never runs the switch build and exercises a fraction of the opcodes; two swapped rarely used rows stay invisible",
 ["discrete_src/utils/opcode.h", V, "discrete_src/utils/utils.cpp"],
 [("opcode enumeration", "utils/opcode.h WROpcode"), ("label table / case labels", "vm/vm.cpp wr_callFunction"), ("name table", "utils/utils.cpp c_opcodeName")])
prop("C02", "Every build consumes the same number of operand bytes per instruction",
 "For every instruction, on every path that continues with the next instruction in sequence, the interpreter advances by one fixed number of operand bytes; that number is the same in the full-speed, compact and switch builds, and the disassembler steps over the same number. Branch displacements are taken from the same operand bytes, with the same width and sign, in every build.",
 ["programs", "configurations"], "every opcode, every path through its handler, every build variant",
 "bytecode is portable between builds, so one build mis-stepping by a byte only shows on programs using that opcode in that build",
 [V, "discrete_src/debug/disassemble.cpp"],
 [("operand reads and pc updates", "vm/vm.cpp handlers"), ("operand skipping", "debug/disassemble.cpp")])
prop("C03", "Compact and full-speed builds give every instruction the same meaning",
 "For every instruction, and every combination of operand kinds its operation is defined on (numbers for arithmetic and comparison, integers for bit operations, numbers and text for +; values, references to variables and container elements alike), the compact build selects the same operands in the same order, applies the same operation with the same branch polarity, stores the result in the same place and leaves the same stack depth as the full-speed build; so does the switch build.",
 ["programs", "configurations"], "every opcode and operand type pair, both builds",
 "the two builds have independent handler code; tests sample few of the ~250 fused instructions and few operand-type pairs",
 [V, "discrete_src/vm/operations_compact.cpp", "discrete_src/vm/operations_non_compact.cpp"],
 [("handlers", "vm/vm.cpp both #ifdef arms"), ("operation tables", "vm/operations*.cpp")])
prop("C04", "Stack protection covers every push",
 "When built with stack-overflow protection, no script and no host call can make the interpreter place values past the end of the context's stack: every step that raises the stack top is followed, before any further step, by the overflow test that ends the call with the stack-overflow error.",
 ["programs", "inputs"], "every instruction that leaves more values on the stack than it found, and every host-supplied argument list",
 "overflow needs a program whose depth crosses the limit exactly at one particular instruction",
 [V], [("overflow test", "vm/vm.cpp CHECK_STACK sites and call frame setup")])
prop("C05", "Every loop in a script consumes time-slice budget",
 "When built with time slices, every jump, conditional branch and iterator step decrements the slice budget exactly once, whether or not it is taken, and, when it is exhausted and yielding is enabled, suspends the script; so no script can loop without returning control to the host.",
 ["programs"], "every control-transfer instruction and every path through it",
 "a missing decrement on one fused branch only shows as a hang for a loop compiled to exactly that instruction",
 [V], [("slice accounting", "vm/vm.cpp CHECK_FORCE_YIELD sites")])
prop("C06", "A suspended script resumes with exactly the state it was suspended with",
 "Whatever instruction a script is suspended at, by an explicit yield or by an exhausted time slice, the instruction pointer, stack top and frame base that execution continues with are the ones saved at suspension; the host's resume call re-enters execution only for a context that is actually suspended.",
 ["schedules", "programs"], "every suspension point and every resume",
 "suspension can happen at any branch; tests suspend at a few fixed places",
 [V, "discrete_src/vm/scheduler.cpp"], [("save", "vm/vm.cpp Yield handler"), ("restore", "vm/vm.cpp entry of wr_callFunction"), ("guard", "wr_continue")])
prop("C07", "Integer division and remainder never trap",
 "No script operand values make the virtual machine or the standard library execute an undefined integer division or remainder: a zero divisor and the most negative integer divided by minus one are both handled before the machine instruction is reached.",
 ["inputs", "programs"], "every pair of operand values reaching any integer division or remainder in the runtime or libraries",
 "needs particular operand values (0, INT_MIN with -1) at each of dozens of division sites",
 [V, "discrete_src/vm/operations_non_compact.cpp", "discrete_src/vm/operations_compact.cpp", "discrete_src/lib/std_math.cpp"],
 [("division operators", "vm/operations_non_compact.cpp, vm/vm.cpp divisionI/modI")])
prop("C08", "Bytecode is executed only after its integrity check passed",
 "No context is created from a block of bytecode, and none of the block's contents is interpreted, unless the block is at least the minimum size and its trailing checksum, computed over the rest of the block and combined with the version, matches; on mismatch the load fails with the bad-CRC error. This holds for running and for importing code.",
 ["inputs", "fault_sequences"], "every byte block given to the loader",
 "a gate that is skipped on one entry point, or that covers a byte too few, is only visible with precisely corrupted blocks",
 [V, "discrete_src/utils/utils.cpp"], [("gate", "wr_createContext"), ("checksum", "wr_hash"), ("writer", "cc/link.cpp")])
prop("C09", "All dynamic memory goes through the installed allocator",
 "Every heap allocation and release the runtime, compiler and libraries perform goes through the allocator pair the host installed; nothing is allocated or freed with the C or C++ runtime's allocator behind the host's back, and memory obtained one way is never released the other way.",
 ["programs", "configurations"], "every allocation and release site reachable from the public interface",
 "a stray direct allocation works in every test, because the default allocator is the C one",
 ["discrete_src/utils/utils.cpp", V], [("allocator hooks", "g_malloc/g_free, wr_setGlobalAllocator")])
prop("C10", "Independent virtual machines share no hidden mutable state",
 "Two virtual-machine instances, or two compilations, influence each other only through the documented process-wide hooks (installed allocator, allocation-failure flag, random seed, task numbering): no other process-wide variable carries information from one use to the next; shared scratch values are completely written before each use.",
 ["schedules", "histories"], "every function of the library and every global or function-static object",
 "interference needs two instances interleaved around the one shared object",
 ["discrete_src"], [("globals", "all translation units")])
prop("C11", "Library functions use only the arguments they were given",
 "Every library function reads only stack slots that hold arguments of the current call (index below the passed argument count), whatever count the script passes, and touches no stack slot other than those arguments and the result slot of its own call.",
 ["inputs", "programs"], "every registered library function, every argument count from zero up",
 "scripts may call any library function with any number of arguments; tests call each with the documented count",
 ["discrete_src/lib"], [("callbacks", "lib/*.cpp functions registered with wr_registerLibraryFunction")])
prop("C12", "The garbage collector traces everything a script can reach",
 "A collection marks the globals, the whole live stack up to the given top and, transitively, every element of every array, struct and hash table (keys and values) and every container a value refers to, before anything is released; only unmarked objects are freed, each exactly once and after being unlinked.",
 ["histories", "programs"], "every reachable object graph and every collection point",
 "premature release needs a collection to strike while an object is reachable only through one particular kind of edge",
 ["discrete_src/vm/gc.cpp", V], [("mark and sweep", "vm/gc.cpp")])
prop("C13", "Bytecode is never modified by execution",
 "The virtual machine never writes to the bytecode block it executes, so bytecode can live in read-only memory and be shared between contexts.",
 ["programs"], "every store reachable while loading or running code",
 "a stray write of an equal or unused byte is invisible to tests that run from RAM",
 [V], [("code pointers", "context bottom/codeStart, pc, ROM hash tables")])
prop("C14", "Deserialising arbitrary bytes stays in bounds and reports failure",
 "Reading a serialised value never reads beyond the given buffer, whatever its contents; a value that cannot be completely written or read makes the operation report failure instead of returning a partial result; every type tag the writer can emit is understood by the reader with the same field widths.",
 ["inputs"], "every byte buffer and every value graph",
 "hostile or truncated buffers are unbounded; tests round-trip a few good values",
 ["discrete_src/utils/serializer.cpp", "discrete_src/utils/serializer.h"], [("reader/writer", "utils/serializer.*")])
prop("C15", "The tokenizer never reads past the end of the source text",
 "For every source text, including ones cut off inside a string, comment, escape, number or directive, the compiler's tokenizer reads only characters inside the given text.",
 ["inputs"], "every source text of every length",
 "needs sources truncated at exactly the wrong character",
 ["discrete_src/cc/token.cpp"], [("scanner", "cc/token.cpp")])
prop("C16", "A failed compilation is reported and delivers no bytecode",
 "The compile entry point returns success only if no error was recorded during parsing, resolution and linking; when it reports an error it hands out neither a bytecode pointer nor a length.",
 ["inputs"], "every source text and every error exit of the compiler",
 "each of a hundred error exits must reach the caller; tests provoke a few",
 ["discrete_src/cc/cc.cpp", "discrete_src/cc/link.cpp"], [("error plumbing", "wr_compile, WRCompilationContext::compile")])
prop("C17", "Every error code has its own message",
 "For every error code the runtime or compiler can report, the message table yields the text describing exactly that code, and no code lies outside the table.",
 ["configurations", "inputs"], "every enumerator of the error type",
 "tests check a couple of codes; a shifted table misreports all others",
 ["discrete_src/wrench.h", "discrete_src/utils/utils.cpp"], [("enum/table", "WRError, c_errStrings")])
prop("C18", "A call that returns no value has recorded why",
 "Whenever running or continuing a script returns a null result, either an error code was recorded in the state or the context is suspended with its resume point saved; and an error code from an earlier call is cleared when execution starts.",
 ["programs", "fault_sequences"], "every return path of the interpreter and its entry points",
 "needs each individual failure path to be driven",
 [V], [("error returns", "vm/vm.cpp wr_callFunction, wr_run, wr_callFunction overloads")])
prop("C19", "Arithmetic dispatch matches the operand types",
 "For every operator instruction (arithmetic, bit, compound assignment, comparison, logical, increment, fused forms included) in every build, and every combination of operand kinds the operator is defined on (integer, float, text for +, references to variables and container elements holding one): each operand is interpreted with its actual type, integer/float mixes are promoted to float, text + anything concatenates, operand order is kept, the result carries the type tag of what was stored, branches go the way the condition says, and nothing but the result (and the assigned variable or element) changes.",
 ["inputs", "programs"], "every operator x every operand type pair",
 "about 30 operators x 16 type pairs x 2 builds; tests sample a few",
 ["discrete_src/vm/operations_non_compact.cpp", "discrete_src/vm/operations_compact.cpp", "discrete_src/vm/operations.cpp"],
 [("dispatch tables", "vm/operations*.cpp")])
prop("C20", "Indexing never touches memory outside the container",
 "Whatever index, position or count a script supplies, the index operator, references to elements, declaring an array with a size, for-each over an array, _remove, the array::, list::, queue:: and stack:: functions and the host's indexArray() touch elements of value arrays, strings and host-supplied raw arrays only at positions below the container's current length, growing value arrays first where growth is allowed; an array never claims more elements than it has storage for, and elements added by growing are zero.",
 ["inputs", "programs"], "every index, position and count, every container kind and length, failed growth included",
 "needs extreme index values per access path",
 ["discrete_src/vm/index.cpp", "discrete_src/vm/gc_object.cpp", "discrete_src/vm/operations.cpp", "discrete_src/lib/std_container.cpp", V], [("element access", "vm/index.cpp, vm/operations.cpp"), ("container library", "lib/std_container.cpp")])
prop("C21", "A function's frame starts clean and is undone by its return",
 "Whatever the stack held before and however many arguments are passed, when a called function starts every parameter that was not supplied and every local variable is the integer zero, the supplied arguments are in order from the first parameter on, and surplus arguments are dropped. When it returns, the caller's frame base, stack depth and next instruction are those of the call. Library and host functions are handed exactly the arguments the script pushed and leave one result in their place.",
 ["histories", "inputs", "programs"], "every script function, every argument count, every previous content of the stack, calls from scripts and from the host",
 "needs a particular residue on the stack from an earlier call and a call with fewer arguments",
 [V], [("call sequence", "vm/vm.cpp wr_callFunction")])
prop("C22", "A failed allocation is never dereferenced",
 "When built to survive allocation failure, the virtual machine, collector, loader, host API and libraries test every allocation result before using it; no value is left marked as a container without an object, no array is used beyond the length it could be grown to, and an allocation that fails while a script runs ends the call with the allocation-failed error before the next instruction.",
 ["fault_sequences"], "every allocation site, failing at any moment",
 "needs fault injection at each allocation in turn",
 [V, "discrete_src/vm", "discrete_src/lib"], [("allocation sites", "getSVA, g_malloc callers")])
prop("C23", "The compiler rejects programs its encodings cannot represent",
 "A program with more globals, locals, arguments, functions, literals, jump distance or code than the bytecode fields can hold is rejected with a compile error; no count or offset is silently truncated into the emitted bytecode.",
 ["inputs"], "every source program, in particular the very large",
 "limits are only reached by generated programs",
 ["discrete_src/cc/cc.cpp", "discrete_src/cc/link.cpp"], [("field writes", "cc/link.cpp, cc/cc.cpp")])
prop("C24", "Files and temporary memory are released on every path",
 "Every file handle, socket and temporary buffer a library or API function acquires is released exactly once on every path through that function, including error exits, unless ownership is handed to the caller; nothing is used after release.",
 ["fault_sequences", "inputs"], "every path through every function that acquires such a resource",
 "error exits after acquisition are rarely driven and a leak is silent",
 ["discrete_src/lib/std_io.cpp", "discrete_src/lib/std_string.cpp", "discrete_src/utils/utils.cpp"], [("acquire/release", "fopen/fclose, asMallocString, g_malloc/g_free")])
prop("C25", "Bytecode layout written by the linker is the layout the loader reads",
 "Every field of the bytecode image (header counts and option flags, function records, global-name hashes, debug and source sections for every combination of options, the start of the code, struct member tables) is read by the loader and the interpreter at the position, width, little-endian byte order and signedness with which the linker wrote it, whatever the counts and section lengths, in every build.",
 ["programs", "configurations"], "every field of the bytecode image",
 "fields beyond a byte, or tables beyond the first entry, are rarely populated with distinguishing values in tests",
 ["discrete_src/cc/link.cpp", V, "discrete_src/utils/utils.cpp"], [("writer", "cc/link.cpp"), ("reader", "wr_createContext, READ_16/32_FROM_PC")])
prop("C26", "The library never ends the process or talks to the console on its own",
 "No interpreter, compiler, loader or library function calls a process-ending or non-local-jump function (internal assertions aside), and none writes to standard output or error except the library functions whose purpose is output and the compiler's report of a failed compilation.",
 ["programs", "fault_sequences"], "every function reachable from the embedding interface",
 "such calls sit on rare error paths",
 ["discrete_src"], [("call graph", "all translation units")])
prop("C27", "Destroying a context or state releases everything it owns, once",
 "Destroying a context frees its stack block, every garbage-collected object it allocated, its imported contexts and, exactly when it was given ownership, its bytecode block, and unlinks it from its state before freeing it; destroying a state destroys all its contexts and registries.",
 ["histories"], "every sequence of create, import, run and destroy",
 "leaks and double frees need histories with imports and ownership combinations",
 [V], [("teardown", "wr_destroyContextEx, wr_destroyState")])
prop("C28", "Text formatting never overruns its destination",
 "Every formatting, copying or conversion into a fixed or caller-sized buffer is bounded by that buffer's real size, terminator included.",
 ["inputs"], "every value formatted and every buffer length passed",
 "needs values whose text is exactly as long as the buffer",
 ["discrete_src/utils/utils.cpp", "discrete_src/lib/std_string.cpp", "discrete_src/vm/operations.cpp"], [("bounded writers", "wr_itoa, wr_ftoa, asString, snprintf sites")])
prop("N01", "Optimised bytecode computes what the source program means",
 "For every source program the emitted bytecode, after all peephole fusions, computes the result the language definition gives it.",
 ["programs", "inputs"], "every program and input",
 "the program space is unbounded", ["discrete_src/cc"], [("code generation", "cc/*.cpp")])
prop("N02", "Serialising and deserialising a value gives back an equal value",
 "For every serialisable value graph, deserialising its serialised form yields a structurally equal value.",
 ["inputs"], "every value graph", "unbounded graphs", ["discrete_src/utils/serializer.cpp"], [("round trip", "utils/serializer.cpp")])
prop("N03", "Numeric text conversions and math functions are accurate",
 "Float and integer to text conversions and the math library return the correctly rounded result for every input.",
 ["inputs"], "every float", "2^32 inputs per function", ["discrete_src/utils/utils.cpp", "discrete_src/lib/std_math.cpp"], [("conversion", "wr_ftoa, math wrappers")])
prop("N04", "Time slices bound the wall-clock time between host turns",
 "With N instructions per slice every task returns to the scheduler within a bounded time.",
 ["schedules"], "every task set", "depends on real time", ["discrete_src/vm/scheduler.cpp"], [("tick", "WrenchScheduler::tick")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
