#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "projectm-eval/"
MB, CC, CF, TF, TV, API = (D+x for x in ("MemoryBuffer.c", "CompileContext.c", "CompilerFunctions.c",
                                          "TreeFunctions.c", "TreeVariables.c", "api/projectm-eval.c"))
SHIM = "ns-eel2-shim/ns-eel.c"

p("C01", "Shared global memory loses nothing under concurrent use",
  "When programs of different contexts run at the same time on several host threads and share one global memory buffer, and the host's lock callbacks implement a mutex, every location behaves as one number: a read yields 0 if nothing was written there, and otherwise a value of a write that is the latest completed or still overlapping; no completed write disappears. Threads that touch a region for the first time simultaneously all end up with one and the same storage for it, allocated once.",
  ["schedules", "histories"], "every interleaving of two or more threads executing programs that read, assign and compound-assign gmegabuf/gmem locations in fresh and used regions of a shared buffer (supplied or built in)",
  "The tests are single-threaded, lock callbacks are empty stubs, and only one gmem location is ever written; no test runs two threads or a first-touch race.",
  [MB, TF, D+"Compiler.y", "docs/Memory-Handling.md"], [("double-checked first-touch allocation of a block under the host lock", MB+" prjm_eval_memory_allocate"), ("global buffer bound to the node at compile time", CF+" prjm_eval_compiler_create_expression")],
  [("block table", "128 block pointers per buffer, NULL until first touched", MB)], ["projectm_eval_code_execute result", "registered variables", "host allocator", "host lock callbacks"])

p("C02", "There is exactly one built-in global memory",
  "All contexts created without an explicit global buffer share the one built-in global memory, from whichever threads and however interleaved they are created, and its contents outlive any of these contexts. Destroying the built-in global memory while no context uses it (also when it was never used, or repeatedly) releases all of it; contexts created afterwards share one fresh built-in memory that reads as zero everywhere.",
  ["schedules", "histories"], "every interleaving of context creations on several threads, followed by any history of uses, context destructions, global destroys and re-creations",
  "Both test fixtures always pass an explicit buffer; the built-in buffer, its lazy creation and its destruction are never executed.",
  [MB, CC, API, SHIM], [("lazy creation of the built-in buffer under the host lock", MB+" prjm_eval_memory_global"), ("release of the built-in buffer", MB+" prjm_eval_memory_destroy_global")],
  [("built-in buffer handle", "process-wide pointer, NULL until first needed", MB)], ["gmem reads in programs", "host allocator (live blocks)"])

p("C03", "Concurrent contexts do not influence each other",
  "Compiling and executing in one context gives the same results, variable values, memory contents and errors as the same sequence of calls gives when run alone, whatever other threads are doing in other contexts at the same time: compiling, failing to compile, executing, resetting, creating and destroying. Only shared global memory locations and shared registers that another context itself writes may differ (and the values drawn from rand).",
  ["schedules", "histories"], "every interleaving of two or more threads, each driving its own contexts through any sequence of API calls and programs using any built-in function",
  "Every test uses a single thread and one context; hidden static or shared temporaries in the compiler, the scanner or any of the ~70 node functions would pass all of them.",
  [CC, CF, TF, TV, D+"Compiler.y", D+"Scanner.l", API], [("all compile state lives in the context, the reentrant scanner and the pure parser", CC+" prjm_eval_compile_code"), ("evaluation temporaries live on the stack or in the node", TF)],
  None, ["execution results", "registered variables", "memory read back by programs", "projectm_eval_get_error"])

p("C04", "The host lock is used as a plain, always released mutex",
  "On every thread the library calls the host's lock and unlock callbacks strictly alternately: it never locks while already holding the lock, never unlocks a lock it does not hold, and never returns to the host still holding it, also when an allocation fails. Every allocation and every release of a megabuf or gmegabuf block happens while the lock is held, so threads sharing memory can always make progress with a non-recursive mutex.",
  ["schedules", "fault_sequences", "histories"], "every path through block allocation, buffer release and built-in buffer creation, for every interleaving and every allocation failure",
  "The lock callbacks in the tests are empty functions, so any imbalance, nesting or omission passes, and no allocation ever fails.",
  [MB, TF, SHIM, D+"api/projectm-eval.h"], [("lock/unlock around block allocation", MB+" prjm_eval_memory_allocate"), ("lock/unlock around releasing blocks", MB+" prjm_eval_memory_free"), ("lock/unlock around built-in buffer creation", MB+" prjm_eval_memory_global")],
  None, ["host lock callbacks", "host allocator"])

p("C05", "Running out of memory during execution only loses the affected access",
  "If memory for a megabuf or gmegabuf region cannot be obtained while a program runs, that access yields 0, an assignment through it is discarded, and memset or memcpy leave every location they cover with either its old or its new value. The program still runs to its end and every other variable, location, program and context is exactly as if nothing had failed; the same access works as soon as memory can be obtained again.",
  ["fault_sequences", "schedules", "histories"], "every sequence of failing block allocations at any first touch, in any program, transient or lasting, alone or while other threads touch the same buffer",
  "No test makes an allocation fail; the error branches of the memory functions are never executed.",
  [MB, TF], [("NULL result of a failed block allocation", MB+" prjm_eval_memory_allocate"), ("fallback value 0 of a memory access", TF+" prjm_eval_func_mem"), ("early exit of memset/memcpy", MB)],
  None, ["execution results", "memory read back by programs", "host allocator"])

p("C06", "Running out of memory in create, register and compile calls fails cleanly",
  "If any allocation fails inside a call that creates a context or a memory buffer, registers a variable, or compiles a program, that call either still succeeds fully or returns NULL; the process is never terminated and nothing the call had obtained is leaked. All contexts, variables, memory and programs that existed before keep working unchanged, and the same call succeeds once memory can be obtained again.",
  ["fault_sequences", "histories"], "every single or repeated failing allocation at any point of any creating, registering or compiling call, inside any history",
  "No test makes an allocation fail, although the API documents NULL results for these calls.",
  [CC, CF, TV, D+"Compiler.y", D+"Scanner.l", MB], [("NULL result of context creation", CC+" prjm_eval_create_compile_context"), ("NULL result of compilation", CC+" prjm_eval_compile_code")],
  None, ["returned handles", "host allocator (live allocations)", "later calls on the same context"])

p("C07", "A rejected program leaves nothing behind but its error",
  "Compiling a text that is not a valid program returns NULL and makes a non-empty error message available for that context; it changes no variable value, no memory and no other program, and keeps no memory beyond the message and newly mentioned variables. The message stays available and unchanged until the next compile in that context, is gone after a successful one, and belongs to that context alone.",
  ["histories", "schedules", "fault_sequences"], "every history mixing rejected and accepted compiles, executions and other calls in one or several contexts, on one or several threads",
  "No test compiles an invalid program or asks for an error.",
  [CC, CF, D+"Compiler.y", API, SHIM], [("error record of the context", CF+" prjm_eval_error"), ("discarding partial results", CC+" prjm_eval_compile_code"), ("error query", API+" projectm_eval_get_error")],
  [("context error", "message, line and column of the last failed compile", D+"CompilerTypes.h")], ["projectm_eval_code_compile result", "projectm_eval_get_error", "host allocator"])

p("C08", "Handles can be released in any order, leaving nothing behind",
  "In every history of API calls that uses no handle after its destruction, the library only touches memory it owns and never releases anything twice, however compiles, rejected compiles, executions, resets and destructions are interleaved. Contexts and programs can be destroyed in any order (a global buffer after the contexts using it), destroying one leaves all others usable (a program while its context exists), and once all are destroyed every allocation made has been released.",
  ["histories", "schedules", "programs"], "every legal history of create, register, compile, execute, reset, free and destroy calls on any number of contexts, programs and buffers, on one or several threads",
  "Each test creates one context and one to three programs and destroys them in one fixed order, without a memory checker.",
  [CC, CF, D+"ExpressionTree.c", MB, TV, API, SHIM], [("recursive tree release", D+"ExpressionTree.c"), ("context release", CC+" prjm_eval_destroy_compile_context"), ("buffer release", MB+" prjm_eval_memory_destroy_buffer"), ("moving argument trees into their parent", CF+" prjm_eval_compiler_create_expression")],
  None, ["host allocator", "every memory access of the library (instrumented)"])

p("C09", "A variable is one stable storage location for its context's lifetime",
  "Within a context a name, compared case-insensitively, denotes one number from its first mention in a program or registration until the context is destroyed, whether it was registered before or after programs using it were compiled; its address never changes and it starts at 0. Its value persists across executions, compiles (also rejected ones) and destruction of programs; resetting the context's variables sets all of them to 0 and changes no register, no memory and no address.",
  ["histories"], "every history of registrations, host reads and writes, compiles, executions, resets and program destructions, with any number of variables and any spelling of their names",
  "The tests register two or three lower-case variables before compiling and read them once after a single execution; reset is never called.",
  [TV, CC, CF, API, SHIM], [("case-insensitive lookup in the context's list", TV+" find_variable_entry"), ("separately allocated, never moved entries", TV+" prjm_eval_register_variable"), ("reset loop", CC+" prjm_eval_reset_context_vars")],
  [("variable list", "all variables of one context", D+"CompilerTypes.h")], ["projectm_eval_context_register_variable pointer and value", "execution results"])

p("C10", "reg00 to reg99 are one hundred numbers per register storage",
  "The names reg00 to reg99, in any letter case, denote one hundred distinct numbers shared by exactly those contexts that use the same register storage (the built-in one or the same supplied array), whatever the order in which contexts are created, used and destroyed and on whichever threads. Values persist until overwritten: resetting variables, freeing memory, destroying contexts or the global memory do not change them. Any other name, such as reg3 or reg123, is an ordinary variable of its context.",
  ["histories", "schedules"], "every history and interleaving of contexts with built-in or supplied register storage that read and write registers from programs and through registered pointers",
  "No test mentions a register; the supplied arrays in the fixtures are never read.",
  [TV, CC, API], [("name parsing and lazy binding of the built-in array", TV+" prjm_eval_register_variable"), ("supplied array kept in the context", CC+" prjm_eval_create_compile_context")],
  [("built-in registers", "static array of 100 numbers", TV)], ["registered pointers", "execution results", "the supplied array"])

p("C11", "Memory buffers behave as arrays of 8388608 numbers",
  "Over any history the local and the global memory behave as arrays of 8388608 numbers that start at 0: each location holds the value last stored by an assignment, a memset or a memcpy (which acts as if the source range were first copied aside), ranges are trimmed to the array, and accesses outside read 0 and store nothing. Local memory belongs to its context alone; freeing a context's memory resets exactly its own local memory to 0, resetting variables changes no memory, and freembuf changes neither memory nor variables.",
  ["histories", "inputs", "schedules"], "every history of accesses, block operations, frees, resets and context destructions over several contexts sharing or not sharing a global buffer, at every offset including region borders and out-of-range and non-representable values",
  "The tests write one global location and never read memory back; memset, memcpy, freembuf, local memory and freeing are not executed at all.",
  [MB, TF, CC, API, "docs/Expression-Syntax.md"], [("block-wise addressing", MB+" prjm_eval_memory_allocate"), ("range trimming and chunking", MB+" prjm_eval_memory_copy, prjm_eval_memory_set"), ("freeing local memory", API+" projectm_eval_context_free_memory")],
  [("block table", "128 blocks of 65536 numbers", MB)], ["values read back by programs"])

p("C12", "No loop can run away, whatever other threads do to its condition",
  "A loop runs its body as often as its count says when the loop is entered (the count is evaluated once, non-positive counts run nothing) and a while runs its body at least once and until it yields 0 (values no larger than 1e-300, and NaN, count as 0), but each at most 1048576 times per entry. This holds whatever the count or condition is and however other threads change the memory or registers it depends on, so every execution returns to the host within a bounded number of steps, and a while whose condition has become 0 for good stops at its next test.",
  ["schedules", "inputs", "histories"], "every count or condition value, constant or changed concurrently through shared memory or by the body itself, in sequences and nests of loops",
  "One test runs a while that ends after its first pass; loop is never executed, no limit is ever reached, and nothing changes a condition concurrently.",
  [TF, "docs/Expression-Syntax.md"], [("count evaluated once and capped", TF+" prjm_eval_func_execute_loop"), ("iteration countdown", TF+" prjm_eval_func_execute_while")],
  None, ["iteration counters kept by programs", "simulated steps until return"])

p("C13", "Concurrent rand calls draw each number of one sequence exactly once",
  "All rand calls of all contexts and threads in the process draw from one Mersenne-Twister sequence that always starts the same way: each call takes the next element, so however calls interleave no element is delivered twice, skipped or distorted. For finite arguments the result is never below 0 and never above the integer part of the argument (at least 1).",
  ["schedules", "histories"], "every interleaving of rand calls from any number of threads and contexts, including the first call in the process and the point where the generator refills its state",
  "rand is never executed by a test, and nothing runs it on two threads.",
  [TF], [("process-wide generator state and its lazy seeding", TF+" prjm_eval_genrand_int32"), ("scaling", TF+" prjm_eval_func_rand")],
  [("generator state", "624 words and a position, static", TF)], ["execution results and variables holding drawn values"])

p("C14", "Programs keep no state of their own between executions",
  "What an execution computes depends only on the values of variables, registers and memory when it starts (and on the rand sequence): executing a handle again from the same values gives the same result and the same effects, however often it ran before, whatever other programs, compiles, resets or frees happened in between, and also when a fresh compile of the same text is used instead. Only what a program assigns changes: evaluating conditions, operands and discarded or selected subexpressions never modifies a variable or memory location.",
  ["histories", "programs"], "every program and every history of earlier executions, recompilations and state changes",
  "The tests execute each program exactly once from a fresh context.",
  [TF, CF, D+"Compiler.y", API], [("result and scratch values reset before use", TF), ("values returned either by value or by reference", "docs/Compiler-Internals.md")],
  [("node scratch value", "per-node temporary that survives executions", D+"CompilerTypes.h")], ["execution results", "registered variables", "memory read back by programs"])

p("C15", "The ns-eel2 API is the same library behind other names",
  "Every history driven through the NSEEL_ functions has the same effects as the same history through the corresponding projectm_eval_ functions, and handles of either API can be used with the other: contexts from NSEEL_VM_alloc use the built-in global memory and registers until NSEEL_VM_SetGRAM selects another buffer, and variables, resets, frees, compile errors, executions and NSEEL_quit act alike. All locking of the library reaches the host's NSEEL_HOSTSTUB_EnterMutex and LeaveMutex, with the same mutex discipline.",
  ["histories", "schedules"], "every history and interleaving that mixes calls of both APIs on the same contexts, programs and buffers",
  "The shim is compiled but no test links or calls it.",
  [SHIM, "ns-eel2-shim/ns-eel.h", "ns-eel2-shim/ReadMe.md"], [("forwarding wrappers", SHIM), ("lock forwarding", SHIM+" projectm_eval_memory_host_lock_mutex")],
  None, ["return values and state seen through both APIs", "NSEEL_HOSTSTUB callbacks"])

p("C16", "The library never acts on the host process on its own",
  "No call, with any program text that nests and chains no deeper than the thread's stack can hold, and under any allocation failure, terminates or aborts the process, writes to the host's output or error streams, opens files, or consults a clock, the environment, the locale or any other outside source. Hence replaying the same history of calls from process start, with the same interleaving and the same allocation failures, reproduces every result, error and memory content exactly.",
  ["histories", "fault_sequences", "schedules", "inputs"], "every history of API calls and every program text (comments, errors, unknown characters, unterminated constructs), with and without allocation failures",
  "Tests do not look at the process's streams, never fail an allocation and never repeat a history.",
  [D+"Scanner.l", CC, CF, TF], [("every input character is consumed by a scanner rule", D+"Scanner.l"), ("deterministic, fixed-seed generator", TF+" prjm_eval_genrand_int32")],
  None, ["calls of the library into stdio, exit and abort", "equality of two replays of one run"])

p("C22", "An operator uses one value of each shared operand",
  "When a program applies a built-in operator, function, condition or compound assignment to a shared global memory location or register, its result is the documented one for one single value that the location held at some moment of the evaluation, however other threads change it meanwhile. So min is never above its other argument, a quotient by a location that is 0 or 2 is never infinite, sqr is never the product of two different values, and an index, count or limit that was checked is the one that is used.",
  ["schedules", "inputs"], "every operator and function, every position of the shared operands, every sequence of values other threads store there, and every interleaving of those stores with the evaluation",
  "The tests are single-threaded: an operand read twice always has the same value.",
  [TF, MB], [("operands are passed as references and read when the operator computes", TF), ("index and count conversion", MB+" prjm_eval_memory_index")],
  None, ["execution results", "registered variables"])

# Stated for completeness; not claimed (see not_applicable in MANIFEST.json)
na_why = "Tests sample a handful of expressions; the property ranges over all operands and programs."
p("C17", "Operators and functions compute their documented values",
  "Each operator and built-in function returns the documented value for every combination of argument values, including zero divisors, negative numbers, very large and non-finite values; the short-circuiting operators evaluate their second operand only when it matters.",
  ["inputs"], "all argument values of all operators and functions", na_why, [TF, D+"Scanner.l", D+"Compiler.y", "docs/Expression-Syntax.md"], [("node functions", TF)])
p("C18", "Operators bind with the documented precedence and associativity",
  "Every expression is grouped as the documented precedence and associativity of its operators and parentheses demand.",
  ["programs"], "all expressions", na_why, [D+"Compiler.y"], [("precedence declarations", D+"Compiler.y")])
p("C19", "Compile-time optimisation is invisible",
  "Evaluating constant expressions while compiling and dropping expressions without effect never changes the result or the effects of a program.",
  ["programs"], "all programs", na_why, [CF], [("constant evaluation", CF+" prjm_eval_compiler_create_expression"), ("dropping instructions", CF+" prjm_eval_compiler_add_instruction")])
p("C20", "Texts are split into tokens as documented",
  "Numbers, named, hexadecimal and character constants, names in any letter case, comments and white space are recognised as documented anywhere they are allowed, and nothing else is accepted.",
  ["inputs"], "all program texts", na_why, [D+"Scanner.l"], [("scanner rules", D+"Scanner.l")])
p("C21", "Compile errors point at the offending place",
  "The line and column reported for a rejected program are those of the first token at which the text cannot be continued to a valid program.",
  ["inputs"], "all rejected program texts", na_why, [D+"Scanner.l", CF], [("location tracking", D+"Scanner.l YY_USER_ACTION")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
