#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

ALLOC = ["src/closures.c", "src/tramp.c", "src/dlmalloc.c"]
CALL = ["src/x86/ffi64.c", "src/x86/unix64.S", "src/x86/ffiw64.c", "src/x86/win64.S"]

p("C01", "Live closures never overlap",
  "While a closure obtained from the library is live, the whole of its requested memory is readable, writable and suitably aligned, shares no byte with any other live closure, and its contents change only through its owner or its own preparation. No two live closures have the same code address. This holds for every history of allocations and releases by any number of threads, for every requested size and for every placement and failure of the memory the system supplies.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every interleaving of allocate/release/prepare by concurrent threads, every size sequence, every address layout returned by the system, every failure of a system call in between",
  "The test programs allocate one closure at a time in one thread with the default address layout; overlap needs a particular interleaving, size history, mapping placement or failed unmapping.",
  ALLOC,
  [("heap with segment list under a lock", "src/dlmalloc.c"), ("trampoline table free lists", "src/tramp.c:tramp_add,tramp_del"), ("allocation entry points", "src/closures.c:ffi_closure_alloc,ffi_closure_free")],
  [("heap state", "segments, bins and top chunk of the closure heap", "src/dlmalloc.c"), ("trampoline globals", "tables with free trampolines", "src/tramp.c")],
  ["return values of ffi_closure_alloc", "closure memory contents"])

p("C02", "A closure's code address always reaches its own handler",
  "Calling the code address of a live, prepared closure runs exactly the handler it was last prepared with, exactly once, passing that closure's call interface, user data and the caller's argument values, and hands the handler's result back to the caller. This holds whatever allocations, releases, preparations and calls of other closures other threads perform meanwhile, wherever the system placed the memory, and whichever method of obtaining executable memory is in use.",
  ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
  "every interleaving of closure life-cycle operations, every number of live closures (several code tables), every executable-memory method and address layout",
  "Tests create a handful of closures in one thread using the one method this host offers; they never look up a closure while another thread changes the heap, and rarely fill a second code table.",
  ALLOC + ["src/x86/ffi64.c", "src/x86/ffiw64.c", "src/x86/unix64.S", "src/x86/win64.S"],
  [("trampoline parameters", "src/tramp.c:ffi_tramp_set_parms"), ("data/code address translation", "src/closures.c"), ("code table", "src/x86/unix64.S"), ("closure preparation", "src/x86/ffi64.c:ffi_prep_closure_loc")],
  [("segment list", "which segment holds a closure, and its code offset", "src/dlmalloc.c")],
  ["handler invocations", "values returned to the native caller"])

p("C03", "A failed closure allocation is clean and temporary",
  "If the system refuses memory, mappings, descriptors or disk space at any point of a closure allocation or release, the operation either still succeeds by another route or returns null; it never crashes or hangs, and every existing closure keeps its memory and keeps working. A failed allocation leaves nothing behind, and once the refusals end, allocation succeeds again wherever anonymous or file-backed executable memory is permitted.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of refused system and library calls at every call site, at every point of every allocation history",
  "No test makes a system call fail; the error paths of mapping, trampoline and temporary-file code never run in the test suite.",
  ALLOC,
  [("error unwinding", "src/tramp.c:tramp_table_alloc,tramp_table_map,ffi_tramp_init"), ("fallback mapping", "src/closures.c:dlmmap,dlmmap_locked,dlmunmap"), ("undo on trampoline failure", "src/closures.c:ffi_closure_alloc"), ("trim and release with back-out", "src/dlmalloc.c:sys_trim,release_unused_segments")],
  [], ["return values of ffi_closure_alloc", "mappings, descriptors and heap blocks held afterwards"])

p("C04", "Any permitted source of executable memory is enough",
  "If the environment permits at least one of the documented sources of executable memory (the library's own code, anonymous memory, an in-memory file, or a temporary file in a documented location), closure allocation succeeds and the closure works; otherwise it returns null. When closures are first allocated the documented locations are tried in the documented order, moving on past locations that are missing, unwritable, full or not executable.",
  ["configurations", "fault_sequences", "histories"],
  "every combination of: library file mappable or not, in-memory files available/executable or not, anonymous executable memory allowed or not, SELinux/PaX present or not, each directory and mount missing/read-only/full/noexec, environment variables set or not",
  "The suite runs on one host with one configuration, where the first source always works, so every fallback is dead code in the tests.",
  ["src/closures.c", "src/tramp.c", "doc/libffi.texi"],
  [("search list", "src/closures.c:open_temp_exec_file_opts"), ("strategy choice", "src/closures.c:dlmmap"), ("code table from library or temporary file", "src/tramp.c:ffi_tramp_init_os")],
  [("search index", "next location to try", "src/closures.c:open_temp_exec_file_opts_idx")],
  ["return values of ffi_closure_alloc", "sequence of locations opened"])

p("C05", "Write-and-execute memory is never requested where policy forbids it",
  "When the system signals a policy against memory that is both writable and executable (SELinux active, or PaX MPROTECT on the process), or when closures can be served from the library's own code, the library never asks for a mapping that is writable and executable at once. The memory behind a closure's code address is then executable and not writable at that address.",
  ["configurations", "histories", "fault_sequences"],
  "every way the policy can be signalled, every executable-memory method, every history of allocations and failures",
  "The test host has no such policy, and no test looks at the protections of the mappings requested.",
  ["src/closures.c", "src/tramp.c"],
  [("policy detection", "src/closures.c:selinux_enabled_check,pax_flags_check"), ("mapping protections", "src/closures.c:dlmmap,dlmmap_locked"), ("code/parameter table mapping", "src/tramp.c:tramp_table_map")],
  [("cached policy", "result of the first policy check", "src/closures.c")],
  ["protections passed to the system", "protection of code and data addresses of live closures"])

p("C06", "Footprint follows live closures, not history",
  "Heap blocks, mapped address space and descriptors held by the library are bounded by a function of the largest set of closures that was live at once, not of how many were ever allocated: releasing closures makes their memory and code addresses reusable, and repeating any cycle of allocations and releases, in any order, by any threads, with any failures in between, does not make the footprint grow (memory the system refuses to take back excepted). After every closure is released at most one code table and a fixed reserve per source of memory remain, apart from file-backed heap kept for reuse.",
  ["histories", "schedules", "fault_sequences"],
  "every alloc/free history that crosses table and segment boundaries, in every release order and interleaving, with failed calls in between",
  "Tests neither measure footprint nor free enough closures to empty and release a table or trim a segment.",
  ALLOC,
  [("release of empty tables", "src/tramp.c:tramp_add,tramp_table_free"), ("trim", "src/dlmalloc.c:sys_trim"), ("free path", "src/closures.c:ffi_closure_free")],
  [], ["mappings, heap blocks and descriptors outstanding"])

p("C07", "No files or stray descriptors are left in the process or filesystem",
  "After any library call returns, no temporary file the library created is still reachable by name, the number of descriptors and streams the library holds is bounded by a small constant, and each of those descriptors is close-on-exec. The library never closes a descriptor it did not open, and every descriptor opened on a path that is then abandoned is closed.",
  ["fault_sequences", "configurations", "histories", "schedules"],
  "every fallback configuration and every failing call on the way, in any allocation history",
  "Tests look at neither the descriptor table nor temporary directories, and never run the code that creates temporary files.",
  ["src/closures.c", "src/tramp.c"],
  [("create-then-unlink and in-memory files", "src/closures.c:open_temp_exec_file_name,open_temp_exec_file_dir,open_temp_exec_file_memfd"), ("descriptor lifetime", "src/tramp.c:ffi_tramp_get_libffi,ffi_tramp_get_temp_file"), ("mount table streams", "src/closures.c:open_temp_exec_file_mnt")],
  [("descriptors", "temporary executable file and library file descriptors", "src/closures.c,src/tramp.c")],
  ["descriptor table and directory entries after each call"])

p("C08", "A live closure is never hit by a later full disk",
  "When closure memory is backed by a file, all the storage behind a successful allocation has been reserved in that file before the allocation returns. Using any live closure therefore never faults because storage ran out later, whatever earlier allocations failed part-way.",
  ["fault_sequences", "histories", "configurations"],
  "every point at which a write, mapping or truncation fails in earlier allocations, every disk capacity",
  "Needs the file-backed method, a failed step and a full disk together; tests run none of them.",
  ["src/closures.c"],
  [("space reservation", "src/closures.c:allocate_space"), ("roll-back of the file", "src/closures.c:dlmmap_locked")],
  [("file size bookkeeping", "space already handed out from the temporary file", "src/closures.c:execsize")],
  ["blocks allocated behind file-backed mappings"])

p("C09", "Every closure operation finishes",
  "Allocation, preparation, invocation and release of closures finish within a bounded number of the caller's own steps once the caller is scheduled, under every interleaving of threads and every sequence of failing system calls. No operation deadlocks, spins forever over a list of fallbacks, or returns with an internal lock still held.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving and every failing call, in particular failures while a lock is held and fallbacks that all fail",
  "Single-threaded tests cannot deadlock, and no error return is ever taken with a lock held.",
  ALLOC,
  [("locks around trampoline state", "src/tramp.c:ffi_tramp_lock"), ("heap lock", "src/dlmalloc.c:PREACTION"), ("temporary-file lock", "src/closures.c:open_temp_exec_file_mutex"), ("retry loop", "src/closures.c:dlmmap_locked")],
  [], ["completion of each operation", "lock ownership on return"])

p("C10", "The way closures are provided is settled once, consistently",
  "Threads racing to use closures for the first time all get working closures provided by the same settled method, set up once. Later changes of the environment (directories, limits, policies or system files changing or vanishing) never make an existing closure misbehave, be released wrongly, or crash the process.",
  ["schedules", "configurations", "histories", "fault_sequences"],
  "every interleaving of first uses, every change of the environment between or during operations",
  "Tests start with one thread and a constant environment.",
  ["src/tramp.c", "src/closures.c", "src/dlmalloc.c"],
  [("one-time initialisation", "src/tramp.c:ffi_tramp_init"), ("cached decisions", "src/closures.c:dlmmap"), ("heap parameters", "src/dlmalloc.c:init_mparams")],
  [("initialisation status", "uninitialised / passed / failed", "src/tramp.c:tramp_globals")],
  ["number of initialisations observed", "closure behaviour after the change"])

p("C11", "Closure entry code is always the library's own",
  "The instructions executed at a closure's code address are always the ones this loaded library contains. This holds even if the file the library was loaded from has been replaced, truncated or deleted, if its path contains unusual characters or is very long, or if the system's list of mappings is unreadable or incomplete: the library then uses another source or reports failure.",
  ["configurations", "fault_sequences", "inputs"],
  "every state of the library's file and every content of the mapping list at first use",
  "Tests always run the freshly built library from an ordinary path.",
  ["src/tramp.c"],
  [("locating the library file", "src/tramp.c:ffi_tramp_get_libffi"), ("mapping the code table", "src/tramp.c:tramp_table_map"), ("copy in a temporary file", "src/tramp.c:ffi_tramp_get_temp_file")],
  [("file and offset", "where the code table is mapped from", "src/tramp.c:tramp_globals")],
  ["bytes at closure code addresses", "behaviour of closure calls"])

p("C12", "Concurrent calls never mix",
  "When several threads call functions and closures at once, also through one shared prepared interface, each callee receives exactly the argument values its own caller supplied, at full width and in the right positions, and each caller receives exactly the value its own callee returned. This holds for every interleaving down to single instructions, for every supported signature and calling convention, with any number of arguments in registers and memory.",
  ["schedules", "inputs", "programs"],
  "every interleaving of the instructions of calls and callbacks by several threads, over all signatures",
  "All call and closure tests are single-threaded; hidden shared state in marshalling code cannot show in them.",
  CALL + ["src/prep_cif.c", "src/types.c"],
  [("per-call stack frame", "src/x86/ffi64.c:ffi_call_int"), ("closure argument decoding", "src/x86/ffi64.c:ffi_closure_unix64_inner"), ("read-only interface", "src/prep_cif.c")],
  [], ["arguments seen by callees", "results seen by callers"])

p("C13", "Nested calls and callbacks keep their own data",
  "A callee reached through the library may itself call functions and closures through the library, to any depth and through any mixture of interfaces, including the very interface or closure that is already active. After every nested call the outer call's arguments, result location and local state are intact and its result is delivered unchanged.",
  ["histories", "programs", "schedules", "inputs"],
  "every tree of nested calls and callbacks over all signatures and interfaces",
  "Tests nest at most one callback inside one call with fixed signatures.",
  CALL + ["src/raw_api.c", "src/java_raw_api.c"],
  [("frames built on the caller's stack", "src/x86/ffi64.c,src/x86/ffiw64.c"), ("assembly entry and exit", "src/x86/unix64.S,src/x86/win64.S")],
  [], ["arguments and results at every nesting level"])

p("C14", "A signal at any instruction is harmless",
  "If a thread is interrupted by a signal at any instruction of a call or closure invocation, and the signal handler itself makes calls and closure invocations through the library before returning normally, the interrupted call still delivers its exact arguments and result. The handler's own calls are exact too.",
  ["schedules", "inputs", "programs"],
  "every instruction at which an interruption can occur, in both C and assembly parts, over all signatures",
  "No test delivers a signal; the exposed windows are single instructions.",
  CALL,
  [("stack discipline and red zone use", "src/x86/unix64.S:ffi_call_unix64,ffi_closure_unix64"), ("frame layout", "src/x86/win64.S")],
  [], ["arguments and results of interrupted calls"])

p("C15", "Exceptions and long jumps pass through library frames",
  "A callee or closure handler may leave by throwing an exception or by a long jump to any outer frame, at any nesting depth of library calls and callbacks. Control arrives at the matching handler, the state of every frame from there outward is intact, clean-ups of skipped frames run for exceptions, and the library works as before afterwards.",
  ["crash_points", "programs", "histories", "inputs"],
  "every depth and mixture of frames between the throw and the catch, every point at which the callee may leave, every signature",
  "Two tests throw through one frame each with one signature; the hand-written unwind tables of the other entry points and of frames with memory arguments are never used.",
  ["src/x86/unix64.S", "src/x86/win64.S", "src/x86/ffi64.c", "src/x86/ffiw64.c"],
  [("unwind tables", "src/x86/unix64.S:.eh_frame"), ("unwind directives", "src/x86/win64.S")],
  [], ["where control arrives", "registers and locals of the catching frame"])

p("C16", "A call leaves the caller's data alone",
  "A call through the library changes none of the caller's memory except the result buffer: the prepared interface, type descriptions, the vector of argument pointers and the argument values read the same afterwards, even if the callee overwrites its by-value parameters. Only as many bytes of the result buffer are written as the documented result occupies, so the same interface and argument vector can be reused for any number of calls, also by other threads at the same time.",
  ["histories", "inputs", "schedules"],
  "every signature, calling convention and call interface, every number of repetitions, every behaviour of the callee towards its own parameters",
  "Tests never compare the caller's data after a call and build a fresh argument vector for almost every call.",
  CALL + ["src/raw_api.c", "src/java_raw_api.c"],
  [("copying of large structures", "src/x86/ffi64.c:ffi_call", ), ("result store", "src/x86/unix64.S:store_table"), ("copying of large structures, Microsoft convention", "src/x86/ffiw64.c:ffi_call_int")],
  [], ["caller's memory before and after each call"])

p("C17", "Preparing an interface does not depend on history",
  "The verdict on a call interface and the calls made through it depend only on the types and convention given: preparing again after a rejection, preparing other interfaces with the same types before, or preparing in several threads with shared built-in or already laid-out types gives the same verdict and equally working interfaces. A rejected preparation never makes an invalid type acceptable later.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every order and repetition of preparations, valid and invalid, over shared type descriptions, in every interleaving with calls",
  "Tests prepare each interface once, from fresh types, in one thread; a rejected type is never offered a second time.",
  ["src/prep_cif.c", "src/types.c", "src/x86/ffi64.c", "src/x86/ffiw64.c"],
  [("aggregate layout", "src/prep_cif.c:initialize_aggregate"), ("interface preparation", "src/prep_cif.c:ffi_prep_cif_core"), ("variadic checks", "src/prep_cif.c:ffi_prep_cif_var")],
  [("type size", "zero until laid out", "include/ffi.h.in:ffi_type")],
  ["status codes", "calls through the prepared interfaces"])

p("C18", "Closures survive fork in both processes",
  "After a process forks, every closure that was live works in the parent and in the child, and what either process then does with closures (preparing, calling, releasing, allocating) has no effect on the closures of the other.",
  ["crash_points", "histories", "configurations"],
  "every point between operations at which the process may fork, every history before and after in both processes, every executable-memory method",
  "No test forks.",
  ALLOC,
  [("private mappings of code and parameter tables", "src/tramp.c:tramp_table_map"), ("heap mappings", "src/closures.c:dlmmap,dlmmap_locked")],
  [], ["closure memory and behaviour in both processes"])

p("C19", "The raw interfaces carry the same values as the ordinary ones",
  "Calls and closures through the raw and Java-raw interfaces, concurrently with any others, deliver the same argument values to the callee and the same result to the caller as the ordinary interface does for that signature. Conversions between the raw and pointer forms stay within the documented sizes of both.",
  ["schedules", "inputs", "histories", "configurations"],
  "every signature the raw forms support, every closure memory method, every interleaving with other calls",
  "No test uses the raw or Java-raw interfaces at all.",
  ["src/raw_api.c", "src/java_raw_api.c"],
  [("conversion", "src/raw_api.c:ffi_ptrarray_to_raw,ffi_raw_to_ptrarray,ffi_raw_size"), ("closure hub", "src/raw_api.c:ffi_prep_raw_closure_loc,ffi_translate_args"), ("Java variant", "src/java_raw_api.c")],
  [], ["arguments seen by callees and raw handlers", "results seen by callers"])

p("C20", "Go calls and closures deliver the static chain",
  "A call made with a closure context delivers that exact context to the callee together with the exact arguments, and a Go closure invoked by native code with itself as context runs its own handler with its own context, interface and arguments. This holds under every interleaving with other calls and closures and for both calling conventions.",
  ["schedules", "inputs", "histories"],
  "every signature and interleaving of Go-style calls and closures with ordinary ones",
  "Two tests make one call each in one thread.",
  CALL,
  [("static chain register", "src/x86/unix64.S:ffi_go_closure_unix64,src/x86/win64.S:ffi_go_closure_win64"), ("entry", "src/x86/ffi64.c:ffi_call_go,ffi_prep_go_closure")],
  [], ["context received", "arguments and results"])

p("C21", "Calls and callbacks preserve the machine state they must",
  "Across every call made through the library, and every closure invocation made by native code, the registers a function must preserve, the stack pointer, the floating-point control settings, the floating-point stack depth and the error number left by the callee are exactly as a direct native call would leave them. This holds also when threads are switched or signals arrive at any instruction in between, and when the callee changes everything it is allowed to change.",
  ["schedules", "inputs", "programs"],
  "every signature, interleaving and interruption; every callee behaviour permitted by the calling convention",
  "Compiled test code rarely keeps values in all preserved registers across a call and never checks control state.",
  CALL,
  [("register save and restore", "src/x86/unix64.S,src/x86/win64.S"), ("frame setup", "src/x86/ffi64.c,src/x86/ffiw64.c")],
  [], ["register file and control words around calls", "errno after calls"])

p("C22", "Closures in memory the application manages work on their own",
  "A closure prepared in executable memory that the application obtained itself behaves like any other closure, whichever method the library uses for its own closures and before or after the library's first use of it. Preparing or calling it never touches closures the library allocated, and it needs no resource from the library.",
  ["histories", "configurations", "schedules", "fault_sequences"],
  "every mixture of application-managed and library-managed closures, every method, every order of first use, while the system refuses the library resources",
  "Only one or two tests use a self-managed closure, on the one method of this host, with nothing else live.",
  ["src/closures.c", "src/x86/ffi64.c", "src/x86/ffiw64.c", "src/prep_cif.c"],
  [("ownership test", "src/closures.c:ffi_tramp_is_present"), ("dynamic trampoline", "src/x86/ffi64.c:ffi_prep_closure_loc")],
  [], ["handler invocations", "library resources used"])

p("C23", "Structure layout matches the C compiler",
  "The size, alignment and member offsets reported for a structure type equal those the platform's C compiler gives the corresponding structure.",
  ["inputs"], "every structure description",
  "Tests compare a few dozen layouts; the space of descriptions is unbounded.",
  ["src/prep_cif.c"], [("layout", "src/prep_cif.c:initialize_aggregate,ffi_get_struct_offsets")], [], ["sizes and offsets reported"])

p("C24", "Malformed descriptions are rejected with the documented status",
  "An invalid convention, type description or variadic argument list is rejected with the documented status code, and every valid one is accepted.",
  ["inputs"], "every combination of convention, types and argument counts",
  "Three tests check one rejected input each.",
  ["src/prep_cif.c", "src/x86/ffi64.c"], [("validation", "src/prep_cif.c:ffi_prep_cif_core,ffi_prep_cif_var")], [], ["status codes"])

p("C25", "The same guarantees hold on the other supported architectures",
  "Calls and closures on every other supported processor and operating system deliver arguments and results exactly as the native convention of that platform prescribes.",
  ["configurations", "inputs"], "every supported port other than 64-bit and 32-bit x86 Linux",
  "The test suite here runs on 64-bit x86 Linux only.",
  ["src/aarch64", "src/arm", "src/powerpc", "src/riscv", "src/s390", "src/mips", "src/sparc"],
  [("per-port marshalling", "src/*/ffi.c")], [], ["arguments and results on each port"])

p("C26", "32-bit x86 programs get the same guarantees",
  "On 32-bit x86 Linux, for the default (cdecl), stdcall, thiscall, fastcall and Microsoft cdecl conventions and every mix of integer, floating-point, pointer and structure types: a call made through the library delivers exactly the bytes of every argument where the convention puts it (small integers extended to their full slot or register) and returns exactly the callee's result, integer results widened to a full word; a closure does the same in the other direction, whether reached through a run-time trampoline or one from the static table, and the stack is popped by the side and the amount that the convention prescribes; so do Go calls and closures (which also deliver their context) and raw calls and closures. Preserved registers, the x87 stack, control words, the direction flag and the stack pointer come back as the caller left them. Nothing outside the caller's arguments, result and descriptions is read or written, and descriptions are never written after preparation. All of this holds when calls and closures nest, when executions alternate between stacks at any callee, when a signal handler at any instruction makes calls of its own, and when a callee is left by a long jump; and at the entry of every callee and handler the unwind tables lead back through the library's frames to the caller with its registers, so that an exception can pass.",
  ["inputs", "schedules", "histories"], "all five conventions, all entry points, scalar and structure types (no complex types; structures that wrap a single floating-point value not with thiscall or fastcall), any nesting and any interruption point, in position-independent and non-position-independent, optimised and unoptimised builds, gcc and clang",
  "The test suite is built for 64-bit x86 only, so the 32-bit port is not compiled, let alone run; interruptions inside the library cannot be produced by a test.",
  ["src/x86/ffi.c", "src/x86/sysv.S", "src/prep_cif.c", "src/raw_api.c", "src/types.c"], [("calls and closures", "src/x86/ffi.c:ffi_prep_cif_machdep,ffi_call_int,ffi_closure_inner,ffi_prep_closure_loc"), ("raw interface", "src/x86/ffi.c:ffi_raw_call,ffi_prep_raw_closure_loc"), ("entry and exit code", "src/x86/sysv.S:ffi_call_i386,ffi_closure_i386,ffi_closure_STDCALL,ffi_go_closure_STDCALL,ffi_closure_raw_THISCALL")], [], ["arguments as seen by the callee and the handler", "results", "registers, flags, x87 state and stack pointer around every call", "faults on guard pages and read-only descriptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
