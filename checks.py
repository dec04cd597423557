"""What each property's check runs: scenario, build, runs and seconds at the quick tier, and what the evidence says about it."""

REPO_COMPONENTS = ["the repository's own headers under /repo/include, compiled unmodified from the working tree",
                   "libstdc++ (iostreams, containers), libc formatting and conversion"]

DISK_STUB = ["disk and file system calls (open, read, write, lseek, ftruncate, close, fstat): simulated disk in memory, durable across simulated crashes",
             "clock: simulated"]
CONS_STUB = ["console device below stdio (standard input, output, error): simulated device", "clock: simulated"]
HEAP_STUB = ["operator new/delete: real memory behind a wrapper that fails the chosen allocation and accounts for every block"]
SCHED_STUB = ["thread scheduling, mutexes, condition variables, once-flags: token-passing scheduler driven by the seed"]

# assumptions shared by the groups
A_DISK = ["the operating system behaves as POSIX append-mode files do: a write call appends atomically the part it takes",
          "a process crash loses the process but nothing the kernel accepted (no power loss: the library never calls fsync and does not promise more)",
          "texts contain no NUL character; text handed to the library is valid UTF-8",
          "seeded search: shows presence of violations, not their absence beyond the explored runs"]

NOTE = ("Seeded search over simulated executions of the real headers: every violation it prints is a real execution that replays exactly; "
        "quiet means no violation in the explored runs, not a proof. Trusts: the simulator's model of the %s, libstdc++ and the compiler.")
N_DISK = NOTE % "POSIX file calls"

A_CONS = ["the console streams keep their default connection with C stdio (sync_with_stdio), as the library leaves them",
          "texts contain no NUL character and are valid UTF-8; standard input delivers bytes or end of input, not errors",
          "seeded search: shows presence of violations, not their absence beyond the explored runs"]
N_CONS = NOTE % "console device and of C stdio buffering"
A_SC = "threads run under sequential consistency; data races are reported by happens-before instead"

A_JSON = ["texts contain no NUL character; documents are objects at the root, nested at most to the parser's documented limit, with finite decimals",
          "seeded search: shows presence of violations, not their absence beyond the explored runs"]
N_JSON = NOTE % "POSIX file calls and the reference reader and writer of JSON in sim/scn/json_model.h"

A_MEM = ["one pointer object is used by one thread at a time (different owners of one object on any threads); pointers that several threads only read are shared",
         "object graphs without ownership cycles",
         "seeded search: shows presence of violations, not their absence beyond the explored runs"]
N_MEM = NOTE % "scheduler (sequential consistency plus a happens-before order that follows the memory orders in the code)"

CHECKS = {
    "F01": dict(
        parts=[("f01", "asan", 40000, 12), ("f01", "plain", 150000, 14)],
        tech="crashes at every system call, torn and short writes, restart; durability against a reference model",
        nontrivial="at least one write was acknowledged and the process crashed or ended without closing at least once.",
        stubs=DISK_STUB, assumptions=A_DISK, note=N_DISK),
    "F02": dict(
        parts=[("f02", "asan", 30000, 8), ("f02", "plain", 80000, 10), ("f02", "conc", 30000, 8)],
        tech="seeded thread interleavings at system calls and memory accesses, short writes; history check per handle",
        nontrivial="at least two texts were acknowledged.",
        stubs=DISK_STUB + SCHED_STUB, assumptions=A_DISK + [A_SC], note=N_DISK),
    "F03": dict(
        parts=[("f03", "asan", 30000, 12), ("f03", "plain", 100000, 14)],
        tech="disk-full and I/O errors with recovery; every call checked against a reference model",
        nontrivial="a device error was injected, a call reported it, and a later write succeeded.",
        stubs=DISK_STUB, assumptions=A_DISK, note=N_DISK),
    "F04": dict(
        parts=[("f04", "asan", 30000, 12), ("f04", "plain", 120000, 14)],
        tech="short, interrupted and failing reads interleaved with writes; every line checked against a reference reader",
        nontrivial="more than two reads succeeded.",
        stubs=DISK_STUB, assumptions=A_DISK, note=N_DISK),
    "F05": dict(
        parts=[("f05", "asan", 30000, 12), ("f05", "plain", 100000, 14)],
        tech="short, interrupted and failing reads, concurrent appenders; contents checked against the simulated disk",
        nontrivial="more than one read (concurrent runs: at least one) was checked.",
        stubs=DISK_STUB + SCHED_STUB, assumptions=A_DISK, note=N_DISK),
    "F06": dict(
        parts=[("f06", "asan", 40000, 12), ("f06", "plain", 150000, 14)],
        tech="failing opens and crashes inside erase; state checked against a reference model",
        nontrivial="an erase succeeded after faults stopped, or the process crashed.",
        stubs=DISK_STUB, assumptions=A_DISK, note=N_DISK),
    "F07": dict(
        parts=[("f07", "asan", 60000, 12), ("f07", "plain", 200000, 14)],
        tech="failing opens, closes and allocations; descriptor and heap accounting after every call",
        nontrivial="more than five operations were executed.",
        stubs=DISK_STUB + HEAP_STUB, assumptions=A_DISK, note=N_DISK),
    "S01": dict(
        parts=[("s01", "asan", 20000, 12), ("s01", "plain", 120000, 14)],
        tech="input arriving in seeded pieces, short device writes; every prompt checked at the moment the program waits",
        nontrivial="more than two input calls were made and the program waited at least once.",
        stubs=CONS_STUB, assumptions=A_CONS, note=N_CONS),
    "S02": dict(
        parts=[("s02", "asan", 25000, 12), ("s02", "plain", 120000, 14)],
        tech="device errors, short device writes, failing allocations; both streams compared with what was written after every call",
        nontrivial="at least three write calls were made.",
        stubs=CONS_STUB + HEAP_STUB, assumptions=A_CONS, note=N_CONS),
    "S03": dict(
        parts=[("s03", "asan", 20000, 8), ("s03", "plain", 60000, 8), ("s03", "conc", 20000, 12)],
        tech="seeded thread interleavings at console calls and memory accesses; history check per thread, happens-before race detection",
        nontrivial="every thread made more than one write call.",
        stubs=CONS_STUB + SCHED_STUB, assumptions=A_CONS + [A_SC], note=N_CONS),
    "J01": dict(
        parts=[("j01", "asan", 20000, 12), ("j01", "plain", 100000, 14)],
        tech="seeded documents stored and loaded through short, interrupted and slow reads and writes; compared with a reference reader and tree",
        nontrivial="the document has at least one member.",
        stubs=DISK_STUB + CONS_STUB[:1], assumptions=A_JSON, note=N_JSON),
    "J02": dict(
        parts=[("j02", "asan", 20000, 12), ("j02", "plain", 100000, 14)],
        tech="stored documents damaged by truncation, torn, lost, duplicated, stale and zeroed chunks, bit flips; outcome compared with an independent reader",
        nontrivial="at least one load was refused.",
        stubs=DISK_STUB, assumptions=A_JSON, note=N_JSON),
    "J03": dict(
        parts=[("j03", "asan", 30000, 12), ("j03", "plain", 150000, 14)],
        tech="seeded edit histories with failing allocations; whole state compared with a reference tree after every edit, heap accounting",
        nontrivial="more than three edits were made.",
        stubs=HEAP_STUB, assumptions=A_JSON, note=N_JSON),
    "J04": dict(
        parts=[("j04", "asan", 20000, 12), ("j04", "plain", 100000, 14)],
        tech="loads with read errors, refused opens, failing allocations and damaged texts, and the loads after them; state compared with a reference tree",
        nontrivial="a load failed and a later good load was checked.",
        stubs=DISK_STUB + HEAP_STUB, assumptions=A_JSON, note=N_JSON),
    "M01": dict(
        parts=[("m01", "asan", 30000, 9), ("m01", "plain", 150000, 7), ("m01", "conc", 100000, 12)],
        tech="seeded pointer histories with failing allocations and seeded thread interleavings at every memory access; ownership model, destruction checked after every step, happens-before",
        nontrivial="several objects over several steps (threads: at least one drop by a thread).",
        stubs=HEAP_STUB + SCHED_STUB, assumptions=A_MEM, note=N_MEM),
    "M02": dict(
        parts=[("m02", "asan", 30000, 9), ("m02", "plain", 150000, 7), ("m02", "conc", 100000, 12)],
        tech="promotions interleaved with the last owner's drop at every memory access, and single-thread histories; ownership model, happens-before",
        nontrivial="at least one promotion was attempted.",
        stubs=HEAP_STUB + SCHED_STUB, assumptions=A_MEM, note=N_MEM),
    "E01": dict(
        parts=[("e01", "asan", 30000, 12), ("e01", "plain", 200000, 14)],
        tech="seeded histories whose payload constructors, assignments, callbacks and allocations throw; reference model, payload construction and destruction balance",
        nontrivial="more than two operations were made.",
        stubs=HEAP_STUB + ["payload types and callbacks: harness types that throw where the seed says, beside the repository's String"], assumptions=[
            "destructors do not throw; where both alternatives can only be copied (no non-throwing move), at most one payload operation of an assignment throws, and swap is not interrupted",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "payload operations and allocation failures"),
    "T01": dict(
        parts=[("t01", "asan", 15000, 12), ("t01", "plain", 90000, 14)],
        tech="seeded suites of tests that pass, assert, throw and run out of memory, console device errors, repeated runs; status and report compared with what happened",
        nontrivial="tests were registered beyond the four that the macros register.",
        stubs=CONS_STUB + HEAP_STUB + ["test functions: harness functions that act as the seed says through the repository's own macros"], assumptions=[
            "memory is available again when a test has ended; tests leave the format flags of the console streams alone; nothing is said about the printed report once the console device has failed",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "console device and of C stdio buffering"),
    "T02": dict(
        parts=[("t02", "asan", 12000, 12), ("t02", "plain", 70000, 14)],
        tech="seeded durations from nothing to weeks, wall-clock jumps in both directions, slow console device; printed durations compared with the simulated monotonic clock",
        nontrivial="tests were registered beyond the four that the macros register.",
        stubs=CONS_STUB + ["test functions: harness functions during which the seed lets time pass"], assumptions=[
            "a printed duration may be rounded either way to a whole millisecond, totals may include the time spent printing",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "clock and of C stdio buffering"),
    "R01": dict(
        parts=[("r01", "asan", 30000, 8), ("r01", "plain", 150000, 8), ("r01", "conc", 100000, 12)],
        tech="draws under stopped, coarse, stepping, backward, far-future and worst-case clock readings, from several threads at every memory access; bounds, reachability, happens-before",
        nontrivial="more than three draws were made.",
        stubs=["clock: simulated, scripted by the seed"] + SCHED_STUB, assumptions=[
            "bounds are finite and in order; reachability is checked with 700 draws (a sound generator misses a value with a probability below 1e-47 per check)",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "clock"),
    "A01": dict(
        parts=[("a01", "asan", 20000, 8), ("a01", "plain", 100000, 8), ("a01", "conc", 60000, 12)],
        tech="seeded attempts from several threads interleaved at every memory access, failing allocations, caller memory overwritten and freed; happens-before, heap accounting",
        nontrivial="more than one attempt was made.",
        stubs=HEAP_STUB + SCHED_STUB, assumptions=[
            "argument texts are terminated and their number is not larger than the array",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=N_MEM),
    "X01": dict(
        parts=[("x01", "asan", 15000, 13), ("x01", "plain", 150000, 13)],
        tech="every text operation with a chosen allocation failing, before or after a run with memory, and again with memory; result, operands, heap and later results compared",
        nontrivial="at least two allocations failed inside operations.",
        stubs=HEAP_STUB, assumptions=[
            "an operand is not at the same time the argument (no self-append, no self-insert); texts are valid UTF-8 without NUL",
            "what a text should be is taken from the same code when memory is available (in a process of its own for a part of the runs): the property is about exhaustion, not about the text functions themselves",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "heap"),
    "N01": dict(
        parts=[("n01", "asan", 15000, 13), ("n01", "plain", 200000, 13)],
        tech="every number operation with a chosen allocation failing, before or after a run with memory, and again with memory; result, operands, heap and later results compared",
        nontrivial="at least two allocations failed inside operations.",
        stubs=HEAP_STUB, assumptions=[
            "operands for which the operation has no result with memory either (sums of a decimal with and one without a fraction, quotients with the longer fraction in the divisor) are left out",
            "what a number should be is taken from the same code when memory is available (in a process of its own for a part of the runs): the property is about exhaustion, not about arithmetic",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "heap"),
    "C01": dict(
        parts=[("c01", "conc", 200000, 26)],
        tech="two or three threads interleaved at every memory access from their first use of the library on; results compared with the same calls alone in a process of their own, happens-before",
        nontrivial="more than two calls were compared.",
        stubs=SCHED_STUB + DISK_STUB, assumptions=[
            A_SC,
            "memory accesses made inside the C++ library's own binary are not seen, except what std::getline writes",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "scheduler and of happens-before"),
    "L01": dict(
        parts=[("l01", "asan", 60000, 14), ("l01", "conc", 100000, 14)],
        tech="the life of a process - initialisation of two source files in either order, main, exit, threads that outlive it - under the simulator's control, with library calls in every phase compared with the same calls in main",
        nontrivial="more than three calls were compared.",
        stubs=SCHED_STUB + DISK_STUB + CONS_STUB + ["start-up and exit of the process: the initialisation functions of two source files, exit handlers and destructors of static and thread-local objects are collected and run by the simulator as the C++ runtime would"], assumptions=[
            A_SC,
            "the C++ library's own streams live to the end, as its ios_base::Init makes them; the final flush is made by the harness",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "scheduler, of process start-up and exit, and of happens-before"),
    "L02": dict(
        parts=[("l02", "asan", 20000, 13), ("l02", "plain", 150000, 13)],
        tech="the environment's locale as a fault: C and C++ locales with other decimal marks, grouping, case rules and encodings are set and changed between library calls at seeded points; every result compared with the same calls in a process of their own under the classic locale",
        nontrivial="more than one call was compared.",
        stubs=DISK_STUB + CONS_STUB, assumptions=[
            "the locales are de_DE.UTF-8, tr_TR.UTF-8, fr_FR.ISO-8859-1 and one made for C++ alone; what a program's own streams do with numbers under their locale is its own affair",
            "what a result should be is taken from the same code under the classic locale: the property is about the locale, not about the results themselves",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "locale, disk and console"),
    "U01": dict(
        parts=[("u01", "asan", 25000, 12), ("u01", "plain", 250000, 12)],
        tech="the program's stream buffers as a simulated device: it refuses, throws, ends or cannot be flushed at seeded places in the text, for a while or for good; every write and read compared with what std::string and std::getline do on the same device, with failing allocations",
        nontrivial="a value was written whole, a line was read, a document was loaded or a fault was met.",
        stubs=HEAP_STUB + ["stream buffers of the harness: the places at which they fail are seeded choices"], assumptions=[
            "the C++ library's own formatted output and std::getline are the reference",
            "flushes do not fail on a stream that throws on badbit and flushes after each write: the C++ library ends the process there",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "stream buffers and of the heap"),
    "V01": dict(
        parts=[("v01", "asan", 20000, 12), ("v01", "plain", 150000, 12)],
        tech="callbacks as the source of faults: values whose conversions, predicates and transformations throw or make library calls of their own at seeded points, nested; results, file, console and builder compared with a model after each call",
        nontrivial="a callback threw or used the library.",
        stubs=DISK_STUB + CONS_STUB + HEAP_STUB, assumptions=[
            "one callback throws in one call; a callback does not change the object whose content it is given",
            "a callback that runs while a handle writes does not read lines with the same handle",
            "seeded search: shows presence of violations, not their absence beyond the explored runs"], note=NOTE % "disk and console"),
}
