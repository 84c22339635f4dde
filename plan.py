"""Which steps decide which property."""
import os
from builder import Step, VERIF
from fuzzstep import fuzz

HARNESSES = {
    "fmt": {"src": ["harness/fmt.cpp"], "deps": ["harness/gen.hpp"], "std": "20"},
    "core": {"src": ["harness/core.cpp"], "internal": True},
    "text": {"src": ["harness/text.cpp"], "internal": True},
    "stack": {"src": ["harness/stack.cpp"]},
    "stack_execinfo": {"src": ["harness/stack.cpp"], "flags": ["-DVT_EXECINFO"]},
    "stack_libunwind": {"src": ["harness/stack.cpp"], "flags": ["-DVT_LIBUNWIND", "-DVT_COUNT_ALLOC"]},
    "objects": {"src": ["harness/objects.cpp"], "flags": ["-fPIE"], "link": ["-pie"]},
    "objects_nopie": {"src": ["harness/objects.cpp"], "flags": ["-fno-pie"], "link": ["-no-pie"]},
    "resolve": {"src": ["harness/resolve.cpp"], "deps": ["harness/fixture.hpp"]},
    "resolve_quick": {"src": ["harness/resolve.cpp"], "deps": ["harness/fixture.hpp"], "flags": ["-DVT_NO_DEBUG_READER"]},
    "program": {"src": ["harness/program.cpp"], "deps": ["harness/fixture.hpp"]},
    "program_dl": {"src": ["harness/program.cpp"], "deps": ["harness/fixture.hpp"], "flags": ["-DVT_DL_ONLY"]},
    "exc": {"src": ["harness/exc.cpp"], "link": ["-rdynamic"]},
    "exc_norelro": {"src": ["harness/exc.cpp"], "link": ["-rdynamic", "-Wl,-z,norelro"]},
    "exc_execinfo": {"src": ["harness/exc.cpp"], "flags": ["-DVT_LIMIT=400"], "link": ["-rdynamic"]},
    "state": {"src": ["harness/state.cpp"], "deps": ["harness/fixture.hpp", "harness/gen.hpp"], "link": ["-rdynamic"]},
    "state_libunwind": {"src": ["harness/state.cpp"], "deps": ["harness/fixture.hpp", "harness/gen.hpp"], "link": ["-rdynamic"], "flags": ["-DVT_SLOW", "-DVT_LIBUNWIND"]},
    "state_slow": {"src": ["harness/state.cpp"], "deps": ["harness/fixture.hpp", "harness/gen.hpp"], "link": ["-rdynamic"], "flags": ["-DVT_SLOW"]},
    "ctrace": {"src": ["harness/ctrace.cpp"], "deps": ["harness/fixture.hpp", "harness/gen.hpp", "harness/allocs.hpp"], "internal": True, "link": ["-lutil"]},
    "traced_clang": {"src": ["harness/traced.cpp"]},
    "traced": {"src": ["harness/traced.cpp"], "flags": ["-fno-reorder-blocks-and-partition"]},
    "terminate": {"src": ["harness/terminate.cpp"], "flags": ["-fno-reorder-blocks-and-partition"], "link": ["-lutil"]},
    "terminate_clang": {"src": ["harness/terminate.cpp"], "link": ["-lutil"]},
    "log": {"src": ["harness/log.cpp"], "deps": ["harness/fixture.hpp", "harness/allocs.hpp"], "internal": True},
    "threads": {"src": ["harness/threads.cpp"], "deps": ["harness/fixture.hpp", "harness/elfgen.hpp"], "internal": True, "link": ["-rdynamic"]},
    "threads_slow": {"src": ["harness/threads.cpp"], "deps": ["harness/fixture.hpp", "harness/elfgen.hpp"], "internal": True, "link": ["-rdynamic"], "flags": ["-DVT_SLOW"]},
    "fault": {"src": ["harness/fault.cpp"], "deps": ["harness/fixture.hpp", "harness/allocs.hpp"], "link": ["-rdynamic"]},
    "fault_slow": {"src": ["harness/fault.cpp"], "deps": ["harness/fixture.hpp", "harness/allocs.hpp"], "link": ["-rdynamic"], "flags": ["-DVT_SLOW"]},
    "dwarf": {"src": ["harness/dwarf.cpp", "harness/fakedwarf/fakedwarf.cpp"], "deps": ["harness/elfgen.hpp", "harness/fakedwarf/fakedwarf.hpp", "harness/fakedwarf/libdwarf.h", "harness/fakedwarf/dwarf.h"], "flags": ["-I" + os.path.join(VERIF, "harness", "fakedwarf")]},
    "dwarfprog": {"src": ["harness/dwarfprog.cpp", "harness/fakedwarf/fakedwarf.cpp", "harness/fakedwarf/elfdwarf.cpp"], "deps": ["harness/fixture.hpp", "harness/fakedwarf/fakedwarf.hpp", "harness/fakedwarf/libdwarf.h", "harness/fakedwarf/dwarf.h"], "flags": ["-I" + os.path.join(VERIF, "harness", "fakedwarf")], "link": ["-lz"]},
    "a2l": {"src": ["harness/a2l.cpp"], "deps": ["harness/fixture.hpp"]},
    "elf_fuzz": {"src": ["harness/elf.cpp"], "deps": ["harness/elfgen.hpp"], "internal": True, "fuzz": True, "flags": ["-DVT_FUZZ"]},
    "text_fuzz": {"src": ["harness/text.cpp"], "internal": True, "fuzz": True, "flags": ["-DVT_FUZZ"]},
    "elf": {"src": ["harness/elf.cpp"], "deps": ["harness/elfgen.hpp"], "internal": True},
}
S = Step
STEPS = {
    "P01": [S("stack", "plain", {"raw_window": (60000, 2000000)}), S("stack", "ndebug", {"raw_window": (60000, 2000000)}), S("stack_libunwind", "libunwind", {"raw_window": (40000, 1000000)}),
            S("stack_execinfo", "execinfo", {"raw_window": (60000, 2000000)}), S("stack", "clang", {"raw_window": (40000, 1000000)})],
    "P02": [S("stack", "libdl", {"entry_points": (3000, 100000)}), S("stack", "plain", {"entry_points": (120, 2500)}), S("stack_execinfo", "execinfo", {"entry_points": (60, 1000)}), S("stack_libunwind", "libunwind", {"entry_points": (60, 1000)})],
    "P03": [S("stack_libunwind", "libunwind", {"safe_capture": (60000, 2000000), "safe_capture_async": (12000, 300000)}), S("stack", "plain", {"safe_capture": (3000, 30000)})],
    "P04": [S("objects", "plain", {"object_history": (4000, 100000)}), S("objects", "nodl", {"object_history": (4000, 100000)}), S("objects_nopie", "nodl", {"object_history": (1500, 30000)}), S("objects_nopie", "plain", {"object_history": (1500, 30000)})],
    "P05": [S("resolve", "plain", {"resolve_list": (2500, 40000)}), S("resolve_quick", "libdl", {"resolve_list": (8000, 400000)}), S("resolve_quick", "libbacktrace", {"resolve_list": (8000, 200000)}), S("resolve_quick", "nosym", {"resolve_list": (8000, 100000)}),
            S("a2l", "fakea2l", {"helper_answers": (800, 30000)})],
    "P06": [S("program", "plain", {"generated_program": (100, 3000)}), S("program", "clang", {"generated_program": (50, 1500)}), S("program", "libbacktrace", {"generated_program": (50, 1500)}), S("program_dl", "libdl", {"generated_program": (40, 1000)}),
            S("program", "libunwind", {"generated_program": (24, 500)}), S("program", "execinfo", {"generated_program": (24, 500)})],
    "P07": [S("a2l", "fakea2l", {"helper_answers": (1500, 60000), "helper_misbehaves": (3500, 150000), "helper_availability": (400, 4000)})],
    "P08": [S("fmt", "asan", {"fmt_model": (60000, 1500000), "fmt_frame_model": (40000, 800000)})],
    "P09": [S("fmt", "asan", {"fmt_sinks": (12000, 300000), "fmt_tty": (3000, 40000)})],
    "P10": [S("fmt", "asan", {"fmt_values": (20000, 500000)})],
    "P11": [S("text", "asan", {"snippet_model": (25000, 800000), "snippet_in_formatter": (20000, 400000)})],
    "P12": [S("text", "asan", {"prettify_types": (20000, 600000), "prettify_tokens": (30000, 800000), "prettify_total": (6000, 100000)})],
    "P13": [S("text", "asan", {"prune_signatures": (60000, 1500000), "prune_total": (100000, 1500000), "prune_real": (20000, 60000)}), fuzz("text_fuzz", "prune_total", 4000000)],
    "P14": [S("text", "asan", {"demangle_grammar": (80000, 2000000), "demangle_any": (80000, 2000000)}), fuzz("text_fuzz", "demangle_any", 6000000)],
    "P15": [S("exc", "plain", {"trace_programs": (40000, 1500000)}), S("exc", "nosym", {"trace_resolved": (10000, 300000)}), S("exc", "libdl", {"trace_resolved": (6000, 200000)}), S("exc", "ndebug", {"trace_programs": (20000, 500000)}),
            S("exc", "clang", {"trace_programs": (20000, 500000)}), S("exc", "libunwind", {"trace_programs": (10000, 300000)}), S("exc_execinfo", "execinfo", {"trace_programs": (10000, 300000)}),
            S("exc", "asanns", {"late_destructors": (1500, 30000), "trace_resolved": (3000, 60000)})],
    "P16": [S("exc", "plain", {"same_behaviour": (400000, 6000000), "same_termination": (8000, 100000)}), S("exc", "ndebug", {"same_behaviour": (400000, 6000000)}), S("exc", "clang", {"same_behaviour": (400000, 6000000), "same_termination": (6000, 60000)}), S("exc", "asanns", {"same_behaviour": (20000, 400000)}), S("exc_norelro", "plain", {"pages_keep_protection": (1000, 20000), "same_behaviour": (40000, 400000)}), S("exc", "plain", {"pages_keep_protection": (1000, 20000)})],
    "P17": [S("exc", "plain", {"rethrow_programs": (40000, 1500000)}), S("exc", "clang", {"rethrow_programs": (20000, 500000)}), S("exc", "libdl", {"rethrow_programs": (10000, 300000), "trace_resolved": (4000, 100000)}), S("exc", "nosym", {"late_destructors": (1500, 30000)})],
    "P19": [S("traced", "libdl", {"exception_objects": (150000, 3000000), "trace_holder": (150000, 3000000), "wrapping": (100000, 2000000)}), S("traced", "asandl", {"exception_objects": (20000, 400000), "trace_holder": (40000, 1000000)}), S("traced_clang", "clang", {"exception_objects": (100, 3000), "wrapping": (100, 4000)}), S("traced", "ndebug", {"wrapping": (100, 1000)})],
    "P20": [S("terminate", "libdl", {"termination": (20000, 300000)}), S("terminate", "plain", {"termination": (150, 3000)}), S("terminate_clang", "clang", {"termination": (100, 2000)}), S("terminate", "asandl", {"termination": (2000, 30000)}), S("terminate", "libunwind", {"termination": (100, 2000)}), S("terminate", "execinfo", {"termination": (100, 2000)})],
    "P21": [S("ctrace", "libdl", {"c_text": (60000, 1500000), "c_resolution": (120000, 3000000), "c_capture": (60000, 1000000), "c_utilities": (200000, 3000000)}), S("ctrace", "plain", {"c_resolution": (1500, 30000), "c_capture": (300, 8000)}),
            S("ctrace", "asanns", {"c_text": (30000, 800000)}), S("ctrace", "libbacktrace", {"c_resolution": (40000, 800000)})],
    "P22": [S("ctrace", "libdl", {"c_objects": (120000, 2000000), "c_no_memory": (120000, 2000000)}), S("ctrace", "asandl", {"c_objects": (30000, 600000)}), S("ctrace", "nosym", {"c_no_memory": (60000, 1500000)}), S("ctrace", "libbacktrace", {"c_objects": (20000, 300000)})],
    "P18": [S("threads", "tsan", {"concurrent": (900, 20000)}), S("threads", "tsandladdr", {"concurrent": (600, 12000)}), S("threads", "clangtsan", {"concurrent": (1500, 30000)}), S("threads", "libdl", {"concurrent": (5000, 120000)}), S("threads_slow", "tsana2l", {"concurrent": (24, 800)}), S("threads_slow", "plain", {"concurrent": (30, 1000)}), S("threads", "libbacktrace", {"concurrent": (60, 2000)})],
    "P23": [S("fault", "libdl", {"faults": (15000, 400000)}), S("fault", "nosym", {"faults": (5000, 200000)}), S("fault", "dladdr", {"faults": (3000, 100000)}), S("fault", "nodl", {"faults": (40, 1500)}), S("fault", "libbacktrace", {"faults": (150, 6000)}), S("fault_slow", "plain", {"faults": (150, 6000)}), S("fault_slow", "asan", {"faults": (50, 2000)})],
    "P24": [S("log", "libdl", {"log_history": (16000, 300000)}), S("log", "nosym", {"log_history": (10000, 150000)}), S("log", "asandl", {"log_history": (1000, 20000)})],
    "P25": [S("elf", "asan", {"elf_model": (150000, 4000000)})],
    "P26": [S("elf", "asan", {"elf_damage": (250000, 5000000)}), fuzz("elf_fuzz", "elf_damage", 8000000)],
    "P27": [S("elf", "asan", {"jit_registry": (60000, 1500000)})],
    "P28": [S("resolve", "plain", {"cache_history": (1500, 20000), "object_replacement": (500, 8000)}), S("resolve_quick", "libdl", {"cache_history": (1500, 30000), "object_replacement": (800, 15000)}), S("resolve_quick", "libbacktrace", {"cache_history": (120, 3000)})],
    "P29": [S("core", "asan", {"lru_model": (400000, 2000000)})],
    "P30": [S("core", "asan", {"nullable_model": (200000, 1500000), "optional_model": (300000, 1500000), "optional_ref_model": (30000, 600000), "result_model": (300000, 1500000)})],
    "P31": [S("core", "asan", {"microfmt_model": (600000, 4000000), "microfmt_total": (100000, 3000000), "text_helpers": (300000, 2000000), "view_helpers": (400000, 2000000),
                               "number_helpers": (60000, 1000000), "bounded_search": (60000, 1000000), "replace_helpers": (60000, 1000000)})],
    "P32": [S("dwarf", "libdwarf", {"debug_trees": (20000, 600000), "debug_failures": (8000, 200000)}), S("dwarfprog", "libdwarf", {"debug_programs": (160, 6000)})],
    "P33": [S("state", "libdl", {"process_state": (3000, 60000)}), S("state_slow", "plain", {"process_state": (120, 4000)}), S("state_slow", "libbacktrace", {"process_state": (100, 2000)}), S("state_libunwind", "libunwind", {"process_state": (60, 1000)}), S("state", "nosym", {"process_state": (1000, 20000)})],
    "P34": [S("state", "libdl", {"trace_values": (200000, 3000000)}), S("state", "asandl", {"trace_values": (30000, 500000)})],
}
COMMON_ASSUMPTIONS = ["The checks see the library as built by the repository's own CMake files with g++ 13 / clang 18 on x86-64 Linux with glibc."]
ASSUMPTIONS = {}
NOT_APPLICABLE = {
}
TECHNIQUE = {
    "P01": ("property-based testing: generated call stacks compared with an independent stack walk and a shadow stack", "unwind, libunwind and execinfo back ends, gcc and clang"),
    "P02": ("property-based testing: differential comparison of all capture entry points on generated call stacks", "libdl, addr2line, execinfo and libunwind builds"),
    "P03": ("property-based testing of safe captures against an independent walk, with timer-injected interruptions, canaries and allocator counting", "libunwind build; synchronous and asynchronous signals"),
    "P04": ("stateful property-based testing: load, unload, replace and delete generated shared objects, compare with /proc/self/maps and the program headers", "_dl_find_object and dladdr1 builds, PIE and non-PIE executables"),
    "P05": ("property-based testing, metamorphic: whole lists through every entry point against each address on its own; model-based with a scripted helper", "addr2line, libdl, libbacktrace and no-symbols builds; lists up to 60000 addresses from 10 kinds of places"),
    "P28": ("stateful property-based testing: histories of resolutions, cache settings and object replacements against a process without history", "addr2line, libdl and libbacktrace builds; the snippet cache through the formatter"),
    "P06": ("property-based testing: generated multi-object programs whose call sites (function, file, line) are known", "gcc and clang, six optimisation levels, debug formats, linkers; addr2line, libbacktrace and libdl builds over three unwinders"),
    "P07": ("property-based testing with a scripted stand-in for the helper process (fault injection at the process boundary) against a model of its answers", "well-formed answers, malformed lines, early exits, signals, missing helpers, closed descriptors, interrupted calls, up to 32000 frames"),
    "P15": ("property-based testing: generated exception programs; interposed throw functions walk the stack independently", "gcc and clang, three unwinders, optimised and not, up to 4 threads, destructors of thread_local and static objects"),
    "P16": ("property-based testing, differential: each generated program runs with plain and with tracing try blocks and must log the same events", "38 handler types, 18 handler lists, 29 thrown types, nested and rethrowing handlers, control transfers, termination"),
    "P17": ("property-based testing: generated histories of throws and rethrows against a model of the two traces", "gcc and clang; rethrows of current and saved exceptions, handlers, destructors, several threads"),
    "P18": ("property-based testing of generated concurrent programs under ThreadSanitizer, each thread's results compared with those it gets alone", "22 operations, 2 to 5 threads, first use and later use; five symbol back ends, gcc and clang instrumentation"),
    "P19": ("stateful property-based testing of pools of exception objects and trace holders against a value model", "15 exception classes, copies, moves, assignments (also to itself), throws, wrapping macros; ASan"),
    "P20": ("property-based testing: generated dying programs run as separate processes, their report compared with what they said beforehand", "12 causes of termination, 36 exception types, arbitrary messages, threads, terminals; gcc and clang, three unwinders"),
    "P21": ("property-based testing, differential: every C function against the C++ function on the same generated input", "hand-made and captured traces, absent fields, settings histories; libdl, addr2line and libbacktrace builds"),
    "P22": ("stateful property-based testing of pools of C objects, with injected allocation failures and allocation accounting", "histories of up to 30 calls, each run three times to tell leaks from caches; ASan"),
    "P23": ("property-based testing with injected faults: generated histories in which allocations, descriptors, processes or system calls fail, against the same history without faults in another process", "21 operations, every allocation and system call of each, absorption on and off; five symbol back ends"),
    "P24": ("stateful property-based testing: histories of log settings, messages and failing operations against a model of the deliveries", "3 builds; callbacks of several kinds, standard streams captured; another process listening to everything as reference"),
    "P25": ("model-based property testing: generated ELF images with a known content", "both word sizes and byte orders, memory and disk, query histories"),
    "P26": ("structure-aware fuzzing of ELF images under ASan/UBSan with allocation and time bounds", "field-level and byte-level damage, truncation, random bytes"),
    "P27": ("stateful property-based testing against a model of the registry", "histories of up to 40 registrations, removals, lookups"),
    "P11": ("property-based testing against a reference model of the snippet layout", "generated files, lines, columns, context sizes; exact text comparison"),
    "P12": ("property-based testing: generated type grammar with known short spelling, token metamorphic relations", "generated type trees and token sequences"),
    "P13": ("property-based testing: generated signatures (GNU, LLVM, MSVC spellings) with known names, plus totality fuzzing", "generated signatures, token soup, the C++ runtime's own symbols"),
    "P14": ("property-based testing: mangling grammar with known demanglings and differential against the runtime demangler", "generated mangled names and arbitrary text"),
    "P29": ("stateful property-based testing against a list model", "operation histories up to about 100 steps, shrunk on failure, ASan/UBSan"),
    "P30": ("stateful property-based testing against std::optional / value models with instrumented objects", "operation histories, ASan/UBSan"),
    "P31": ("property-based testing against straightforward reference implementations", "generated texts, format strings and integers including extremes, ASan/UBSan"),
    "P32": ("property-based testing: generated trees of debug information entries, line tables and range lists behind a stand-in for libdwarf, against a model of what they describe; generated programs built by the installed compilers, against a plain search through their entries; injected failures", "up to 5 units, 30 pieces of code and 4 levels of inlining per object; 3 cache modes, split units, versions 2 to 5; ASan"),
    "P33": ("property-based testing: generated operation sequences in generated surroundings, snapshots of the process's state before and after each, results against those of another process in plain surroundings", "19 kinds of operations; signal actions and masks, descriptors, children, locale, environment, streams, limits, handlers, working directory"),
    "P34": ("property-based testing against field-by-field models", "generated frames and traces, modifications, copies and moves, every way to iterate; ASan"),
    "P08": ("property-based testing against a reference model of the formatter", "generated frames x option histories, exact text comparison; bounded by case count"),
    "P09": ("property-based testing, metamorphic and differential relations between sinks", "generated traces and formatters; string, stream, FILE*, std::format and pty sinks compared"),
    "P10": ("stateful property-based testing (formatter pool against value model) under ASan/UBSan", "operation sequences over a pool of formatters; bounded length"),
}
