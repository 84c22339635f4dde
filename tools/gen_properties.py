#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "A raw capture is exactly the requested window of the real call stack",
  "For any call stack and any skip and max_depth, capturing a raw trace yields, innermost first and without gaps, duplicates or foreign entries, one address per active call of the capturing thread, starting skip frames above the function that asked for the trace and stopping after max_depth entries or at the thread's outermost frame. "
  "The entry for every suspended caller is its return address minus one, and the entry for the requesting function itself lies inside that function. "
  "This holds for every supported unwinder, except that the execinfo unwinder may stop after its documented 400-frame limit.",
  ["programs", "inputs"],
  "Every reachable call stack (depth, recursion, indirect, virtual and library-callback calls, worker threads) x every skip and max_depth including 0, boundary and huge values x the unwind, libunwind and execinfo back ends.",
  "The unit tests take three fixed call chains of depth <= 3 and two or three skip/max_depth pairs, on one back end per build; nothing compares a deep or irregular stack, or skip/max_depth at or past the end of the stack.",
  ["src/unwind/unwind_with_unwind.cpp", "src/unwind/unwind_with_libunwind.cpp", "src/unwind/unwind_with_execinfo.cpp", "src/cpptrace.cpp"],
  [("unwind callback: skip, max_depth and ip_before_instruction handling", "src/unwind/unwind_with_unwind.cpp:unwind_callback"),
   ("libunwind cursor loop", "src/unwind/unwind_with_libunwind.cpp:capture_frames"),
   ("execinfo truncation and minus-one adjustment", "src/unwind/unwind_with_execinfo.cpp:capture_frames"),
   ("skip+1 forwarding from the public entry points", "src/cpptrace.cpp:generate_raw_trace")])

p("P02", "Every capture entry point sees the same frames",
  "Capturing at one point of a program as a raw trace, an object trace or a resolved stacktrace, through the free functions, the current() members, or the C interface, with equal skip and max_depth, gives the same sequence of frame addresses apart from the innermost call site itself. "
  "Resolving a raw trace to an object trace and then to a stacktrace, or directly to a stacktrace, preserves that sequence, and a depth limit of zero or a skip past the end gives an empty trace from all of them.",
  ["programs", "inputs"],
  "All call stacks x all skip/max_depth x all pairs of entry points (generate_raw_trace, generate_object_trace, generate_trace, the current() members, the ctrace_* counterparts) x unwinders.",
  "Each entry point is tested separately against a hand-written three-frame expectation; no test compares the entry points with each other, or at boundary arguments.",
  ["src/cpptrace.cpp", "src/ctrace.cpp"],
  [("public generate_* overload families and current()", "src/cpptrace.cpp"), ("C wrappers", "src/ctrace.cpp")])

p("P03", "Signal-safe capture is bounded, async-signal-safe and agrees with normal capture",
  "Where signal-safe unwinding is available, capturing into a caller-supplied buffer from any point, including inside a signal handler that interrupted arbitrary code, writes at most the requested number of entries, touches nothing beyond them, allocates no memory, and returns the number written. "
  "Those entries are the same frames, with the same skip and depth meaning, as an ordinary capture at that point would give, and the addresses serialised through a safe object frame resolve to the same object trace frame as an ordinary resolution.",
  ["programs", "inputs", "schedules"],
  "All call stacks, buffer sizes (0 to larger than the stack), skips and depths; synchronous and asynchronous signals arriving at arbitrary points (including inside malloc); the C and the C++ variant.",
  "The existing tests never look past the end of the buffer, never count allocations, and never take the trace from a handler; only a demo program does.",
  ["src/unwind/unwind_with_libunwind.cpp", "src/cpptrace.cpp", "src/ctrace.cpp", "src/binary/safe_dl.cpp"],
  [("safe_capture_frames", "src/unwind/unwind_with_libunwind.cpp"), ("safe_generate_raw_trace / ctrace_safe_generate_raw_trace", "src/cpptrace.cpp, src/ctrace.cpp"),
   ("get_safe_object_frame and safe_object_frame::resolve", "src/binary/safe_dl.cpp, src/cpptrace.cpp, src/binary/object.cpp")])

p("P04", "Addresses map to the object that contains them, with its file-relative address",
  "For every code address that lies in a loaded executable or shared object, the object trace names that object's file and gives as object address the address the object file itself uses for that location, independent of where it was loaded. "
  "An address outside every loaded object yields an empty path and object address 0, and each frame always keeps the raw address it was asked about. "
  "The ordinary lookup, the signal-safe lookup and the C lookup agree with each other and stay right as objects are loaded and unloaded.",
  ["inputs", "histories", "configurations"],
  "All addresses (inside every segment of every loaded object, at their borders, unmapped) x load layouts (PIE, non-PIE, prelinked base, shared objects with unusual segment layout) x dlopen/dlclose histories x lookup mechanisms.",
  "The tests look up three addresses of the test executable itself; no other object, border, foreign address, non-zero link base or load history.",
  ["src/binary/object.cpp", "src/binary/module_base.cpp", "src/binary/safe_dl.cpp"],
  [("_dl_find_object and dladdr1 lookups", "src/binary/object.cpp:get_frame_object_info"), ("load base of an object file", "src/binary/module_base.cpp:get_module_image_base"),
   ("safe lookup", "src/binary/safe_dl.cpp:get_safe_object_frame"), ("resolve_safe_object_frame", "src/binary/object.cpp")])

p("P05", "Resolution is one-to-one, order-preserving, context-free and always finishes",
  "Resolving any list of frame addresses, of any length and from any mix of objects, yields, without debug-info inlining, exactly one resolved frame per input in input order, each carrying its input's raw and object address, and what a frame resolves to depends only on that address and not on its neighbours, its position, repetitions or the trace length. "
  "Resolving via the object trace, directly from the raw trace, or via the C interface gives the same frames. "
  "Resolution always terminates and leaves behind no open file descriptors and no child processes.",
  ["inputs", "histories", "configurations"],
  "All multisets and permutations of addresses (valid, unknown, data, null, mid-function), sizes from 0 to tens of thousands, repeated resolutions, on the addr2line, libdl, libbacktrace and no-symbols back ends.",
  "The tests resolve only traces of a handful of frames just captured from the running program; they never permute, repeat, mix in foreign addresses or scale.",
  ["src/symbols/symbols_core.cpp", "src/symbols/symbols_with_addr2line.cpp", "src/symbols/symbols_with_dl.cpp", "src/symbols/symbols_with_libbacktrace.cpp", "src/cpptrace.cpp"],
  [("grouping of frames by object and writing back by reference", "src/symbols/symbols_core.cpp:collate_frames"), ("helper process pipes", "src/symbols/symbols_with_addr2line.cpp:resolve_addresses"),
   ("per-frame resolution", "src/symbols/symbols_with_dl.cpp, src/symbols/symbols_with_libbacktrace.cpp"), ("backend dispatch", "src/symbols/symbols_core.cpp:resolve_frames")])

p("P06", "Resolved frames name the true function, file and line of each call",
  "For a program built with debug information and no inlining, every frame of a resolved trace taken anywhere in it names the function that was executing, its source file, and the line of the call in progress in that function. "
  "This holds for the main program and for shared objects, and for debug-free back ends at least the function name of an exported function is right.",
  ["programs", "configurations"],
  "All programs: generated call graphs with free functions, namespaces, methods, templates, lambdas, static/extern linkage, multi-line call expressions, several translation units and shared objects, gcc and clang, PIE and non-PIE.",
  "The tests check one three-function chain in one file, in the test binary itself.",
  ["src/symbols/symbols_with_addr2line.cpp", "src/symbols/symbols_with_dl.cpp", "src/symbols/symbols_with_libbacktrace.cpp", "src/demangle/demangle_with_cxxabi.cpp", "src/binary/object.cpp"],
  [("update_trace: parsing of the helper's answers", "src/symbols/symbols_with_addr2line.cpp:update_trace"), ("object address computation", "src/binary/object.cpp"),
   ("capture minus-one rule (line of the call, not of the return)", "src/unwind/*")])

p("P07", "Misbehaviour of the external symbol helper is contained",
  "Whatever the addr2line helper process does, whether it is missing, fails, exits early, answers too few or too many lines, or prints malformed, blank, huge or binary lines, resolving terminates, never crashes, kills or corrupts the host program, and keeps every frame with its raw and object address. "
  "Each well-formed answer is attributed to exactly the frame it answers: function, file and line as printed, with unknown markers becoming empty fields.",
  ["inputs", "fault_sequences"],
  "All byte sequences a helper may print and all exit, stall-free and early-close behaviours, for traces of any size.",
  "The tests only run the real addr2line on the test binary; malformed or partial answers never occur.",
  ["src/symbols/symbols_with_addr2line.cpp", "src/utils/utils.hpp"],
  [("answer parsing", "src/symbols/symbols_with_addr2line.cpp:update_trace"), ("pipe/fork/exec protocol", "src/symbols/symbols_with_addr2line.cpp:resolve_addresses"), ("split/trim", "src/utils/utils.hpp")])

p("P08", "Formatter output is exactly what the options and the frames prescribe",
  "For every stack trace and every combination of formatter options (header, addresses none/raw/object, path mode, symbol mode, columns, snippets, line breaks before file names, hiding of exception machinery, filter, placeholders for filtered frames, transform, color), the formatted text consists of the header, one line per frame in order carrying frame number, address or inlined marker, symbol and location, and nothing else. "
  "Frames rejected by the filter appear as numbered placeholders or vanish according to the option, every kept frame keeps its own number, and the transform is applied to each frame before the filter.",
  ["inputs", "configurations"],
  "All traces (any field present or absent, empty or arbitrary text, inline frames, any length) x all option combinations x filters and transforms.",
  "The tests check about a dozen hand-picked option settings on a fixed four-frame trace and rarely combine two options.",
  ["src/formatting.cpp", "include/cpptrace/formatting.hpp"],
  [("format_frame, write_trace", "src/formatting.cpp:formatter::impl"), ("option setters", "src/formatting.cpp:formatter")])

p("P09", "All output sinks and spellings produce the same text; color only adds escapes",
  "For one trace, frame and formatter, format() to a string, print() to a stream or to a C FILE, the frame and trace to_string members, stream insertion and the std::format support give the same text up to a single final newline of print(). "
  "Color adds only ANSI escape sequences, so that removing them gives the uncolored text; color is used exactly when the color mode and the explicit color argument call for it, the explicit argument overriding the configured mode, and automatic mode never colors a non-terminal.",
  ["inputs", "configurations"],
  "All traces x formatter options x sinks (string, ostream, FILE*, operator<<, std::formatter, default formatter) x color argument, mode and environment.",
  "The tests exercise format() and one print() overload on a few traces; the other sinks, and the color argument against color modes, are never compared.",
  ["src/formatting.cpp", "src/cpptrace.cpp", "include/cpptrace/basic.hpp", "include/cpptrace/io.hpp", "src/platform/platform.hpp"],
  [("should_do_color / maybe_ensure_virtual_terminal_processing", "src/formatting.cpp"), ("stacktrace::print, to_string, operator<<", "src/cpptrace.cpp"), ("std::formatter specialisations", "include/cpptrace/io.hpp")])

p("P10", "Formatters behave as independent values",
  "A formatter behaves as a value: copying, moving, self-assigning and reconfiguring formatters in any order leaves each live formatter formatting exactly as its own history of setter calls says, with no effect on any other formatter and no memory error. "
  "Formatting does not change a formatter or the trace it formats, and a later setter overrides an earlier one for the same option.",
  ["histories"],
  "All sequences of construct, copy, move, assign (also to itself), set, format over a pool of formatters.",
  "No test copies, moves or reassigns a formatter at all beyond building one with chained setters.",
  ["src/formatting.cpp", "include/cpptrace/formatting.hpp"],
  [("pimpl copy/move/assign", "src/formatting.cpp:formatter")], state=[("options", "the option record owned by each formatter")])

p("P11", "Source snippets show exactly the requested lines around the target",
  "For any text file, line, column and context size, the snippet lists, in order and with right-aligned line numbers, exactly the file's lines from context lines before to context lines after the target, clipped to the file and without blank lines at either end, marks the target line, and places the column caret under the target column. "
  "A file that cannot be read or a line outside the file gives no snippet and never an error, whatever was requested before.",
  ["inputs", "histories"],
  "All file contents (empty, no final newline, CRLF, long and binary lines), all line/column/context values including 0, past the end and extreme ones, color on and off, any sequence of requests.",
  "One test renders one snippet from the test source itself; no borders, odd files or extreme values.",
  ["src/snippets/snippet.cpp", "src/formatting.cpp"],
  [("get_snippet and line table", "src/snippets/snippet.cpp"), ("snippet options of the formatter", "src/formatting.cpp")], state=[("snippet file cache", "line tables of files read so far")])

p("P12", "Type prettification rewrites only known spellings and keeps everything else",
  "Prettifying a demangled type or symbol name replaces exactly the known library spellings (char string and string_view instantiations, default allocator and deleter arguments, the __cxx11 inline namespace, anonymous-namespace spellings, class/struct keywords, spacing of commas and closing brackets) and leaves every other character untouched, at every nesting depth; prettifying the result again changes nothing more. "
  "Over arbitrary text of up to some kilobytes it never fails, always terminates and always gives the same answer for the same text.",
  ["inputs"],
  "All demangled type and symbol names built from standard containers, strings and user types, nested to any depth; arbitrary text up to a few kilobytes (std::regex recursion makes very long whitespace runs a toolchain matter).",
  "About a dozen fixed strings are tested; nesting, unbalanced brackets and non-matching lookalikes are not.",
  ["src/utils.cpp", "src/utils/replace_all.cpp", "src/formatting.cpp"],
  [("prettify_type / prettify_symbol rule lists", "src/utils.cpp, src/demangle"), ("replace_all, replace_all_dynamic, replace_all_template", "src/utils/replace_all.cpp")])

p("P13", "Symbol pruning returns the qualified function name and is total",
  "Pruning a demangled function signature returns just the qualified name of the function, without return type, parameter list, cv/ref qualifiers, clone suffixes or template argument lists, for any combination of namespaces, templates, operators, conversion operators, lambdas, anonymous namespaces and local entities. "
  "For arbitrary other text, including deeply nested text, it never reads outside the input, never fails, always finishes, and returns non-empty text that is no longer than the input (empty only for empty input).",
  ["inputs"],
  "All strings, and all demangled C++ function signatures from the Itanium demangler.",
  "A fixed list of about 50 symbols is tested; grammar combinations and malformed input are not.",
  ["src/prune_symbol.cpp"],
  [("recursive descent parser over demangled names", "src/prune_symbol.cpp:symbol_parser"), ("prune_symbol", "src/prune_symbol.cpp")])

p("P14", "Demangling equals the platform ABI's demangler and is total",
  "Demangling any valid mangled C++ symbol gives the platform ABI demangler's result, with a trailing suffix that linkers or compilers append kept visible, and any other text comes back unchanged. "
  "It never fails, crashes or leaks, whatever bytes it is given.",
  ["inputs"],
  "All strings: valid Itanium manglings of generated declarations, mutated manglings, suffixed ones (.clone, @version), arbitrary text.",
  "The tests demangle four fixed symbols.",
  ["src/demangle/demangle_with_cxxabi.cpp", "src/cpptrace.cpp", "src/demangle/demangle_with_nothing.cpp"],
  [("demangle", "src/demangle/demangle_with_cxxabi.cpp")])

p("P15", "A caught exception's trace is the throw site's call stack",
  "Inside a handler of a tracing try block, the current-exception trace, resolved or raw, is the call stack that was active where the exception just caught was thrown (after the runtime's own frames: starting at the throwing function), complete up to the thread's outermost frame. It stays current until a tracing block of the same thread catches the next exception. "
  "This holds for every exception type, for catch-all handlers, across intervening try blocks, in destructors (also of static and thread_local objects), in nested handlers and several threads, and a block whose handlers do not match captures nothing and does not disturb the trace an outer block reports.",
  ["programs", "histories"],
  "All exception programs: nesting of tracing and plain try blocks, exception types matched exactly, by base, by catch-all, or not at all, throws from handlers and destructors, repeated throws at different depths, all macro and functional spellings.",
  "Tests cover a handful of fixed shapes with one throw each; histories (several throws, non-matching blocks, destructors) are barely sampled.",
  ["src/from_current.cpp", "include/cpptrace/from_current.hpp", "include/cpptrace/from_current_macros.hpp"],
  [("type_info interception (can_catch override)", "src/from_current.cpp"), ("unwind interceptor and trace hand-off", "src/from_current.cpp, include/cpptrace/from_current.hpp")],
  state=[("thread-local current and saved exception traces", "what from_current_exception returns")])

p("P16", "Tracing try blocks do not change what the program does",
  "Replacing plain try/catch by the library's tracing try blocks leaves control flow unchanged: the same handler runs with the same exception object, uncaught exceptions propagate to the same place, values and control transfers out of the blocks work, destructors run in the same order, and std::current_exception and std::uncaught_exceptions report the same. "
  "It holds for every handler type list and order, nested and sequential blocks, rethrows, and exceptions thrown by handlers.",
  ["programs"],
  "All programs over try/catch trees with random exception types, handler lists, handlers that throw, rethrow, return or continue, in macro and functional spelling, gcc and clang.",
  "Tests fix one or two shapes for each macro and compare no event sequence with plain try/catch.",
  ["include/cpptrace/from_current.hpp", "include/cpptrace/from_current_macros.hpp", "src/from_current.cpp"],
  [("CPPTRACE_TRY/CATCH macro families", "include/cpptrace/from_current_macros.hpp"), ("try_catch", "include/cpptrace/from_current.hpp"), ("interceptor type matching", "src/from_current.cpp")])

p("P17", "Rethrow traces are kept separately from the original throw's trace",
  "After an exception handled by a tracing block is rethrown through the library's rethrow facility and caught again by a tracing block, the original trace is still the one of the first throw (unless another exception was caught by a tracing block in between) and the rethrow trace is that of the last rethrow site, and the program can tell that a rethrow happened. "
  "A fresh throw afterwards, on the same thread, starts over: its trace is its own and no stale rethrow trace is reported.",
  ["programs", "histories"],
  "All chains of throw, catch, library rethrow and plain rethrow, interleaved with unrelated throws and handled exceptions.",
  "Two or three fixed rethrow shapes are tested; longer chains and interleavings with new exceptions are not.",
  ["src/from_current.cpp", "include/cpptrace/from_current.hpp"],
  [("saved_rethrow_trace handling", "src/from_current.cpp"), ("cpptrace::rethrow overloads", "include/cpptrace/from_current.hpp, src/from_current.cpp")],
  state=[("current and rethrow traces", "per-thread traces")])

p("P18", "All functions are usable from many threads at once",
  "Any functions of the library, other than those documented as unsafe, may run concurrently in any number of threads without data races, crashes or deadlock, and each thread gets the results it would get alone. "
  "In particular capture and current-exception traces are those of the calling thread only, and resolving, formatting, demangling, settings and log callback changes, JIT registrations and object loading by others do not corrupt them. "
  "(One mutable object used by several threads at once, such as a traced exception or a formatter being configured, is the caller's to guard, as are JIT objects freed while in use.)",
  ["schedules", "histories"],
  "All interleavings of random operation sequences per thread over capture, resolve, format, snippets, traced exceptions, settings, module loading.",
  "The existing tests are single-threaded apart from one from_current check.",
  ["src/from_current.cpp", "src/symbols/symbols_core.cpp", "src/binary/object.cpp", "src/snippets/snippet.cpp", "src/options.cpp", "src/formatting.cpp", "src/jit/jit_objects.cpp", "src/logging.cpp"],
  [("cache mutexes", "src/binary/module_base.cpp, src/snippets/snippet.cpp, src/symbols"), ("atomics for settings", "src/options.cpp"), ("thread_local traces", "src/from_current.cpp")],
  state=[("process-wide caches and settings", "shared between threads")])

p("P19", "Traced exception objects report their message and construction trace faithfully",
  "Every exception object of the library reports through message() and trace() exactly the given message and the call stack of its construction, resolved lazily at most once, and what() is the message followed by that trace, stable over repeated calls. "
  "Copies, moves and assignments in any order and at any stage of laziness keep reporting the same, wrapped and nested exceptions keep their parts, and nothing depends on when or whether the trace was resolved.",
  ["histories", "inputs"],
  "All sequences of construct, copy, move, assign (also to itself), query over all exception classes; arbitrary messages; lazy_trace_holder state machine; wrapping arbitrary exceptions.",
  "Tests construct two or three exceptions and query each once.",
  ["src/exceptions.cpp", "include/cpptrace/exceptions.hpp", "include/cpptrace/exceptions_macros.hpp"],
  [("lazy_trace_holder union", "src/exceptions.cpp"), ("exception classes", "include/cpptrace/exceptions.hpp"), ("rethrow_and_wrap_if_needed, nested_exception", "src/exceptions.cpp"), ("CPPTRACE_WRAP macros", "include/cpptrace/exceptions_macros.hpp")],
  state=[("lazy_trace_holder state", "raw or resolved trace")])

p("P20", "The terminate handler reports the reason with a trace and then aborts",
  "With the library's terminate handler installed, every path to termination prints to standard error a description of the reason (exception type and message where there is one) followed by a stack trace, and then the process dies by SIGABRT. "
  "For a library exception the trace printed is the one the exception carries; for anything else it is the stack at termination. The report never fails to appear because of the exception's type or content.",
  ["programs", "inputs"],
  "All causes of termination (uncaught exceptions of library, std, user non-std and fundamental types, in main or in a thread, noexcept violation, explicit terminate, during unwinding) and all message texts.",
  "No automated test runs the terminate handler: it ends the process.",
  ["src/exceptions.cpp", "src/cpptrace.cpp", "src/platform/exception_type.hpp"],
  [("terminate_handler", "src/exceptions.cpp or src/cpptrace.cpp"), ("exception type name lookup", "src/platform/exception_type.hpp")])

p("P21", "The C interface is equivalent to the C++ interface",
  "For every operation the C interface offers, its result carries the same data as the corresponding C++ operation on the same input: frame counts and order, raw and object addresses, object paths, symbols, file names, lines, columns, inline flags and printed text. "
  "Absent line or column information is the documented sentinel, and settings made through either interface act on both.",
  ["inputs", "configurations", "histories"],
  "All traces (captured or hand-made, any fields absent) x all C functions x options.",
  "The C tests check one captured trace's first frames and never compare with the C++ results.",
  ["src/ctrace.cpp", "include/ctrace/ctrace.h"],
  [("conversion in both directions", "src/ctrace.cpp:c_convert, cpp_convert"), ("print/to_string", "src/ctrace.cpp")])

p("P22", "C interface objects have clear ownership, and empty or null input is harmless",
  "Every object returned by the C interface stays valid and unchanged until it is freed, independent of the objects it was made from, and freeing each once releases all its memory. "
  "Freeing resets the object so that freeing it again does nothing, every function accepts empty traces, empty strings and null sub-pointers of a trace without error, and no exception ever crosses the interface.",
  ["histories", "inputs"],
  "All sequences of create, convert, copy, print and free calls over a pool of C objects, including empty and partially null ones, and any order of freeing.",
  "The tests free a few objects once and only observe no crash; no memory accounting, ordering or null fields.",
  ["src/ctrace.cpp"],
  [("owning strings, ctrace_free_*", "src/ctrace.cpp"), ("noexcept boundary", "src/ctrace.cpp")])

p("P23", "Internal failures are absorbed or reported exactly as configured",
  "With absorption of internal errors on (the default), no tracing operation throws, whatever fails beneath it: memory exhaustion, unreadable or corrupt object files, missing helpers, exhausted descriptors; the caller gets a valid, possibly emptier, result. "
  "With absorption off, internal failures reach the caller as exceptions or, where the operation can go on without the lost part or must not throw (traced exceptions, current-exception traces), as logged errors. "
  "Either way the library stays usable: once the fault is gone, results are as if it had never happened. (Functions that return text or look up a single frame's object may throw std::bad_alloc, and formatted text may be cut short, when memory for it runs out.)",
  ["fault_sequences", "configurations"],
  "All fault points (each n-th allocation, descriptor or process creation failing) x all tracing operations x absorption on and off, followed by fault-free operation.",
  "The tests inject no fault at all.",
  ["src/cpptrace.cpp", "src/options.cpp", "src/ctrace.cpp", "src/exceptions.cpp"],
  [("catch (...) with should_absorb_trace_exceptions", "src/cpptrace.cpp, src/exceptions.cpp, src/formatting.cpp"), ("Result propagation", "src/binary, src/symbols")])

p("P24", "Log messages reach the callback exactly when their level is enabled",
  "Every internal diagnostic is delivered once, with its level, to the configured callback exactly when its level is at or above the configured level; after changing the level or callback the new setting applies to every later message. "
  "Logging never changes results, writes nothing anywhere when a callback is set or the level suppresses it, and the log level names and default are as documented.",
  ["histories", "configurations"],
  "All sequences of level and callback changes interleaved with operations that fail in different ways.",
  "No test covers logging beyond compilation.",
  ["src/logging.cpp", "src/logging.hpp", "src/options.cpp"],
  [("log::log_* and current level", "src/logging.cpp"), ("set_log_level, set_log_callback, use_default_stderr_logger", "src/logging.cpp")],
  state=[("log level and callback", "process-wide settings")])

p("P25", "Symbols and load base read from ELF images are those the file encodes",
  "For every well-formed ELF image of either word size and byte order, on disk or in memory, opening it reports the load base of its first loadable segment, its program counter ranges and symbol tables as encoded, and looking up an address returns the name of the symbol whose extent contains it, from the full or the dynamic symbol table, and nothing for an address no symbol covers.",
  ["inputs"],
  "All well-formed ELF images: 32/64-bit, little/big-endian, any numbers and order of sections, segments and symbols, missing tables, zero-size and adjacent symbols.",
  "The repository's tests only ever open the ELF file of the test binary, and one emitted object.",
  ["src/binary/elf.cpp", "src/binary/elf.hpp", "src/utils/io/file.cpp", "src/utils/io/memory_file_view.cpp"],
  [("header/section/program-header loading", "src/binary/elf.cpp"), ("lookup_symbol, get_symtab_entries, get_pc_ranges, get_module_image_base", "src/binary/elf.cpp")])

p("P26", "Damaged object images never crash, hang or exhaust the process",
  "Opening and querying any byte sequence as an object file or in-memory image, truncated, corrupted or adversarial, returns a result or an error value; it never reads outside the image, overflows, hangs, or allocates without bound, and never corrupts later queries on intact images.",
  ["inputs"],
  "All byte sequences, in particular every truncation and field corruption of valid ELF images.",
  "No test opens a malformed image.",
  ["src/binary/elf.cpp", "src/utils/io/memory_file_view.cpp", "src/utils/io/file.cpp"],
  [("bounds checks on reads", "src/utils/io/memory_file_view.cpp"), ("section and string table indices", "src/binary/elf.cpp")])

p("P27", "Registered JIT objects resolve while, and only while, they are registered",
  "An address inside the code of a just-in-time object that is currently registered, directly or through the GDB JIT list, resolves to that object and address, through any history of registering, re-registering, unregistering and clearing of any number of objects. "
  "After an object is unregistered or the set is cleared no lookup refers to it, and invalid registrations are rejected or ignored without affecting the others.",
  ["histories"],
  "All sequences of register, unregister, bulk register from the debug list, clear and lookup, with adjacent, duplicate and malformed objects.",
  "One integration test registers one object once.",
  ["src/jit/jit_objects.cpp", "include/cpptrace/gdb_jit.hpp", "src/cpptrace.cpp"],
  [("jit_object_manager and sorted ranges", "src/jit/jit_objects.cpp"), ("binary search", "src/utils/utils.hpp:first_less_than_or_equal")],
  state=[("JIT object registry", "registered images and their address ranges")])

p("P28", "Caches and their settings change speed, never results",
  "For any sequence of resolutions, the frames produced do not depend on the cache mode in force, on how often and in what order things were resolved before, or on when the cache mode was changed. "
  "The same trace resolved twice gives identical results.",
  ["histories", "configurations"],
  "All sequences of cache mode switches (memory, hybrid, speed), and resolutions, symbolic and object lookups over varied addresses.",
  "Tests set no cache mode and resolve each trace once.",
  ["src/options.cpp", "src/binary/module_base.cpp", "src/binary/elf.cpp", "src/symbols/symbols_core.cpp", "src/symbols/symbols_with_addr2line.cpp"],
  [("mode checks around caches", "src/binary/module_base.cpp, src/binary/elf.cpp, src/symbols/*")], state=[("object, module base and symbol caches", "process-wide")])

p("P29", "The bounded cache is a least-recently-used map",
  "The bounded cache behaves as a map limited to its capacity that evicts the least recently touched entry: an inserted entry is found with its latest value until it is evicted, size never exceeds the capacity, and changing the capacity evicts exactly the oldest surplus, for every operation sequence. "
  "Without a capacity it never evicts.",
  ["histories"],
  "All sequences of set, insert, get, touch and capacity changes over any keys.",
  "The unit tests run five short fixed sequences.",
  ["src/utils/lru_cache.hpp"],
  [("list plus index map", "src/utils/lru_cache.hpp")], state=[("recency list", "entries from newest to oldest")])

p("P30", "Optional values and result carriers keep their value semantics",
  "Optional integers and the library's optional and result types hold and return exactly the value or emptiness last given to them through any sequence of construction, copy, move, assignment (also to itself), swap, reset and comparison, destroying every held object exactly once. "
  "An optional integer is empty only if it was never given a value, was reset, or was given the reserved maximum, and comparisons and value_or agree with that.",
  ["histories", "inputs"],
  "All operation sequences over all value types (trivial, owning, reference), all integer values except the documented reserved one.",
  "The tests exercise about ten fixed sequences with int and string.",
  ["include/cpptrace/utils.hpp", "include/cpptrace/basic.hpp", "src/utils/optional.hpp", "src/utils/result.hpp"],
  [("nullable", "include/cpptrace/basic.hpp"), ("optional", "src/utils/optional.hpp"), ("Result", "src/utils/result.hpp")])

p("P31", "Internal text formatting and parsing helpers agree with their reference meaning",
  "The library's internal formatting, splitting, trimming, joining, byte-swapping, text-view and bounded-search helpers compute, for every input, the same as the corresponding standard facilities: widths, alignment, bases and extreme integers are rendered right, and views never reach outside their text.",
  ["inputs"],
  "All inputs of each helper, including empty text, extreme integers, widths and positions at and beyond the end.",
  "Fixed examples only; extremes such as the minimum integer, blank text and positions past the end are not tried.",
  ["src/utils/microfmt.hpp", "src/utils/utils.hpp", "src/utils/string_view.cpp", "src/utils/string_view.hpp", "src/utils/span.hpp"],
  [("microfmt::format", "src/utils/microfmt.hpp"), ("split, trim, join, to_hex, n_digits, byteswap", "src/utils/utils.hpp"), ("string_view", "src/utils/string_view.cpp")])

p("P32", "Debug information is read directly with inlined calls expanded",
  "When the library reads debug information itself (its default back end), each physical frame gets the function, file, line and column the debug information gives for its address, accompanied by one marked frame per inlined call at that location, innermost first, each with its own function, call file and line. "
  "However the information is laid out (versions 2 to 5, nested scopes, separate ranges, split units, references between entries), the cache mode, its changes over time, address tables, table cache limits and what was resolved before never change an answer. "
  "Missing or damaged information, or a failure while reading, costs at most details of the frames concerned: every frame is still there with its addresses, and later and other frames are right. Everything taken from the debug information library is given back, once.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "All debug information (units of versions 2 to 5, split units, type and partial units, entry trees, range lists, line tables, aranges) x all histories of resolutions under any cache mode, limits and settings x any call of the debug information library failing.",
  "The back end is not even compiled here, and its tests compare a few fixed inline chains in one cache mode.",
  ["src/symbols/symbols_with_libdwarf.cpp", "src/symbols/dwarf/dwarf_resolver.cpp", "src/symbols/dwarf/dwarf.hpp", "src/symbols/dwarf/dwarf_utils.hpp"],
  [("dwarf_resolver", "src/symbols/dwarf/dwarf_resolver.cpp"), ("range lists and references", "src/symbols/dwarf/dwarf.hpp"), ("line tables and range maps", "src/symbols/dwarf/dwarf_utils.hpp"), ("collation with other back ends", "src/symbols/symbols_with_libdwarf.cpp")])

p("P33", "The library leaves the host process's state alone and does not depend on it",
  "Apart from what an operation is asked to do, using the library changes nothing a host program can observe in its process: signal actions and masks, descriptors and their flags, children, working directory, environment, umask, limits, timers, C and C++ locales, runtime handlers, and the formatting settings of streams it prints to all stay as they were. "
  "Conversely the results do not depend on such state: working directory, locale (also digit grouping), blocked, ignored or handled signals, closed standard input, environment, rounding mode and the stream's own number formatting have no influence on what is captured, resolved or printed.",
  ["inputs", "histories", "configurations"],
  "All sequences of library operations x all settings of the process state before them x addr2line, libdl, libbacktrace and no-symbols back ends.",
  "No test looks at process state or changes it before using the library.",
  ["src/symbols/symbols_with_addr2line.cpp", "src/formatting.cpp", "src/snippets/snippet.cpp", "src/cpptrace.cpp", "src/from_current.cpp", "src/utils/utils.cpp"],
  [("helper process: pipes, fork, wait", "src/symbols/symbols_with_addr2line.cpp:resolve_addresses"), ("writing to the caller's stream", "src/formatting.cpp"), ("number formatting", "src/utils/microfmt.cpp, src/utils/utils.cpp")])

p("P34", "Traces and frames are plain values",
  "Raw, object and resolved traces and their frames are independent values: iterating a trace through any of its iterators visits exactly its frames, in order and in place, empty() and clear() mean what they say, changing, moving or clearing one trace affects no other, and two resolved frames are equal exactly when their addresses, line, column, file name and symbol are.",
  ["inputs", "histories"],
  "All frames and traces with any fields absent or arbitrary, modified in any fields, copied, moved, assigned and cleared.",
  "Tests only iterate traces they captured and never compare, clear or copy them.",
  ["include/cpptrace/basic.hpp", "src/cpptrace.cpp"],
  [("trace iterators and frame comparison", "include/cpptrace/basic.hpp"), ("clear, empty", "src/cpptrace.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
for x in P: assert len(x["title"]) <= 80, x["title"]
print(len(P))
