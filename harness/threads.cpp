// P18: several threads run generated lists of operations at once; each has to get what it gets alone. In the TSan
// build, any data race between them is a failure, too.
#include "vt.hpp"
#include "fixture.hpp"
#include "elfgen.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include "logging.hpp"
#include "jit/jit_objects.hpp"
#include "snippets/snippet.hpp"

#include <array>
#include <atomic>
#include <dlfcn.h>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <unistd.h>

using vt::Case;
using vt::u64;
using Ptr = cpptrace::frame_ptr;
#define NI __attribute__((noinline))
namespace {
enum Op { RAW, TRACE, OBJECTS, RESOLVE, OBJECT_INFO, FORMAT, TEXTS, EXCEPTION, CURRENT, RETHROW, NESTED, LOG_LEVEL, LOG_CALLBACK, LOG, SETTINGS, CACHE_MODE, JIT, MODULE, C_TRACE, SNIPPET, JIT_CLEAR, DEFAULT_FORMAT, OPS };
const char* const op_names[] = {"raw capture", "capture and resolve", "object trace", "resolve", "object info", "format", "names", "traced exception", "current exception's trace", "rethrow", "nested exception", "log level", "log callback", "log message", "settings", "cache mode",
    "jit object", "load module", "C trace", "snippet", "forget jit objects", "default formatter"};
struct Step { int op; unsigned a, b; std::vector<Ptr> addresses; };

struct Shared {
    std::string files[2], libs[6];
    std::unique_ptr<cpptrace::formatter> formatters[3];
    std::vector<std::string> objects; // jit objects, one each
    std::vector<u64> pcs;
    bool clears = false;
    std::atomic<u64> messages{0};
};
Shared* sh;
struct BigSink { std::array<char, 200> ballast; void operator()(cpptrace::log_level, const char* m) const { sh->messages += std::strlen(m) + unsigned(ballast[7]); } };

std::string hex(Ptr p) { char b[24]; std::snprintf(b, sizeof b, "%#llx", (unsigned long long)p); return b; }
std::string text(const cpptrace::raw_trace& t, std::size_t most) { std::string s; for(std::size_t i = 0; i < t.frames.size() && i < most; i++) s += hex(t.frames[i]) + " "; return s; }
std::string text(const cpptrace::stacktrace& t, std::size_t most) {
    std::string s;
    for(std::size_t i = 0; i < t.frames.size() && i < most; i++) { auto& f = t.frames[i]; s += hex(f.raw_address) + "|" + hex(f.object_address) + "|" + f.symbol + "|" + f.filename + "|" + (f.line.has_value() ? std::to_string(f.line.value()) : "-") + "\n"; }
    return s;
}
struct Small { int x; };
NI std::string run_step(const Step& s, unsigned me);
NI std::string deeper(const Step& s, unsigned me, unsigned depth) { std::string r = depth ? deeper(s, me, depth - 1) : run_step(s, me); asm volatile("" ::: "memory"); return r; }
NI void throw_at(unsigned depth, int x) { if(depth) { throw_at(depth - 1, x); asm volatile(""); return; } throw Small{x}; }

NI std::string run_step(const Step& s, unsigned me) {
    using namespace cpptrace;
    switch(s.op) {
        case RAW: { auto t = s.b & 1 ? generate_raw_trace() : raw_trace::current(s.b & 2 ? 1 : 0); return text(t, 200); }
        case TRACE: { auto t = stacktrace::current(0, 3); return text(t, 3); }
        case OBJECTS: { auto t = generate_object_trace(0, 5); std::string r; for(auto& f : t.frames) r += hex(f.raw_address) + "|" + hex(f.object_address) + "|" + f.object_path + "\n"; return r; }
        case RESOLVE: return text(raw_trace{s.addresses}.resolve(), 100);
        case OBJECT_INFO: {
            std::string r;
            for(auto a : s.addresses) { safe_object_frame f; get_safe_object_frame(a, &f); auto o = f.resolve(); r += hex(o.object_address) + "|" + o.object_path + "\n"; }
            for(auto& f : raw_trace{s.addresses}.resolve_object_trace().frames) r += hex(f.object_address) + "|" + f.object_path + "\n";
            return r;
        }
        case FORMAT: case DEFAULT_FORMAT: {
            stacktrace t;
            for(unsigned k = 0; k < 1 + s.a % 3; k++) t.frames.push_back({0x1000 + k + s.b, 0x10 + k, 2 + k, 3, sh->files[k % 2], k % 2 ? "std::vector<std::string, std::allocator<std::string> >::push_back(int)" : "void ns::f<int>(int, char)", k == 2});
            if(s.op == DEFAULT_FORMAT) { std::ostringstream o; t.print(o, s.b & 1); o << t; t.print_with_snippets(o); return o.str() + t.to_string(true); }
            auto& f = *sh->formatters[s.a % 3];
            std::ostringstream o;
            f.print(o, t, s.b & 1);
            return f.format(t) + o.str() + f.format(t.frames[0], true);
        }
        case TEXTS: {
            static const char* names[] = {"_ZN2ns1fISt6vectorIiSaIiEEEEvT_", "void f<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >(int)", "a::b<c>::operator()(int) const", "_Z1fi", "int g(std::unique_ptr<A, std::default_delete<A> >)"};
            std::string n = names[s.a % 5];
            return demangle(n) + "|" + prune_symbol(n) + "|" + prettify_symbol(n) + "|" + basename("/a/b" + std::to_string(s.b)) + (cpptrace::isatty(0) ? "" : "");
        }
        case EXCEPTION: {
            std::string r;
            try {
                if(s.a & 1) throw logic_error("one " + std::to_string(s.b), generate_raw_trace(0, 4));
                throw cpptrace::system_error(int(s.b % 40), "two", generate_raw_trace(0, 4));
            } catch(cpptrace::exception& e) {
                r = e.what();
                r += std::string("|") + e.message() + "|" + text(e.trace(), 4);
            }
            return r;
        }
        case NESTED: {
            std::string r;
            try { CPPTRACE_WRAP_BLOCK( throw_at(s.a % 3, int(s.b)); ); }
            catch(cpptrace::exception& e) { r = std::string(e.message()) + text(e.trace(), 4); }
            return r;
        }
        case CURRENT: {
            std::string r;
            CPPTRACE_TRY { throw_at(s.a % 4, int(s.b)); } CPPTRACE_CATCH(const Small& x) { r = std::to_string(x.x) + " " + (s.a & 8 ? text(raw_trace_from_current_exception(), 200) : text(from_current_exception(), s.a % 4 + 2)); }
            return r;
        }
        case RETHROW: {
            std::string r;
            CPPTRACE_TRY {
                CPPTRACE_TRY { throw_at(s.a % 4, int(s.b)); } CPPTRACE_CATCH(const Small&) { std::this_thread::yield(); cpptrace::rethrow(); }
            } CPPTRACE_CATCH(const Small& x) {
                r = std::to_string(x.x) + (current_exception_was_rethrown() ? " again " : " once ") + text(raw_trace_from_current_exception(), 200) + "/" + text(raw_trace_from_current_exception_rethrow(), 200);
            }
            if(s.b & 1) clear_current_exception_traces();
            return r;
        }
        case LOG_LEVEL: set_log_level(log_level(s.a % 4)); return to_string(log_level(s.a % 4));
        case LOG_CALLBACK: if(s.a & 1) set_log_callback(BigSink{}); else set_log_callback([](log_level, const char* m) { sh->messages += std::strlen(m); }); return "";
        case LOG: if(s.a & 1) detail::log::error("a message {}", s.b); else detail::log::debug("another"); return "";
        case SETTINGS: if(s.a & 1) absorb_trace_exceptions(s.b & 1); else enable_inlined_call_resolution(s.b & 1); return "";
        case CACHE_MODE: experimental::set_cache_mode(cache_mode(s.a % 3)); return "";
        case JIT: {
            auto& o = sh->objects[me];
            register_jit_object(o.data(), o.size());
            std::this_thread::yield();
            std::string r;
            if(sh->clears) detail::lookup_jit_object(1); // whether there is something left is up to the others
            else {
                auto l = detail::lookup_jit_object(sh->pcs[me]);
                r = l.has_value() ? "found " + hex(l.unwrap().base) + " " + l.unwrap().object.lookup_symbol(sh->pcs[me]).value_or("?") : "not found";
            }
            unregister_jit_object(o.data());
            if(!sh->clears) r += detail::lookup_jit_object(sh->pcs[me]).has_value() ? " still there" : " gone";
            return r;
        }
        case JIT_CLEAR: clear_all_jit_objects(); return "";
        case MODULE: {
            auto& p = sh->libs[me];
            void* h = ::dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
            if(!h) return std::string("dlopen: ") + ::dlerror();
            auto f = Ptr(::dlsym(h, "module_function"));
            std::string r;
            raw_trace t{{f, f + 1}};
            auto st = t.resolve();
            #ifdef CPPTRACE_GET_SYMBOLS_WITH_LIBBACKTRACE // which looks for objects when first asked only
            for(auto& x : st.frames) r += hex(x.object_address) + "\n";
#else
            for(auto& x : st.frames) r += hex(x.object_address) + "|" + x.symbol + "|" + x.filename + "\n";
#endif
            for(auto& x : t.resolve_object_trace().frames) r += hex(x.object_address) + "|" + x.object_path + "\n";
            ::dlclose(h);
            return r;
        }
        case C_TRACE: {
            auto t = ctrace_generate_trace(0, 3);
            auto x = ctrace_stacktrace_to_string(&t, 0);
            std::string r = x.data ? x.data : "(null)";
            ctrace_free_owning_string(&x);
            ctrace_free_stacktrace(&t);
            auto d = ctrace_demangle("_ZN1a1bEv");
            r += d.data ? d.data : "(null)";
            ctrace_free_owning_string(&d);
            return r;
        }
        case SNIPPET: return get_snippet(sh->files[s.a % 2], 1 + s.b % 30, nullable<std::uint32_t>{2}, 1 + s.a % 3, s.b & 1);
    }
    return "";
}
NI int target_a(int x) { asm volatile("" : "+r"(x)); return x + 1; }
NI int target_b(int x) { asm volatile("" : "+r"(x)); return x * 3; }

VT_PROP_ISOLATED(concurrent, "two or more threads with operations that share state") {
    static std::string dir = fixture::once_dir("threads", [](const std::string& d) {
        fixture::spit(d + "/m.c", "int module_function(int x) { return x * 3 + 1; }\nint other(int x) { return module_function(x) + 2; }\n");
        std::string cmd = "cd " + d + " && gcc -w -shared -fPIC -g1 -O1 m.c -o m0.so";
        for(int k = 1; k < 6; k++) cmd += " && cp m0.so m" + std::to_string(k) + ".so";
        (void)!std::system(cmd.c_str());
        for(int k = 0; k < 2; k++) { std::string t; for(int l = 1; l < 40; l++) t += "line " + std::to_string(l) + " of " + std::to_string(k) + "\n"; fixture::spit(d + "/f" + std::to_string(k) + ".cpp", t); }
    });
    Shared shared;
    sh = &shared;
    for(int k = 0; k < 2; k++) shared.files[k] = dir + "/f" + std::to_string(k) + ".cpp";
    for(int k = 0; k < 6; k++) shared.libs[k] = dir + "/m" + std::to_string(k) + ".so";
    shared.formatters[0].reset(new cpptrace::formatter(cpptrace::formatter{}.snippets(true)));
    shared.formatters[1].reset(new cpptrace::formatter(cpptrace::formatter{}.symbols(cpptrace::formatter::symbol_mode::pretty).paths(cpptrace::formatter::path_mode::basename).addresses(cpptrace::formatter::address_mode::object)));
    shared.formatters[2].reset(new cpptrace::formatter(cpptrace::formatter{}.symbols(cpptrace::formatter::symbol_mode::pruned).snippets(true).snippet_context(1).columns(false).filtered_frame_placeholders(true).filter([](const cpptrace::stacktrace_frame& f) { return f.line.value_or(0) != 3; })));
    std::size_t n = 2 + c.below(4);
    shared.clears = c.chance(1, 5);
    bool cold = c.flip();
    std::vector<std::vector<Step>> prog(n);
    for(std::size_t t = 0; t < n; t++) {
        eg::Image im;
        im.is64 = true, im.little = true;
        im.base = 0x100000 * (t + 1);
        im.loads.push_back({im.base, 0});
        im.texts.push_back({".text", im.base + 0x100, 0x200});
        im.symtab.present = true;
        eg::Sym y; y.name = "jitted" + std::to_string(t); y.value = im.base + 0x100; y.size = 0x80;
        im.symtab.syms.push_back(y);
        shared.objects.push_back(eg::Writer(im).write());
        shared.pcs.push_back(im.base + 0x110);
        std::size_t k = 1 + c.size(10);
        for(std::size_t i = 0; i < k; i++) {
            Step s{};
#ifdef VT_SLOW
            s.op = int(c.weighted({3, 2, 2, 2, 2, 3, 3, 2, 2, 3, 2, 1, 1, 1, 0, 1, 3, 1, 1, 2, shared.clears ? 1u : 0u, 2}));
#else
            s.op = int(c.weighted({3, 3, 3, 4, 3, 4, 3, 4, 4, 4, 3, 2, 2, 3, 2, 2, 4, 2, 2, 3, shared.clears ? 2u : 0u, 2}));
#endif
            s.a = unsigned(c.below(16)), s.b = unsigned(c.below(64));
            if(s.op == RESOLVE || s.op == OBJECT_INFO) for(std::size_t q = 0; q < 1 + s.a % 4; q++) s.addresses.push_back(c.pick({Ptr(&target_a), Ptr(&target_b), Ptr(&target_b) + 3, Ptr(dlsym(RTLD_DEFAULT, "qsort")), Ptr(5)}));
            prog[t].push_back(std::move(s));
        }
    }
    if(c.want_notes) {
        c.line(cold ? "first together, then alone" : "first alone, then together");
        for(std::size_t t = 0; t < n; t++) { c.note("thread ").note(t).note(":"); for(auto& s : prog[t]) c.note(" ").note(op_names[s.op]).note(" ").note(s.a).note(" ").note(s.b).note(";"); c.line(""); }
    }
    // again and again, as races need luck
#ifdef VT_SLOW
    const int rounds = c.mode == Case::Mode::tape ? 6 : 2;
#else
    const int rounds = c.mode == Case::Mode::tape ? 40 : 8;
#endif
    std::vector<std::vector<std::string>> alone(n);
    std::vector<std::vector<std::vector<std::string>>> together(static_cast<std::size_t>(rounds), std::vector<std::vector<std::string>>(n));
    std::atomic<int> ready{0};
    int wait_for = 0;
    auto body = [&](std::size_t t, std::vector<std::string>* out) {
        ready++;
        while(ready.load() < wait_for) std::this_thread::yield();
        for(auto& s : prog[t]) out->push_back(deeper(s, unsigned(t), s.b % 5));
    };
    auto start = [&](std::size_t t, std::vector<std::string>* out) { return std::thread([&body, t, out] { body(t, out); }); };
    for(int phase = 0; phase < 2; phase++) {
        if((phase == 0) == cold) {
            for(int r = 0; r < rounds; r++) {
                ready = 0, wait_for = int(n);
                std::vector<std::thread> ts;
                for(std::size_t t = 0; t < n; t++) ts.push_back(start(t, &together[std::size_t(r)][t]));
                for(auto& t : ts) t.join();
            }
        } else for(std::size_t t = 0; t < n; t++) { ready = 0, wait_for = 1; start(t, &alone[t]).join(); }
    }
    for(int r = 0; r < rounds; r++) for(std::size_t t = 0; t < n; t++) for(std::size_t i = 0; i < prog[t].size(); i++) {
        auto& got = together[std::size_t(r)][t][i];
        if(got != alone[t][i]) c.fail("thread " + std::to_string(t) + ", operation " + std::to_string(i) + " (" + op_names[prog[t][i].op] + "): got " + vt::quote(got, 1500) + ", alone " + vt::quote(alone[t][i], 1500));
    }
    std::size_t ops = 0;
    for(auto& p : prog) { ops += p.size(); for(auto& s : p) c.event(op_names[s.op]); }
    c.nontrivial(ops >= 4);
}
}
