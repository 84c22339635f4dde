// P21 the C interface says what the C++ interface says; P22 ownership, empty and null input, no exception crosses it
#include "vt.hpp"
#include "fixture.hpp"
#define VT_GEN_C_TEXT
#include "gen.hpp"
#include "allocs.hpp"

#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <ctrace/ctrace.h>
#include "options.hpp"

#include <dlfcn.h>
#include <memory>
#include <new>
#include <pty.h>
#include <sstream>
#include <sys/auxv.h>

#define NOINLINE __attribute__((noinline))
#define KEEP() asm volatile("" ::: "memory")

namespace {
using vt::Case;
using u64 = std::uint64_t;
using Ptr = cpptrace::frame_ptr;
constexpr std::uint32_t absent = 0xffffffffu;

std::string hex(u64 v) { char b[24]; std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
std::string text(const char* s) { return s ? std::string(s) : std::string(); }
std::uint32_t raw(const cpptrace::nullable<std::uint32_t>& v) { return v.has_value() ? v.value() : absent; }

std::string show(const ctrace_stacktrace_frame& f) {
    return "{" + hex(f.raw_address) + " " + hex(f.object_address) + " line " + (f.line == absent ? "-" : std::to_string(f.line)) + " column " + (f.column == absent ? "-" : std::to_string(f.column)) + " " + (f.filename ? vt::quote(f.filename, 200) : "(null)") + " "
        + (f.symbol ? vt::quote(f.symbol, 200) : "(null)") + " inline " + std::to_string(int(f.is_inline)) + "}";
}
std::string show(const ctrace_object_frame& f) { return "{" + hex(f.raw_address) + " " + hex(f.obj_address) + " " + (f.obj_path ? vt::quote(f.obj_path, 200) : "(null)") + "}"; }
std::string show(const cpptrace::object_frame& f) { return "{" + hex(f.raw_address) + " " + hex(f.object_address) + " " + vt::quote(f.object_path, 200) + "}"; }

// does the C frame say what the C++ frame says
void same_frame(Case& c, const ctrace_stacktrace_frame& f, const cpptrace::stacktrace_frame& e, const std::string& what) {
    bool ok = f.raw_address == e.raw_address && f.object_address == e.object_address && f.line == raw(e.line) && f.column == raw(e.column) && f.filename && f.symbol && e.filename == f.filename && e.symbol == f.symbol && f.is_inline == ctrace_bool(e.is_inline);
    if(!ok) c.fail(what + ": the C frame is " + show(f) + ", the C++ frame is " + gen::show(e));
}
void same_trace(Case& c, const ctrace_stacktrace& t, const cpptrace::stacktrace& e, const std::string& what) {
    if(t.count != e.frames.size()) c.fail(what + ": " + std::to_string(t.count) + " frames from C, " + std::to_string(e.frames.size()) + " from C++");
    for(std::size_t i = 0; i < t.count; i++) same_frame(c, t.frames[i], e.frames[i], what + ", frame " + std::to_string(i));
}
void same_object_frame(Case& c, const ctrace_object_frame& f, const cpptrace::object_frame& e, const std::string& what) {
    if(f.raw_address != e.raw_address || f.obj_address != e.object_address || !f.obj_path || e.object_path != f.obj_path) c.fail(what + ": the C frame is " + show(f) + ", the C++ frame is " + show(e));
}
void same_trace(Case& c, const ctrace_object_trace& t, const cpptrace::object_trace& e, const std::string& what) {
    if(t.count != e.frames.size()) c.fail(what + ": " + std::to_string(t.count) + " frames from C, " + std::to_string(e.frames.size()) + " from C++");
    for(std::size_t i = 0; i < t.count; i++) same_object_frame(c, t.frames[i], e.frames[i], what + ", frame " + std::to_string(i));
}

// ------------------------------------------------------------------ addresses
std::string lib_dir() {
    return fixture::once_dir("clibs", [](const std::string& dir) {
        std::string code = "namespace ns { struct S { __attribute__((noinline)) int m(int x) { return x * 3; } }; template<typename T> __attribute__((noinline)) T tmpl(T x) { return x + 1; } static __attribute__((noinline)) int hidden(int x) { volatile int y = x; return y * 2; } }\n"
            "extern \"C\" int centry(int x) {\n  ns::S s;\n  volatile int y = s.m(x);\n  y += ns::tmpl(y);\n  y += ns::hidden(y);\n  return y;\n}\n"
            "extern \"C\" int _Z5_Z1fv(int x) {\n  volatile int y = x;\n  return y + 1;\n}\n"; // a name whose demangling looks mangled
        fixture::spit(dir + "/a.cpp", code);
        (void)!std::system(("cd " + dir + " && (g++ -w -g -O0 -shared -fPIC a.cpp -o liba.so & g++ -w -O1 -shared -fPIC a.cpp -o 'lib b.so' & wait)").c_str());
    });
}
NOINLINE int own_function(int x) { volatile int y = x; return y * 3 + y; }
int some_data;
const std::vector<Ptr>& pool() {
    static std::vector<Ptr> v = [] {
        std::vector<Ptr> r;
        auto around = [&](void* p, std::initializer_list<int> offs) { if(p) for(int o : offs) r.push_back(Ptr(p) + Ptr(std::intptr_t(o))); };
        for(auto n : {"/liba.so", "/lib b.so"}) {
            void* h = ::dlopen((lib_dir() + n).c_str(), RTLD_NOW);
            if(!h) { std::fprintf(stderr, "%s\n", ::dlerror()); _exit(98); }
            for(auto s : {"centry", "_Z5_Z1fv", "_ZN2ns1S1mEi", "_ZN2ns4tmplIiEET_S1_"}) around(::dlsym(h, s), {0, 5, 12});
        }
        around(reinterpret_cast<void*>(&own_function), {0, 4});
        for(auto name : {"__cxa_throw", "_ZSt9terminatev", "__cxa_demangle"}) around(::dlsym(RTLD_DEFAULT, name), {0, 5});
        around(reinterpret_cast<void*>(::getauxval(AT_SYSINFO_EHDR)), {0x600});
        around(&some_data, {0});
        for(Ptr p : {Ptr(0), Ptr(1), Ptr(4096), ~Ptr(0), Ptr(1) << 47, Ptr(0xffffffff80001000u)}) r.push_back(p);
        return r;
    }();
    return v;
}
std::vector<Ptr> address_list(Case& c, std::size_t max) {
    std::size_t n = c.size(max);
    std::vector<Ptr> v;
    for(std::size_t i = 0; i < n; i++) v.push_back(pool()[c.below(pool().size())]);
    return v;
}
std::string show(const std::vector<Ptr>& v) {
    std::string s;
    for(auto p : v) {
        std::size_t k = 0;
        while(k < pool().size() && pool()[k] != p) k++;
        s += (s.empty() ? "" : " ") + std::string("#") + std::to_string(k);
    }
    return s;
}

// ------------------------------------------------------------------ P21 printing
struct CTrace { // a hand-made trace of C frames
    std::vector<ctrace_stacktrace_frame> frames;
    std::vector<std::unique_ptr<std::string>> strings;
    ctrace_stacktrace t{};
    const char* keep(const std::string& s) { strings.emplace_back(new std::string(s)); return strings.back()->c_str(); }
};
void make(CTrace& r, const cpptrace::stacktrace& t, Case& c) {
    for(auto& f : t.frames) {
        ctrace_stacktrace_frame g{};
        g.raw_address = f.raw_address, g.object_address = f.object_address;
        g.line = raw(f.line), g.column = raw(f.column);
        g.filename = f.filename.empty() && c.flip() ? nullptr : r.keep(f.filename);
        g.symbol = f.symbol.empty() && c.flip() ? nullptr : r.keep(f.symbol);
        g.is_inline = f.is_inline;
        r.frames.push_back(g);
    }
    r.t.frames = r.frames.empty() && c.flip() ? nullptr : (r.frames.reserve(1), r.frames.data());
    r.t.count = r.frames.size();
}
std::string written(const std::function<void(std::FILE*)>& f) {
    char* buf = nullptr;
    std::size_t n = 0;
    std::FILE* m = ::open_memstream(&buf, &n);
    f(m);
    std::fclose(m);
    std::string s(buf, n);
    std::free(buf);
    return s;
}
VT_PROP(c_text, "the trace has a frame with a source position") {
    auto t = gen::trace(c);
    CTrace ct;
    make(ct, t, c);
    bool color = c.flip();
    auto use = color ? ctrace_bool(c.pick({1, 2, -1})) : ctrace_bool(0);
    for(auto& f : t.frames) c.nontrivial(!f.filename.empty() && f.line.has_value());
    if(c.want_notes) c.note(gen::show(t)).line("").note("colour ").note(int(use)).note(ct.t.frames ? "" : ", null frame array").line("");
    auto s = ctrace_stacktrace_to_string(&ct.t, use);
    c.check(s.data != nullptr, "ctrace_stacktrace_to_string returned no text");
    std::string got = s.data;
    ctrace_free_owning_string(&s);
    c.eq(got, t.to_string(color), "ctrace_stacktrace_to_string against stacktrace::to_string");
    std::ostringstream o;
    t.print(o, color);
    std::string p = written([&](std::FILE* f) { ctrace_print_stacktrace(&ct.t, f, use); });
    c.eq(p, o.str(), "ctrace_print_stacktrace against stacktrace::print");
}

// ------------------------------------------------------------------ P21 resolution
VT_PROP(c_resolution, "the list has at least two addresses with code") {
    auto list = address_list(c, c.chance(1, 20) ? 300 : 24);
    c.nontrivial(list.size() >= 2);
    if(c.want_notes) c.line("addresses " + show(list));
    std::vector<ctrace_frame_ptr> b(list.begin(), list.end());
    b.reserve(1);
    ctrace_raw_trace rt{b.data(), b.size()};
    cpptrace::raw_trace crt{list};
    bool c_first = c.flip();
    auto inlined = c.pick({0, 1, 2});
    if(inlined) {
        if(c.flip()) ctrace_enable_inlined_call_resolution(inlined == 1); else cpptrace::enable_inlined_call_resolution(inlined == 1);
        c.line(inlined == 1 ? "inlined calls on" : "inlined calls off");
    }
    // raw -> trace
    if(c.flip()) {
        cpptrace::stacktrace e;
        if(!c_first) e = crt.resolve();
        auto t = ctrace_resolve_raw_trace(&rt);
        if(c_first) e = crt.resolve();
        c.event("raw to trace");
        same_trace(c, t, e, "ctrace_resolve_raw_trace");
        if(t.count) {
            auto& f = t.frames[c.below(t.count)];
            auto i = &f - t.frames;
            auto info = ctrace_get_object_info(&f);
            same_object_frame(c, info, e.frames[i].get_object_info(), "ctrace_get_object_info");
            ctrace_owning_string path{info.obj_path};
            ctrace_free_owning_string(&path);
            auto s = ctrace_stacktrace_to_string(&t, 0);
            c.eq(std::string(s.data), e.to_string(), "text of the resolved trace");
            ctrace_free_owning_string(&s);
        }
        ctrace_free_stacktrace(&t);
    }
    // raw -> object trace
    cpptrace::object_trace cot;
    if(!c_first) cot = crt.resolve_object_trace();
    auto ot = ctrace_resolve_raw_trace_to_object_trace(&rt);
    if(c_first) cot = crt.resolve_object_trace();
    same_trace(c, ot, cot, "ctrace_resolve_raw_trace_to_object_trace");
    // object trace -> trace
    if(c.flip()) {
        cpptrace::stacktrace e;
        c.event("object trace to trace");
        if(!c_first) e = cot.resolve();
        auto t = ctrace_resolve_object_trace(&ot);
        if(c_first) e = cot.resolve();
        same_trace(c, t, e, "ctrace_resolve_object_trace");
        ctrace_free_stacktrace(&t);
    }
    // an object trace from elsewhere: other raw addresses, and objects named by path
    if(c.flip()) {
        auto h = cot;
        std::vector<ctrace_object_frame> hf;
        std::vector<std::unique_ptr<std::string>> keep;
        for(auto& f : h.frames) {
            switch(c.below(6)) {
                case 0: f.raw_address = 0; break;
                case 1: f.raw_address += 0x10000; break;
                case 2: f.object_address += c.below(40); break;
                case 3: f.object_path = c.pick({std::string(""), std::string("/nonexistent/lib.so"), std::string(f.object_path)}); break;
                default: break;
            }
            keep.emplace_back(new std::string(f.object_path));
            hf.push_back({f.raw_address, f.object_address, f.object_path.empty() && c.flip() ? nullptr : keep.back()->c_str()});
            if(c.want_notes) c.line("  object frame " + show(f));
        }
        c.event("hand-made object trace");
        hf.reserve(1);
        ctrace_object_trace ht{hf.data(), hf.size()};
        cpptrace::stacktrace e;
        if(!c_first) e = h.resolve();
        auto t = ctrace_resolve_object_trace(&ht);
        if(c_first) e = h.resolve();
        same_trace(c, t, e, "ctrace_resolve_object_trace of a hand-made trace");
        ctrace_free_stacktrace(&t);
    }
    ctrace_free_object_trace(&ot);
    // the signal-safe frame
    if(!list.empty()) {
        static ctrace_safe_object_frame a;
        static cpptrace::safe_object_frame e;
        std::memset(&a, 0x5a, sizeof a);
        std::memset(&e, 0x5a, sizeof e);
        auto p = list[c.below(list.size())];
        ctrace_get_safe_object_frame(p, &a);
        cpptrace::get_safe_object_frame(p, &e);
        c.check(a.raw_address == e.raw_address && a.relative_obj_address == e.address_relative_to_object_start && !std::strcmp(a.object_path, e.object_path), "ctrace_get_safe_object_frame: got " + hex(a.raw_address) + " " + hex(a.relative_obj_address) + " " + vt::quote(a.object_path)
            + ", the C++ function " + hex(e.raw_address) + " " + hex(e.address_relative_to_object_start) + " " + vt::quote(e.object_path));
    }
    if(inlined) cpptrace::enable_inlined_call_resolution(true);
}

// ------------------------------------------------------------------ P21 capture
struct Captured {
    std::vector<Ptr> c_raw, cpp_raw;
    ctrace_object_trace c_obj;
    cpptrace::object_trace cpp_obj;
    ctrace_stacktrace c_st;
    cpptrace::stacktrace cpp_st;
};
void drop(ctrace_object_trace* t) { ctrace_free_object_trace(t); }
void drop(ctrace_stacktrace* t) { ctrace_free_stacktrace(t); }
NOINLINE void capture_all(Captured& r, std::size_t skip, std::size_t max) {
    auto t = ctrace_generate_raw_trace(skip, max);
    KEEP();
    r.c_raw.assign(t.frames, t.frames + t.count);
    ctrace_free_raw_trace(&t);
    r.cpp_raw = cpptrace::generate_raw_trace(skip, max).frames;
    KEEP();
    r.c_obj = ctrace_generate_object_trace(skip, max);
    KEEP();
    r.cpp_obj = cpptrace::generate_object_trace(skip, max);
    KEEP();
    r.c_st = ctrace_generate_trace(skip, max);
    KEEP();
    r.cpp_st = cpptrace::generate_trace(skip, max);
    KEEP();
}
NOINLINE void recurse(unsigned depth, const std::function<void()>& f) {
    if(depth == 0) f();
    else recurse(depth - 1, f);
    KEEP();
}
VT_PROP(c_capture, "at least three frames are captured") {
    Captured r;
    std::size_t skip = c.size(30), max = c.weighted({3, 1}) == 0 ? c.pick({SIZE_MAX, SIZE_MAX - 1, std::size_t(1) << 40}) : c.size(40);
    unsigned depth = unsigned(c.size(40));
    c.line("depth " + std::to_string(depth) + " skip " + std::to_string(skip) + " max " + std::to_string(max));
    recurse(depth, [&] { capture_all(r, skip, max); });
    c.nontrivial(r.c_raw.size() >= 3);
    // all calls are made from capture_all: only its own frame's address differs from call to call
    std::size_t from = skip == 0 ? 1 : 0;
    auto tail = [&](std::vector<Ptr> v) { if(v.size() > from) v.erase(v.begin(), v.begin() + long(from)); else v.clear(); return v; };
    auto size_of = [&](std::size_t a, std::size_t b, const char* what) { if(a != b) c.fail(std::string(what) + ": " + std::to_string(a) + " frames from C, " + std::to_string(b) + " from C++"); };
    size_of(r.c_raw.size(), r.cpp_raw.size(), "ctrace_generate_raw_trace");
    c.check(tail(r.c_raw) == tail(r.cpp_raw), "ctrace_generate_raw_trace and generate_raw_trace differ: " + show(r.c_raw) + " / " + show(r.cpp_raw));
    size_of(r.c_obj.count, r.cpp_obj.frames.size(), "ctrace_generate_object_trace");
    size_of(r.c_obj.count, r.c_raw.size(), "ctrace_generate_object_trace and ctrace_generate_raw_trace");
    for(std::size_t i = from; i < r.c_obj.count; i++) same_object_frame(c, r.c_obj.frames[i], r.cpp_obj.frames[i], "ctrace_generate_object_trace, frame " + std::to_string(i));
    size_of(r.c_st.count, r.cpp_st.frames.size(), "ctrace_generate_trace");
    for(std::size_t i = from; i < r.c_st.count; i++) same_frame(c, r.c_st.frames[i], r.cpp_st.frames[i], "ctrace_generate_trace, frame " + std::to_string(i));
    if(from == 1 && r.c_st.count) {
        c.check(std::string(r.c_st.frames[0].symbol) == r.cpp_st.frames[0].symbol && r.cpp_st.frames[0].filename == r.c_st.frames[0].filename, "ctrace_generate_trace: the first frame is " + show(r.c_st.frames[0]) + ", the C++ one " + gen::show(r.cpp_st.frames[0]));
        c.check(std::string(r.c_obj.frames[0].obj_path) == r.cpp_obj.frames[0].object_path, "ctrace_generate_object_trace: path of the first frame");
        c.check(Ptr(r.c_obj.frames[0].raw_address) - r.c_raw[0] < 4096, "first frame addresses");
    }
    drop(&r.c_obj);
    drop(&r.c_st);
}

// ------------------------------------------------------------------ P21 demangling, settings, terminals
VT_PROP(c_utilities, "a setting was made through both interfaces") {
    bool inl = true;
    int mode = 2;
    ctrace_enable_inlined_call_resolution(1);
    ctrace_set_cache_mode(ctrace_prioritize_speed);
    bool from_c = false, from_cpp = false;
    int n = int(1 + c.size(14));
    for(int i = 0; i < n; i++) {
        switch(c.below(7)) {
            case 0: inl = c.flip(); ctrace_enable_inlined_call_resolution(inl ? ctrace_bool(c.pick({1, 7, -1})) : ctrace_bool(0)); c.line(inl ? "C: inlined on" : "C: inlined off"); from_c = true; break;
            case 1: inl = c.flip(); cpptrace::enable_inlined_call_resolution(inl); c.line(inl ? "C++: inlined on" : "C++: inlined off"); from_cpp = true; break;
            case 2: {
                int m = int(c.below(4));
                if(m == 3) m = int(c.pick({3, 4, 17, 0x7fffffff}));
                ctrace_set_cache_mode(ctrace_cache_mode(m));
                if(m <= 2) mode = m;
                from_c = true;
                c.line("C: cache mode " + std::to_string(m));
                break;
            }
            case 3: mode = int(c.below(3)); cpptrace::experimental::set_cache_mode(cpptrace::cache_mode(mode)); from_cpp = true; c.line("C++: cache mode " + std::to_string(mode)); break;
            case 4: case 5: {
                std::string s;
                switch(c.below(3)) {
                    case 0: s = c.pick({std::string("_Z3foov"), std::string("f"), std::string(""), std::string("_ZN2ns4tmplIiEET_S1_"), std::string("_Z5_Z1fv"), std::string("main"), std::string("_ZNSt6vectorIiSaIiEE9push_backERKi"), std::string("St9exception"), std::string("3foo"), std::string("_Z")}); break;
                    case 1: s = "_Z" + std::to_string(1 + c.below(4)) + c.str_of("abcviN_ES", 10); break;
                    default: s = c.str_of("_Zabc013vNESI()<>: ", 16);
                }
                c.line("demangle " + vt::quote(s));
                auto r = ctrace_demangle(s.c_str());
                c.check(r.data != nullptr, "ctrace_demangle returned no text");
                std::string got = r.data;
                ctrace_free_owning_string(&r);
                c.eq(got, cpptrace::demangle(s), "ctrace_demangle against cpptrace::demangle");
                break;
            }
            default: {
                int fd = int(c.range(-1, 4));
                if(c.chance(1, 6)) {
                    int m = -1, s = -1;
                    if(::openpty(&m, &s, nullptr, nullptr, nullptr) == 0) {
                        c.eq(int(ctrace_isatty(s)), int(cpptrace::isatty(s)), "ctrace_isatty of a terminal");
                        c.check(ctrace_isatty(s), "ctrace_isatty of a terminal is false");
                        ::close(m), ::close(s);
                    }
                }
                c.eq(bool(ctrace_isatty(fd)), bool(cpptrace::isatty(fd)), "ctrace_isatty(" + std::to_string(fd) + ")");
            }
        }
        c.eq(cpptrace::detail::should_resolve_inlined_calls(), inl, "the inlined call setting");
        c.eq(int(cpptrace::detail::get_cache_mode()), mode, "the cache mode");
    }
    c.nontrivial(from_c && from_cpp);
    c.eq(bool(ctrace_can_signal_safe_unwind()), cpptrace::can_signal_safe_unwind(), "ctrace_can_signal_safe_unwind");
    c.eq(bool(ctrace_can_get_safe_object_frame()), cpptrace::can_get_safe_object_frame(), "ctrace_can_get_safe_object_frame");
    c.check(ctrace_stdin_fileno() == cpptrace::stdin_fileno && ctrace_stdout_fileno() == cpptrace::stdout_fileno && ctrace_stderr_fileno() == cpptrace::stderr_fileno && ctrace_stdin_fileno() == 0 && ctrace_stdout_fileno() == 1 && ctrace_stderr_fileno() == 2, "stream descriptors");
    ctrace_enable_inlined_call_resolution(1);
    ctrace_set_cache_mode(ctrace_prioritize_speed);
}

// ------------------------------------------------------------------ P22 a pool of C objects
enum Kind { STRING, RAW, OBJECT, TRACE };
const char* kind_names[] = {"string", "raw trace", "object trace", "trace"};
struct Obj {
    Kind kind;
    ctrace_owning_string s{};
    ctrace_raw_trace r{};
    ctrace_object_trace o{};
    ctrace_stacktrace t{};
    bool freed = false;
    std::string snapshot;
};
std::string image(const Obj& x) {
    std::string s;
    auto put = [&](const void* p, std::size_t n) { s.append(static_cast<const char*>(p), n); };
    auto puts_ = [&](const char* p) { s += p ? "s" : "n"; if(p) { s += p; s += '\0'; } };
    switch(x.kind) {
        case STRING: put(&x.s.data, sizeof x.s.data); puts_(x.s.data); break;
        case RAW: put(&x.r.frames, sizeof x.r.frames); put(&x.r.count, 8); if(x.r.frames && x.r.count) put(x.r.frames, x.r.count * sizeof *x.r.frames); break;
        case OBJECT:
            put(&x.o.frames, sizeof x.o.frames); put(&x.o.count, 8);
            for(std::size_t i = 0; x.o.frames && i < x.o.count; i++) { put(&x.o.frames[i].raw_address, 8); put(&x.o.frames[i].obj_address, 8); put(&x.o.frames[i].obj_path, 8); puts_(x.o.frames[i].obj_path); }
            break;
        case TRACE:
            put(&x.t.frames, sizeof x.t.frames); put(&x.t.count, 8);
            for(std::size_t i = 0; x.t.frames && i < x.t.count; i++) {
                auto& f = x.t.frames[i];
                put(&f.raw_address, 8); put(&f.object_address, 8); put(&f.line, 4); put(&f.column, 4); put(&f.filename, 8); put(&f.symbol, 8);
                puts_(f.filename); puts_(f.symbol);
                s += char(f.is_inline);
            }
    }
    return s;
}
bool is_reset(const Obj& x) {
    switch(x.kind) {
        case STRING: return x.s.data == nullptr;
        case RAW: return x.r.frames == nullptr && x.r.count == 0;
        case OBJECT: return x.o.frames == nullptr && x.o.count == 0;
        default: return x.t.frames == nullptr && x.t.count == 0;
    }
}
void free_it(Obj& x) {
    switch(x.kind) {
        case STRING: ctrace_free_owning_string(&x.s); break;
        case RAW: ctrace_free_raw_trace(&x.r); break;
        case OBJECT: ctrace_free_object_trace(&x.o); break;
        default: ctrace_free_stacktrace(&x.t);
    }
}
NOINLINE void capture_at(unsigned depth, std::size_t skip, std::size_t max, Kind k, Obj& x) {
    if(depth) { capture_at(depth - 1, skip, max, k, x); KEEP(); return; }
    switch(k) {
        case RAW: x.r = ctrace_generate_raw_trace(skip, max); break;
        case OBJECT: x.o = ctrace_generate_object_trace(skip, max); break;
        default: x.t = ctrace_generate_trace(skip, max);
    }
    KEEP();
}

struct Step { unsigned op; std::vector<u64> a; std::string s; std::vector<Ptr> list; unsigned long fail_from, fail_to; bool faulty; };
constexpr unsigned n_ops = 15;
const char* op_names[] = {"generate string", "generate raw", "generate object", "generate trace", "resolve raw", "raw to object", "resolve object", "to_string", "print", "demangle", "object info", "free", "free again", "null arguments", "hand-made trace"};

struct History {
    Case& c;
    bool quiet;
    std::vector<Obj> pool_;
    unsigned long faults_hit = 0;
    History(Case& c, bool quiet): c(c), quiet(quiet) {}
    void add(Obj&& x, bool may_be_empty) {
        // whatever comes back must be well formed
        if(x.kind == STRING && !x.s.data && !may_be_empty) c.fail("a null string was returned");
        if(x.kind == RAW && !x.r.frames && x.r.count) c.fail("a raw trace with a count but no frames");
        if(x.kind == OBJECT && !x.o.frames && x.o.count) c.fail("an object trace with a count but no frames");
        if(x.kind == TRACE && !x.t.frames && x.t.count) c.fail("a trace with a count but no frames");
        if(!may_be_empty && x.kind == OBJECT) for(std::size_t i = 0; i < x.o.count; i++) if(!x.o.frames[i].obj_path) c.fail("an object path is null");
        if(!may_be_empty && x.kind == TRACE) for(std::size_t i = 0; i < x.t.count; i++) if(!x.t.frames[i].filename || !x.t.frames[i].symbol) c.fail("a file name or symbol is null");
        x.snapshot = image(x);
        pool_.push_back(std::move(x));
    }
    void check_pool(const std::string& after) {
        for(std::size_t i = 0; i < pool_.size(); i++) {
            auto& x = pool_[i];
            if(x.freed) { if(!is_reset(x)) c.fail("after " + after + ": freed object " + std::to_string(i) + " is not reset"); }
            else if(image(x) != x.snapshot) c.fail("after " + after + ": object " + std::to_string(i) + " (" + kind_names[x.kind] + ") changed");
        }
    }
    template<typename F> void guarded(const Step& st, F&& f) {
        const char* crossed = nullptr;
        std::string what;
        {
            allocs::Scope scope(st.faulty ? st.fail_from : ~0ul, st.faulty ? st.fail_to : ~0ul);
            try { f(); } catch(const std::bad_alloc&) { scope.stop(); crossed = "std::bad_alloc"; } catch(const std::exception& e) { scope.stop(); crossed = "an exception"; what = e.what(); } catch(...) { scope.stop(); crossed = "a foreign exception"; }
            scope.stop();
            faults_hit += scope.failed() ? 1 : 0;
        }
        if(crossed) c.fail(std::string(crossed) + " crossed the interface in \"" + op_names[st.op] + "\": " + what);
    }
    Obj* find(Kind k, u64 r) {
        std::vector<std::size_t> v;
        for(std::size_t i = 0; i < pool_.size(); i++) if(pool_[i].kind == k) v.push_back(i);
        return v.empty() ? nullptr : &pool_[v[r % v.size()]];
    }
    void step(const Step& st) {
        auto arg = [&](std::size_t i) { return st.a[i]; };
        bool f = st.faulty;
        Obj x{};
        switch(st.op) {
            case 0: x.kind = STRING; guarded(st, [&] { x.s = ctrace_generate_owning_string(st.s.c_str()); }); if(!f) c.eq(text(x.s.data), st.s, "ctrace_generate_owning_string"); add(std::move(x), f); break;
            case 1: case 2: case 3: {
                Kind k = st.op == 1 ? RAW : st.op == 2 ? OBJECT : TRACE;
                x.kind = k;
                guarded(st, [&] { capture_at(unsigned(arg(0) % 9), arg(1) % 12, arg(2) % 2 ? SIZE_MAX : arg(2) % 13, k, x); });
                add(std::move(x), f);
                break;
            }
            case 4: case 5: {
                auto src = find(RAW, arg(0));
                ctrace_raw_trace made{const_cast<ctrace_frame_ptr*>(reinterpret_cast<const ctrace_frame_ptr*>(st.list.data())), st.list.size()};
                ctrace_raw_trace* t = src && arg(1) % 2 ? &src->r : &made;
                x.kind = st.op == 4 ? TRACE : OBJECT;
                std::size_t n = t->frames ? t->count : 0;
                guarded(st, [&] { if(st.op == 4) x.t = ctrace_resolve_raw_trace(t); else x.o = ctrace_resolve_raw_trace_to_object_trace(t); });
                if(!f && st.op == 5) c.eq(x.o.count, n, "frames of the object trace");
                if(!f && st.op == 4) c.check(x.t.count >= n, "the resolved trace has fewer frames");
                add(std::move(x), f);
                break;
            }
            case 6: {
                auto src = find(OBJECT, arg(0));
                std::vector<ctrace_object_frame> fr;
                for(std::size_t i = 0; i < st.list.size(); i++) fr.push_back({st.list[i], arg(2) >> i & 1 ? st.list[i] : 0, arg(1) >> i & 1 ? nullptr : arg(3) >> i & 1 ? "" : "/nonexistent"});
                fr.reserve(1);
                ctrace_object_trace made{fr.data(), fr.size()};
                x.kind = TRACE;
                auto t = src && arg(4) % 2 ? &src->o : &made;
                guarded(st, [&] { x.t = ctrace_resolve_object_trace(t); });
                add(std::move(x), f);
                break;
            }
            case 7: case 8: case 10: {
                auto src = find(TRACE, arg(0));
                if(!src) break;
                if(st.op == 7) {
                    x.kind = STRING;
                    guarded(st, [&] { x.s = ctrace_stacktrace_to_string(&src->t, ctrace_bool(arg(1) % 2)); });
                    add(std::move(x), f);
                } else if(st.op == 8) {
                    static std::FILE* null = std::fopen("/dev/null", "w");
                    guarded(st, [&] { ctrace_print_stacktrace(&src->t, null, ctrace_bool(arg(1) % 2)); });
                } else if(src->t.frames && src->t.count) {
                    ctrace_object_frame of{};
                    guarded(st, [&] { of = ctrace_get_object_info(&src->t.frames[arg(1) % src->t.count]); });
                    x.kind = STRING;
                    x.s.data = of.obj_path;
                    add(std::move(x), f);
                }
                break;
            }
            case 9: x.kind = STRING; guarded(st, [&] { x.s = ctrace_demangle(st.s.c_str()); }); add(std::move(x), f); break;
            case 11: case 12: {
                if(pool_.empty()) break;
                auto& y = pool_[arg(0) % pool_.size()];
                if(st.op == 12 && !y.freed) break;
                y.freed = true;
                guarded(st, [&] { free_it(y); });
                break;
            }
            case 13: {
                Step s2 = st;
                s2.faulty = false;
                guarded(s2, [&] {
                    switch(arg(0) % 16) {
                        case 0: ctrace_free_owning_string(nullptr); break;
                        case 1: ctrace_free_raw_trace(nullptr); break;
                        case 2: ctrace_free_object_trace(nullptr); break;
                        case 3: ctrace_free_stacktrace(nullptr); break;
                        case 4: x.kind = TRACE; x.t = ctrace_resolve_raw_trace(nullptr); c.check(is_reset(x), "resolving a null raw trace gives something"); break;
                        case 5: x.kind = OBJECT; x.o = ctrace_resolve_raw_trace_to_object_trace(nullptr); c.check(is_reset(x), "resolving a null raw trace gives something"); break;
                        case 6: x.kind = TRACE; x.t = ctrace_resolve_object_trace(nullptr); c.check(is_reset(x), "resolving a null object trace gives something"); break;
                        case 7: x.kind = STRING; x.s = ctrace_stacktrace_to_string(nullptr, 0); break;
                        case 8: { ctrace_raw_trace t{nullptr, std::size_t(arg(1) % 3)}; x.kind = TRACE; x.t = ctrace_resolve_raw_trace(&t); c.check(is_reset(x), "resolving a raw trace without frames gives something"); break; }
                        case 9: { ctrace_object_trace t{nullptr, std::size_t(arg(1) % 3)}; x.kind = TRACE; x.t = ctrace_resolve_object_trace(&t); c.check(is_reset(x), "resolving an object trace without frames gives something"); break; }
                        case 10: { ctrace_stacktrace t{nullptr, std::size_t(arg(1) % 3)}; x.kind = STRING; x.s = ctrace_stacktrace_to_string(&t, 1); break; }
                        case 11: { ctrace_stacktrace t{nullptr, std::size_t(arg(1) % 3)}; auto s = written([&](std::FILE* o) { ctrace_print_stacktrace(&t, o, 0); }); c.eq(s, std::string("Stack trace (most recent call first):\n<empty trace>\n"), "printing a trace without frames"); break; }
                        case 12: x.kind = STRING; x.s = ctrace_demangle(nullptr); break;
                        case 13: x.kind = STRING; x.s = ctrace_generate_owning_string(""); c.eq(text(x.s.data), std::string(), "an empty string"); break;
                        case 14: { ctrace_frame_ptr one[1] = {0}; ctrace_raw_trace t{one, 0}; x.kind = TRACE; x.t = ctrace_resolve_raw_trace(&t); c.eq(x.t.count, std::size_t(0), "frames of an empty trace"); break; }
                        case 15: { ctrace_stacktrace t{nullptr, 0}; ctrace_free_stacktrace(&t); ctrace_free_stacktrace(&t); ctrace_raw_trace r{nullptr, 0}; ctrace_free_raw_trace(&r); ctrace_object_trace o{nullptr, 0}; ctrace_free_object_trace(&o); ctrace_owning_string s{nullptr}; ctrace_free_owning_string(&s); break; }
                    }
                });
                static const int made[16] = {0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0};
                if(made[arg(0) % 16]) add(std::move(x), false);
                break;
            }
            default: { // a hand-made trace with parts missing: printed, not owned
                std::vector<ctrace_stacktrace_frame> fr;
                for(std::size_t i = 0; i < 1 + arg(0) % 5; i++) fr.push_back({Ptr(arg(1) >> i), 0, arg(2) >> i & 1 ? absent : 3, arg(3) >> i & 1 ? absent : 7, arg(4) >> i & 1 ? nullptr : st.s.c_str(), arg(5) >> i & 1 ? nullptr : st.s.c_str(), ctrace_bool(arg(2) >> (i + 8) & 1)});
                ctrace_stacktrace t{fr.data(), fr.size()};
                x.kind = STRING;
                guarded(st, [&] { x.s = ctrace_stacktrace_to_string(&t, 0); });
                add(std::move(x), f);
                static std::FILE* null = std::fopen("/dev/null", "w");
                guarded(st, [&] { ctrace_print_stacktrace(&t, null, 1); });
            }
        }
        check_pool(op_names[st.op]);
    }
    void finish(u64 order) {
        // free what is left, in some order
        std::vector<std::size_t> left;
        for(std::size_t i = 0; i < pool_.size(); i++) if(!pool_[i].freed) left.push_back(i);
        while(!left.empty()) {
            order = vt::mix(order);
            auto k = order % left.size();
            auto& x = pool_[left[k]];
            free_it(x);
            x.freed = true;
            left.erase(left.begin() + long(k));
            check_pool("freeing at the end");
        }
        for(auto& x : pool_) free_it(x);
        check_pool("freeing everything twice");
    }
};
std::vector<Step> history(Case& c, bool faults) {
    std::vector<Step> h;
    std::size_t n = 1 + c.size(28);
    for(std::size_t i = 0; i < n; i++) {
        Step s{};
        s.op = unsigned(c.weighted({2, 3, 3, 2, 3, 3, 3, 4, 2, 3, 3, 5, 2, 2, 2}));
        for(int k = 0; k < 6; k++) s.a.push_back(c.below(1 << 12));
        if(s.op == 0 || s.op == 9 || s.op == 14) s.s = c.pick({std::string("_ZN2ns4tmplIiEET_S1_"), std::string(""), std::string("f.cpp"), c.str_of("_Z1av<>N ", 12), std::string(300, 'x')});
        if(s.op >= 4 && s.op <= 6) s.list = address_list(c, 12);
        s.list.reserve(1);
        if(faults && s.op != 13 && c.flip()) {
            s.faulty = true;
            s.fail_from = c.size(c.chance(1, 3) ? 400 : 40);
            s.fail_to = s.fail_from + (c.flip() ? 1 : 1000000);
        }
        h.push_back(std::move(s));
    }
    return h;
}
void run_history(Case& c, bool faults) {
    auto h = history(c, faults);
    u64 order = c.below(1000);
    if(c.want_notes) for(auto& s : h) {
        c.note(op_names[s.op]);
        for(auto v : s.a) c.note(" ").note(v);
        if(!s.s.empty()) c.note(" ").note(vt::quote(s.s, 60));
        if(!s.list.empty()) c.note(" [" + show(s.list) + "]");
        if(s.faulty) c.note(" allocations from " + std::to_string(s.fail_from) + (s.fail_to - s.fail_from == 1 ? "" : " on") + " fail");
        c.line("");
    }
    // three times: memory that each repetition loses was not released
    long delta[3] = {};
    unsigned long hits = 0;
    std::size_t objects = 0;
    for(int k = 0; k < (VT_HAVE_ALLOCS ? 3 : 1); k++) {
        auto before = allocs::live.load();
        {
            History r(c, k > 0);
            r.pool_.reserve(64);
            for(auto& s : h) r.step(s);
            objects = r.pool_.size();
            hits += r.faults_hit;
            r.finish(order);
        }
        delta[k] = allocs::live.load() - before;
    }
    c.nontrivial(faults ? hits > 0 : objects >= 3);
    if(delta[1] > 0 && delta[2] > 0) c.fail("memory is not released: the history leaves " + std::to_string(delta[1]) + " and " + std::to_string(delta[2]) + " more blocks each time it runs");
}
VT_PROP(c_objects, "at least three objects were made") { run_history(c, false); }
VT_PROP(c_no_memory, "an allocation failed inside a call") {
    if(!VT_HAVE_ALLOCS) { c.nontrivial(); return; }
    run_history(c, true);
}
}
