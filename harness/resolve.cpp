// P05 resolution is one-to-one, order-preserving, context-free; P28 caches never change results
#include "vt.hpp"
#include "fixture.hpp"

#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <ctrace/ctrace.h>

#include <cerrno>
#include <cmath>
#include <csignal>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <sys/auxv.h>
#include <sys/wait.h>

namespace {
using vt::Case;
using u64 = std::uint64_t;
using Ptr = cpptrace::frame_ptr;
#ifdef VT_NO_DEBUG_READER
constexpr bool external_helper = false;
#else
constexpr bool external_helper = true;
#endif

std::string hex(u64 v) { char b[24]; std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
std::string show(const cpptrace::stacktrace_frame& f) {
    return "{" + hex(f.raw_address) + " " + hex(f.object_address) + " line " + (f.line.has_value() ? std::to_string(f.line.value()) : "-") + " column " + (f.column.has_value() ? std::to_string(f.column.value()) : "-") + " " + vt::quote(f.filename, 200) + " " + vt::quote(f.symbol, 200)
        + (f.is_inline ? " inline" : "") + "}";
}
bool same(const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) {
    return a.raw_address == b.raw_address && a.object_address == b.object_address && a.line == b.line && a.column == b.column && a.filename == b.filename && a.symbol == b.symbol && a.is_inline == b.is_inline;
}

struct Lib { std::string path; void* handle; };
const char* lib_flags[] = {"-g -O0", "-g -O1", "-O1 -s", "-O1", "-g -O2 -Wl,-Ttext-segment=0x400000", "-g1 -O1 -Wl,--build-id"};
std::string libs_dir() {
    return fixture::once_dir("libs", [](const std::string& dir) {
        std::string cmd;
        int k = 0;
        for(auto fl : lib_flags) {
            std::string n = std::to_string(k), src = dir + "/src " + n + ".cpp", out = dir + (k % 2 ? "/lib with space " : "/lib") + n + ".so";
            std::string code = "namespace ns" + n + " { struct S { __attribute__((noinline)) int m(int x) { return x * 3; } virtual int v(int x) { return m(x) + 1; } }; static __attribute__((noinline)) int local_fn(int x) { S s; return s.m(x) + 2; } template<typename T> __attribute__((noinline)) T tmpl(T x) { return x + 1; }\n";
            for(int i = 0; i < 12; i++) code += "int fn" + std::to_string(i) + "(int x) {\n  volatile int y = x;\n  if(y > " + std::to_string(i) + ") y += local_fn(x);\n  y += tmpl(x);\n  return y;\n}\n";
            code += "}\nextern \"C\" int entry" + n + "(int x) {\n  ns" + n + "::S s;\n  return s.v(x) + ns" + n + "::fn3(x);\n}\n";
            fixture::spit(src, code);
            cmd += std::string("g++ -w -shared -fPIC -fno-inline ") + fl + " '" + src + "' -o '" + out + "' & ";
            k++;
        }
        (void)!std::system((cmd + "wait").c_str());
        // a copy whose file goes away while it is loaded
        (void)!std::system(("cp '" + dir + "/lib0.so' '" + dir + "/gone.so'").c_str());
    });
}
__attribute__((noinline)) int plain_function(int x) { volatile int y = x; return y * 3 + y; }
__attribute__((noinline)) int other_function(int x) { volatile int y = x; return plain_function(y) - y; }
// addresses of every kind, the same in every process forked from this one
const std::vector<Ptr>& pool() {
    static std::vector<Ptr> v = [] {
        std::vector<Ptr> r;
        auto around = [&](void* p, std::initializer_list<int> offs) { if(p) for(int o : offs) r.push_back(Ptr(p) + Ptr(std::intptr_t(o))); };
        std::string d = libs_dir();
        int k = 0;
        for(auto fl : lib_flags) {
            std::string n = std::to_string(k);
            void* h = ::dlopen((d + (k % 2 ? "/lib with space " : "/lib") + n + ".so").c_str(), RTLD_NOW);
            if(!h) { std::fprintf(stderr, "%s\n", ::dlerror()); _exit(98); }
            around(::dlsym(h, ("entry" + n).c_str()), {0, 4, 9, 15, 40});
            for(int i : {0, 1, 5, 11}) around(::dlsym(h, ("_ZN3ns" + n + (i > 9 ? "4fn" : "3fn") + std::to_string(i) + "Ei").c_str()), {0, 1, 11, 19});
            k++;
            (void)fl;
        }
        // nothing that has other functions inlined: what is said about those depends on the helper's own state
        for(auto name : {"__cxa_throw", "_ZSt9terminatev", "_ZNSt6localeC1Ev", "__cxa_demangle"}) around(::dlsym(RTLD_DEFAULT, name), {0, 5, 12});
        around(reinterpret_cast<void*>(&plain_function), {0, 4, 8, 12});
        around(reinterpret_cast<void*>(&other_function), {0, 7});
        auto vdso = ::getauxval(AT_SYSINFO_EHDR);
        if(vdso) around(reinterpret_cast<void*>(vdso), {0, 0x600, 0xa00});
        static int data;
        static std::unique_ptr<int> heap(new int);
        around(&data, {0});
        around(heap.get(), {0});
        r.push_back(0);
        r.push_back(1);
        r.push_back(4096);
        r.push_back(~Ptr(0));
        r.push_back(~Ptr(0) - 1);
        r.push_back(Ptr(1) << 47);
        r.push_back(0xffffffff80001000u);
        r.push_back(Ptr(&r) & ~Ptr(0xfff));
        return r;
    }();
    return v;
}
cpptrace::stacktrace_frame from_c(const ctrace_stacktrace_frame& f) {
    cpptrace::stacktrace_frame r{};
    r.raw_address = f.raw_address, r.object_address = f.object_address;
    r.line.raw_value = f.line, r.column.raw_value = f.column;
    r.filename = f.filename ? f.filename : "", r.symbol = f.symbol ? f.symbol : "", r.is_inline = f.is_inline != 0;
    return r;
}
const char* ways[] = {"raw_trace::resolve", "object_trace::resolve", "ctrace_resolve_raw_trace", "ctrace_resolve_object_trace", "raw_trace copy"};
std::vector<cpptrace::stacktrace_frame> resolve(std::vector<Ptr> list, std::size_t way) {
    std::vector<cpptrace::stacktrace_frame> out;
    switch(way) {
        case 0: return cpptrace::raw_trace{list}.resolve().frames;
        case 1: return cpptrace::raw_trace{list}.resolve_object_trace().resolve().frames;
        case 4: { cpptrace::raw_trace t{list}; auto u = t; t.clear(); return u.resolve().frames; }
        case 2: {
            std::vector<ctrace_frame_ptr> b(list.begin(), list.end());
            ctrace_raw_trace r{b.data(), b.size()};
            auto s = ctrace_resolve_raw_trace(&r);
            for(std::size_t i = 0; i < s.count; i++) out.push_back(from_c(s.frames[i]));
            ctrace_free_stacktrace(&s);
            return out;
        }
        default: {
            std::vector<ctrace_frame_ptr> b(list.begin(), list.end());
            ctrace_raw_trace r{b.data(), b.size()};
            auto o = ctrace_resolve_raw_trace_to_object_trace(&r);
            auto s = ctrace_resolve_object_trace(&o);
            ctrace_free_object_trace(&o);
            for(std::size_t i = 0; i < s.count; i++) out.push_back(from_c(s.frames[i]));
            ctrace_free_stacktrace(&s);
            return out;
        }
    }
}
// what each address of the pool resolves to on its own
const cpptrace::stacktrace_frame& alone(Case& c, std::size_t i) {
    static std::map<std::size_t, cpptrace::stacktrace_frame> memo;
    auto it = memo.find(i);
    if(it == memo.end()) {
        auto f = cpptrace::raw_trace{{pool()[i]}}.resolve().frames;
        c.eq(f.size(), std::size_t(1), "frames for the single address " + hex(pool()[i]));
        auto o = cpptrace::raw_trace{{pool()[i]}}.resolve_object_trace().frames;
        c.eq(o.size(), std::size_t(1), "object frames for the single address");
        c.eq(hex(f[0].raw_address), hex(pool()[i]), "raw address");
        c.eq(hex(f[0].object_address), hex(o[0].object_address), "object address of " + hex(pool()[i]));
        it = memo.emplace(i, f[0]).first;
    }
    return it->second;
}
std::vector<std::size_t> draw_list(Case& c, std::size_t max_size) {
    std::vector<std::size_t> idx;
    std::size_t n = c.size(max_size), P = pool().size();
    switch(c.below(4)) {
        case 0: for(std::size_t i = 0; i < n; i++) idx.push_back(c.below(P)); break;
        case 1: { std::size_t base = c.below(P), w = 1 + c.below(6); for(std::size_t i = 0; i < n; i++) idx.push_back((base + c.below(w)) % P); break; }        // neighbours
        case 2: { std::size_t a = c.below(P), b = c.below(P); for(std::size_t i = 0; i < n; i++) idx.push_back(c.flip() ? a : b); break; }                 // repetitions
        default: { u64 s = c.draw(~0ull); for(std::size_t i = 0; i < n; i++) idx.push_back((s = vt::mix(s)) % P); break; }
    }
    return idx;
}
}

VT_PROP_FULL(resolve_list, "a list of at least two different addresses", false, 40) {
    pool();
    auto idx = draw_list(c, 120);
    if(c.chance(1, external_helper ? 150 : 40)) { // a runaway recursion's trace
        std::size_t n = 3000 + c.below(external_helper ? 9000 : 60000);
        u64 s = c.draw(~0ull);
        std::size_t a = c.below(pool().size()), w = 1 + c.below(pool().size());
        idx.clear();
        for(std::size_t i = 0; i < n; i++) idx.push_back((a + (s = vt::mix(s)) % w) % pool().size());
        c.event("long trace");
    }
    std::size_t way = c.below(std::size(ways));
    std::vector<Ptr> list;
    for(auto i : idx) list.push_back(pool()[i]);
    bool distinct = false;
    for(auto i : idx) distinct |= i != idx[0];
    c.nontrivial(distinct);
    c.event(ways[way]);
    c.note(ways[way]).note(", ").note(list.size()).line(" addresses:");
    std::string before = fixture::open_fds();
    for(std::size_t i = 0; i < list.size() && i < 40; i++) c.note("  ").line(show(alone(c, idx[i])));
    auto got = resolve(list, way);
    c.eq(got.size(), list.size(), "number of frames");
    for(std::size_t i = 0; i < list.size(); i++) {
        auto& want = alone(c, idx[i]);
        if(!same(got[i], want)) c.fail("frame " + std::to_string(i) + " of " + std::to_string(list.size()) + " via " + ways[way] + " is " + show(got[i]) + ", on its own the address resolves to " + show(want));
    }
    c.eq(fixture::open_fds(), before, "open descriptors after resolving");
    int st;
    errno = 0;
    pid_t left = ::waitpid(-1, &st, WNOHANG);
    c.check(left == -1 && errno == ECHILD, "a child process was left behind");
}

namespace {
// Files: every variant of an object, to be put at one of a few paths
struct Fresh { std::vector<cpptrace::stacktrace_frame> frames; };
std::string pack(const cpptrace::stacktrace_frame& f) {
    std::string s;
    auto num = [&](u64 v) { s.append(reinterpret_cast<const char*>(&v), 8); };
    num(f.raw_address), num(f.object_address), num(f.line.raw_value), num(f.column.raw_value), num(f.is_inline), num(f.filename.size()), num(f.symbol.size());
    return s + f.filename + f.symbol;
}
cpptrace::stacktrace_frame unpack(const std::string& s, std::size_t& p) {
    auto num = [&] { u64 v; std::memcpy(&v, s.data() + p, 8); p += 8; return v; };
    cpptrace::stacktrace_frame f{};
    f.raw_address = num(), f.object_address = num(), f.line.raw_value = std::uint32_t(num()), f.column.raw_value = std::uint32_t(num()), f.is_inline = num() != 0;
    u64 a = num(), b = num();
    f.filename = s.substr(p, a), p += a, f.symbol = s.substr(p, b), p += b;
    return f;
}
// resolve in a process of its own which has not resolved anything before
std::vector<cpptrace::stacktrace_frame> in_fresh_process(Case& c, const std::vector<Ptr>& list) {
    int p[2];
    (void)!::pipe(p);
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if(pid == 0) {
        ::close(p[0]);
        std::string s;
        for(auto& f : cpptrace::raw_trace{list}.resolve().frames) s += pack(f);
        std::size_t at = 0;
        while(at < s.size()) { auto k = ::write(p[1], s.data() + at, s.size() - at); if(k <= 0) break; at += std::size_t(k); }
        ::_exit(0);
    }
    ::close(p[1]);
    std::string s;
    char b[65536];
    for(ssize_t k; (k = ::read(p[0], b, sizeof b)) > 0;) s.append(b, std::size_t(k));
    ::close(p[0]);
    int st;
    ::waitpid(pid, &st, 0);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "resolving in a fresh process failed");
    std::vector<cpptrace::stacktrace_frame> v;
    std::size_t at = 0;
    while(at < s.size()) v.push_back(unpack(s, at));
    return v;
}
}

// The case's own process starts with empty caches. What it resolves along a history must equal what a process that has
// resolved nothing yet gets at that point. The fresh process is forked off a zygote state: it is forked before the
// history starts and told what to load, so it shares addresses.
VT_PROP_FULL(cache_history, "several resolutions with a change of the cache mode or of an object in between", true, 60) {
    pool();
    std::vector<Ptr> fixed;
    auto base = draw_list(c, 12);
    for(auto i : base) fixed.push_back(pool()[i]);
    if(fixed.empty()) fixed.push_back(pool()[0]);
    auto want = in_fresh_process(c, fixed);
    c.eq(want.size(), fixed.size(), "frames in the fresh process");
    std::size_t steps = 1 + c.size(9), resolutions = 0, changes = 0;
    const cpptrace::cache_mode modes[] = {cpptrace::cache_mode::prioritize_memory, cpptrace::cache_mode::hybrid, cpptrace::cache_mode::prioritize_speed};
    const char* mode_names[] = {"prioritize_memory", "hybrid", "prioritize_speed"};
    std::map<std::string, std::string> printed;
    auto fmt = cpptrace::formatter{}.snippets(true).addresses(cpptrace::formatter::address_mode::object);
    for(std::size_t s = 0; s < steps; s++) {
        switch(c.weighted({6, 3, 2, 2, 1})) {
            case 0: case 4: {
                std::vector<std::size_t> sub;
                std::size_t n = 1 + c.below(fixed.size());
                for(std::size_t i = 0; i < n; i++) sub.push_back(c.below(fixed.size()));
                std::vector<Ptr> l;
                for(auto i : sub) l.push_back(fixed[i]);
                std::size_t way = c.below(std::size(ways));
                c.note("resolve ").note(n).note(" via ").line(ways[way]);
                auto got = resolve(l, way);
                c.eq(got.size(), l.size(), "number of frames");
                for(std::size_t i = 0; i < n; i++) if(!same(got[i], want[sub[i]])) c.fail("step " + std::to_string(s) + ": got " + show(got[i]) + ", a process without history gets " + show(want[sub[i]]));
                resolutions++;
                break;
            }
            case 1: { std::size_t m = c.below(3); c.note("cache mode ").line(mode_names[m]); if(c.flip()) cpptrace::experimental::set_cache_mode(modes[m]); else ctrace_set_cache_mode(ctrace_cache_mode(m)); changes++; break; }
            case 2: { // formatting reads source files through a cache of its own
                std::size_t i = c.below(fixed.size());
                c.note("format ").line(i);
                std::string text = fmt.format(cpptrace::stacktrace{{want[i]}}), key = std::to_string(i);
                if(printed.count(key)) c.eq(text, printed[key], "the same trace formatted again");
                printed[key] = text;
                break;
            }
            default: {
                std::size_t n = c.below(5);
                c.note("line table cache size ").line(n);
                cpptrace::experimental::set_dwarf_resolver_line_table_cache_size(n ? cpptrace::nullable<std::size_t>{n} : cpptrace::nullable<std::size_t>::null());
                changes++;
                break;
            }
        }
    }
    c.nontrivial(resolutions >= 2 && changes);
}

// Objects coming and going at the same path and address
VT_PROP_FULL(object_replacement, "an object replaced by another at the same path between resolutions", true, 60) {
    std::string d = libs_dir(), path = vt::scratch_dir() + "/replaced" + std::to_string(::getpid()) + ".so";
    std::size_t steps = 2 + c.below(4), replaced = 0;
    int previous = -1;
    for(std::size_t s = 0; s < steps; s++) {
        int k = int(c.below(std::size(lib_flags)));
        std::string n = std::to_string(k), src = d + (k % 2 ? "/lib with space " : "/lib") + n + ".so";
        ::unlink(path.c_str());
        fixture::spit(path, fixture::slurp(src));
        void* h = ::dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        c.check(h != nullptr, std::string("dlopen: ") + (h ? "" : ::dlerror()));
        std::vector<Ptr> l;
        auto e = Ptr(::dlsym(h, ("entry" + n).c_str()));
        for(int o : {0, 4, 9}) l.push_back(e + Ptr(o));
        l.push_back(Ptr(::dlsym(h, ("_ZN3ns" + n + "3fn5Ei").c_str())) + 5);
        c.note("object ").line(lib_flags[k]);
        auto got = resolve(l, c.below(std::size(ways)));
        c.eq(got.size(), l.size(), "frames");
        // names a process without history gives
        auto want = in_fresh_process(c, l);
        // the forked process has this one's history as well, so also compare with the object at its own path, whose
        // frames differ in nothing but the addresses and the path
        bool exported_known = got[0].symbol.empty() || got[0].symbol == "entry" + n;
        c.check(exported_known, "step " + std::to_string(s) + ": an address in entry" + n + " resolved to " + show(got[0]));
        for(std::size_t i = 0; i < l.size(); i++) if(!same(got[i], want[i])) c.fail("resolved again: " + show(want[i]) + " instead of " + show(got[i]));
        std::string other = d + (k % 2 ? "/lib with space " : "/lib") + n + ".so";
        if(!got[0].symbol.empty()) c.check(got[3].symbol.find("fn5") != std::string::npos || got[3].symbol.empty(), "an address in fn5 resolved to " + show(got[3]));
        if(external_helper && k != 2) {
            c.eq(got[0].symbol, "entry" + n, "function of an address in entry" + n);
            c.check(got[3].symbol.find("ns" + n + "::fn5") == 0, "function of an address in fn5: " + show(got[3]));
        }
        if(external_helper && k != 2 && k != 3) c.check(got[0].filename.size() > 9 && got[0].filename.find("src " + n + ".cpp") != std::string::npos && got[0].line.has_value(), "file and line of an address in entry" + n + ": " + show(got[0]));
        ::dlclose(h);
        if(previous >= 0 && previous != k) replaced++;
        previous = k;
        if(c.flip()) { cpptrace::experimental::set_cache_mode(c.flip() ? cpptrace::cache_mode::prioritize_memory : cpptrace::cache_mode::prioritize_speed); c.line("cache mode changed"); }
    }
    ::unlink(path.c_str());
    c.nontrivial(replaced > 0);
}
