// P01 (raw captures against an independent walk), P02 (entry points agree), P03 (signal-safe capture)
#include "vt.hpp"

#include <cpptrace/cpptrace.hpp>
#include <ctrace/ctrace.h>

#include <algorithm>
#include <alloca.h>
#include <atomic>
#include <csignal>
#include <cstdlib>
#include <functional>
#include <mutex>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <unwind.h>

#define NOINLINE __attribute__((noinline))
#define KEEP() asm volatile("" ::: "memory")

#ifdef VT_COUNT_ALLOC
// every allocation of the process passes here, so that "allocates nothing" can be observed
extern "C" {
void* __libc_malloc(std::size_t); void __libc_free(void*); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t);
}
static __thread bool counting = false;
static __thread unsigned long counted = 0;
extern "C" void* malloc(std::size_t n) { if(counting) counted++; return __libc_malloc(n); }
extern "C" void* calloc(std::size_t a, std::size_t b) { if(counting) counted++; return __libc_calloc(a, b); }
extern "C" void* realloc(void* p, std::size_t n) { if(counting) counted++; return __libc_realloc(p, n); }
extern "C" void free(void* p) { if(counting && p) counted++; __libc_free(p); }
#else
static __thread bool counting = false;
static __thread unsigned long counted = 0;
#endif

extern "C" void* _Unwind_FindEnclosingFunction(void*);

namespace {
using vt::Case;
using u64 = std::uint64_t;
using Ptr = cpptrace::frame_ptr;

#ifdef VT_EXECINFO
constexpr std::size_t hard_limit = 400;
constexpr bool always_minus_one = true;
#else
constexpr std::size_t hard_limit = SIZE_MAX;
constexpr bool always_minus_one = false;
#endif
#ifdef VT_LIBUNWIND
constexpr bool is_libunwind = true;
#else
constexpr bool is_libunwind = false;
#endif

// ------------------------------------------------------------------ the independent walk
struct Walk { std::vector<Ptr> pcs; std::size_t trampoline = SIZE_MAX; };
_Unwind_Reason_Code walk_cb(_Unwind_Context* ctx, void* arg) {
    auto& w = *static_cast<Walk*>(arg);
    int before = 0;
    Ptr ip = _Unwind_GetIPInfo(ctx, &before);
    if(ip == 0) return _URC_END_OF_STACK;
    if(before && !w.pcs.empty()) w.trampoline = w.pcs.size() - 1; // the entry before an interrupted frame is the kernel's return trampoline
    w.pcs.push_back(before && !always_minus_one ? ip : ip - 1);
    return _URC_NO_REASON;
}
// entry 0 is the function that calls this
NOINLINE void walk(Walk& w) {
    _Unwind_Backtrace(walk_cb, &w);
    if(!w.pcs.empty()) { w.pcs.erase(w.pcs.begin()); if(w.trampoline != SIZE_MAX) w.trampoline--; }
    KEEP();
}

// ------------------------------------------------------------------ call stacks made of hops
enum Hop { direct, fptr, virt, stdfunction, lambda, qsort_cb, sort_cb, bsearch_cb, once_cb, thread_hop, try_hop, catch_hop, dtor_hop, big_frame, vla, nothrow, recurse, signal_hop, member_ptr, coalesce, n_hops };
const char* hop_names[] = {"direct", "fptr", "virtual", "std::function", "lambda", "qsort", "sort", "bsearch", "call_once", "thread", "try", "catch", "destructor", "big frame", "vla", "noexcept", "recurse", "signal", "member ptr", "variadic"};
struct World {
    std::vector<std::pair<int, unsigned>> hops;
    std::vector<Ptr> shadow; // return addresses minus one, outermost first
    std::function<void(World&)> leaf;
    bool in_thread = false;
};
NOINLINE void step(World& w, std::size_t i);
#define ENTER(w) (w).shadow.push_back(reinterpret_cast<Ptr>(__builtin_return_address(0)) - 1)
#define LEAVE(w) (w).shadow.pop_back()
struct Guard { World& w; explicit Guard(World& w) : w(w) {} ~Guard() { w.shadow.pop_back(); } };

NOINLINE void f_direct(World& w, std::size_t i) { ENTER(w); step(w, i); KEEP(); LEAVE(w); }
NOINLINE int f_second(World& w, std::size_t i, int a) { ENTER(w); step(w, i); KEEP(); LEAVE(w); return a + 1; }
struct Base { virtual ~Base() {} virtual void go(World& w, std::size_t i) = 0; virtual int other() { return 1; } };
struct D1 : Base { void go(World& w, std::size_t i) override; };
struct D2 : virtual Base { long pad = 3; void go(World& w, std::size_t i) override; };
NOINLINE void D1::go(World& w, std::size_t i) { ENTER(w); step(w, i); KEEP(); LEAVE(w); }
NOINLINE void D2::go(World& w, std::size_t i) { ENTER(w); pad++; step(w, i); pad--; LEAVE(w); }
__thread World* cb_world; __thread std::size_t cb_i; __thread bool cb_done;
NOINLINE int compare_cb(const void* a, const void* b) {
    if(!cb_done) { cb_done = true; World& w = *cb_world; ENTER(w); step(w, cb_i); KEEP(); LEAVE(w); }
    return *static_cast<const int*>(a) - *static_cast<const int*>(b);
}
void signal_cb(int) { World& w = *cb_world; ENTER(w); step(w, cb_i); KEEP(); LEAVE(w); }
struct AtExit { World& w; std::size_t i; NOINLINE ~AtExit() { ENTER(w); step(w, i); KEEP(); LEAVE(w); } };
NOINLINE void f_dtor(World& w, std::size_t i) { ENTER(w); try { AtExit a{w, i}; throw 5; } catch(int) { KEEP(); } LEAVE(w); }
NOINLINE void f_catch(World& w, std::size_t i) { ENTER(w); try { throw 5; } catch(int) { step(w, i); KEEP(); } LEAVE(w); }
NOINLINE void f_try(World& w, std::size_t i) { ENTER(w); try { step(w, i); KEEP(); } catch(const char*) { KEEP(); } LEAVE(w); }
NOINLINE void f_big(World& w, std::size_t i) { ENTER(w); volatile char b[70000]; b[5] = 1; step(w, i); b[6] = 2; LEAVE(w); }
NOINLINE void f_vla(World& w, std::size_t i, unsigned k) { ENTER(w); volatile char* b = static_cast<volatile char*>(alloca(16 + k % 4000)); b[0] = 1; alignas(64) volatile char al[64]; al[3] = 1; step(w, i); b[1] = 2; al[4] = 2; LEAVE(w); }
NOINLINE void f_nothrow(World& w, std::size_t i) noexcept { ENTER(w); step(w, i); KEEP(); LEAVE(w); }
NOINLINE void f_recurse(World& w, std::size_t i, unsigned n) { ENTER(w); if(n == 0) step(w, i); else f_recurse(w, i, n - 1); KEEP(); LEAVE(w); }
NOINLINE void f_variadic(World& w, std::size_t i, ...) { ENTER(w); step(w, i); KEEP(); LEAVE(w); }
struct Mem { int z = 0; NOINLINE void m(World& w, std::size_t i) { ENTER(w); step(w, i); z++; LEAVE(w); } };

NOINLINE void step(World& w, std::size_t i) {
    if(i == w.hops.size()) { w.leaf(w); KEEP(); return; }
    auto hop = w.hops[i];
    unsigned k = hop.second;
    std::size_t n = i + 1;
    switch(hop.first) {
        case direct: if(k % 2) f_direct(w, n); else f_second(w, n, int(k)); break;
        case fptr: { void (*volatile f)(World&, std::size_t) = k % 2 ? f_direct : f_nothrow; f(w, n); break; }
        case virt: { D1 a; D2 b; Base* volatile p = k % 2 ? static_cast<Base*>(&a) : &b; p->go(w, n); break; }
        case stdfunction: { std::function<void()> f = [&w, n] { f_direct(w, n); KEEP(); }; f(); break; }
        case lambda: { auto f = [&w, n](auto x) { f_second(w, n, int(x)); KEEP(); }; f(k); break; }
        case qsort_cb: { int v[2] = {2, 1}; auto ow = cb_world; auto oi = cb_i; cb_world = &w; cb_i = n; cb_done = false; std::qsort(v, 2, sizeof(int), compare_cb); cb_world = ow; cb_i = oi; break; }
        case bsearch_cb: { int v[2] = {1, 2}, key = 2; auto ow = cb_world; auto oi = cb_i; cb_world = &w; cb_i = n; cb_done = false; (void)!std::bsearch(&key, v, 2, sizeof(int), compare_cb); cb_world = ow; cb_i = oi; break; }
        case sort_cb: { int v[3] = {3, 1, 2}; bool done = false; std::sort(v, v + 3, [&](int a, int b) { if(!done) { done = true; f_direct(w, n); } return a < b; }); break; }
        case once_cb: { std::once_flag f; std::call_once(f, [&] { f_direct(w, n); KEEP(); }); break; }
        case thread_hop: {
            std::vector<Ptr> saved;
            saved.swap(w.shadow);
            bool was = w.in_thread;
            w.in_thread = true;
            std::thread t([&] { f_direct(w, n); KEEP(); });
            t.join();
            w.in_thread = was;
            saved.swap(w.shadow);
            break;
        }
        case try_hop: f_try(w, n); break;
        case catch_hop: f_catch(w, n); break;
        case dtor_hop: f_dtor(w, n); break;
        case big_frame: f_big(w, n); break;
        case vla: f_vla(w, n, k); break;
        case nothrow: f_nothrow(w, n); break;
        case recurse: f_recurse(w, n, k); break;
        case signal_hop: {
            auto ow = cb_world; auto oi = cb_i;
            struct sigaction sa, old;
            std::memset(&sa, 0, sizeof sa);
            sa.sa_handler = signal_cb;
            sa.sa_flags = SA_NODEFER;
            sigaction(SIGUSR1, &sa, &old);
            cb_world = &w; cb_i = n;
            ::raise(SIGUSR1);
            cb_world = ow; cb_i = oi;
            sigaction(SIGUSR1, &old, nullptr);
            break;
        }
        case member_ptr: { Mem m; void (Mem::*volatile p)(World&, std::size_t) = &Mem::m; (m.*p)(w, n); break; }
        default: f_variadic(w, n, 1, 2.0, "x"); break;
    }
    KEEP();
}
std::size_t draw_world(Case& c, World& w, bool signals) {
    std::size_t n = c.size(c.thorough ? 80 : 40);
    bool threaded = false;
    for(std::size_t i = 0; i < n; i++) {
        int h = int(c.below(n_hops));
        if(h == signal_hop && (!signals || c.chance(1, 2))) h = direct;
        if(h == thread_hop) { if(threaded || !c.chance(1, 3)) h = fptr; else threaded = true; }
        unsigned k = unsigned(c.below(1000));
        if(h == recurse) k = c.chance(1, 20) ? unsigned(c.below(3000)) : k % 12;
        w.hops.push_back({h, k});
    }
    std::string s;
    for(auto& h : w.hops) s += (s.empty() ? "" : ",") + std::string(hop_names[h.first]) + (h.first == recurse ? "*" + std::to_string(h.second) : "");
    c.line("stack: " + s);
    for(auto& h : w.hops) c.event(hop_names[h.first]);
    return n;
}
u64 draw_arg(Case& c, std::size_t depth) {
    switch(c.below(8)) {
        case 0: return 0;
        case 1: return c.below(4);
        case 2: return depth + c.below(5) - std::min<std::size_t>(depth, 2);
        case 3: return c.pick({u64(399), u64(400), u64(401), u64(1) << 31, u64(1) << 32, u64(1) << 40, u64(1) << 62, u64(0xffffffff), u64(0x7fffffff)});
        case 4: return c.below(2 * depth + 8);
        default: return c.below(depth + 1);
    }
}
u64 draw_depth_arg(Case& c, std::size_t depth) { return c.chance(1, 10) ? ~u64(0) - c.below(3) : draw_arg(c, depth); }

std::string hex(Ptr p) { std::ostringstream o; o << "0x" << std::hex << p; return o.str(); }
std::string show(const std::vector<Ptr>& v) {
    std::string s = std::to_string(v.size()) + " entries:";
    for(std::size_t i = 0; i < v.size() && i < 60; i++) s += " " + hex(v[i]);
    return s;
}
// got must be want[skip, skip + max), the requesting function itself compared by function
void check_window(Case& c, const std::vector<Ptr>& got, const Walk& want, u64 skip, u64 max, const std::string& who, bool safe = false) {
    std::size_t from = std::size_t(std::min<u64>(skip, want.pcs.size()));
    std::size_t full = std::size_t(std::min<u64>(max, want.pcs.size() - from));
    std::string ctx = who + " skip " + std::to_string(skip) + " max " + std::to_string(max) + " of " + std::to_string(want.pcs.size());
    std::size_t least = safe ? full : std::min(full, hard_limit);
    if(got.size() < least || got.size() > full) {
        std::vector<Ptr> exp(want.pcs.begin() + from, want.pcs.begin() + from + full);
        c.fail(ctx + ": got " + show(got) + ", expected " + show(exp));
    }
    for(std::size_t i = 0; i < got.size(); i++) {
        Ptr w = want.pcs[from + i];
        if(from + i == 0) {
            auto a = _Unwind_FindEnclosingFunction(reinterpret_cast<void*>(got[i])), b = _Unwind_FindEnclosingFunction(reinterpret_cast<void*>(w));
            c.check(a == b, ctx + ": the first entry " + hex(got[i]) + " is not in the requesting function (" + hex(w) + ")");
        } else if(from + i == want.trampoline) c.check(got[i] == w || got[i] == w + 1, ctx + ": entry " + std::to_string(i) + " is " + hex(got[i]) + ", expected the signal trampoline at " + hex(w));
        else c.check(got[i] == w, ctx + ": entry " + std::to_string(i) + " is " + hex(got[i]) + ", expected " + hex(w));
    }
}
// the shadow stack's return addresses must all be there, in order
void check_shadow(Case& c, const Walk& w, const World& world) {
    std::size_t at = 0;
    for(std::size_t k = world.shadow.size(); k-- > 0;) {
        while(at < w.pcs.size() && w.pcs[at] != world.shadow[k] && w.pcs[at] != world.shadow[k] + 1) at++;
        if(at == w.pcs.size()) c.fail("harness: the independent walk misses a known return address");
        at++;
    }
}

std::vector<Ptr> addresses(const cpptrace::raw_trace& t) { return t.frames; }
std::vector<Ptr> addresses(const cpptrace::object_trace& t) { std::vector<Ptr> v; for(auto& f : t.frames) v.push_back(f.raw_address); return v; }
std::vector<Ptr> addresses(const cpptrace::stacktrace& t) { std::vector<Ptr> v; for(auto& f : t.frames) if(!f.is_inline) v.push_back(f.raw_address); return v; }
std::vector<Ptr> addresses(ctrace_raw_trace t) { std::vector<Ptr> v(t.frames, t.frames + t.count); ctrace_free_raw_trace(&t); return v; }
std::vector<Ptr> addresses(ctrace_object_trace t) { std::vector<Ptr> v; for(std::size_t i = 0; i < t.count; i++) v.push_back(t.frames[i].raw_address); ctrace_free_object_trace(&t); return v; }
std::vector<Ptr> addresses(ctrace_stacktrace t) { std::vector<Ptr> v; for(std::size_t i = 0; i < t.count; i++) if(!t.frames[i].is_inline) v.push_back(t.frames[i].raw_address); ctrace_free_stacktrace(&t); return v; }

// every way to ask, each from a function of its own so that "the requesting function" is unambiguous
constexpr int n_cheap = 9, n_all = 14;
const char* entry_names[] = {"generate_raw_trace(skip, max)", "generate_raw_trace(skip)", "raw_trace::current(skip, max)", "raw_trace::current(skip)", "ctrace_generate_raw_trace", "generate_object_trace(skip, max)", "generate_object_trace(skip)", "object_trace::current(skip, max)", "object_trace::current(skip)",
    "ctrace_generate_object_trace", "generate_trace(skip, max)", "generate_trace(skip)", "stacktrace::current(skip, max)", "ctrace_generate_trace", "stacktrace::current(skip)"};
bool takes_max(int e) { return e != 1 && e != 3 && e != 6 && e != 8 && e != 11 && e != 14; }
NOINLINE std::vector<Ptr> ask(int e, std::size_t skip, std::size_t max, Walk& w) {
    walk(w);
    KEEP();
    switch(e) {
        case 0: return addresses(cpptrace::generate_raw_trace(skip, max));
        case 1: return addresses(cpptrace::generate_raw_trace(skip));
        case 2: return addresses(cpptrace::raw_trace::current(skip, max));
        case 3: return addresses(cpptrace::raw_trace::current(skip));
        case 4: return addresses(ctrace_generate_raw_trace(skip, max));
        case 5: return addresses(cpptrace::generate_object_trace(skip, max));
        case 6: return addresses(cpptrace::generate_object_trace(skip));
        case 7: return addresses(cpptrace::object_trace::current(skip, max));
        case 8: return addresses(cpptrace::object_trace::current(skip));
        case 9: return addresses(ctrace_generate_object_trace(skip, max));
        case 10: return addresses(cpptrace::generate_trace(skip, max));
        case 11: return addresses(cpptrace::generate_trace(skip));
        case 12: return addresses(cpptrace::stacktrace::current(skip, max));
        case 13: return addresses(ctrace_generate_trace(skip, max));
        default: return addresses(cpptrace::stacktrace::current(skip));
    }
}
// failures inside the generated stack (threads, noexcept functions, handlers) are kept for later
template<typename F> void soft(Case& c, F&& f) { try { f(); } catch(vt::Failure&) {} }

VT_PROP(raw_window, "a stack of more than four hops, captured with a skip or a depth limit that matters") {
    World w;
    draw_world(c, w, !always_minus_one);
    cpptrace::absorb_trace_exceptions(c.flip());
    bool nontrivial = false;
    w.leaf = [&](World& world) {
        soft(c, [&] {
            Walk probe;
            walk(probe);
            check_shadow(c, probe, world);
            std::size_t depth = probe.pcs.size(), asks = 1 + c.below(6);
            for(std::size_t i = 0; i < asks; i++) {
                int e = int(c.below(5));
                u64 skip = draw_arg(c, depth), max = takes_max(e) ? draw_depth_arg(c, depth) : ~u64(0);
                Walk want;
                std::vector<Ptr> got = ask(e, std::size_t(skip), std::size_t(max), want);
                check_window(c, got, want, skip, max, entry_names[e]);
                if(world.hops.size() > 4 && skip < depth && (skip > 0 || max < depth)) nontrivial = true;
                if(got.empty()) c.event("empty window");
                else if(got.size() < want.pcs.size() - skip) c.event("cut by depth");
            }
        });
    };
    f_direct(w, 0);
    cpptrace::absorb_trace_exceptions(true);
    if(c.failed) throw vt::Failure{c.fail_msg};
    c.nontrivial(nontrivial);
}

VT_PROP(entry_points, "a non-empty window asked for through at least three different entry points") {
    World w;
    draw_world(c, w, false);
    bool nontrivial = false;
    w.leaf = [&](World& world) {
        soft(c, [&] {
            Walk probe;
            walk(probe);
            std::size_t depth = probe.pcs.size();
            u64 skip = draw_arg(c, depth), max = draw_depth_arg(c, depth);
            std::vector<int> seen;
            bool whole = c.chance(1, 4); // the variants without a depth limit
            if(whole) max = ~u64(0);
            for(int k = 0; k < 6; k++) {
                int e = int(c.below(15));
                if(!whole && !takes_max(e)) continue;
                Walk want;
                std::vector<Ptr> got = ask(e, std::size_t(skip), std::size_t(max), want);
                check_window(c, got, want, skip, max, entry_names[e]);
                if(!got.empty() && std::find(seen.begin(), seen.end(), e) == seen.end()) seen.push_back(e);
            }
            // the steps of a resolution keep the sequence
            cpptrace::raw_trace raw = cpptrace::generate_raw_trace(std::size_t(std::min<u64>(skip, 1u << 20)), std::size_t(max));
            c.check(addresses(raw.resolve_object_trace()) == raw.frames, "resolving to an object trace changed the addresses");
            auto direct = raw.resolve(), via = raw.resolve_object_trace().resolve();
            c.check(addresses(direct) == raw.frames, "resolving changed the addresses: " + show(addresses(direct)) + " from " + show(raw.frames));
            c.check(addresses(via) == raw.frames, "resolving an object trace changed the addresses: " + show(addresses(via)) + " from " + show(raw.frames));
            c.check(direct.frames == via.frames, "resolving directly and via the object trace differ");
            nontrivial = seen.size() >= 3;
        });
    };
    f_direct(w, 0);
    if(c.failed) throw vt::Failure{c.fail_msg};
    c.nontrivial(nontrivial);
}

// ------------------------------------------------------------------------------------------------------------- P03
NOINLINE std::size_t ask_safe(int e, Ptr* buf, std::size_t size, std::size_t skip, std::size_t max, Walk& w) {
    walk(w);
    counted = 0;
    counting = true;
    std::size_t n;
    switch(e) {
        case 0: n = cpptrace::safe_generate_raw_trace(buf, size, skip, max); break;
        case 1: n = cpptrace::safe_generate_raw_trace(buf, size, skip); break;
        default: n = ctrace_safe_generate_raw_trace(buf, size, skip, max); break;
    }
    counting = false;
    KEEP();
    return n;
}
const Ptr canary = 0xC0FFEE0DDBA11F00ull;
NOINLINE void safe_leaf(Case& c, std::size_t hops, bool& nontrivial) {
    Walk probe;
    walk(probe);
    std::size_t depth = probe.pcs.size();
    int e = int(c.below(3));
    std::size_t size = c.chance(1, 6) ? 0 : c.chance(1, 3) ? depth + c.below(6) - std::min<std::size_t>(depth, 3) : c.below(depth + 20);
    u64 skip = draw_arg(c, depth), max = e == 1 ? ~u64(0) : draw_depth_arg(c, depth);
    std::vector<Ptr> mem(size + 16, canary);
    Walk want;
    std::size_t n = ask_safe(e, mem.data() + 8, size, std::size_t(skip), std::size_t(max), want);
    unsigned long allocs = counted;
    const char* names[] = {"safe_generate_raw_trace(skip, max)", "safe_generate_raw_trace(skip)", "ctrace_safe_generate_raw_trace"};
    std::string who = std::string(names[e]) + " into " + std::to_string(size);
    c.check(n <= size && n <= max, who + " returned " + std::to_string(n) + " of at most " + std::to_string(std::min<u64>(size, max)));
    for(std::size_t i = 0; i < mem.size(); i++) if(i < 8 || i >= 8 + n) c.check(mem[i] == canary, who + " wrote outside the " + std::to_string(n) + " entries it returned");
    c.eq(allocs, 0ul, who + ": calls of the allocator during the capture");
    if(!cpptrace::can_signal_safe_unwind()) { c.eq(n, std::size_t(0), who + " without a safe unwinder"); return; }
    std::vector<Ptr> got(mem.begin() + 8, mem.begin() + 8 + n);
    check_window(c, got, want, skip, std::min<u64>(size, max), who, true);
    // and as an ordinary capture would give
    Walk want2;
    auto ordinary = ask(0, std::size_t(skip), std::size_t(std::min<u64>(size, max)), want2);
    c.eq(ordinary.size(), got.size(), who + ": number of entries compared with an ordinary capture");
    for(std::size_t i = skip == 0 ? 2 : skip == 1 ? 1 : 0; i < got.size(); i++) c.check(ordinary[i] == got[i], who + ": entry " + std::to_string(i) + " " + hex(got[i]) + " differs from the ordinary capture's " + hex(ordinary[i]));
    for(std::size_t i = 0; i < got.size(); i += 1 + got.size() / 4) {
        cpptrace::safe_object_frame f;
        std::memset(&f, 0x7f, sizeof f);
        counted = 0; counting = true;
        cpptrace::get_safe_object_frame(got[i], &f);
        counting = false;
        c.eq(counted, 0ul, "calls of the allocator in get_safe_object_frame");
        auto o = f.resolve();
        auto q = cpptrace::raw_trace{{got[i]}}.resolve_object_trace().frames.at(0);
        c.check(o.raw_address == q.raw_address && o.object_address == q.object_address && o.object_path == q.object_path, "the safe object frame of " + hex(got[i]) + " says " + o.object_path + "+" + hex(o.object_address) + ", an ordinary resolution " + q.object_path + "+" + hex(q.object_address));
    }
    if(hops > 2 && n > 2) nontrivial = true;
}
VT_PROP(safe_capture, "more than two hops and more than two entries written") {
    static bool warm = [] { Ptr b[8]; cpptrace::safe_generate_raw_trace(b, 8); cpptrace::safe_object_frame f; cpptrace::get_safe_object_frame(b[0], &f); return true; }();
    (void)warm;
    World w;
    draw_world(c, w, true);
    bool nontrivial = false;
    w.leaf = [&](World& world) { soft(c, [&] { safe_leaf(c, world.hops.size(), nontrivial); }); };
    f_direct(w, 0);
    if(c.failed) throw vt::Failure{c.fail_msg};
    c.nontrivial(nontrivial);
}

// a timer interrupts whatever runs; the handler captures safely and by the independent walk
struct Hit { Ptr got[256]; std::size_t n = 0; Ptr want[256]; std::size_t m = 0; std::size_t trampoline = SIZE_MAX; unsigned long allocs = 0; bool overrun = false; std::size_t size = 0; };
Hit* hits; std::atomic<int> n_hits; int max_hits; std::size_t handler_size, handler_skip;
struct HandlerWalk { Ptr* out; std::size_t n, cap; std::size_t trampoline; };
_Unwind_Reason_Code handler_walk_cb(_Unwind_Context* ctx, void* arg) {
    auto& w = *static_cast<HandlerWalk*>(arg);
    int before = 0;
    Ptr ip = _Unwind_GetIPInfo(ctx, &before);
    if(ip == 0 || w.n == w.cap) return _URC_END_OF_STACK;
    if(before && w.n) w.trampoline = w.n - 1;
    w.out[w.n++] = before ? ip : ip - 1;
    return _URC_NO_REASON;
}
NOINLINE void on_timer(int) {
    int k = n_hits.load();
    if(k >= max_hits) return;
    Hit& h = hits[k];
    HandlerWalk w{h.want, 0, 256, SIZE_MAX};
    _Unwind_Backtrace(handler_walk_cb, &w); // entry 0 is this function
    h.m = w.n; h.trampoline = w.trampoline;
    Ptr buf[260];
    for(auto& b : buf) b = canary;
    h.size = handler_size;
    counted = 0;
    bool was = counting;
    counting = true;
    h.n = cpptrace::safe_generate_raw_trace(buf + 2, handler_size, handler_skip);
    counting = was;
    h.allocs = counted;
    for(std::size_t i = 0; i < 260; i++) if((i < 2 || i >= 2 + h.n) && buf[i] != canary) h.overrun = true;
    for(std::size_t i = 0; i < h.n && i < 256; i++) h.got[i] = buf[2 + i];
    n_hits.store(k + 1);
}
volatile u64 sink;
NOINLINE u64 leafy(u64 x) { return x * 31 + 7; }
NOINLINE void churn(Case& c, unsigned kind, unsigned n) {
    std::vector<void*> v;
    std::string s;
    for(unsigned i = 0; i < n && n_hits.load() < max_hits; i++) {
        switch(kind) {
            case 0: sink = leafy(sink); break;
            case 1: v.push_back(std::malloc(1 + i % 3000)); if(v.size() > 50) { for(auto p : v) std::free(p); v.clear(); } break;
            case 2: s += char('a' + i % 26); if(s.size() > 4000) s.clear(); sink = std::hash<std::string>()(s); break;
            case 3: { std::vector<int> q(40); for(int k = 0; k < 40; k++) q[k] = int((i * 7919u + k * 104729u) % 1000); std::sort(q.begin(), q.end()); sink = q[3]; break; }
            case 4: try { if(i % 2) throw std::runtime_error("x"); throw 3; } catch(...) { sink = sink + 1; } break;
            case 5: { World w; w.hops = {{direct, 1}, {virt, 0}, {vla, i}, {recurse, 5}}; w.leaf = [](World&) { sink = sink + 1; }; f_direct(w, 0); break; }
            default: { char b[64]; std::snprintf(b, sizeof b, "%u %f", i, i / 3.0); sink = b[0]; break; }
        }
    }
    for(auto p : v) std::free(p);
}
VT_PROP_FULL(safe_capture_async, "at least one interruption at an arbitrary point with more than three frames", false, 60) {
    if(!cpptrace::can_signal_safe_unwind()) c.discard();
    unsigned kind = unsigned(c.below(7));
    handler_size = c.chance(1, 4) ? c.below(10) : 256;
    handler_skip = c.chance(1, 4) ? c.below(6) : 0;
    max_hits = 6;
    c.line("interrupting work of kind " + std::to_string(kind) + ", buffer " + std::to_string(handler_size) + ", skip " + std::to_string(handler_skip));
    { Ptr b[8]; cpptrace::safe_generate_raw_trace(b, 8); }
    static Hit storage[8];
    for(auto& h : storage) h = Hit();
    hits = storage;
    n_hits = 0;
    struct sigaction sa, old;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_timer;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, &old);
    itimerval tv{{0, long(60 + c.below(200))}, {0, long(60 + c.below(200))}}, off{{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
    churn(c, kind, 20000);
    setitimer(ITIMER_REAL, &off, nullptr);
    sigaction(SIGALRM, &old, nullptr);
    int n = n_hits.load();
    for(int i = 0; i < n; i++) {
        Hit& h = hits[i];
        std::string who = "interruption " + std::to_string(i);
        c.check(h.n <= h.size, who + ": returned more than the buffer holds");
        c.check(!h.overrun, who + ": wrote outside the returned entries");
        c.eq(h.allocs, 0ul, who + ": calls of the allocator");
        Walk want;
        want.pcs.assign(h.want, h.want + h.m);
        want.trampoline = h.trampoline;
        if(h.m == 256) continue;
        check_window(c, std::vector<Ptr>(h.got, h.got + h.n), want, handler_skip, h.size, who, true);
        if(h.n > 3) c.nontrivial();
        c.event("interruptions");
    }
}
}
