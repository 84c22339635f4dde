// P15, P16, P17: random programs over try blocks, interpreted twice: with the library's tracing blocks and with plain
// ones. The plain run is the reference for what has to happen (P16); interposed throw functions note every throw's
// call stack, from which the traces that have to be current follow (P15, P17).
#include "vt.hpp"
#define CPPTRACE_UNPREFIXED_TRY_CATCH
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>

#include <algorithm>
#include <atomic>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <memory>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unwind.h>

using u64 = std::uint64_t;
using uptr = std::uintptr_t;
#define NI __attribute__((noinline))

// ---------------------------------------------------------------- throws seen
namespace {
std::vector<uptr> walk_from(void* ret) { // from the frame that `ret` returns to; as the library counts: one less
    std::vector<uptr> v;
    v.reserve(64);
    _Unwind_Backtrace([](_Unwind_Context* c, void* p) -> _Unwind_Reason_Code {
        int before = 0;
        uptr ip = _Unwind_GetIPInfo(c, &before);
        if(ip) static_cast<std::vector<uptr>*>(p)->push_back(before ? ip : ip - 1);
        return _URC_NO_REASON;
    }, &v);
    auto it = std::find(v.begin(), v.end(), uptr(ret) - 1);
    return {it, v.end()};
}
struct Thrown { std::vector<uptr> stack; u64 seq; u64 object; bool lib; };
struct Tracker {
    std::vector<Thrown> pending;   // thrown, not yet caught
    std::vector<Thrown> captured;  // caught by tracing blocks, in order of their throws
    std::vector<void*> objects;
    std::vector<u64> ids;
    u64 seq = 0, next_id = 1, cleared = 0;
    bool via_lib = false;
    // what has to be reported
    std::vector<uptr> cur, re;
    bool cur_known = true, any = false, newest = false, newest_lib = false;
    u64 id_of(void* p) { for(std::size_t i = 0; i < objects.size(); i++) if(objects[i] == p) return ids[i]; return 0; }
    void fresh(void* p) { // storage is reused
        for(std::size_t i = 0; i < objects.size(); i++) if(objects[i] == p) { ids[i] = next_id++; return; }
        objects.push_back(p), ids.push_back(next_id++);
    }
    void thrown(void* object, void* ret) { pending.push_back({walk_from(ret), ++seq, id_of(object), via_lib}); via_lib = false; }
    void caught(bool tracing) {
        if(pending.empty()) return; // of the runtime's making
        Thrown t = std::move(pending.back());
        pending.pop_back();
        if(!tracing) return;
        any = true;
        newest = captured.empty() || t.seq > captured.back().seq, newest_lib = t.lib;
        captured.insert(std::upper_bound(captured.begin(), captured.end(), t, [](auto& a, auto& b) { return a.seq < b.seq; }), std::move(t));
        cur.clear(), re.clear(), cur_known = true;
        u64 owner = 0;
        for(auto& x : captured) {
            if(x.seq < cleared) continue;
            if(!x.lib) { cur = x.stack, re.clear(), owner = x.object, cur_known = true; }
            else { re = x.stack; if(owner != x.object) { cur_known = false; owner = x.object; } }
        }
        if(captured.size() > 64) { // keep what still matters
            std::size_t from = 0;
            for(std::size_t i = 0; i < captured.size(); i++) if(!captured[i].lib && (pending.empty() || captured[i].seq < pending.front().seq)) from = i;
            captured.erase(captured.begin(), captured.begin() + long(from));
        }
    }
    bool cur_sure() const { // a throw under way may have been captured already, which only its handler will tell
        if(!cur_known) return false;
        u64 last = cleared;
        for(auto& x : captured) if(!x.lib) last = std::max(last, x.seq);
        return pending.empty() || last > pending.back().seq;
    }
    void clear() { cleared = ++seq; cur.clear(), re.clear(), cur_known = true; }
};
thread_local Tracker* tracker = nullptr;
}
extern "C" {
[[noreturn]] void throw_seen(void*, std::type_info*, void (*)(void*)) asm("__cxa_throw");
[[noreturn]] void rethrow_seen() asm("__cxa_rethrow");
[[noreturn]] NI void throw_seen(void* obj, std::type_info* ti, void (*dtor)(void*)) {
    static auto real = reinterpret_cast<void (*)(void*, std::type_info*, void (*)(void*))>(dlsym(RTLD_NEXT, "__cxa_throw"));
    if(tracker) { tracker->fresh(obj); tracker->thrown(obj, __builtin_return_address(0)); }
    real(obj, ti, dtor);
    __builtin_unreachable();
}
[[noreturn]] NI void rethrow_seen() {
    static auto real = reinterpret_cast<void (*)()>(dlsym(RTLD_NEXT, "__cxa_rethrow"));
    if(tracker) {
        auto p = std::current_exception();
        tracker->thrown(*reinterpret_cast<void**>(&p), __builtin_return_address(0));
    }
    real();
    __builtin_unreachable();
}
}
[[noreturn]] void rethrow_ptr_seen(std::exception_ptr) asm("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE");
[[noreturn]] NI void rethrow_ptr_seen(std::exception_ptr p) {
    static auto real = reinterpret_cast<void (*)(std::exception_ptr)>(dlsym(RTLD_NEXT, "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"));
    if(tracker) tracker->thrown(*reinterpret_cast<void**>(&p), __builtin_return_address(0));
    real(p);
    __builtin_unreachable();
}

namespace {
using vt::Case;
// ---------------------------------------------------------------- exception types
thread_local std::vector<int>* dtor_log = nullptr;
struct Val {
    int v; bool copy = false;
    explicit Val(int v) : v(v) {}
    Val(const Val& o) : v(o.v), copy(true) {}
    ~Val() { if(dtor_log && !copy) dtor_log->push_back(9000000 + v); }
};
struct A : Val { using Val::Val; virtual int kind() const { return 1; } virtual ~A() = default; };
struct B : A { using A::A; int kind() const override { return 2; } };
struct Other { long pad[3] = {7, 8, 9}; virtual ~Other() = default; };
struct C : Other, A { using A::A; int kind() const override { return 3; } };         // the base is not at offset 0
struct D : virtual A { D(int v) : A(v) {} int kind() const override { return 4; } long x = 5; };
struct E1 : A { using A::A; }; struct E2 : A { using A::A; };
struct Amb : E1, E2 { Amb(int v) : E1(v), E2(v) {} };                                  // A is ambiguous
struct Priv : private A { Priv(int v) : A(v) {} using A::v; using A::copy; };           // A is not accessible
struct R : std::runtime_error { int v; R(int v) : std::runtime_error("r" + std::to_string(v)), v(v) {} };
struct L : std::logic_error { int v; L(int v) : std::logic_error("l" + std::to_string(v)), v(v) {} };
struct T : A, std::runtime_error { T(int v) : A(v), std::runtime_error("t") {} };
template<typename X> struct Tmpl { X x; };
enum En { e0, e1 }; enum class Es { a = 4 };
int fn1(int x) { return x; } int fn2(int x) { return x + 1; }
struct Mem { int p, q; };

int val(const Val& x) { return x.v; } int val(const Priv& x) { return x.v; } int val(const R& x) { return x.v; } int val(const L& x) { return x.v; }
int val(const Amb& x) { return x.E1::v; } int val(const T& x) { return x.v; }
int val(const C& x) { return x.v * 10 + x.kind(); }
int val(const Other& x) { return int(x.pad[0] + x.pad[2]); }
int val(const std::exception& x) { return int(std::strlen(x.what())) * 10 + x.what()[0]; }
int val(int x) { return x; } int val(unsigned x) { return int(x); } int val(long x) { return int(x); } int val(char x) { return x; } int val(double x) { return int(x * 4); } int val(bool x) { return x; }
int val(En x) { return int(x); } int val(Es x) { return int(x); }
int val(const char* x) { return x ? x[0] : -2; }
int val(const A* p) { return p ? p->v * 10 + p->kind() : -1; } int val(const D* p) { return p ? p->v : -1; } int val(const C* p) { return p ? p->v : -1; }
int val(const Other* p) { return p ? int(p->pad[0]) : -1; }
int val(const void* p) { return p != nullptr; }
int val(std::nullptr_t) { return -5; }
int val(int (*f)(int)) { return f ? f(10) : -1; }
int val(int Mem::* m) { Mem x{3, 4}; return m ? x.*m : -1; }
int val(const Tmpl<int>& t) { return t.x; }
int val(const E1& x) { return x.v; }
template<class P> bool is_copy(const P&) { return false; }
bool is_copy(const A& x) { return x.copy; }
template<class P> void modify(const P&, int) {}
void modify(A& x, int d) { x.v += d; } void modify(int& x, int d) { x += d; }

A obj_a(70); B obj_b(71); C obj_c(72); D obj_d(73);
constexpr int throw_kinds = 29;
const char* throw_names[throw_kinds] = {"int", "A", "B", "C (A at an offset)", "D (virtual A)", "Amb (ambiguous A)", "Priv (private A)", "R", "L", "T (A and runtime_error)", "long", "char", "double", "En", "Es", "const char*",
    "A*", "B*", "const C*", "D*", "nullptr", "function pointer", "member pointer", "Tmpl<int>", "std::runtime_error", "bool", "unsigned", "void*", "int*"};
template<class X> [[noreturn]] NI void do_throw(X x) { throw x; }
[[noreturn]] NI void throw_a(int v) { throw A(v); }
[[noreturn]] NI void throw_b(int v) { volatile char pad[200]; pad[v & 127] = 1; throw B(v); }
[[noreturn]] NI void throw_deep(int v, int d) { if(d > 0) throw_deep(v, d - 1); throw B(v); }
[[noreturn]] NI void throw_it(int k, int v) {
    static int pointee = 5;
    switch(k) {
        case 0: throw v; case 1: throw_a(v); case 2: throw_b(v); case 3: throw C(v); case 4: throw D(v); case 5: throw Amb(v); case 6: throw Priv(v); case 7: throw R(v); case 8: throw L(v); case 9: throw T(v);
        case 10: throw long(v); case 11: throw char(v); case 12: throw v / 4.0; case 13: throw En(v & 1); case 14: throw Es(v); case 15: throw "literal";
        case 16: throw &obj_a; case 17: throw &obj_b; case 18: throw static_cast<const C*>(&obj_c); case 19: throw v & 1 ? &obj_d : static_cast<D*>(nullptr); case 20: throw nullptr; case 21: throw v & 1 ? fn1 : fn2; case 22: throw v & 1 ? &Mem::p : &Mem::q;
        case 23: do_throw(Tmpl<int>{v}); case 24: do_throw(std::runtime_error("x" + std::string(std::size_t(v & 7), 'y'))); case 25: throw bool(v & 1); case 26: throw unsigned(v); case 27: throw static_cast<void*>(&pointee); default: throw &pointee;
    }
}

// ---------------------------------------------------------------- programs
enum Op { mark, seq, thro, trymac, trymulti, call, guard, ctor, rethr, lib_rethr, save, rethr_saved, lib_rethr_saved, modi, probe_trace, clear_traces, nothr, copyfn, ops };
struct Node { Op op = mark; int a = 0, b = 0, act = 0, hact = 0; std::vector<Node> kids; };
struct Return { int v; };
struct Run {
    std::vector<int> log;
    std::exception_ptr slots[3];
    std::vector<int*> values;      // for modi: values that may be changed
    std::function<void(int)> change;
    Case* c = nullptr;
    bool traces = false;
    std::string complaint;
    u64 probes = 0, resolved_probes = 0, rethrow_probes = 0, marks = 0, steps = 0;
    bool cur_resolved = false, re_resolved = false;
    Tracker tr;
    void put(int x) { if(log.size() < 100000) log.push_back(x); }
};
thread_local Run* run_ = nullptr;

bool runtime_frame(uptr pc, bool& own) {
    Dl_info i;
    own = false;
    if(!dladdr(reinterpret_cast<void*>(pc), &i) || !i.dli_fname) return false;
    std::string f = i.dli_fname;
    if(f.find("libstdc++") != std::string::npos || f.find("libgcc") != std::string::npos || f.find("libunwind") != std::string::npos) return true;
    static Dl_info self = [] { Dl_info s; dladdr(reinterpret_cast<void*>(&throw_it), &s); return s; }();
    if(i.dli_fbase == self.dli_fbase) {
        own = true;
        return i.dli_sname && (!std::strcmp(i.dli_sname, "__cxa_throw") || !std::strcmp(i.dli_sname, "__cxa_rethrow") || std::strstr(i.dli_sname, "rethrow_exception"));
    }
    return false;
}
std::string show(const std::vector<uptr>& v) {
    std::string s;
    if(v.size() > 200) return show({v.begin(), v.begin() + 20}) + "    ... (" + std::to_string(v.size()) + " frames)\n" + show({v.end() - 20, v.end()});
    for(auto x : v) { Dl_info i; char b[400]; bool ok = dladdr(reinterpret_cast<void*>(x), &i); std::snprintf(b, sizeof b, "    %#zx %.300s\n", x, ok && i.dli_sname ? i.dli_sname : "?"); s += b; }
    return s;
}
// the trace is the runtime's own frames and then the expected stack
std::string compare(const std::vector<uptr>& got, const std::vector<uptr>& want, const char* what) {
    if(want.empty()) return got.empty() ? "" : std::string(what) + " is not empty:\n" + show(got);
#ifdef VT_LIMIT // of this back end: the rest of the stack is not there
    if(got.size() == VT_LIMIT && want.size() + 8 > VT_LIMIT) {
        for(std::size_t n = 0; n <= 8; n++) {
            bool own, ok = std::equal(got.begin() + long(n), got.end(), want.begin());
            for(std::size_t i = 0; i < n && ok; i++) ok = runtime_frame(got[i], own) && (!own || i + 1 == n);
            if(ok) return "";
        }
    }
#endif
    bool ok = got.size() >= want.size() && std::equal(want.begin(), want.end(), got.end() - long(want.size()));
    if(ok) {
        std::size_t n = got.size() - want.size();
        if(n > 8) ok = false;
        for(std::size_t i = 0; i < n && ok; i++) { bool own; ok = runtime_frame(got[i], own) && (!own || i + 1 == n); }
    }
    return ok ? "" : std::string(what) + " is\n" + show(got) + "  instead of (after the runtime's frames)\n" + show(want);
}
void look(int how) { // what do the library's functions report here?
    Run& r = *run_;
    if(!r.traces || !r.complaint.empty()) return;
    // a throw under way may have been captured, which its handler will tell
    if(!r.tr.pending.empty() && std::max(r.tr.cleared, r.tr.captured.empty() ? 0 : r.tr.captured.back().seq) < r.tr.pending.back().seq) return;
    r.probes++;
    auto& t = r.tr;
    bool was = cpptrace::current_exception_was_rethrown();
    if(was != !t.re.empty()) { r.complaint = was ? "reported as rethrown, but was not" : "not reported as rethrown, but was"; return; }
    r.rethrow_probes += was;
    if(how == 1 && t.cur_sure() && !t.cur.empty()) { // resolved: what resolving the raw trace would give
        r.resolved_probes++;
        auto& s = cpptrace::from_current_exception();
        if(!r.cur_resolved) r.cur_resolved = true;
        std::vector<uptr> raw;
        for(auto& f : s.frames) if(!f.is_inline) raw.push_back(f.raw_address);
        r.complaint = compare(raw, t.cur, "the resolved trace");
        if(r.complaint.empty()) {
            cpptrace::raw_trace rt;
            rt.frames.assign(raw.begin(), raw.end());
            auto again = rt.resolve();
            if(!(again.frames == s.frames)) r.complaint = "resolving gives " + again.to_string() + " instead of " + s.to_string();
        }
        return;
    }
    if(t.cur_sure() && !r.cur_resolved) {
        auto& x = cpptrace::raw_trace_from_current_exception();
        r.complaint = compare({x.frames.begin(), x.frames.end()}, t.cur, "the current exception's trace");
    } else if(t.cur_sure()) {
        std::vector<uptr> raw;
        for(auto& f : cpptrace::from_current_exception().frames) if(!f.is_inline) raw.push_back(f.raw_address);
        r.complaint = compare(raw, t.cur, "the resolved trace, again,");
    }
    if(!r.complaint.empty()) return;
    if(how == 2 || r.re_resolved) {
        std::vector<uptr> raw;
        for(auto& f : cpptrace::from_current_exception_rethrow().frames) if(!f.is_inline) raw.push_back(f.raw_address);
        r.re_resolved = true;
        r.complaint = compare(raw, t.re, "the resolved rethrow trace");
    } else {
        auto& x = cpptrace::raw_trace_from_current_exception_rethrow();
        r.complaint = compare({x.frames.begin(), x.frames.end()}, t.re, "the rethrow trace");
    }
}
void state() {
    auto* t = abi::__cxa_current_exception_type();
    run_->put(t ? int(vt::hash_str(t->name()) & 0xffff) : -1);
    run_->put(std::uncaught_exceptions());
    run_->put(bool(std::current_exception()));
}
template<bool Tracing> void entered(int which) {
    auto& r = *run_;
    r.tr.caught(Tracing && r.traces);
    if(Tracing && r.traces && r.tr.newest) { r.re_resolved = false; if(!r.tr.newest_lib) r.cur_resolved = false; }
    r.put(1000 + which);
    state();
    if(Tracing && r.traces) look(0);
}

enum Mode { plain, nested, traced }; // nested: what the library's multi-handler function really does
template<Mode M> struct Interp {
    static constexpr bool TR = M == traced;
    template<class P> static void handle(P& e, int which, const Node& h) {
        auto& r = *run_;
        entered<TR>(which);
        r.put(val(e));
        r.put(is_copy(e));
        auto saved = std::move(r.change);
        r.change = [&](int d) { modify(e, d); };
        struct Back { Run& r; std::function<void(int)>& s; ~Back() { r.change = std::move(s); } } back{r, saved};
        run(h);
    }
    static void handle_any(int which, const Node& h) {
        auto& r = *run_;
        entered<TR>(which);
        auto saved = std::move(r.change);
        r.change = nullptr;
        struct Back { Run& r; std::function<void(int)>& s; ~Back() { r.change = std::move(s); } } back{r, saved};
        run(h);
    }
    // one handler, as a block with control transfers out of it
#define VT_BODY(OUT, TRY_, CATCH_, DECL, HANDLE) \
        int turns = 0; \
        for(; turns < 2; turns++) { \
            TRY_ { \
                run(n.kids[0]); \
                if(n.act == 1) return 11; \
                if(n.act == 2) break; \
                if(n.act == 3) continue; \
                if(n.act == 4) goto OUT; \
                run_->put(21); \
            } CATCH_(DECL) { \
                HANDLE; \
                if(n.hact == 1) return 12; \
                if(n.hact == 2) break; \
                if(n.hact == 3) continue; \
                if(n.hact == 4) goto OUT; \
                run_->put(22); \
            } \
            run_->put(23); \
            if(n.b == 0) break; \
        } \
        OUT: \
        return 100 + turns;
    template<class P> NI static int one(const Node& n) {
        if constexpr(TR) { VT_BODY(out_t, CPPTRACE_TRY, CPPTRACE_CATCH, P e, handle(e, n.a, n.kids[1])) }
        else { VT_BODY(out_p, try, catch, P e, handle(e, n.a, n.kids[1])) }
    }
    NI static int any(const Node& n) {
        if constexpr(TR) { VT_BODY(out_t, TRY, CATCH, ..., handle_any(n.a, n.kids[1])) }
        else { VT_BODY(out_p, try, catch, ..., handle_any(n.a, n.kids[1])) }
    }
    NI static int unnamed(const Node& n) { // declarators without a name
        if constexpr(TR) { VT_BODY(out_t, TRY, CATCH, const std::exception&, handle_any(n.a, n.kids[1])) }
        else { VT_BODY(out_p, try, catch, const std::exception&, handle_any(n.a, n.kids[1])) }
    }
    // several handlers
    template<class P> static auto lam(const Node& n, int i) { return [&n, i](P e) { handle(e, 100 + i, n.kids[std::size_t(i) + 1]); }; }
    static auto lam_any(const Node& n, int i) { return [&n, i]() { handle_any(100 + i, n.kids[std::size_t(i) + 1]); }; }
    template<class... Ps> struct Multi;
    NI static void body(const Node& n) { run(n.kids[0]); run_->put(31); }
    template<class P1> NI static void m1(const Node& n) {
        if(M == traced) cpptrace::try_catch([&] { body(n); }, lam<P1>(n, 0));
        else try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); }
    }
    NI static void m1v(const Node& n) {
        if(M == traced) cpptrace::try_catch([&] { body(n); }, lam_any(n, 0));
        else try { body(n); } catch(...) { handle_any(100, n.kids[1]); }
    }
    template<class P1, class P2> NI static void m2(const Node& n) {
        if(M == traced) cpptrace::try_catch([&] { body(n); }, lam<P1>(n, 0), lam<P2>(n, 1));
        else if(M == nested) try { try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } } catch(P2 e) { handle(e, 101, n.kids[2]); }
        else try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } catch(P2 e) { handle(e, 101, n.kids[2]); }
    }
    template<class P1> NI static void m2v(const Node& n) {
        if(M == traced) cpptrace::try_catch([&] { body(n); }, lam<P1>(n, 0), lam_any(n, 1));
        else if(M == nested) try { try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } } catch(...) { handle_any(101, n.kids[2]); }
        else try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } catch(...) { handle_any(101, n.kids[2]); }
    }
    template<class P1, class P2, class P3> NI static void m3(const Node& n) {
        if(M == traced) { auto h = lam<P3>(n, 2); auto f = [&] { body(n); }; cpptrace::try_catch(f, lam<P1>(n, 0), lam<P2>(n, 1), h); }
        else if(M == nested) try { try { try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } } catch(P2 e) { handle(e, 101, n.kids[2]); } } catch(P3 e) { handle(e, 102, n.kids[3]); }
        else try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } catch(P2 e) { handle(e, 101, n.kids[2]); } catch(P3 e) { handle(e, 102, n.kids[3]); }
    }
    template<class P1, class P2> NI static void m3v(const Node& n) {
        if(M == traced) cpptrace::try_catch([&] { body(n); }, lam<P1>(n, 0), lam<P2>(n, 1), lam_any(n, 2));
        else if(M == nested) try { try { try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } } catch(P2 e) { handle(e, 101, n.kids[2]); } } catch(...) { handle_any(102, n.kids[3]); }
        else try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } catch(P2 e) { handle(e, 101, n.kids[2]); } catch(...) { handle_any(102, n.kids[3]); }
    }
    template<class P1, class P2, class P3> NI static void m4v(const Node& n) {
        if(M == traced) cpptrace::try_catch([&] { body(n); }, lam<P1>(n, 0), lam<P2>(n, 1), lam<P3>(n, 2), lam_any(n, 3));
        else if(M == nested) try { try { try { try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } } catch(P2 e) { handle(e, 101, n.kids[2]); } } catch(P3 e) { handle(e, 102, n.kids[3]); } } catch(...) { handle_any(103, n.kids[4]); }
        else try { body(n); } catch(P1 e) { handle(e, 100, n.kids[1]); } catch(P2 e) { handle(e, 101, n.kids[2]); } catch(P3 e) { handle(e, 102, n.kids[3]); } catch(...) { handle_any(103, n.kids[4]); }
    }
    static int dispatch_one(const Node& n) {
        switch(n.a) {
            case 0: return any(n); case 1: return one<const A&>(n); case 2: return one<A&>(n); case 3: return one<A>(n); case 4: return one<B&>(n); case 5: return one<const B>(n); case 6: return one<const C&>(n); case 7: return one<D&>(n);
            case 8: return one<int>(n); case 9: return one<int&>(n); case 10: return one<const int&>(n); case 11: return one<long>(n); case 12: return one<const char*>(n); case 13: return one<const A*>(n); case 14: return one<A*>(n); case 15: return one<B*>(n);
            case 16: return one<void*>(n); case 17: return one<const void*>(n); case 18: return one<std::nullptr_t>(n); case 19: return one<const std::exception&>(n); case 20: return one<std::runtime_error&>(n); case 21: return one<const std::logic_error&>(n);
            case 22: return one<En>(n); case 23: return one<Es>(n); case 24: return one<int (*)(int)>(n); case 25: return one<int Mem::*>(n); case 26: return one<const Tmpl<int>&>(n); case 27: return one<Other&>(n); case 28: return one<Priv&>(n); case 29: return one<const Other*>(n);
            case 30: return one<const A* const&>(n); case 31: return one<double>(n); case 32: return one<const E1&>(n); case 33: return one<A* const&>(n); case 34: return one<volatile int&>(n); case 35: return unnamed(n); case 36: return one<bool>(n); default: return one<const D*>(n);
        }
    }
    static void dispatch_multi(const Node& n) {
        switch(n.a) {
            case 0: return m1<const A&>(n); case 1: return m1v(n); case 2: return m2<const B&, const A&>(n); case 3: return m2<const A&, const B&>(n); case 4: return m2v<int>(n); case 5: return m2v<const std::exception&>(n);
            case 6: return m3<const std::runtime_error&, const std::exception&, A&>(n); case 7: return m3v<const B*, const void*>(n); case 8: return m4v<int, const char*, A&>(n); case 9: return m3<C&, D&, A&>(n); case 10: return m3v<A, std::logic_error&>(n);
            case 11: return m2<int&, long>(n); case 12: return m4v<A*, void*, std::nullptr_t>(n); case 13: return m3<A&, A&, int>(n); case 14: return m2<const Other&, const A&>(n); case 15: return m3<En, Es, int>(n); case 16: return m2v<Priv&>(n); default: return m3v<int, int>(n);
        }
    }
    static std::size_t multi_count(int a) { static const std::size_t k[] = {1, 1, 2, 2, 2, 2, 3, 3, 4, 3, 3, 2, 4, 3, 2, 3, 2, 3}; return k[a]; }
    static bool multi_catch_all(int a) { return a == 1 || a == 4 || a == 5 || a == 7 || a == 8 || a == 10 || a == 12 || a >= 16; }
    NI static void sub1(const Node& n) { run(n.kids[0]); run_->put(41); }
    NI static void sub2(const Node& n, int k) { volatile char pad[700]; pad[k * 3] = 1; if(k > 0) sub2(n, k - 1); else run(n.kids[0]); run_->put(42); }
    struct Virt { const Node* n; virtual NI void go() { run(n->kids[0]); run_->put(43); } virtual ~Virt() = default; };
    struct Guard {
        const Node& n;
        NI ~Guard() {
            run_->put(51);
            state();
            try { run(n.kids[1]); }
            catch(...) { entered<false>(77); }
            run_->put(52);
        }
    };
    struct Built { Guard g; int x; NI Built(const Node& n) : g{n}, x((run(n.kids[0]), 3)) { run_->put(53); } };
    static void nothing() noexcept {}
    static void run(const Node& n) {
        auto& r = *run_;
        if(++r.steps > 20000) return;
        switch(n.op) {
            case mark: r.put(n.a); r.marks++; state(); break;
            case seq: for(auto& k : n.kids) run(k); break;
            case thro: if(n.act) throw_deep(n.b, n.act); throw_it(n.a, n.b);
            case trymac: { int x = dispatch_one(n); r.put(x); break; }
            case trymulti: dispatch_multi(n); r.put(61); break;
            case call:
                if(n.a == 0) sub1(n);
                else if(n.a == 1) sub2(n, n.b);
                else if(n.a == 2) { Virt v; v.n = &n; volatile auto* p = &v; const_cast<Virt*>(p)->go(); }
                else { std::function<void()> f = [&] { run(n.kids[0]); run_->put(44); }; f(); }
                break;
            case guard: { Guard g{n}; run(n.kids[0]); r.put(54); break; }
            case ctor: { Built b(n); r.put(b.x); break; }
            case rethr: if(std::current_exception()) { throw; } break;
            case lib_rethr:
                if(std::current_exception()) { if(TR) { r.tr.via_lib = true; cpptrace::rethrow(); } else std::rethrow_exception(std::current_exception()); }
                break;
            case save: r.slots[n.a] = std::current_exception(); break;
            case rethr_saved: if(r.slots[n.a]) std::rethrow_exception(r.slots[n.a]); break;
            case lib_rethr_saved:
                if(r.slots[n.a]) { if(TR) { r.tr.via_lib = true; cpptrace::rethrow(r.slots[n.a]); } else std::rethrow_exception(r.slots[n.a]); }
                break;
            case modi: if(r.change) r.change(n.a); break;
            case probe_trace: r.put(std::uncaught_exceptions()); look(n.a); break;
            case clear_traces:
                if(TR) { cpptrace::clear_current_exception_traces(); if(r.traces) { r.tr.clear(); r.cur_resolved = r.re_resolved = false; look(0); } }
                break;
            case nothr: nothing(); run(n.kids[0]); break;
            default: break;
        }
    }
    NI static void top(const Node& n, bool catch_all) {
        if(catch_all) try { run(n); run_->put(71); } catch(...) { entered<false>(72); }
        else run(n);
    }
};

// ---------------------------------------------------------------- generator
struct Gen {
    Case& c;
    int budget;
    int next = 1;
    unsigned throws = 3, rethrows = 1;
    bool probes = false, clears = false, slow_probes = false;
    std::vector<int> types; // what this program throws and catches mostly
    int handler_for(int t) { // one that has a chance
        static const std::vector<int> of[throw_kinds] = {{8, 9, 10, 0, 34}, {1, 2, 3, 0}, {1, 2, 4, 5, 3}, {1, 2, 6, 27, 3}, {1, 7, 2, 3}, {1, 32, 0}, {28, 1, 0}, {19, 20, 35}, {19, 21, 35}, {1, 19, 20, 2}, {11, 0}, {0}, {31, 0}, {22, 8}, {23, 8}, {12, 17, 16},
            {13, 14, 16, 17, 30, 33}, {13, 14, 15, 16, 30, 33}, {13, 17, 29, 30}, {13, 14, 16, 37, 30}, {18, 13, 14, 12, 17, 24, 25}, {24, 0}, {25, 0}, {26}, {19, 20, 35}, {36, 8}, {0, 8}, {16, 17}, {16, 17}};
        return c.pick(of[t]);
    }
    Node gen(int depth, bool handling) {
        Node n;
        if(--budget < 0 || depth <= 0) {
            if(handling && c.chance(1, 4)) { n.op = c.flip() ? lib_rethr : rethr; return n; }
            if(c.chance(throws, throws + 2)) return thrower();
            n.op = mark, n.a = next++;
            return n;
        }
        auto kid = [&](bool h) { n.kids.push_back(gen(depth - 1, h)); };
        switch(c.weighted({2, 6, throws, 6, 3, 4, 3, 1, handling ? 1 + rethrows : 0, handling ? 1 + rethrows * 2 : 0, handling ? 1u : 0, 1, rethrows, handling ? 1u : 0, probes ? 4u : 0, clears ? 1u : 0, 1, depth > 2 ? rethrows * 3 : 0})) {
            default: n.op = mark, n.a = next++; break;
            case 1: { n.op = seq; std::size_t k = 1 + c.below(4); for(std::size_t i = 0; i < k; i++) kid(handling); break; }
            case 2: return thrower();
            case 3:
                n.op = trymac;
                n.a = c.chance(1, 5) ? 0 : c.chance(1, 4) ? int(c.below(38)) : handler_for(types[c.below(types.size())]);
                n.b = c.chance(1, 4), n.act = c.chance(1, 4) ? int(1 + c.below(4)) : 0, n.hact = c.chance(1, 4) ? int(1 + c.below(4)) : 0;
                kid(handling), kid(true);
                break;
            case 4: {
                n.op = trymulti;
                n.a = int(c.below(18));
                kid(handling);
                for(std::size_t i = 0; i < Interp<plain>::multi_count(n.a); i++) kid(true);
                break;
            }
            case 5: n.op = call, n.a = int(c.below(4)), n.b = int(c.below(12)); kid(handling); break;
            case 6: n.op = guard; kid(handling); n.kids.push_back(gen(depth > 3 ? 3 : depth - 1, false)); break;
            case 7: n.op = ctor; kid(handling); n.kids.push_back(gen(depth > 3 ? 2 : depth - 1, false)); break;
            case 8: n.op = rethr; break;
            case 9: n.op = lib_rethr; break;
            case 10: n.op = save, n.a = int(c.below(3)); break;
            case 11: n.op = rethr_saved, n.a = int(c.below(3)); break;
            case 12: n.op = lib_rethr_saved, n.a = int(c.below(3)); break;
            case 13: n.op = modi, n.a = int(1 + c.below(50)); break;
            case 14: n.op = probe_trace, n.a = slow_probes && c.chance(2, 3) ? int(1 + c.below(2)) : 0; break;
            case 15: n.op = clear_traces; break;
            case 17: { // caught, rethrown by the handler, caught again
                Node in, again, look;
                in.op = trymac, in.a = 0;
                if(c.chance(1, 3)) { in.op = trymulti, in.a = c.flip() ? 1 : 4; }
                in.kids.push_back(c.flip() ? thrower() : gen(depth - 2, handling));
                std::size_t k = in.op == trymac ? 1 : Interp<plain>::multi_count(in.a);
                for(std::size_t i = 0; i < k; i++) {
                    Node h, r;
                    h.op = seq;
                    if(c.flip()) h.kids.push_back(gen(depth - 2, true));
                    if(c.chance(1, 6)) { Node s; s.op = save, s.a = 0; h.kids.push_back(s); r.op = lib_rethr_saved, r.a = 0; }
                    else r.op = c.chance(1, 4) ? rethr : lib_rethr;
                    h.kids.push_back(r);
                    in.kids.push_back(h);
                }
                look.op = probe_trace;
                if(slow_probes) look.a = int(c.below(3));
                again.op = seq;
                again.kids.push_back(look);
                if(c.flip()) again.kids.push_back(gen(depth - 2, true));
                n.op = trymac, n.a = c.chance(2, 3) ? 0 : handler_for(types[0]);
                n.kids.push_back(in), n.kids.push_back(again);
                break;
            }
            case 16: n.op = nothr; kid(handling); break;
        }
        return n;
    }
    Node thrower() {
        Node n;
        n.op = thro, n.a = c.chance(1, 6) ? int(c.below(throw_kinds)) : types[c.below(types.size())], n.b = int(1 + c.below(60)), n.act = c.chance(1, 8) ? int(1 + c.below(40)) : 0;
        return n;
    }
    Node program() {
        std::size_t k = 1 + c.below(3);
        for(std::size_t i = 0; i < k; i++) types.push_back(int(c.below(throw_kinds)));
        Node n;
        n.op = seq;
        std::size_t m = 1 + c.below(3);
        for(std::size_t i = 0; i < m; i++) n.kids.push_back(gen(4 + int(c.below(7)), false));
        return n;
    }
};
void print(std::string& s, const Node& n, int ind) {
    static const char* names[] = {"mark", "seq", "throw", "try block", "try_catch", "call", "guard (body, then destructor's body)", "constructor (body, then member destructor's body)", "throw;", "cpptrace::rethrow()", "save current", "std::rethrow_exception(saved)", "cpptrace::rethrow(saved)", "modify", "look at traces", "clear traces", "block", ""};
    static const char* hs[] = {"...", "const A&", "A&", "A", "B&", "const B", "const C&", "D&", "int", "int&", "const int&", "long", "const char*", "const A*", "A*", "B*", "void*", "const void*", "nullptr_t", "const std::exception&", "std::runtime_error&", "const std::logic_error&", "En", "Es", "int(*)(int)", "int Mem::*", "const Tmpl<int>&", "Other&", "Priv&", "const Other*", "const A* const&", "double", "const E1&", "A* const&", "volatile int&", "const std::exception& unnamed", "bool", "const D*"};
    if(s.size() > 6000) return;
    s += std::string(std::size_t(ind) * 2, ' ') + names[n.op];
    if(n.op == thro) s += std::string(" ") + (n.act ? "B deep" : throw_names[n.a]) + " " + std::to_string(n.b);
    if(n.op == trymac) s += std::string(" catch(") + hs[n.a] + ") leaves " + std::to_string(n.act) + "/" + std::to_string(n.hact);
    if(n.op == trymulti) s += " handlers " + std::to_string(n.a);
    s += "\n";
    for(auto& k : n.kids) print(s, k, ind + 1);
}

struct Bound { Run r; std::vector<int> dtors; };
template<Mode M> void execute(Run& r, const Node& p, bool traces, bool catch_all = true) {
    run_ = &r;
    r.traces = traces;
    std::vector<int>* old = dtor_log;
    dtor_log = &r.log;
    if(traces) tracker = &r.tr;
    if(traces) { cpptrace::clear_current_exception_traces(); look(0); }
    Interp<M>::top(p, catch_all);
    if(traces) look(0);
    tracker = nullptr;
    dtor_log = old;
    for(auto& s : r.slots) s = nullptr;
    run_ = nullptr;
}
std::string show_log(const std::vector<int>& a, std::size_t at) {
    std::string s;
    for(std::size_t i = at > 12 ? at - 12 : 0; i < a.size() && i < at + 8; i++) s += (i == at ? " >" : " ") + std::to_string(a[i]);
    return s;
}
}

VT_PROP(same_behaviour, "an exception is caught by a handler of the program and at least 12 events") {
    Gen g{c, int(6 + c.below(c.flip() ? 20 : 100))};
    g.throws = 1 + unsigned(c.below(5));
    g.rethrows = unsigned(c.below(3));
    Node p = g.program();
    std::string s;
    print(s, p, 0);
    c.note(s);
    c.key(s);
    Run a, b;
    execute<plain>(a, p, false);
    execute<traced>(b, p, false);
    std::size_t caught = 0;
    for(int x : a.log) caught += x >= 1000 && x < 1104 && x != 1077 && x != 1072;
    c.nontrivial(caught && a.log.size() >= 12);
    if(a.log == b.log) return;
    Run n;
    execute<nested>(n, p, false);
    if(n.log == b.log) { c.event("known: a handler's exception reached a later handler of the same try_catch"); return; }
    std::size_t at = std::size_t(std::mismatch(a.log.begin(), a.log.begin() + long(std::min(a.log.size(), b.log.size())), b.log.begin()).first - a.log.begin());
    c.fail("the tracing blocks changed what happens, from event " + std::to_string(at) + ":\n  plain:  " + show_log(a.log, at) + "\n  traced: " + show_log(b.log, at));
}

// nothing catches in the end: termination, with the same stack state
namespace { int* shared_log; int shared_max; }
// preparing tracing blocks rewrites their typeinfo: memory around it has to stay as accessible as its object file says
namespace {
struct Area { uptr from, to; bool w; };
std::vector<Area> mapped() {
    std::vector<Area> v;
    FILE* f = fopen("/proc/self/maps", "r");
    char l[5000], perm[8];
    unsigned long a, b;
    while(f && fgets(l, sizeof l, f)) if(std::sscanf(l, "%lx-%lx %7s", &a, &b, perm) == 3) v.push_back({a, b, perm[1] == 'w'});
    if(f) fclose(f);
    return v;
}
}
VT_PROP(pages_keep_protection, "pages of the program's own data were looked at after a tracing block caught something") {
    Gen g{c, int(6 + c.below(30))};
    g.throws = 1 + unsigned(c.below(5));
    Node p = g.program();
    std::string s;
    print(s, p, 0);
    c.note(s);
    c.key(s);
    Run r;
    execute<traced>(r, p, false);
    struct All { std::vector<Area> maps; std::vector<std::string> bad; std::size_t pages; } all{mapped(), {}, 0};
    dl_iterate_phdr([](dl_phdr_info* i, std::size_t, void* arg) {
        auto& all = *static_cast<All*>(arg);
        const uptr P = uptr(getpagesize());
        uptr ro_from = 0, ro_to = 0;
        for(int k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_GNU_RELRO) ro_from = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~(P - 1), ro_to = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~(P - 1);
        for(int k = 0; k < i->dlpi_phnum; k++) {
            auto& h = i->dlpi_phdr[k];
            if(h.p_type != PT_LOAD) continue;
            for(uptr a = (i->dlpi_addr + h.p_vaddr) & ~(P - 1); a < i->dlpi_addr + h.p_vaddr + h.p_memsz; a += P) {
                bool want = (h.p_flags & PF_W) && !(a >= ro_from && a < ro_to);
                for(auto& m : all.maps) if(a >= m.from && a < m.to && m.w != want) { char b[600]; std::snprintf(b, sizeof b, "the page at %#zx of %.400s is %s", a, i->dlpi_name && *i->dlpi_name ? i->dlpi_name : "the program", m.w ? "writable" : "not writable"); all.bad.push_back(b); }
                all.pages += want;
            }
        }
        return 0;
    }, &all);
    c.nontrivial(all.pages > 0 && r.log.size() > 6);
    if(!all.bad.empty()) c.fail(all.bad[0]);
}

VT_PROP_FULL(same_termination, "terminates with an exception after another one was caught", false, 40) {
    Gen g{c, int(6 + c.below(40))};
    g.throws = 3 + unsigned(c.below(5));
    Node p = g.program();
    std::string s;
    print(s, p, 0);
    c.note(s);
    c.key(s);
    std::vector<int> logs[3];
    int status[3];
    constexpr std::size_t sz = 1 << 20;
    int* mem = static_cast<int*>(mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for(int m = 0; m < 3; m++) {
        mem[0] = 0;
        pid_t pid = fork();
        if(pid == 0) {
            shared_log = mem;
            std::set_terminate([] {
                auto& l = run_->log;
                state();
                std::size_t n = std::min(l.size(), std::size_t(sz / sizeof(int) - 2));
                std::copy(l.begin(), l.begin() + long(n), shared_log + 1);
                shared_log[0] = int(n);
                _exit(77);
            });
            Run r;
            std::thread t([&] { // nothing above it catches
                if(m == 0) execute<plain>(r, p, false, false);
                if(m == 1) execute<traced>(r, p, false, false);
                if(m == 2) execute<nested>(r, p, false, false);
                _exit(7);
            });
            t.join();
        }
        waitpid(pid, &status[m], 0);
        logs[m].assign(mem + 1, mem + 1 + mem[0]);
    }
    munmap(mem, sz);
    std::size_t caught = 0;
    for(int x : logs[0]) caught += x >= 1000 && x < 1104;
    c.nontrivial(WIFEXITED(status[0]) && WEXITSTATUS(status[0]) == 77 && caught);
    c.event(WIFEXITED(status[0]) && WEXITSTATUS(status[0]) == 77 ? "terminated" : "finished");
    if(status[1] == status[0] && logs[1] == logs[0]) return;
    if(status[1] == status[2] && logs[1] == logs[2]) { c.event("known: a handler's exception reached a later handler of the same try_catch"); return; }
    std::size_t at = std::size_t(std::mismatch(logs[0].begin(), logs[0].begin() + long(std::min(logs[0].size(), logs[1].size())), logs[1].begin()).first - logs[0].begin());
    c.fail("ended differently: status " + std::to_string(status[0]) + " with plain blocks, " + std::to_string(status[1]) + " with tracing ones; from event " + std::to_string(at) + ":\n  plain:  " + show_log(logs[0], at) + "\n  traced: " + show_log(logs[1], at));
}

namespace {
template<typename F> NI void deeper(unsigned n, F& f) { if(n == 0) f(); else deeper(n - 1, f); asm volatile("" : : "r"(&n) : "memory"); }
void trace_case(Case& c, unsigned rethrows, bool slow) {
    std::size_t nt = c.chance(1, 4) ? 2 + c.below(3) : 1;
    std::vector<Node> ps;
    std::string s;
    for(std::size_t i = 0; i < nt; i++) {
        Gen g{c, int(6 + c.below(c.flip() ? 20 : 100))};
        g.throws = 1 + unsigned(c.below(5));
        g.rethrows = rethrows;
        g.probes = true;
        g.clears = c.chance(1, 4);
        g.slow_probes = slow;
        ps.push_back(g.program());
        s += "thread " + std::to_string(i) + "\n";
        print(s, ps.back(), 1);
    }
    c.note(s);
    c.key(s);
    std::vector<Run> rs(nt);
    // on top of how many other calls
    unsigned below = slow || !c.chance(1, 40) ? 0 : unsigned(c.size(c.chance(1, 4) ? 8000 : 2200));
    if(below) c.line("run " + std::to_string(below) + " calls deep"), c.event(below > 1000 ? "deeper than 1000 calls" : "deep");
    if(nt == 1) { auto f = [&] { execute<traced>(rs[0], ps[0], true); }; deeper(below, f); }
    else {
        std::vector<std::thread> ts;
        std::atomic<int> go{0};
        for(std::size_t i = 0; i < nt; i++) ts.emplace_back([&, i] { go++; while(go < int(nt)) {} auto f = [&] { execute<traced>(rs[i], ps[i], true); }; deeper(below, f); });
        for(auto& t : ts) t.join();
    }
    u64 probes = 0, any = 0, rp = 0, res = 0;
    for(auto& r : rs) { probes += r.probes, any += r.tr.any, rp += r.rethrow_probes, res += r.resolved_probes; }
    if(rethrows < 2) c.nontrivial(any && probes >= 3);
    else c.nontrivial(rp > 0);
    if(rp) c.event("rethrow traces seen");
    if(res) c.event("resolved traces compared");
    if(nt > 1) c.event("threads");
    for(auto& r : rs) if(!r.complaint.empty()) c.fail(r.complaint);
}
}
VT_PROP(trace_programs, "a tracing block captured and the trace was looked at three times") { trace_case(c, unsigned(c.below(2)), false); }
VT_PROP(trace_resolved, "a tracing block captured and the trace was looked at three times") { trace_case(c, unsigned(c.below(3)), true); }
VT_PROP(rethrow_programs, "a rethrow trace was there to be looked at") { trace_case(c, 2 + unsigned(c.below(4)), false); }

// the same in destructors of thread_local and static objects, before and after the library's own ones are gone
namespace {
struct LateReport { int looked, captured, bad; char text[4000]; };
LateReport* late = nullptr;
const Node* late_program = nullptr;
int late_rounds = 0;
void late_run() {
    if(!late || !late_program) return;
    for(int i = 0; i < late_rounds; i++) {
        Run r;
        execute<traced>(r, *late_program, true);
        __atomic_fetch_add(&late->looked, int(r.probes), __ATOMIC_RELAXED);
        __atomic_fetch_add(&late->captured, r.tr.any, __ATOMIC_RELAXED);
        if(!r.complaint.empty() && !__atomic_exchange_n(&late->bad, 1, __ATOMIC_RELAXED)) std::snprintf(late->text, sizeof late->text, "%s", r.complaint.c_str());
    }
}
struct Late { int x = 0; ~Late() { late_run(); } };
}
VT_PROP(late_destructors, "traces were captured in at least two of the places") {
    Gen g{c, int(6 + c.below(20))};
    g.throws = 4, g.rethrows = unsigned(c.below(4)), g.probes = true, g.slow_probes = c.flip();
    Node p;
    p.op = trymac, p.a = 0;
    p.kids.push_back(g.program());
    { Node look; look.op = probe_trace, look.a = int(c.below(3)); p.kids.push_back(look); }
    bool first[4], used[4];
    for(int i = 0; i < 4; i++) first[i] = c.flip(), used[i] = c.flip();
    int rounds = 1 + int(c.below(3));
    std::string s;
    print(s, p, 0);
    c.note("in main before/after its own thread_local: ").note(first[0]).note(used[0]).note(", thread ").note(first[1]).note(used[1]).note(", static ").note(first[2]).note(used[2]).note(", at exit ").line(used[3]);
    c.note(s);
    c.key(c.notes);
    auto* mem = static_cast<LateReport*>(mmap(nullptr, sizeof(LateReport), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    pid_t pid = fork();
    if(pid == 0) {
        late = mem, late_program = &p, late_rounds = rounds;
        if(used[3]) std::atexit(late_run);
        auto body = [&](bool before, bool has) {
            if(has) {
                if(!before) late_run();
                thread_local Late l;
                l.x++;
                if(before) late_run();
            } else late_run();
        };
        auto stat = [&] { static Late l; l.x++; };
        if(used[2] && first[2]) stat();
        std::thread t([&] { body(first[1], used[1]); });
        t.join();
        body(first[0], used[0]);
        if(used[2] && !first[2]) stat();
        std::exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    LateReport r = *mem;
    munmap(mem, sizeof(LateReport));
    c.nontrivial(r.captured >= 2 * rounds && r.looked >= 4);
    c.check(!r.bad, std::string("in a late destructor: ") + r.text);
    c.check(st == 0, "the program ended with status " + std::to_string(st));
}
