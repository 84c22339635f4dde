// P23: histories of library operations in which memory, descriptors, processes or system calls run out at generated
// places. A second process runs the same history without faults and says what the results have to be.
#include "vt.hpp"
#include "allocs.hpp"
#include "fixture.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/utils.hpp>

#include <cstdarg>
#include <dlfcn.h>
#include <poll.h>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using vt::Case;
using vt::u64;
using Ptr = cpptrace::frame_ptr;
#define NI __attribute__((noinline))

// ---------------------------------------------------------------- calls that can fail
namespace calls {
enum Kind { FORK, PIPE, FCNTL, POLL, READ, WRITE, OPEN, READLINK, KINDS };
const char* const names[] = {"fork", "pipe", "fcntl", "poll", "read", "write", "open", "readlink"};
struct Plan { bool armed; int kind; unsigned from, to; int error; unsigned seen[KINDS], failed; };
__thread Plan plan;
bool refuse(Kind k) {
    if(!plan.armed) return false;
    auto n = plan.seen[k]++;
    if(plan.kind != k || n < plan.from || n >= plan.to) return false;
    plan.failed++;
    errno = plan.error;
    return true;
}
template<typename F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(NAME) static auto f = calls::real<decltype(&::NAME)>(#NAME)
}
#define VT_HAVE_CALLS VT_HAVE_ALLOCS // sanitizers interpose the same functions
#if VT_HAVE_CALLS
extern "C" {
pid_t fork() { REAL(fork); if(calls::refuse(calls::FORK)) return -1; return f(); }
int pipe2(int* p, int fl) { REAL(pipe2); if(calls::refuse(calls::PIPE)) return -1; return f(p, fl); }
int pipe(int* p) { REAL(pipe); if(calls::refuse(calls::PIPE)) return -1; return f(p); }
int fcntl(int fd, int cmd, ...) { REAL(fcntl); va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if(calls::refuse(calls::FCNTL)) return -1; return f(fd, cmd, a); }
int poll(pollfd* p, nfds_t n, int t) { REAL(poll); if(calls::refuse(calls::POLL)) return -1; return f(p, n, t); }
ssize_t read(int fd, void* b, size_t n) { REAL(read); if(calls::refuse(calls::READ)) return -1; return f(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { REAL(write); if(calls::refuse(calls::WRITE)) return -1; return f(fd, b, n); }
int open(const char* p, int fl, ...) { REAL(open); va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); if(calls::refuse(calls::OPEN)) return -1; return f(p, fl, m); }
ssize_t readlink(const char* p, char* b, size_t n) { REAL(readlink); if(calls::refuse(calls::READLINK)) return -1; return f(p, b, n); }
FILE* fopen(const char* p, const char* m) { REAL(fopen); if(calls::refuse(calls::OPEN)) return nullptr; return f(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); if(calls::refuse(calls::OPEN)) return nullptr; return f(p, m); }
}
#endif

namespace {
// ---------------------------------------------------------------- steps and their results
enum Op { RAW, OBJECTS, TRACE, GENERATE_TRACE, RESOLVE_RAW, RESOLVE_OBJECTS, RAW_TO_OBJECTS, TRACED_EXCEPTION, WRAPPED, FROM_CURRENT, FROM_CURRENT_UNRESOLVED, RETHROWN, PRUNE, DEMANGLE, SNIPPET_TEXT, TRACE_TEXT, SAFE_OBJECT, GENERATE_RAW, GENERATE_OBJECTS, UNLIMITED, FRAME_INFO, OPS };
const char* const op_names[] = {"raw_trace::current", "object_trace::current", "stacktrace::current", "generate_trace", "raw_trace::resolve", "object_trace::resolve", "raw_trace::resolve_object_trace", "traced exception", "wrapped exception",
    "from_current_exception", "raw_trace_from_current_exception", "rethrow", "prune_symbol", "demangle", "snippet formatting", "trace formatting", "safe_object_frame::resolve", "generate_raw_trace", "generate_object_trace", "a trace of any depth", "stacktrace_frame::get_object_info"};
// can't do otherwise than throw when there is no memory for what they return
bool may_run_out(int op) { return op == SNIPPET_TEXT || op == TRACE_TEXT || op == DEMANGLE || op == PRUNE || op == SAFE_OBJECT || op == FRAME_INFO; }
struct Fault {
    int kind = -1; // 0: allocations, 1: descriptors, 2: a call
    unsigned long from = 0, to = 0;
    int call = 0, error = 0;
    unsigned spare = 0; // descriptors left
};
struct Step { int op; unsigned depth, file; bool absorb; Fault fault; std::string text; std::vector<Ptr> addresses; bool quiet; int variant; };
struct Result {
    std::string shape;                          // what the result is: "frames", "text", ...
    std::vector<std::vector<std::string>> rows; // a row per frame: raw address first
    bool threw = false, std_exception = false;
    std::string error;
    unsigned long allocs = 0, alloc_hits = 0;
    unsigned calls[calls::KINDS] = {}, call_hits = 0;
    unsigned logged = 0;
    bool operator==(const Result& o) const { return rows == o.rows && threw == o.threw; }
};
std::vector<std::string> logged;
Fault active;
rlimit old_limit;
bool limited = false;
unsigned long seen_allocs, failed_allocs;
void arm() {
    if(active.kind == 1) {
        int used = 0;
        for(int fd = 0; fd < 64; fd++) if(::fcntl(fd, F_GETFD) != -1) used = fd + 1;
        getrlimit(RLIMIT_NOFILE, &old_limit);
        rlimit l{rlim_t(used) + active.spare, old_limit.rlim_max};
        setrlimit(RLIMIT_NOFILE, &l);
        limited = true;
    }
    calls::plan = {true, active.kind == 2 ? active.call : -1, unsigned(active.from), unsigned(active.to), active.error, {}, 0};
    allocs::plan = {true, 0, active.kind == 0 ? active.from : ~0ul, active.kind == 0 ? active.to : ~0ul, 0};
}
void disarm() {
    allocs::plan.armed = false;
    calls::plan.armed = false;
    if(limited) { setrlimit(RLIMIT_NOFILE, &old_limit); limited = false; }
}
struct Guard { ~Guard() { disarm(); } };
std::string hex(Ptr p) { char b[24]; std::snprintf(b, sizeof b, "%#llx", (unsigned long long)p); return b; }
using Rows = std::vector<std::vector<std::string>>;
Rows rows(const cpptrace::raw_trace& t) { Rows r; for(auto p : t.frames) r.push_back({hex(p)}); return r; }
Rows rows(const cpptrace::object_trace& t) { Rows r; for(auto& f : t.frames) r.push_back({hex(f.raw_address), f.object_address ? hex(f.object_address) : "", f.object_path}); return r; }
Rows rows(const cpptrace::stacktrace& t) {
    Rows r;
    for(auto& f : t.frames) r.push_back({hex(f.raw_address), f.object_address ? hex(f.object_address) : "", f.symbol, f.filename, f.line.has_value() ? std::to_string(f.line.value()) : "", f.is_inline ? "inline" : ""});
    return r;
}
const unsigned depth_limit = 6; // frames that do not depend on who runs the history
struct Small {}; // thrown by the operations themselves
NI void thrower(int k) { if(k > 0) { thrower(k - 1); asm volatile(""); return; } throw Small{}; }

NI void perform(const Step& s, Result& r) {
    using namespace cpptrace;
    switch(s.op) {
        case RAW: { r.shape = "frames"; arm(); auto t = raw_trace::current(0, depth_limit); disarm(); r.rows = rows(t); break; }
        case OBJECTS: { r.shape = "frames"; arm(); auto t = object_trace::current(0, depth_limit); disarm(); r.rows = rows(t); break; }
        case TRACE: { r.shape = "frames"; arm(); auto t = stacktrace::current(0, depth_limit); disarm(); r.rows = rows(t); break; }
        case GENERATE_TRACE: { r.shape = "frames"; arm(); auto t = generate_trace(0, depth_limit); disarm(); r.rows = rows(t); break; }
        case GENERATE_RAW: { r.shape = "frames"; arm(); auto t = generate_raw_trace(0, depth_limit); disarm(); r.rows = rows(t); break; }
        case GENERATE_OBJECTS: { r.shape = "frames"; arm(); auto t = generate_object_trace(0, depth_limit); disarm(); r.rows = rows(t); break; }
        case UNLIMITED: {
            r.shape = "frames";
            switch(s.variant) {
                case 0: { arm(); auto t = raw_trace::current(); disarm(); r.rows = rows(t); break; }
                case 1: { arm(); auto t = object_trace::current(); disarm(); r.rows = rows(t); break; }
                case 2: { arm(); auto t = stacktrace::current(); disarm(); r.rows = rows(t); break; }
                case 3: { arm(); auto t = generate_raw_trace(); disarm(); r.rows = rows(t); break; }
                case 4: { arm(); auto t = generate_object_trace(); disarm(); r.rows = rows(t); break; }
                default: { arm(); auto t = generate_trace(); disarm(); r.rows = rows(t); break; }
            }
            if(r.rows.size() > depth_limit) r.rows.resize(depth_limit);
            break;
        }
        case FRAME_INFO: {
            r.shape = "frames";
            std::vector<object_frame> v;
            v.reserve(s.addresses.size());
            arm();
            for(auto a : s.addresses) { stacktrace_frame g{}; g.raw_address = a; v.push_back(g.get_object_info()); }
            disarm();
            r.rows = rows(object_trace{v});
            break;
        }
        case RESOLVE_RAW: { r.shape = "frames"; raw_trace w{s.addresses}; arm(); auto t = w.resolve(); disarm(); r.rows = rows(t); break; }
        case RAW_TO_OBJECTS: { r.shape = "frames"; raw_trace w{s.addresses}; arm(); auto t = w.resolve_object_trace(); disarm(); r.rows = rows(t); break; }
        case RESOLVE_OBJECTS: { r.shape = "frames"; auto o = raw_trace{s.addresses}.resolve_object_trace(); arm(); auto t = o.resolve(); disarm(); r.rows = rows(t); break; }
        case TRACED_EXCEPTION: {
            r.shape = "exception";
            arm();
            runtime_error e("lost", detail::get_raw_trace_and_absorb(0, depth_limit));
            auto m = e.message();
            auto w = e.what();
            auto& t = e.trace();
            disarm();
            r.rows = rows(t);
            r.rows.push_back({"message", m});
            r.rows.push_back({"what", std::string(w).substr(0, 4)});
            break;
        }
        case WRAPPED: {
            r.shape = "exception";
            std::string m, w;
            cpptrace::stacktrace copy;
            arm();
            try {
                CPPTRACE_WRAP_BLOCK( thrower(2); );
            } catch(cpptrace::exception& e) {
                auto mm = e.message(), ww = e.what();
                auto& t = e.trace();
                disarm();
                m = mm, w = ww;
                copy = t;
            } catch(Small&) { disarm(); m = "unwrapped"; }
            if(copy.frames.size() > 4) copy.frames.resize(4);
            r.rows = rows(copy);
            r.rows.push_back({"message", m});
            r.rows.push_back({"what", w.substr(0, 10)});
            break;
        }
        case FROM_CURRENT: case FROM_CURRENT_UNRESOLVED: {
            r.shape = "frames";
            arm();
            CPPTRACE_TRY {
                thrower(int(s.depth));
            } CPPTRACE_CATCH(const Small&) {
                if(s.op == FROM_CURRENT) {
                    auto& t = from_current_exception();
                    disarm();
                    r.rows = rows(t);
                } else {
                    auto& t = raw_trace_from_current_exception();
                    disarm();
                    r.rows = rows(t);
                }
                if(r.rows.size() > s.depth + 2) r.rows.resize(s.depth + 2);
            }
            break;
        }
        case RETHROWN: {
            r.shape = "frames";
            arm();
            CPPTRACE_TRY {
                CPPTRACE_TRY {
                    thrower(int(s.depth));
                } CPPTRACE_CATCH(const Small&) {
                    cpptrace::rethrow();
                }
            } CPPTRACE_CATCH(const Small&) {
                auto& t = from_current_exception();
                auto& u = from_current_exception_rethrow();
                bool b = current_exception_was_rethrown();
                disarm();
                auto a = rows(t), z = rows(u);
                if(a.size() > s.depth + 2) a.resize(s.depth + 2);
                if(z.size() > 2) z.resize(2);
                r.rows = a;
                r.rows.push_back({"rethrow trace"});
                r.rows.insert(r.rows.end(), z.begin(), z.end());
                if(b != !u.empty()) r.rows.push_back({"current_exception_was_rethrown is wrong"});
            }
            break;
        }
        case PRUNE: { r.shape = "symbol"; arm(); auto t = prune_symbol(s.text); disarm(); r.rows = {{t}}; break; }
        case DEMANGLE: { r.shape = "symbol"; arm(); auto t = demangle(s.text); disarm(); r.rows = {{t}}; break; }
        case SNIPPET_TEXT: case TRACE_TEXT: {
            r.shape = "text";
            stacktrace t;
            for(unsigned k = 0; k < s.depth % 4 + 1; k++) t.frames.push_back({0x1000 + k, 0x10, 3 + k, 7, s.text, "f" + std::to_string(k), false});
            auto fmt = formatter{}.snippets(s.op == SNIPPET_TEXT).columns(true);
            arm();
            std::string x;
            if(s.variant == 0) x = fmt.format(t);
            else { std::ostringstream o; if(s.variant == 1) fmt.print(o, t); else fmt.print(o, t, false); disarm(); x = o.str(); }
            disarm();
            if(s.variant != 0 && !x.empty() && x.back() == '\n') x.pop_back();
            r.rows = {{x}};
            break;
        }
        case SAFE_OBJECT: {
            r.shape = "frames";
            static safe_object_frame f;
            std::vector<object_frame> v;
            v.reserve(s.addresses.size());
            arm();
            for(auto a : s.addresses) { get_safe_object_frame(a, &f); v.push_back(f.resolve()); }
            disarm();
            r.rows = rows(object_trace{v});
            break;
        }
    }
}
NI Result attempt(const Step& s, bool faulty) {
    Result r;
    r.rows.reserve(64);
    r.shape.reserve(32);
    logged.clear();
    active = faulty ? s.fault : Fault{};
    cpptrace::absorb_trace_exceptions(s.absorb);
    {
        Guard g;
        try {
            perform(s, r);
        } catch(std::exception& e) {
            disarm();
            r.threw = r.std_exception = true;
            r.error = e.what();
            r.rows.clear();
        } catch(...) {
            disarm();
            r.threw = true;
            r.rows.clear();
        }
    }
    r.allocs = allocs::plan.seen;
    r.alloc_hits = allocs::plan.failed;
    for(int k = 0; k < calls::KINDS; k++) r.calls[k] = calls::plan.seen[k];
    r.call_hits = calls::plan.failed;
    r.logged = unsigned(logged.size());
    return r;
}

// ---------------------------------------------------------------- between processes
void put(std::string& o, u64 v) { o.append(reinterpret_cast<const char*>(&v), 8); }
void put(std::string& o, const std::string& s) { put(o, s.size()); o += s; }
struct In {
    const std::string& s; std::size_t p = 0;
    u64 num() { u64 v = 0; if(p + 8 <= s.size()) { std::memcpy(&v, &s[p], 8); p += 8; } return v; }
    std::string str() { auto n = num(); auto r = s.substr(p, n); p += n; return r; }
};
void put(std::string& o, const Result& r) {
    put(o, r.rows.size());
    for(auto& row : r.rows) { put(o, row.size()); for(auto& x : row) put(o, x); }
    put(o, r.threw); put(o, r.error); put(o, r.allocs);
    for(auto n : r.calls) put(o, n);
}
Result get(In& in) {
    Result r;
    r.rows.resize(in.num());
    for(auto& row : r.rows) { row.resize(in.num()); for(auto& x : row) x = in.str(); }
    r.threw = in.num(); r.error = in.str(); r.allocs = in.num();
    for(auto& n : r.calls) n = unsigned(in.num());
    return r;
}
std::string show(const Result& r) {
    if(r.threw) return "exception \"" + r.error + "\"";
    std::string s = "{";
    for(auto& row : r.rows) { s += "\n    "; for(auto& x : row) s += vt::quote(x, 300) + " "; }
    return s + "}";
}
std::string object_of(const std::string& address) {
    cpptrace::stacktrace_frame f{};
    f.raw_address = std::strtoull(address.c_str(), nullptr, 16);
    return f.get_object_info().object_path;
}
// what remains valid of a result when something failed
std::string why_not(const Step& s, const Result& got, const Result& want) {
    if(got.rows == want.rows) return "";
    if(s.op == PRUNE || s.op == DEMANGLE) return got.rows == Rows{{s.text}} ? "" : "neither the name asked for nor the one it should be";
    if((s.op == SNIPPET_TEXT || s.op == TRACE_TEXT) && s.fault.kind == 0 && !got.rows.empty() && want.rows[0][0].rfind(got.rows[0][0], 0) == 0) return ""; // a stream without memory takes no more text
    if(s.op == SNIPPET_TEXT) { // each frame's own line has to be there, snippets may be missing
        auto text = got.rows.empty() ? "" : got.rows[0][0];
        auto full = want.rows[0][0];
        std::size_t a = 0, b = 0;
        std::istringstream i(text), j(full);
        std::string l, m;
        std::vector<std::string> x, y;
        while(std::getline(i, l)) x.push_back(l);
        while(std::getline(j, m)) y.push_back(m);
        while(a < x.size() && b < y.size()) { if(x[a] == y[b]) a++, b++; else if(y[b].rfind("#", 0) == 0 || y[b].rfind("Stack", 0) == 0) return "a frame is missing from the text"; else b++; }
        return a == x.size() ? "" : "lines that are not part of the full text";
    }
    if(s.op == TRACE_TEXT) return "not the text it should be";
    auto split = [](const Rows& r, Rows& tail) { Rows head; bool t = false; for(auto& x : r) { if(!x.empty() && (x[0] == "message" || x[0] == "rethrow trace")) t = true; (t ? tail : head).push_back(x); } return head; };
    Rows gt, wt;
    auto g = split(got.rows, gt), w = split(want.rows, wt);
    auto frames_ok = [](const Rows& g, const Rows& w) -> std::string {
        if(g.empty()) return "";
        if(g.size() > w.size()) return "more frames than there are";
        for(std::size_t k = 0; k < g.size(); k++) {
            if(g[k].size() != w[k].size() || g[k][0] != w[k][0]) return "frame " + std::to_string(k) + " is another one";
            for(std::size_t x = 1; x < g[k].size(); x++) if(g[k][x] != w[k][x] && !g[k][x].empty()) {
                if(x == 2 && w[k].size() == 6 && cpptrace::demangle(g[k][x]) == w[k][x]) continue; // there was no memory for demangling
                if(x == 3 && w[k].size() == 6 && g[k][2].empty() && g[k][4].empty() && g[k][x] == object_of(g[k][0])) continue; // all that is known of a frame that could not be resolved
                return "frame " + std::to_string(k) + " says " + vt::quote(g[k][x], 200) + " instead of " + vt::quote(w[k][x], 200) + " or nothing";
            }
        }
        return "";
    };
    auto e = frames_ok(g, w);
    if(!e.empty()) return e;
    if(s.op == RETHROWN) {
        if(gt.empty() || gt[0] != wt[0]) return "result incomplete";
        gt.erase(gt.begin()), wt.erase(wt.begin());
        return frames_ok(gt, wt);
    }
    if(s.op == TRACED_EXCEPTION || s.op == WRAPPED) {
        // no memory for the text: the message has to make do
        for(std::size_t k = 0; k < gt.size() && k < wt.size(); k++) if(gt[k] != wt[k] && !(s.op == WRAPPED && gt[k].size() == 2 && wt[k][1].size() && gt[k][1].rfind("Nested exc", 0) == 0)) return gt[k][0] + " is " + vt::quote(gt[k][1]) + " instead of " + vt::quote(wt[k][1]);
        if(gt.size() != wt.size()) return "result incomplete";
    }
    return "";
}

// ---------------------------------------------------------------- addresses
NI int target_a(int x) { asm volatile("" : "+r"(x)); return x + 1; }
NI int target_b(int x) { asm volatile("" : "+r"(x)); return x * 3; }
Ptr some_address(Case& c) {
    static void* libc = dlsym(RTLD_DEFAULT, "qsort");
    static void* libstdcpp = dlsym(RTLD_DEFAULT, "_ZSt9terminatev");
    switch(c.weighted({3, 3, 2, 2, 1, 1})) {
        case 0: return Ptr(&target_a) + c.below(4);
        case 1: return Ptr(&target_b) + c.below(4);
        case 2: return Ptr(libc) + c.below(16);
        case 3: return Ptr(libstdcpp) + c.below(4);
        case 4: return c.below(100);
        default: return Ptr(&perform) + c.below(200);
    }
}
#ifdef VT_SLOW
const std::size_t max_steps = 3;
#else
const std::size_t max_steps = 6;
#endif
void run(Case& c, bool one_fault_each) {
    std::vector<Step> h;
    std::size_t n = 1 + c.below(max_steps);
    static std::string dir = vt::scratch_dir();
    unsigned wanted = 0;
    // two source files, of this case only
    std::string base = dir + "/src" + std::to_string(::getpid());
    for(int k = 0; k < 2; k++) {
        std::string t;
        for(int l = 1; l < 12; l++) t += "line " + std::to_string(l) + " of file " + std::to_string(k) + "\n";
        fixture::spit(base + "-" + std::to_string(k), t);
    }
    (void)one_fault_each;
    for(std::size_t i = 0; i < n; i++) {
        Step s{};
        s.op = int(c.weighted({3, 3, 4, 2, 4, 3, 3, 4, 3, 4, 3, 4, 2, 2, 3, 1, 2, 2, 2, 3, 2}));
        s.variant = int(c.below(6));
        s.depth = unsigned(c.below(5));
        s.absorb = c.chance(2, 3);
        s.quiet = c.flip();
        std::size_t k = 1 + c.size(12);
        if(s.op == RESOLVE_RAW || s.op == RESOLVE_OBJECTS || s.op == RAW_TO_OBJECTS || s.op == SAFE_OBJECT || s.op == FRAME_INFO) while(k--) s.addresses.push_back(some_address(c));
        if(s.op == PRUNE) s.text = c.pick({std::string("void ns::f<std::vector<int, std::allocator<int> > >(std::string, char (*)(int))"), std::string("a::b<c>::d(e::f<g>) const"), std::string("operator<< <int>"), std::string("x"), std::string("std::function<void (int)>::operator()(int) const")});
        if(s.op == DEMANGLE) s.text = c.pick({std::string("_ZN2ns1fISt6vectorIiSaIiEEEEvT_"), std::string("_Z1fi"), std::string("main"), std::string("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")});
        if(s.op == SNIPPET_TEXT || s.op == TRACE_TEXT) s.text = c.chance(1, 5) ? std::string("/nonexistent.cpp") : base + "-" + std::to_string(c.below(2));
        h.push_back(std::move(s));
    }
    std::vector<Result> plain, faulty, after;
    cpptrace::clear_current_exception_traces(); // glibc ends programs that run out of memory in a thread's first use of a thread_local
    // both processes call `attempt` from the same place, so that the stacks are the same
    std::string blob;
    for(int who = 0; who < 2; who++) {
        int p[2] = {-1, -1};
        pid_t child = 0;
        if(who == 0) {
            if(::pipe(p) != 0) c.discard();
            child = ::fork();
            if(child != 0) {
                ::close(p[1]);
                char b[4096];
                for(ssize_t k; (k = ::read(p[0], b, sizeof b)) > 0;) blob.append(b, std::size_t(k));
                ::close(p[0]);
                int st = 0;
                ::waitpid(child, &st, 0);
                if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) c.fail("the history does not survive without faults: status " + std::to_string(st));
                continue;
            }
        } else {
            In in{blob};
            for(std::size_t i = 0; i < 2 * n; i++) plain.push_back(get(in));
            for(std::size_t i = 0; i < n; i++) {
                auto& s = h[i];
                auto& r = plain[2 * i];
                if(r.threw) c.fail(std::string(op_names[s.op]) + " throws without any fault: " + r.error);
                if(!c.chance(4, 5)) continue;
                std::vector<int> kinds;
                unsigned total = 0;
                for(auto x : r.calls) total += x;
                switch(c.weighted({VT_HAVE_ALLOCS && r.allocs ? 4u : 0u, total || !VT_HAVE_CALLS ? 2u : 0u, VT_HAVE_CALLS && total ? 3u : 0u, 1})) {
                    case 0: s.fault.kind = 0; s.fault.from = c.below(r.allocs); s.fault.to = c.chance(2, 3) ? s.fault.from + 1 + c.size(6) : ~0ul; break;
                    case 1: s.fault.kind = 1; s.fault.spare = unsigned(c.below(7)); break;
                    case 2: {
                        for(int k = 0; k < calls::KINDS; k++) if(r.calls[k]) kinds.push_back(k);
                        s.fault.kind = 2;
                        s.fault.call = c.pick(kinds);
                        s.fault.from = c.below(r.calls[s.fault.call]);
                        s.fault.to = c.flip() ? s.fault.from + 1 : ~0ul;
                        static const int errors[calls::KINDS] = {EAGAIN, EMFILE, EMFILE, ENOMEM, EIO, EIO, EMFILE, ENOMEM};
                        s.fault.error = errors[s.fault.call];
                        break;
                    }
                    default: break;
                }
                if(s.fault.kind >= 0) wanted++;
            }
            if(c.want_notes) for(auto& s : h) {
                c.note(op_names[s.op]).note(s.absorb ? ", failures absorbed" : ", failures passed on").note(" depth ").note(s.depth);
                if(!s.addresses.empty()) { c.note(" addresses"); for(auto a : s.addresses) c.note(" ").note(hex(a)); }
                if(!s.text.empty()) c.note(" ").note(vt::quote(s.text, 100));
                if(s.fault.kind == 0) c.note("; allocations from ").note(s.fault.from).note(" to ").note(s.fault.to).note(" fail");
                if(s.fault.kind == 1) c.note("; ").note(s.fault.spare).note(" descriptors left");
                if(s.fault.kind == 2) c.note("; calls of ").note(calls::names[s.fault.call]).note(" from ").note(s.fault.from).note(" to ").note(s.fault.to).note(" fail");
                c.line("");
            }
        }
        std::string out;
        for(std::size_t i = 0; i < n; i++) {
            if(h[i].quiet) cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
            else cpptrace::set_log_callback([](cpptrace::log_level, const char* m) { allocs::Pause p; logged.push_back(m); });
            for(int again = 0; again < 2; again++) {
                auto r = attempt(h[i], who == 1 && again == 0);
                if(who == 0) put(out, r);
                else (again ? after : faulty).push_back(std::move(r));
            }
        }
        if(who == 0) {
            for(std::size_t k = 0; k < out.size();) { auto w = ::write(p[1], out.data() + k, out.size() - k); if(w <= 0) ::_exit(3); k += std::size_t(w); }
            ::_exit(0);
        }
    }
    unsigned hits = 0;
    for(std::size_t i = 0; i < n; i++) {
        auto& s = h[i];
        auto& f = faulty[i];
        std::string what = "step " + std::to_string(i) + " (" + op_names[s.op] + ")";
        if(after[i].rows != plain[2 * i + 1].rows || after[i].threw) c.fail(what + ": after the fault the result is " + show(after[i]) + ", without it " + show(plain[2 * i + 1]));
        auto hit = f.alloc_hits + f.call_hits + (s.fault.kind == 1);
        if(s.fault.kind < 0) {
            if(f.threw || f.rows != plain[2 * i].rows) c.fail(what + ", no fault in it: the result is " + show(f) + ", without earlier faults " + show(plain[2 * i]));
            continue;
        }
        if(!hit) continue;
        hits++;
        c.event(s.fault.kind == 0 ? "allocation fails" : s.fault.kind == 1 ? "no descriptors" : calls::names[s.fault.call]);
        c.event(op_names[s.op]);
        if(f.threw) {
            c.event("passed on");
            if(s.absorb && !(s.fault.kind == 0 && may_run_out(s.op))) c.fail(what + " threw though failures are to be absorbed: " + f.error);
            if(!f.std_exception) c.fail(what + " threw something that is not a std::exception");
            continue;
        }
        auto why = why_not(s, f, plain[2 * i]);
        if(!why.empty()) c.fail(what + " under the fault: " + why + ": the result is " + show(f) + ", without faults " + show(plain[2 * i]));
        if(f.rows != plain[2 * i].rows) c.event("degraded");
        if(!s.absorb && f.rows != plain[2 * i].rows) {
            // reported by an exception, or where the interface can't throw by a message
            bool names_only = f.rows.size() == plain[2 * i].rows.size();
            for(std::size_t k = 0; names_only && k < f.rows.size(); k++) { auto a = f.rows[k], b = plain[2 * i].rows[k]; if(a.size() == 6 && b.size() == 6) a[2] = b[2]; names_only = a == b; }
            bool one = s.fault.to - s.fault.from == 1 && s.fault.kind != 1;
            bool text_only = s.op == TRACED_EXCEPTION || s.op == WRAPPED;
            for(std::size_t k = 0; text_only && k < std::max(f.rows.size(), plain[2 * i].rows.size()); k++) text_only = k < f.rows.size() && k < plain[2 * i].rows.size() && (f.rows[k] == plain[2 * i].rows[k] || f.rows[k].size() == 2);
            bool no_throw = s.op == FROM_CURRENT || s.op == RETHROWN || s.op == TRACED_EXCEPTION || s.op == WRAPPED;
            if(names_only || text_only || s.op == DEMANGLE || s.op == SNIPPET_TEXT || s.op == TRACE_TEXT) c.event("nothing lost but names or snippets");
            else if(s.fault.kind == 2 && s.fault.call == calls::READLINK) c.event("program's path unknown");
            else if(s.fault.kind == 2 && s.fault.call == calls::FORK) c.event("helper taken for missing");
            else if(!no_throw && !s.quiet && !f.logged && !(s.fault.kind == 0 && !one)) c.fail(what + ": the failure is neither passed on nor logged: the result is " + show(f) + ", without faults " + show(plain[2 * i]));
            else if(one && !s.quiet && !f.logged) c.fail(what + ": the failure is neither passed on nor logged: the result is " + show(f) + ", without faults " + show(plain[2 * i]));
            else c.event(f.logged ? "logged instead of passed on" : "neither passed on nor logged");
        }
    }
    c.nontrivial(hits > 0);
}
VT_PROP_ISOLATED(faults, "a fault hit an operation") { run(c, false); }
}
