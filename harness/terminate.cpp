// P20 the terminate handler
#include "vt.hpp"
#include "fixture.hpp"

#include <cpptrace/cpptrace.hpp>
#include <cpptrace/exceptions.hpp>
#include <cpptrace/utils.hpp>

#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <pty.h>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unwind.h>

#define NOINLINE __attribute__((noinline))
#define KEEP() asm volatile("" ::: "memory")

namespace {
using u64 = std::uint64_t;
using Ptr = cpptrace::frame_ptr;

// ------------------------------------------------------------------ the program that dies
int expect_fd = -1;
std::string message_;
bool walked_unwound = false;

void expect(const std::string& header, const std::string& exact_trace) { // what the report must say
    std::string s = header + '\0' + exact_trace + '\0';
    (void)!::write(expect_fd, s.data(), s.size());
}
struct Stack { std::vector<Ptr> a; };
Stack base; // the stack that is still there when the program ends
NOINLINE void note_stack() { base.a = cpptrace::generate_raw_trace(1).frames; KEEP(); }
void expect_stack() {
    std::string s;
    for(auto p : base.a) s += std::to_string(p) + " ";
    s += '\0';
    (void)!::write(expect_fd, s.data(), s.size());
}
std::string type_of(const std::type_info& t) {
    int st = 0;
    char* d = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
    std::string s = d && st == 0 ? d : t.name();
    std::free(d);
    return s;
}
struct Plain { int a; };
template<typename T> struct Templ { T v; };
enum Enum { E1 };
enum class Scoped { S1 };
struct Derived : std::exception { std::string m; explicit Derived(std::string m): m(std::move(m)) {} const char* what() const noexcept override { return m.c_str(); } };
struct Virtual : virtual Derived { explicit Virtual(std::string m): Derived(std::move(m)) {} };
struct Private : private std::runtime_error { explicit Private(const std::string& m): runtime_error(m) {} };
struct Two : std::runtime_error, std::bad_alloc { explicit Two(const std::string& m): runtime_error(m) {} };
struct WithTrace : cpptrace::lazy_exception { std::string m; explicit WithTrace(std::string m): m(std::move(m)) {} const char* message() const noexcept override { return m.c_str(); } };
struct OtherTrace : cpptrace::exception { // the interface alone
    cpptrace::stacktrace t;
    std::string m;
    explicit OtherTrace(std::string m): t(cpptrace::generate_trace()), m(std::move(m)) {}
    const char* what() const noexcept override { return "not this"; }
    const char* message() const noexcept override { return m.c_str(); }
    const cpptrace::stacktrace& trace() const noexcept override { return t; }
};
struct Mixed : cpptrace::runtime_error, Plain { explicit Mixed(std::string m): runtime_error(std::move(m)), Plain{4} {} };
extern "C" void foreign_cleanup(_Unwind_Reason_Code, _Unwind_Exception*) {}
_Unwind_Exception foreign;

const int n_types = 36;
// say what the report will be, and throw
template<typename T> [[noreturn]] void plain_throw(T v) {
    expect("Terminate called after throwing an instance of " + type_of(typeid(T)), "");
    throw v;
}
template<typename T> [[noreturn]] void std_throw(T v) {
    expect("Terminate called after throwing an instance of " + type_of(typeid(T)) + ": " + v.what(), "");
    throw v;
}
template<typename T> [[noreturn]] void traced_throw(T v) {
    expect("Terminate called after throwing an instance of " + type_of(typeid(T)) + ": " + v.message(), T(v).trace().to_string());
    throw v;
}
template<typename T> void do_throw(int type, T&& body) { body(type); }
[[noreturn]] NOINLINE void throw_type(int type) {
    std::string m = message_;
    switch(type) {
        case 0: plain_throw(5);
        case 1: plain_throw(2.5);
        case 2: plain_throw(static_cast<const char*>("text"));
        case 3: plain_throw(std::string("string"));
        case 4: plain_throw(Plain{1});
        case 5: plain_throw(Templ<Templ<int>>{});
        case 6: plain_throw(E1);
        case 7: plain_throw(Scoped::S1);
        case 8: plain_throw(nullptr);
        case 9: plain_throw(&note_stack);
        case 10: plain_throw([] { return 1; });
        case 11: { struct Local { char c[300]; }; plain_throw(Local{}); }
        case 12: plain_throw('c');
        case 13: plain_throw(std::make_shared<int>(3));
        case 14: plain_throw(Private(m));
        case 15: plain_throw(Two(m));
        case 16: plain_throw(static_cast<std::exception*>(nullptr));
        case 17: plain_throw(1ull);
        case 18: std_throw(std::runtime_error(m));
        case 19: std_throw(Derived(m));
        case 20: std_throw(Virtual(m));
        case 21: std_throw(std::system_error(std::make_error_code(std::errc::io_error), m));
        case 22: std_throw(std::bad_alloc());
        case 23: std_throw(std::exception());
        case 24: std_throw(std::bad_cast());
        case 25: std_throw(std::logic_error(m));
        case 26: traced_throw(cpptrace::runtime_error(std::string(m)));
        case 27: traced_throw(cpptrace::logic_error(std::string(m)));
        case 28: traced_throw(cpptrace::lazy_exception());
        case 29: traced_throw(WithTrace(m));
        case 30: traced_throw(OtherTrace(m));
        case 31: traced_throw(Mixed(m));
        case 32: traced_throw(cpptrace::nested_exception(std::make_exception_ptr(std::out_of_range(m))));
        case 33: traced_throw(cpptrace::nested_exception(std::make_exception_ptr(17)));
        case 34: traced_throw(cpptrace::system_error(5, std::string(m)));
        default: traced_throw(cpptrace::out_of_range(std::string(m), cpptrace::raw_trace{})); // an empty trace
    }
}
enum Cause { UNCAUGHT, NOEXCEPT, EXPLICIT, IN_HANDLER, EMPTY_RETHROW, UNWINDING, POINTER, JOINABLE, FOREIGN, DESTRUCTOR, RETHROWN, AFTER_CAUGHT, n_causes };
const char* cause_names[] = {"uncaught", "leaving a noexcept function", "std::terminate()", "std::terminate() in a handler", "throw; without exception", "a destructor throws during unwinding", "rethrow_exception", "destruction of a joinable thread", "foreign exception", "leaving a destructor", "rethrown from a handler", "std::terminate() after a caught exception"};
const char* no_exception = "terminate called without an active exception";

NOINLINE void no_throw(int type) noexcept { note_stack(); expect_stack(); throw_type(type); KEEP(); }
struct Thrower { int type; ~Thrower() noexcept(false) { throw_type(type); } };
struct ThrowerQuiet { int type; ~ThrowerQuiet() { note_stack(); expect_stack(); throw_type(type); } };
NOINLINE void unwinding(int type) {
    note_stack();
    expect_stack();
    Thrower t{type};
    throw 1;
}
NOINLINE void cause(int which, int type) {
    switch(which) {
        case UNCAUGHT: note_stack(); expect_stack(); throw_type(type);
        case NOEXCEPT: no_throw(type); break;
        case EXPLICIT: note_stack(); expect_stack(); expect(no_exception, ""); std::terminate();
        case IN_HANDLER: try { throw_type(type); } catch(...) { note_stack(); expect_stack(); std::terminate(); }
        case EMPTY_RETHROW: note_stack(); expect_stack(); expect(no_exception, ""); throw;
        case UNWINDING: try { unwinding(type); } catch(int) {} break;
        case POINTER: {
            std::exception_ptr p;
            try { throw_type(type); } catch(...) { p = std::current_exception(); }
            note_stack();
            expect_stack();
            std::rethrow_exception(p);
        }
        case JOINABLE: { note_stack(); expect_stack(); expect(no_exception, ""); std::thread t([] { pause(); }); break; }
        case FOREIGN: {
            note_stack();
            expect_stack();
            foreign.exception_class = 0x56544657564f5200ull;
            foreign.exception_cleanup = foreign_cleanup;
            struct N { static NOINLINE void go() noexcept { expect(no_exception, ""); _Unwind_RaiseException(&foreign); std::terminate(); } };
            N::go();
            break;
        }
        case DESTRUCTOR: { ThrowerQuiet t{type}; break; }
        case RETHROWN: note_stack(); expect_stack(); try { throw_type(type); } catch(...) { throw; }
        default:
            try { throw Plain{2}; } catch(Plain&) {}
            try { throw std::runtime_error("gone"); } catch(std::exception&) {}
            note_stack(); expect_stack(); expect(no_exception, ""); std::terminate();
    }
    KEEP();
}
NOINLINE void deep(int d, int which, int type) {
    if(d == 0) cause(which, type);
    else deep(d - 1, which, type);
    KEEP();
}
int p_cause, p_type, p_depth;
void* thread_body(void*) { deep(p_depth, p_cause, p_type); return nullptr; }
}
// cause type depth where message(hex) expect_fd
extern "C" int vt_alt_main(int argc, char** argv) {
    if(argc < 6) return 3;
    p_cause = std::atoi(argv[0]), p_type = std::atoi(argv[1]), p_depth = std::atoi(argv[2]);
    int where = std::atoi(argv[3]);
    for(const char* h = argv[4]; h[0] && h[1]; h += 2) message_ += char(std::stoi(std::string(h, 2), nullptr, 16));
    expect_fd = std::atoi(argv[5]);
    rlimit no{0, 0};
    ::setrlimit(RLIMIT_CORE, &no);
    cpptrace::register_terminate_handler();
    if(where == 1) {
        std::thread t([] { thread_body(nullptr); });
        t.join();
    } else if(where == 2) {
        pthread_t t;
        pthread_create(&t, nullptr, thread_body, nullptr);
        pthread_join(t, nullptr);
    } else deep(p_depth, p_cause, p_type);
    return 4;
}

namespace {
using vt::Case;
std::string strip_colors(const std::string& s) {
    std::string r;
    for(std::size_t i = 0; i < s.size();) {
        if(s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
            std::size_t j = i + 2;
            while(j < s.size() && (std::isdigit(static_cast<unsigned char>(s[j])) || s[j] == ';')) j++;
            if(j < s.size() && s[j] == 'm') { i = j + 1; continue; }
        }
        r += s[i++];
    }
    return r;
}
VT_PROP(termination, "the process ends with an exception, below at least two frames") {
    int which = int(c.below(n_causes)), type = int(c.below(n_types)), depth = int(c.size(20)), where = int(c.weighted({3, 1, 1}));
    std::string m;
    switch(c.below(4)) {
        case 0: m = c.pick({std::string("message"), std::string("a message of the longer kind, more than fits in place")}); break;
        case 1: m = c.str_of("ab{}%s\\\n:\"\xc3\xa9\xff", 30); break;
        case 2: m = ""; break;
        default: m = std::string(c.size(9000), 'z');
    }
    bool tty = c.chance(1, 6);
    if(tty) for(auto& ch : m) if(ch == '\x1b' || ch == '\n') ch = '_';
    bool by_type = which == UNCAUGHT || which == NOEXCEPT || which == IN_HANDLER || which == UNWINDING || which == POINTER || which == DESTRUCTOR || which == RETHROWN;
    c.nontrivial(by_type && depth >= 2);
    static const char* wheres[] = {"main", "a std::thread", "a pthread"};
    c.line(std::string(cause_names[which]) + (by_type ? ", type " + std::to_string(type) : "") + ", depth " + std::to_string(depth) + ", in " + wheres[where] + ", message " + vt::quote(m, 80) + (tty ? ", stderr is a terminal" : ""));
    c.event(cause_names[which]);
    std::string hex;
    for(unsigned char ch : m) { char b[3]; std::snprintf(b, sizeof b, "%02x", ch); hex += b; }
    if(hex.empty()) hex = "-";
    int out[2], ex[2];
    if(tty) {
        if(::openpty(&out[0], &out[1], nullptr, nullptr, nullptr)) c.discard();
        termios t;
        ::tcgetattr(out[1], &t);
        ::cfmakeraw(&t);
        ::tcsetattr(out[1], TCSANOW, &t);
    } else (void)!::pipe(out);
    (void)!::pipe(ex);
    ::fcntl(out[0], F_SETFD, FD_CLOEXEC);
    ::fcntl(ex[0], F_SETFD, FD_CLOEXEC);
    std::string a[6] = {std::to_string(which), std::to_string(type), std::to_string(depth), std::to_string(where), hex, "9"};
    std::string exe = vt::arg0();
    pid_t pid = ::fork();
    if(pid == 0) {
        ::alarm(60);
        int w = ::fcntl(ex[1], F_DUPFD, 20), o = ::fcntl(out[1], F_DUPFD, 20);
        ::dup2(w, 9);
        ::dup2(o, 2);
        int null = ::open("/dev/null", O_RDWR);
        ::dup2(null, 1);
        ::dup2(null, 0);
        for(int i = 10; i < 64; i++) ::close(i);
        for(int i = 3; i < 9; i++) ::close(i);
        ::execl("/proc/self/exe", exe.c_str(), "--alt", a[0].c_str(), a[1].c_str(), a[2].c_str(), a[3].c_str(), a[4].c_str(), a[5].c_str(), static_cast<char*>(nullptr));
        ::_exit(99);
    }
    ::close(out[1]);
    ::close(ex[1]);
    std::string err, want;
    bool oo = true, oe = true;
    char buf[65536];
    while(oo || oe) {
        pollfd pf[2] = {{oo ? out[0] : -1, POLLIN, 0}, {oe ? ex[0] : -1, POLLIN, 0}};
        ::poll(pf, 2, -1);
        if(pf[0].revents) { auto n = ::read(out[0], buf, sizeof buf); if(n <= 0) oo = false; else err.append(buf, std::size_t(n)); }
        if(pf[1].revents) { auto n = ::read(ex[0], buf, sizeof buf); if(n <= 0) oe = false; else want.append(buf, std::size_t(n)); }
    }
    ::close(out[0]);
    ::close(ex[0]);
    int st = 0;
    ::waitpid(pid, &st, 0);
    std::string shown = "\nstandard error:\n" + err.substr(0, 3000);
    c.check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "the process did not end by SIGABRT: " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st))) + shown);
    // records: stack addresses, header, exact trace (the order depends on the cause)
    std::vector<std::string> rec;
    for(std::size_t i = 0, j; (j = want.find('\0', i)) != std::string::npos; i = j + 1) rec.push_back(want.substr(i, j - i));
    c.check(rec.size() >= 3, "the dying program said too little" + shown);
    std::string header, exact, addr;
    auto is_addr = [](const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789 ") == std::string::npos; };
    std::size_t k = 0;
    if(is_addr(rec[0])) { addr = rec[0]; k = 1; } else if(rec.size() > 2) addr = rec[2];
    // an exception thrown while another is under way: the last one counts
    header = rec[k], exact = rec[k + 1];
    std::string text = tty ? strip_colors(err) : err;
    if(!tty) c.check(strip_colors(m).size() != m.size() || strip_colors(err) == err, "colours on something that is no terminal" + shown);
    c.check(text.compare(0, header.size(), header) == 0 && text.size() > header.size() && text[header.size()] == '\n', "the report does not begin with the line " + vt::quote(header, 300) + shown);
    std::string rest = text.substr(header.size() + 1);
    if(!exact.empty()) {
        c.event("trace of the exception");
        c.eq(rest, exact + "\n", "the trace of the exception");
        return;
    }
    c.event("trace of the stack");
    std::string first = "Stack trace (most recent call first):\n";
    c.check(rest.compare(0, first.size(), first) == 0, "the first line of the trace" + shown);
    std::vector<Ptr> got, base_;
    std::size_t lines = 0;
    for(std::size_t i = first.size(), j; i < rest.size(); i = j + 1) {
        j = rest.find('\n', i);
        if(j == std::string::npos) c.fail("the last line is not ended" + shown);
        auto p = rest.find(" 0x", i), q = rest.find("(inlined)", i);
        c.check(rest[i] == '#' && std::strtoull(rest.c_str() + i + 1, nullptr, 10) == lines, "line " + std::to_string(lines) + " of the trace" + shown);
        lines++;
        if(q < j) continue;
        c.check(p < j, "a line without address" + shown);
        got.push_back(std::strtoull(rest.c_str() + p + 1, nullptr, 16));
    }
    for(const char* s = addr.c_str(); *s;) { char* e; auto v = std::strtoull(s, &e, 10); if(e == s) break; base_.push_back(v); s = *e ? e + 1 : e; }
    c.check(!base_.empty(), "no stack was recorded");
    // "print_terminate_trace" asks the trace to start at the handler; below are the runtime's frames, then the program's
    bool ok = got.size() >= base_.size() && std::equal(base_.begin() + 1, base_.end(), got.end() - long(base_.size()) + 1);
    if(ok) { Ptr a1 = got[got.size() - base_.size()], b1 = base_[0]; ok = a1 + 4096 > b1 && b1 + 4096 > a1; }
    std::size_t extra = got.size() - base_.size();
    if(!ok || extra > 14) {
        std::string s = "the trace is not that of the stack at termination; the program's frames were";
        for(auto p : base_) { char b[24]; std::snprintf(b, sizeof b, " 0x%llx", (unsigned long long)p); s += b; }
        c.fail(s + ", " + std::to_string(extra) + " frames before them" + shown);
    }
}
}
