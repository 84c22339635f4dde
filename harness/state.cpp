// P33: library operations between snapshots of the process's state; that state is also varied, and must not matter.
// P34: traces and frames as values.
#include "vt.hpp"
#include "fixture.hpp"
#include "gen.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/exceptions.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/from_current.hpp>
#include <ctrace/ctrace.h>

#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include <mutex>
#include <new>
#include <pthread.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern char** environ;
#define NI __attribute__((noinline))
namespace {
using vt::Case;
using vt::u64;
using Ptr = cpptrace::frame_ptr;

// ---------------------------------------------------------------- the state of the process
using State = std::vector<std::pair<std::string, std::string>>;
template<typename T> std::string bytes(const T& t) { std::string s; auto p = reinterpret_cast<const unsigned char*>(&t); char b[4]; for(std::size_t i = 0; i < sizeof t; i++) { std::snprintf(b, sizeof b, "%02x", p[i]); s += b; } return s; }
std::string stream_state(std::ostream& o) { return std::to_string(long(o.flags())) + " fill " + std::to_string(int(o.fill())) + " precision " + std::to_string(long(o.precision())) + " locale " + o.getloc().name() + " exceptions " + std::to_string(int(o.exceptions())) + " state " + std::to_string(int(o.rdstate())) + " tie " + bytes(o.tie()) + " buffer " + bytes(o.rdbuf()); }
State take() {
    State s;
    for(int k = 1; k < 65; k++) {
        struct sigaction a;
        std::memset(&a, 0, sizeof a);
        if(::sigaction(k, nullptr, &a) != 0) continue;
        s.push_back({"action of signal " + std::to_string(k), bytes(a.sa_handler) + " flags " + std::to_string(a.sa_flags & ~0x04000000) + " mask " + bytes(*reinterpret_cast<unsigned long*>(&a.sa_mask))});
    }
    sigset_t m;
    sigemptyset(&m);
    pthread_sigmask(SIG_SETMASK, nullptr, &m);
    s.push_back({"signal mask", bytes(*reinterpret_cast<unsigned long*>(&m))});
    sigemptyset(&m);
    sigpending(&m);
    sigdelset(&m, SIGCHLD);
    s.push_back({"pending signals", bytes(*reinterpret_cast<unsigned long*>(&m))});
    char b[PATH_MAX + 1] = {};
    s.push_back({"working directory", ::getcwd(b, PATH_MAX) ? b : "?"});
    std::string env;
    for(char** e = environ; *e; e++) env += std::string(*e) + "\n";
    s.push_back({"environment", env});
    std::string fds;
    std::vector<int> v;
    if(DIR* d = ::opendir("/proc/self/fd")) {
        int own = ::dirfd(d);
        while(auto* e = ::readdir(d)) if(e->d_name[0] != '.' && std::atoi(e->d_name) != own) v.push_back(std::atoi(e->d_name));
        ::closedir(d);
    }
    std::sort(v.begin(), v.end());
    for(int fd : v) {
        struct stat st;
        std::memset(&st, 0, sizeof st);
        ::fstat(fd, &st);
        fds += std::to_string(fd) + ":" + std::to_string(::fcntl(fd, F_GETFD)) + ":" + std::to_string(::fcntl(fd, F_GETFL)) + ":" + std::to_string(st.st_ino) + ":" + std::to_string(long(::lseek(fd, 0, SEEK_CUR))) + " ";
    }
    s.push_back({"descriptors (number:flags:status:inode:position)", fds});
    int st = 0;
    pid_t p = ::waitpid(-1, &st, WNOHANG);
    s.push_back({"children", p == -1 ? "none" : "some"});
    mode_t um = ::umask(0);
    ::umask(um);
    s.push_back({"umask", std::to_string(um)});
    s.push_back({"C locale", std::setlocale(LC_ALL, nullptr)});
    std::locale now;
    s.push_back({"C++ locale", now.name() + (std::has_facet<std::numpunct<char>>(now) ? " grouping " + std::use_facet<std::numpunct<char>>(now).grouping() : "")});
    s.push_back({"rounding mode", std::to_string(std::fegetround())});
    rlimit l;
    for(auto r : {RLIMIT_NOFILE, RLIMIT_CORE, RLIMIT_STACK, RLIMIT_AS}) { ::getrlimit(r, &l); s.push_back({"limit " + std::to_string(int(r)), bytes(l)}); }
    ::prctl(PR_GET_NAME, b);
    s.push_back({"thread name", b});
    s.push_back({"terminate handler", bytes(std::get_terminate())});
    s.push_back({"new handler", bytes(std::get_new_handler())});
    stack_t ss;
    std::memset(&ss, 0, sizeof ss);
    ::sigaltstack(nullptr, &ss);
    s.push_back({"signal stack", bytes(ss.ss_sp) + bytes(ss.ss_size) + std::to_string(ss.ss_flags)});
    itimerval tv;
    ::getitimer(ITIMER_REAL, &tv);
    s.push_back({"timer", tv.it_value.tv_sec || tv.it_value.tv_usec ? "set" : "off"});
    std::size_t threads = 0;
    if(DIR* d = ::opendir("/proc/self/task")) { while(auto* e = ::readdir(d)) threads += e->d_name[0] != '.'; ::closedir(d); }
    s.push_back({"threads", std::to_string(threads)});
    s.push_back({"std::cout", stream_state(std::cout)});
    s.push_back({"std::cerr", stream_state(std::cerr)});
    s.push_back({"uncaught exceptions", std::to_string(std::uncaught_exceptions())});
    s.push_back({"current exception", std::current_exception() ? "yes" : "no"});
    return s;
}
std::string difference(const State& a, const State& b) {
    for(std::size_t i = 0; i < a.size() && i < b.size(); i++) if(a[i] != b[i]) return a[i].first + ": " + vt::quote(a[i].second, 1500) + " before, " + vt::quote(b[i].second, 1500) + " after";
    return a.size() == b.size() ? "" : "?";
}

// ---------------------------------------------------------------- operations
struct Small { int v; };
NI int target_a(int x) { asm volatile("" : "+r"(x)); return x + 1; }
NI int target_b(int x) { asm volatile("" : "+r"(x)); return x * 3; }
NI void thrower(int k) { if(k > 0) { thrower(k - 1); asm volatile(""); return; } throw Small{k}; }
std::string source_file() {
    static std::string f = [] {
        std::string f = vt::scratch_dir() + "/state-source.cpp", t;
        for(int l = 1; l < 2200; l++) t += "line " + std::to_string(l) + "\n";
        auto own = f + std::to_string(::getpid()); // others may be reading it
        fixture::spit(own, t);
        ::rename(own.c_str(), f.c_str());
        return f;
    }();
    return f;
}
std::vector<Ptr> addresses(u64 pick) {
    static void* known[] = {reinterpret_cast<void*>(&target_a), reinterpret_cast<void*>(&target_b), dlsym(RTLD_DEFAULT, "qsort"), dlsym(RTLD_DEFAULT, "_ZSt9terminatev"), nullptr, reinterpret_cast<void*>(&take)};
    std::vector<Ptr> v;
    for(unsigned k = 0; k < 6; k++) if(pick >> k & 1) v.push_back(Ptr(known[k]) + (pick >> (6 + k) & 1));
    return v;
}
std::string text(const cpptrace::stacktrace& t) { std::string s; for(auto& f : t.frames) s += gen::show(f) + "\n"; return s; }
cpptrace::stacktrace made(u64 pick) {
    cpptrace::stacktrace t;
    for(unsigned k = 0; k < pick % 13; k++) t.frames.push_back({0x123456789 + k, 0x1000000 + k, std::uint32_t(1 + (pick * (k + 1)) % 2100), std::uint32_t(pick % 5000), source_file(), "void ns::f<std::vector<int, std::allocator<int> > >(int)", k % 4 == 3});
    return t;
}
enum Op { CAPTURE, CURRENT, RESOLVE, RESOLVE_OBJECTS, OBJECT_INFO, FORMAT, PRINT_STREAM, PRINT_FILE, SNIPPET, NAMES, THROWN, TRACED, NESTED, JIT, C_TRACE, SETTINGS, SAFE, TTY, IN_HANDLER, OPS };
const char* const op_names[] = {"generate_raw_trace", "generate_trace", "raw_trace::resolve", "object_trace::resolve", "get_object_info", "formatter::format", "print to a stream", "print to a FILE", "get_snippet", "demangle, prune and prettify", "tracing try block", "traced exception", "wrapped exception", "JIT registration", "C interface", "settings", "safe capture", "isatty", "resolve in a handler"};
cpptrace::formatter some_formatter(u64 pick) {
    return cpptrace::formatter{}.header(pick & 1 ? "header" : "Stack trace (most recent call first):").addresses(pick & 2 ? cpptrace::formatter::address_mode::object : cpptrace::formatter::address_mode::raw).snippets(pick & 4).snippet_context(int(pick >> 5 & 3))
        .symbols(pick & 8 ? cpptrace::formatter::symbol_mode::pretty : cpptrace::formatter::symbol_mode::full).break_before_filename(pick & 16).colors(cpptrace::formatter::color_mode::none);
}
NI std::string perform(int op, u64 pick, std::ostream* stream) {
    using namespace cpptrace;
    switch(op) {
        case CAPTURE: return generate_raw_trace(pick % 3).frames.empty() ? "empty" : "frames";
        case CURRENT: { auto t = generate_trace(0, 3); return t.empty() ? "empty" : t.frames[0].symbol; }
        case RESOLVE: return text(raw_trace{addresses(pick)}.resolve());
        case RESOLVE_OBJECTS: return text(raw_trace{addresses(pick)}.resolve_object_trace().resolve());
        case OBJECT_INFO: { std::string s; for(auto a : addresses(pick)) { stacktrace_frame f{}; f.raw_address = a; auto o = f.get_object_info(); s += std::to_string(o.object_address) + " " + o.object_path + "\n"; } return s; }
        case FORMAT: return some_formatter(pick).format(made(pick));
        case PRINT_STREAM: {
            std::ostringstream own;
            auto& o = stream ? *stream : own;
            auto s = made(pick);
            switch(pick % 5) {
                case 0: some_formatter(pick >> 3).print(o, s); break;
                case 1: o << s; break;
                case 2: s.print(o); break;
                case 3: s.print_with_snippets(o, pick & 64); break;
                default: for(auto& f : s.frames) { some_formatter(pick >> 3).print(o, f); o << f; }
            }
            return static_cast<std::ostringstream&>(o).str();
        }
        case PRINT_FILE: {
            char* b = nullptr;
            std::size_t n = 0;
            FILE* f = ::open_memstream(&b, &n);
            some_formatter(pick).print(f, made(pick));
            std::fclose(f);
            std::string s(b, n);
            std::free(b);
            return s;
        }
        case SNIPPET: return get_snippet(source_file(), pick % 2300, pick >> 3 & 7, pick & 1) + get_snippet("/nonexistent", 3, 2, false);
        case NAMES: return demangle("_ZN2ns1fISt6vectorIiSaIiEEEEvT_") + prune_symbol("void ns::f<std::vector<int, std::allocator<int> > >(int)") + prettify_symbol("void ns::f<std::vector<int, std::allocator<int> > >(int)");
        case THROWN: {
            std::string s = "nothing";
            CPPTRACE_TRY { thrower(int(pick % 5)); } CPPTRACE_CATCH(const Small&) { s = pick & 8 ? (from_current_exception().empty() ? "empty" : "frames") : (raw_trace_from_current_exception().empty() ? "empty" : "frames"); }
            return s;
        }
        case TRACED: { std::string s; try { throw cpptrace::logic_error("message"); } catch(std::exception& e) { s = std::string(e.what()).substr(0, 9); } return s; }
        case NESTED: { std::string s; try { CPPTRACE_WRAP_BLOCK(thrower(1);); } catch(cpptrace::exception& e) { s = e.message(); s += e.trace().empty() ? "empty" : "frames"; } return s; }
        case JIT: {
            static const auto image = fixture::slurp("/proc/self/exe");
            if(pick & 1) { register_jit_object(image.data(), image.size()); unregister_jit_object(image.data()); } else { register_jit_object("junk", 4); }
            clear_all_jit_objects();
            return "";
        }
        case C_TRACE: {
            auto t = ctrace_generate_trace(0, 4);
            auto s = ctrace_stacktrace_to_string(&t, 0);
            std::string r = s.data && *s.data ? "text" : "nothing";
            ctrace_free_owning_string(&s);
            ctrace_free_stacktrace(&t);
            auto d = ctrace_demangle("_Z1fi");
            r += d.data;
            ctrace_free_owning_string(&d);
            return r;
        }
        case SETTINGS:
            absorb_trace_exceptions(true);
            enable_inlined_call_resolution(pick & 1);
            enable_inlined_call_resolution(true);
            experimental::set_cache_mode(pick & 2 ? cache_mode::prioritize_speed : cache_mode::hybrid);
            set_log_level(log_level::error);
            return "";
        case SAFE: {
            Ptr b[8];
            auto n = safe_generate_raw_trace(b, 8);
            static safe_object_frame f;
            get_safe_object_frame(Ptr(&target_a), &f);
            return (n ? "frames " : "none ") + std::to_string(f.address_relative_to_object_start);
        }
        case TTY: return std::string(cpptrace::isatty(stdin_fileno) ? "y" : "n") + (ctrace_isatty(stdout_fileno) ? "y" : "n");
        default: { std::string s; try { throw Small{3}; } catch(const Small& e) { s = text(raw_trace{addresses(pick)}.resolve()) + std::to_string(e.v); } return s; }
    }
}

// ---------------------------------------------------------------- surroundings
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\2"; } };
void on_signal(int) {}
#ifdef VT_SLOW
const std::size_t most = 5;
#else
const std::size_t most = 14;
#endif
}
VT_PROP_ISOLATED(process_state, "at least three different operations in surroundings that were changed") {
    int used = 0;
    std::vector<std::pair<int, u64>> h;
    std::set<int> ops;
    for(std::size_t n = 1 + c.size(most); h.size() < n;) { h.push_back({int(c.below(OPS)), c.below(4096)}); ops.insert(h.back().first); }
    // what the results have to be, from surroundings as they are
    cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
    std::vector<std::string> want;
    int p[2];
    if(::pipe(p) != 0) c.discard();
    // (in another process: nothing must have been opened or cached here already)
    bool fresh = c.flip();
    std::string line = fresh ? "first operations of the process: " : "repeated operations: ";
    for(auto& x : h) line += std::string(op_names[x.first]) + "(" + std::to_string(x.second) + ") ";
    c.line(line);
    source_file();
    {
        std::cout.flush();
        pid_t child = ::fork();
        if(child == 0) {
            std::string out;
            for(auto& x : h) { auto r = perform(x.first, x.second, nullptr); u64 n = r.size(); out.append(reinterpret_cast<char*>(&n), 8); out += r; }
            for(std::size_t k = 0; k < out.size();) { auto w = ::write(p[1], out.data() + k, out.size() - k); if(w <= 0) ::_exit(3); k += std::size_t(w); }
            ::_exit(0);
        }
        ::close(p[1]);
        std::string in;
        char b[4096];
        for(ssize_t k; (k = ::read(p[0], b, sizeof b)) > 0;) in.append(b, std::size_t(k));
        ::close(p[0]);
        int st = 0;
        ::waitpid(child, &st, 0);
        if(st != 0) c.fail("the operations fail in plain surroundings: status " + std::to_string(st));
        for(std::size_t k = 0; k + 8 <= in.size();) { u64 n; std::memcpy(&n, &in[k], 8); want.push_back(in.substr(k + 8, n)); k += 8 + n; }
    }
    if(!fresh) for(auto& x : h) perform(x.first, x.second, nullptr);
#ifdef VT_LIBUNWIND // it keeps a pipe of its own from its first use on
    cpptrace::generate_raw_trace();
    { Ptr b[8]; cpptrace::safe_generate_raw_trace(b, 8); }
#endif
    // surroundings
    std::string dir = vt::scratch_dir() + "/cwd" + std::to_string(::getpid());
    auto change = [&](const char* what) { c.line(std::string("with ") + what); c.event(what); used++; };
    if(c.chance(1, 3)) { change("another working directory"); ::mkdir(dir.c_str(), 0755); (void)!::chdir(dir.c_str()); }
    if(c.chance(1, 8)) { change("a working directory that is gone"); ::mkdir((dir + "x").c_str(), 0755); (void)!::chdir((dir + "x").c_str()); ::rmdir((dir + "x").c_str()); }
    if(c.chance(1, 3)) { change("SIGPIPE ignored"); ::signal(SIGPIPE, SIG_IGN); }
    if(c.chance(1, 4)) { change("SIGPIPE handled"); ::signal(SIGPIPE, on_signal); }
    if(c.chance(1, 4)) { change("SIGCHLD handled"); ::signal(SIGCHLD, on_signal); }
    if(c.chance(1, 4)) { change("SIGCHLD ignored"); ::signal(SIGCHLD, SIG_IGN); }
    if(c.chance(1, 4)) { change("SIGABRT and SIGSEGV handled"); ::signal(SIGABRT, on_signal); struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_handler = on_signal; a.sa_flags = SA_RESTART | SA_NODEFER; ::sigaction(SIGSEGV, &a, nullptr); }
    if(c.chance(1, 3)) { change("signals blocked"); sigset_t m; sigemptyset(&m); for(int s : {SIGPIPE, SIGCHLD, SIGUSR1, SIGTERM}) if(c.flip()) sigaddset(&m, s); pthread_sigmask(SIG_SETMASK, &m, nullptr); }
    if(c.chance(1, 4)) { change("umask 077"); ::umask(077); }
    if(c.chance(1, 4)) { change("C locale C.UTF-8"); std::setlocale(LC_ALL, "C.UTF-8"); }
    if(c.chance(1, 3)) { change("a C++ locale that groups digits"); std::locale::global(std::locale(std::locale(), new Grouping)); }
    if(c.chance(1, 4)) { change("other environment"); ::setenv("LC_ALL", "C.UTF-8", 1); ::setenv("NO_COLOR", "1", 1); ::setenv("TERM", "xterm", 1); ::unsetenv("HOME"); }
    if(c.chance(1, 5)) { change("a small descriptor limit"); rlimit l; ::getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = 64; ::setrlimit(RLIMIT_NOFILE, &l); }
    if(c.chance(1, 5)) { change("other stream settings of std::cout"); std::cout << std::hex << std::setfill('*') << std::setprecision(3); std::cerr << std::uppercase << std::showbase; }
    if(c.chance(1, 6)) { change("another rounding mode"); std::fesetround(FE_DOWNWARD); }
    if(c.chance(1, 6)) { change("standard input closed"); ::close(0); }
    if(c.chance(1, 6)) { change("a signal pending"); sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR2); pthread_sigmask(SIG_BLOCK, &m, nullptr); ::raise(SIGUSR2); }
    if(c.chance(1, 5)) { change("own handlers of the C++ runtime"); std::set_new_handler([] { throw std::bad_alloc(); }); std::set_terminate([] { ::_exit(9); }); }
    std::ostringstream o;
    bool with = c.flip();
    for(std::size_t i = 0; i < h.size(); i++) {
        std::ostringstream o;
        std::string set;
        if(with && h[i].first == PRINT_STREAM) {
            if(c.flip()) { o << std::hex; set += " hex"; }
            if(c.flip()) { o << std::showbase << std::uppercase << std::showpos; set += " showbase uppercase showpos"; }
            if(c.flip()) { o << std::left << std::setfill('#'); set += " left fill"; }
            if(c.flip()) { o << std::boolalpha << std::setprecision(2); set += " boolalpha"; }
            if(c.chance(1, 3)) { o.imbue(std::locale(std::locale::classic(), new Grouping)); set += " grouping locale"; }
            used++;
        }
        std::string what = std::string(op_names[h[i].first]) + (set.empty() ? "" : " with" + set);
        auto st = with ? stream_state(o) : "";
        auto before = take();
        auto got = perform(h[i].first, h[i].second, with ? &o : nullptr);
        auto after = take();
        auto d = difference(before, after);
        if(!d.empty()) c.fail(what + " changed the process: " + d);
        if(with) c.eq(stream_state(o), st, what + ": the stream's settings");
        if(i < want.size()) c.eq(got, want[i], what + ": the result in these surroundings");
    }
    c.nontrivial(used > 0 && ops.size() >= 3);
    (void)!::chdir("/");
    ::rmdir(dir.c_str());
}

// ---------------------------------------------------------------- values
namespace {
template<typename T, typename V> void check_range(Case& c, T& t, const V& frames, const std::string& who, bool (*eq)(const typename V::value_type&, const typename V::value_type&)) {
    const T& k = t;
    auto walk = [&](auto b, auto e, const char* what) {
        std::size_t n = 0;
        for(; b != e; ++b, ++n) if(n >= frames.size() || !eq(*b, frames[n])) c.fail(who + ": " + what + " shows another frame at " + std::to_string(n));
        c.eq(n, frames.size(), who + ": frames seen by " + what);
    };
    walk(t.begin(), t.end(), "begin()/end()");
    walk(k.begin(), k.end(), "const begin()/end()");
    walk(k.cbegin(), k.cend(), "cbegin()/cend()");
    c.eq(t.empty(), frames.empty(), who + ": empty()");
    std::size_t n = 0;
    for(auto& f : t) { c.check(&f == &t.frames[n], who + ": iteration gives another object"); n++; }
}
}
VT_PROP(trace_values, "two traces of at least two frames, one modified after copying") {
    // frames
    auto a = gen::frame(c), b = a;
    c.line("frame " + gen::show(a));
    int fields = 0;
    bool differs = false;
    auto diff = [&](bool d) { fields++; differs = differs || d; };
    if(c.chance(1, 3)) { auto v = gen::address(c); diff(v != a.raw_address); b.raw_address = v; }
    if(c.chance(1, 3)) { auto v = gen::address(c); diff(v != a.object_address); b.object_address = v; }
    if(c.chance(1, 4)) { auto v = gen::number(c); diff(v.raw_value != a.line.raw_value); b.line = v; }
    if(c.chance(1, 4)) { auto v = gen::number(c); diff(v.raw_value != a.column.raw_value); b.column = v; }
    if(c.chance(1, 4)) { auto v = gen::filename(c); diff(v != a.filename); b.filename = v; }
    if(c.chance(1, 4)) { auto v = gen::symbol(c); diff(v != a.symbol); b.symbol = v; }
    if(c.chance(1, 4) && !a.symbol.empty()) { b = a; differs = false; b.symbol.back()++; differs = true; }
    c.line("other " + gen::show(b));
    c.eq(a == b, !differs, "operator==");
    c.eq(b == a, !differs, "operator== the other way");
    c.eq(a != b, differs, "operator!=");
    c.check(a == a && !(a != a), "a frame differs from itself");
    // traces
    auto t = gen::trace(c);
    auto copy = t;
    auto original = t.frames;
    auto same = [](const cpptrace::stacktrace_frame& x, const cpptrace::stacktrace_frame& y) { return gen::same(x, y); };
    check_range(c, t, original, "stacktrace", +same);
    cpptrace::raw_trace r;
    cpptrace::object_trace o;
    for(auto& f : t.frames) { r.frames.push_back(f.raw_address); o.frames.push_back({f.raw_address, f.object_address, f.filename}); }
    auto rf = r.frames;
    auto of = o.frames;
    check_range(c, r, rf, "raw_trace", +[](const Ptr& x, const Ptr& y) { return x == y; });
    check_range(c, o, of, "object_trace", +[](const cpptrace::object_frame& x, const cpptrace::object_frame& y) { return x.raw_address == y.raw_address && x.object_address == y.object_address && x.object_path == y.object_path; });
    bool modified = c.flip();
    if(modified) { for(auto& f : t) { f.symbol += "x"; f.line.reset(); } for(auto& p : r) p++; for(auto& f : o) f.object_path += "y"; }
    check_range(c, copy, original, "copy of a modified trace", +same);
    switch(c.below(4)) {
        case 0: t.clear(); check_range(c, t, std::vector<cpptrace::stacktrace_frame>{}, "cleared stacktrace", +same); break;
        case 1: r.clear(); c.check(r.empty() && r.frames.empty() && r.begin() == r.end(), "cleared raw_trace"); break;
        case 2: o.clear(); c.check(o.empty() && o.frames.empty() && o.begin() == o.end(), "cleared object_trace"); break;
        default: { auto moved = std::move(copy); check_range(c, moved, original, "moved trace", +same); copy = moved; check_range(c, copy, original, "assigned trace", +same); copy = *&copy; check_range(c, copy, original, "self-assigned trace", +same); }
    }
    c.nontrivial(original.size() >= 2 && modified && fields);
}
