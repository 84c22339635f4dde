// P07 (and P05): resolution through an external addr2line, here a scripted stand-in found through PATH
#include "vt.hpp"
#include "fixture.hpp"

#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <map>
#include <sys/time.h>
#include <sys/wait.h>

namespace {
using vt::Case;
using u64 = std::uint64_t;
using Ptr = cpptrace::frame_ptr;

// The stand-in looks its script up by the object's path, answers addresses from the script's table and notes down what
// it was asked and what it wrote.
const char* helper_source = R"SRC(
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
static unsigned long long fnv(const char* s) { unsigned long long h = 0xcbf29ce484222325ull; while(*s) h = (h ^ (unsigned char)*s++) * 0x100000001b3ull; return h; }
static char* text; static size_t len;
static char* take(size_t* n) { /* "<len>:<bytes>" */
    static size_t pos; char* e; if(pos >= len) { *n = 0; return NULL; }
    *n = strtoull(text + pos, &e, 10); char* r = e + 1; pos = (size_t)(r - text) + *n; return r;
}
static long num(void) { size_t n; char* p = take(&n); char b[40]; if(!p || n > 30) return 0; memcpy(b, p, n); b[n] = 0; return strtol(b, 0, 10); }
static FILE* out_log;
static void w(const char* p, size_t n) { fwrite(p, 1, n, stdout); fwrite(p, 1, n, out_log); }
typedef struct { unsigned long long addr; char* s; size_t n; } ent;
static int cmp(const void* a, const void* b) { unsigned long long x = ((ent*)a)->addr, y = ((ent*)b)->addr; return x < y ? -1 : x > y; }
int main(int argc, char** argv) {
    const char* dir = getenv("VT_A2L");
    char path[5000];
    if(argc > 1 && !strcmp(argv[1], "--help")) {
        snprintf(path, sizeof path, "%s/help", dir ? dir : "");
        FILE* f = fopen(path, "rb"); int mode = 0; if(f) { if(fscanf(f, "%d", &mode) != 1) mode = 0; fclose(f); }
        if(mode < 0) { kill(getpid(), -mode); }
        return mode;
    }
    const char* exe = NULL; for(int i = 1; i + 1 < argc; i++) if(!strcmp(argv[i], "-e")) { exe = argv[i + 1]; break; }
    if(!dir || !exe) return 9;
    snprintf(path, sizeof path, "%s/%llx", dir, fnv(exe));
    FILE* f = fopen(path, "rb"); if(!f) return 8;
    fseek(f, 0, SEEK_END); len = (size_t)ftell(f); rewind(f); text = malloc(len + 1); if(fread(text, 1, len, f) != len) return 7; text[len] = 0; fclose(f);
    strcat(path, ".in"); FILE* in_log = fopen(path, "wb"); setvbuf(in_log, NULL, _IONBF, 0);
    strcpy(path + strlen(path) - 3, ".out"); out_log = fopen(path, "wb");
    long first = num(), flush = num(), stop_after = num(), stop_how = num(), slurp = num(), extra_at = num(), no_newline = num(), pause = num();
    size_t pn, sn, xn; char* pre = take(&pn); char* suf = take(&sn); char* extra = take(&xn);
    long n = num(); ent* t = malloc(sizeof(ent) * (size_t)(n + 1));
    for(long i = 0; i < n; i++) { size_t k; char* a = take(&k); char b[40]; memcpy(b, a, k); b[k] = 0; t[i].addr = strtoull(b, 0, 16); t[i].s = take(&t[i].n); }
    qsort(t, (size_t)n, sizeof(ent), cmp);
    if(first == 1) fclose(stdin);             /* does not read at all */
    w(pre, pn); if(flush) fflush(stdout);
    char* line = NULL; size_t cap = 0; ssize_t got; long done = 0;
    char** all = NULL; long nall = 0; long at = 0;
    if(slurp) { while((got = getline(&line, &cap, stdin)) > 0) { all = realloc(all, sizeof(char*) * (size_t)(nall + 1)); all[nall++] = strdup(line); fwrite(line, 1, (size_t)got, in_log); } }
    while(first != 1 && done != stop_after) {
        const char* l;
        if(slurp) { if(at == nall) break; l = all[at++]; }
        else { if((got = getline(&line, &cap, stdin)) <= 0) break; fwrite(line, 1, (size_t)got, in_log); l = line; }
        if(done == extra_at) w(extra, xn);
        ent key; key.addr = strtoull(l, 0, 16); ent* e = bsearch(&key, t, (size_t)n, sizeof(ent), cmp);
        if(done && no_newline) w("\n", 1);
        if(e) w(e->s, e->n); else w("?? ??:0", 7);
        if(!no_newline) w("\n", 1);
        if(flush) fflush(stdout);
        if(pause && done < 5) usleep(500);
        done++;
    }
    if(done == stop_after) {
        if(stop_how == 1) { fflush(stdout); fflush(out_log); _exit(1); }
        if(stop_how == 2) { fclose(out_log); kill(getpid(), SIGKILL); } /* buffered output is lost */
        if(stop_how == 3) { fflush(stdout); fclose(out_log); abort(); }
        if(stop_how == 4) { fflush(stdout); close(1); fclose(out_log); while((got = getline(&line, &cap, stdin)) > 0) {} return 0; }
    }
    w(suf, sn);
    fflush(stdout); fclose(out_log);
    return (int)(stop_how == 5 ? 3 : 0);
}
)SRC";

std::string helper_dir() {
    static std::string d = fixture::once_dir("a2lbin", [](const std::string& dir) {
        fixture::spit(dir + "/h.c", helper_source);
        if(std::system(("gcc -w -O1 " + dir + "/h.c -o " + dir + "/addr2line").c_str()) != 0) { std::fprintf(stderr, "cannot compile the stand-in\n"); _exit(99); }
    });
    return d;
}
u64 fnv(const std::string& s) { return vt::hash_bytes(s.data(), s.size()); }
std::string hex(u64 v) { char b[20]; std::snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }
std::string item(const std::string& s) { return std::to_string(s.size()) + ":" + s; }
std::string item(long v) { return item(std::to_string(v)); }

struct Answer {
    bool well_formed = true;
    std::string text, symbol, file;
    bool has_line = false;
    std::uint32_t line = 0;
};
std::string gen_symbol(Case& c) {
    static const char* names[] = {"main", "foo(int)", "ns::bar<int, std::vector<char> >::baz(char const*) const", "operator new(unsigned long)", "S::operator()(int) const", "a::b()::{lambda(int)#1}::operator()(int) const", "(anonymous namespace)::f()", "attic", "std::ostream& operator<< <int>(std::ostream&, int)",
        "_start", "f[abi:cxx11]()", "at", "S::~S()", "unsigned long ns::f<(char)58>()", "f(int) [clone .cold]", "_ZN", "__libc_start_call_main", "?"};
    switch(c.below(4)) {
        case 0: return c.str_of("abcdefgh_0123456789", 20) + "f";
        case 1: return std::string(1 + c.size(3000), 'T') + "<int>(char)";
        default: return c.pick(names);
    }
}
std::string gen_file(Case& c) {
    static const char* names[] = {"/src/main.cpp", "/home/a b/x y.cc", "/home/look at this/file.cpp", "/p:q/r:12/z.c", "rel/dir.c", "./build/../src/t\xc3\xa9st.cpp", "/x (discriminator 3)/f.c", "/usr/include/c++/13/bits/stl_vector.h", "a", "/src/at ??:0.c", "C:\\x\\y.cpp", "/s?/??.c", "?"};
    if(c.below(6) == 0) return "/" + c.str_of("abc/ :.?", 40) + "f";
    return c.pick(names);
}
Answer gen_answer(Case& c, bool allow_bad) {
    Answer a;
    if(allow_bad && c.chance(1, 4)) {
        a.well_formed = false;
        static const char* bad[] = {"", " ", "foo", "foo at bar", " at :", ":::", "x at y:z", "x at y:99999999999999999999", "??", "?? ", "x at y:", "at a:1", "x at y:-3", "?? :", "\t", "x at y: 7", " at ", "?? ??", "addr2line: 'x': No such file", "x\r", "x at y:5 6:7x"};
        switch(c.below(6)) {
            case 0: a.text = c.bytes(60); break;
            case 1: a.text = std::string(c.below(300000), 'x') + (c.flip() ? " at " : "") + (c.flip() ? ":12" : ""); break;
            default: a.text = c.pick(bad);
        }
        std::replace(a.text.begin(), a.text.end(), '\n', '!');
        return a;
    }
    bool sym = true, file = true;
    switch(c.weighted({10, 2, 2, 2, 2})) {
        case 1: a.text = "?? ??:0"; return a;
        case 2: sym = false; break;
        case 3: file = false; break;
        default: break;
    }
    if(sym) a.symbol = gen_symbol(c);
    if(file) a.file = gen_file(c);
    a.text = (sym ? a.symbol : "??") + " at " + (file ? a.file : "??") + ":";
    if(file) {
        switch(c.weighted({8, 2, 2})) {
            case 0: a.has_line = true; a.line = std::uint32_t(1 + (c.flip() ? c.below(5000) : c.below(2147483646))); a.text += std::to_string(a.line); break;
            case 1: a.text += "?"; break;
            default: a.has_line = true; a.line = std::uint32_t(1 + c.below(90000)); a.text += std::to_string(a.line) + " (discriminator " + std::to_string(1 + c.below(30)) + ")"; break;
        }
    } else a.text += c.flip() ? "?" : "0";
    return a;
}
struct Group {
    std::string path;
    std::map<u64, Answer> table;
    long first = 0, flush = 0, stop_after = -1, stop_how = 0, slurp = 0, extra_at = -1, no_newline = 0, pause = 0;
    std::string prefix, suffix, extra;
    bool missing = false; // no script: the helper fails at once
    bool behaves() const { return first == 0 && stop_after < 0 && extra_at < 0 && prefix.empty() && suffix.empty() && !missing; }
    std::string script() const {
        std::string s = item(first) + item(flush) + item(stop_after) + item(stop_how) + item(slurp) + item(extra_at) + item(no_newline) + item(pause) + item(prefix) + item(suffix) + item(extra) + item(long(table.size()));
        for(auto& t : table) s += item(hex(t.first)) + item(t.second.text);
        return s;
    }
};
std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> v;
    std::size_t p = 0, e;
    while((e = s.find('\n', p)) != std::string::npos) v.push_back(s.substr(p, e - p)), p = e + 1;
    if(p < s.size()) v.push_back(s.substr(p));
    return v;
}
std::string show(const cpptrace::stacktrace_frame& f) {
    return "{" + hex(f.raw_address) + " " + hex(f.object_address) + " " + (f.line.has_value() ? std::to_string(f.line.value()) : "-") + " " + vt::quote(f.filename, 200) + " " + vt::quote(f.symbol, 200) + "}";
}
bool matches(const cpptrace::stacktrace_frame& f, const Answer& a, const std::string& path) {
    return f.symbol == a.symbol && f.filename == (a.file.empty() ? path : a.file) && f.line.has_value() == a.has_line && (!a.has_line || f.line.value() == a.line) && !f.column.has_value() && !f.is_inline;
}
bool unresolved(const cpptrace::stacktrace_frame& f, const std::string& path) {
    return f.symbol.empty() && f.filename == path && !f.line.has_value() && !f.column.has_value();
}
volatile sig_atomic_t ticks;
void on_tick(int) { ticks++; }

void run(Case& c, bool misbehave) {
    static std::string base = [] {
        ::setenv("PATH", (helper_dir() + ":/usr/bin:/bin").c_str(), 1);
        return std::string();
    }();
    static std::string dir = vt::scratch_dir() + "/s" + std::to_string(::getpid());
    ::mkdir(dir.c_str(), 0755);
    ::setenv("VT_A2L", dir.c_str(), 1);
    std::vector<Group> groups(1 + c.below(misbehave ? 3 : 5));
    static const char* paths[] = {"/nonexistent/a.so", "/nonexistent/b c.so", "-e", "--help", "/x\ny", "/q\"'$(true)`;", "rel", "/nonexistent/a.so.1", " ", "/look at me:12"};
    std::vector<int> used;
    for(auto& g : groups) {
        std::size_t k;
        do k = c.below(std::size(paths)); while(std::count(used.begin(), used.end(), int(k)) && used.size() < 10 && (k = (k + 1) % 10, std::count(used.begin(), used.end(), int(k))));
        used.push_back(int(k));
        g.path = paths[k];
    }
    // frames
    std::vector<cpptrace::object_frame> frames;
    std::size_t n = c.chance(1, 60) ? 2000 + c.below(30000) : c.size(40);
    bool big = n > 1000;
    std::size_t distinct = big ? 200 : 12;
    std::vector<u64> pool;
    for(std::size_t i = 0; i < distinct; i++) pool.push_back(big ? 0x100000 + i * 977 : c.flip() ? 0x1000 + c.below(100000) : c.draw(~0ull));
    u64 lcg = c.draw(~0ull);
    for(std::size_t i = 0; i < n; i++) {
        u64 r = big ? (lcg = vt::mix(lcg)) : c.draw(~0ull);
        cpptrace::object_frame f{};
        f.raw_address = Ptr(vt::mix(r));
        f.object_address = pool[r % pool.size()];
        std::size_t gi = (r >> 20) % (groups.size() + 1);
        f.object_path = gi < groups.size() ? groups[gi].path : (r >> 40) % 3 ? groups[0].path : "";
        frames.push_back(f);
    }
    for(auto& g : groups) {
        for(auto& f : frames) if(f.object_path == g.path && !g.table.count(f.object_address)) g.table[f.object_address] = gen_answer(c, misbehave);
        g.flush = c.flip(), g.slurp = c.chance(1, 4), g.no_newline = c.chance(1, 5), g.pause = c.chance(1, 12);
        if(misbehave) {
            std::size_t lines = std::count_if(frames.begin(), frames.end(), [&](auto& f) { return f.object_path == g.path; });
            switch(c.weighted({6, 2, 3, 2, 2, 2, 1})) {
                case 1: g.first = 1; break;
                case 2: g.stop_after = long(c.below(lines + 1)); g.stop_how = long(c.below(6)); break;
                case 3: g.extra_at = long(c.below(lines + 1)); g.extra = c.flip() ? "noise\n" : c.flip() ? "\n" : "x at y:1\n"; break;
                case 4: g.prefix = c.flip() ? "\n" : c.flip() ? "warning: at something:1\n" : std::string(c.below(200000), 'p') + "\n"; break;
                case 5: g.suffix = c.flip() ? "\n" : c.flip() ? "bye at a:1\n" : std::string(c.below(200000), c.flip() ? '\n' : 's'); break;
                case 6: g.missing = true; break;
                default: break;
            }
        }
        std::string p = dir + "/" + hex(fnv(g.path));
        ::unlink((p + ".in").c_str()), ::unlink((p + ".out").c_str());
        if(g.missing) ::unlink(p.c_str());
        else fixture::spit(p, g.script());
        c.note("object ").note(vt::quote(g.path)).note(g.behaves() ? " ok" : " misbehaves").note(" first=").note(g.first).note(" stop=").note(g.stop_after).note("/").note(g.stop_how).note(" extra=").note(g.extra_at).note(" prefix=").note(g.prefix.size()).note(" suffix=").note(g.suffix.size()).note(" missing=").line(g.missing);
        for(auto& t : g.table) c.note("   ").note(hex(t.first)).note(t.second.well_formed ? " " : " (bad) ").line(vt::quote(t.second.text, 120));
    }
    c.note(n).line(" frames");
    for(std::size_t i = 0; i < n && i < 30; i++) c.note("  ").note(hex(frames[i].raw_address)).note(" ").note(hex(frames[i].object_address)).note(" ").line(vt::quote(frames[i].object_path));
    // the host's circumstances
    bool absorb = !c.chance(1, 6), ignore_chld = c.chance(1, 15), tick = c.chance(1, 10);
    unsigned closed = c.chance(1, 10) ? unsigned(1 + c.below(7)) : 0;
    c.note("absorb ").note(absorb).note(" SIGCHLD ignored ").note(ignore_chld).note(" ticks ").note(tick).note(" closed std descriptors ").line(closed);
    int saved[3];
    for(int i = 0; i < 3; i++) if(closed >> i & 1) saved[i] = ::fcntl(i, F_DUPFD_CLOEXEC, 100);
    for(int i = 0; i < 3; i++) if(closed >> i & 1) ::close(i);
    std::string fds = fixture::open_fds();
    if(ignore_chld) ::signal(SIGCHLD, SIG_IGN);
    if(tick) {
        struct sigaction sa {};
        sa.sa_handler = on_tick;
        ::sigaction(SIGALRM, &sa, nullptr);
        itimerval t {{0, 700}, {0, 700}};
        ::setitimer(ITIMER_REAL, &t, nullptr);
    }
    cpptrace::absorb_trace_exceptions(absorb);
    cpptrace::stacktrace trace;
    bool threw = false, odd_throw = false;
    std::string what;
    cpptrace::object_trace ot{frames};
    try { trace = ot.resolve(); }
    catch(const std::exception& e) { threw = true; what = e.what(); }
    catch(...) { threw = odd_throw = true; }
    cpptrace::absorb_trace_exceptions(true);
    if(tick) {
        itimerval t {};
        ::setitimer(ITIMER_REAL, &t, nullptr);
        ::signal(SIGALRM, SIG_IGN);
    }
    int status;
    errno = 0;
    pid_t left = ::waitpid(-1, &status, WNOHANG);
    int err = errno;
    if(ignore_chld) ::signal(SIGCHLD, SIG_DFL);
    std::string fds2 = fixture::open_fds();
    for(int i = 0; i < 3; i++) if(closed >> i & 1) { ::dup2(saved[i], i); ::close(saved[i]); }
    c.eq(fds2, fds, "open descriptors after resolving");
    c.check(left == -1 && err == ECHILD, "a child process was left behind (pid " + std::to_string(left) + ")");
    c.check(!odd_throw, "something that is not a std::exception was thrown");
    bool all_good = true, any = false;
    for(auto& g : groups) {
        bool used_group = std::any_of(frames.begin(), frames.end(), [&](auto& f) { return f.object_path == g.path; });
        if(!used_group) continue;
        any = true;
        if(!g.behaves()) all_good = false;
        for(auto& t : g.table) if(!t.second.well_formed) all_good = false;
    }
    c.nontrivial(any && (!misbehave || !all_good));
    c.event(all_good ? "well behaved" : "misbehaving");
    if(big) c.event("long trace");
    if(threw) {
        c.event("threw");
        c.check(!absorb, "resolving threw although failures are absorbed: " + what);
        c.check(!all_good, "resolving threw although every answer is well formed: " + what);
        return;
    }
    c.eq(trace.frames.size(), frames.size(), "number of frames");
    std::map<std::string, std::map<u64, std::vector<const Answer*>>> positional;
    std::map<std::string, bool> strict;
    std::map<std::string, std::vector<std::string>> out_lines;
    for(auto& g : groups) {
        auto in = split(fixture::slurp(dir + "/" + hex(fnv(g.path)) + ".in"));
        std::size_t asked = std::count_if(frames.begin(), frames.end(), [&](auto& f) { return f.object_path == g.path; });
        if(!asked) { c.check(in.empty(), "the helper was asked about an object without frames"); continue; }
        bool st = g.behaves() && in.size() > 0;
        if(g.behaves()) c.check(!in.empty(), "the helper was not asked");
        // a blank last line without its newline can't be told from no line
        if(g.no_newline) for(auto& t : g.table) if(t.second.text.empty()) st = false;
        strict[g.path] = st;
    }
    for(std::size_t i = 0; i < frames.size(); i++) {
        auto& f = trace.frames[i];
        auto& o = frames[i];
        std::string at = "frame " + std::to_string(i) + " " + show(f);
        c.eq(hex(f.raw_address), hex(o.raw_address), at + ": raw address");
        c.eq(hex(f.object_address), hex(o.object_address), at + ": object address");
        c.check(!f.is_inline, at + ": inline");
        if(o.object_path.empty()) {
            c.check(f.symbol.empty() && f.filename.empty() && !f.line.has_value(), at + ": has a symbol, file or line although it belongs to no object");
            continue;
        }
        auto& g = *std::find_if(groups.begin(), groups.end(), [&](auto& x) { return x.path == o.object_path; });
        auto& a = g.table.at(o.object_address);
        if(strict[o.object_path]) {
            if(a.well_formed) c.check(matches(f, a, o.object_path), at + ": the helper's answer was " + vt::quote(a.text, 300));
        } else if(g.missing || g.first == 1) {
            if(g.prefix.empty() && g.suffix.empty()) c.check(unresolved(f, o.object_path), at + ": not what a frame without an answer looks like");
        }
    }
}
}

VT_PROP_FULL(helper_answers, "at least one object with frames", false, 30) { run(c, false); }
VT_PROP_FULL(helper_misbehaves, "a helper that misbehaves or answers with malformed lines", false, 30) { run(c, true); }
VT_PROP_FULL(helper_availability, "a helper that is not usable", true, 30) {
    // the helper's presence is established once per process
    std::string dir = vt::scratch_dir() + "/av" + std::to_string(::getpid()), bin = dir + "/bin";
    ::mkdir(dir.c_str(), 0755), ::mkdir(bin.c_str(), 0755);
    ::setenv("VT_A2L", dir.c_str(), 1);
    ::setenv("PATH", bin.c_str(), 1);
    std::size_t mode = c.below(8);
    bool ignore_chld = c.chance(1, 8);
    bool usable = false;
    switch(mode) {
        case 0: break;                                                                                              // none
        case 1: fixture::spit(bin + "/addr2line", "not a program\n"); ::chmod((bin + "/addr2line").c_str(), 0644); break;     // not executable
        case 2: fixture::spit(bin + "/addr2line", "\x7f" "ELF garbage"); ::chmod((bin + "/addr2line").c_str(), 0755); break;
        case 3: ::mkdir((bin + "/addr2line").c_str(), 0755); break;                                                 // a directory
        default: ::symlink((helper_dir() + "/addr2line").c_str(), (bin + "/addr2line").c_str()); usable = true; break;
    }
    if(mode == 4) { int code = 1 + int(c.below(255)); fixture::spit(dir + "/help", std::to_string(code)); usable = false; }
    if(mode == 5) { static const int sigs[] = {SIGKILL, SIGTERM, SIGABRT, SIGSEGV}; fixture::spit(dir + "/help", std::to_string(-c.pick(sigs))); usable = false; }
    if(mode == 6) ::unsetenv("PATH");
    c.note("mode ").note(mode).note(" SIGCHLD ignored ").line(ignore_chld);
    c.nontrivial(mode != 7 || ignore_chld);
    c.key(std::to_string(mode) + (ignore_chld ? "i" : "") + std::to_string(c.tape_hash()));
    if(ignore_chld) ::signal(SIGCHLD, SIG_IGN);
    std::vector<cpptrace::object_frame> frames;
    std::size_t n = 1 + c.below(5);
    Group g;
    g.path = "/nonexistent/a.so";
    for(std::size_t i = 0; i < n; i++) {
        cpptrace::object_frame f{};
        f.raw_address = Ptr(c.draw(~0ull)), f.object_address = Ptr(c.draw(~0ull)), f.object_path = g.path;
        frames.push_back(f);
        if(!g.table.count(f.object_address)) g.table[f.object_address] = gen_answer(c, false);
    }
    fixture::spit(dir + "/" + hex(fnv(g.path)), g.script());
    std::size_t rounds = 1 + c.below(3);
    std::string fds = fixture::open_fds();
    for(std::size_t r = 0; r < rounds; r++) {
        if(r == 1 && mode == 7) { ::unlink((bin + "/addr2line").c_str()); usable = false; c.line("helper removed"); } // goes away later
        cpptrace::stacktrace t;
        try { t = cpptrace::object_trace{frames}.resolve(); }
        catch(const std::exception& e) { c.fail(std::string("threw although failures are absorbed: ") + e.what()); }
        c.eq(t.frames.size(), n, "frames");
        for(std::size_t i = 0; i < n; i++) {
            auto& f = t.frames[i];
            c.eq(hex(f.raw_address), hex(frames[i].raw_address), "raw address");
            c.eq(hex(f.object_address), hex(frames[i].object_address), "object address");
            if(usable && mode != 6) c.check(matches(f, g.table[f.object_address], g.path), show(f) + ": the helper's answer was " + vt::quote(g.table[f.object_address].text, 200));
            else if(!usable && mode != 6 && !ignore_chld) c.check(unresolved(f, g.path), show(f) + ": not what a frame without an answer looks like");
        }
        int st;
        errno = 0;
        pid_t left = ::waitpid(-1, &st, WNOHANG);
        c.check(left == -1 && errno == ECHILD, "a child process was left behind");
        c.eq(fixture::open_fds(), fds, "open descriptors");
    }
}
