// P06: generated programs know the function, file and line of every call in progress; the resolved traces they take of
// themselves have to say the same
#include "vt.hpp"
#include "fixture.hpp"

#include <algorithm>
#include <cerrno>
#include <cstring>
#include <set>
#include <sys/wait.h>

namespace {
using vt::Case;
const bool clang = std::strstr(VT_CXX, "clang") != nullptr;
#ifdef VT_DL_ONLY
constexpr bool dl_only = true;
#else
constexpr bool dl_only = false;
#endif

const char* support_source = R"SRC(
#include <cpptrace/cpptrace.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
static const int* path; static int chain, mode;
static std::vector<std::pair<int, cpptrace::raw_trace>> raws;
static std::vector<std::pair<int, cpptrace::object_trace>> objs;
static std::vector<std::pair<int, cpptrace::stacktrace>> full;
extern "C" {
void set_path(int c, int m, const int* p) { chain = c, mode = m, path = p; }
__attribute__((noipa_)) int step(void) { return *path++; }
__attribute__((noipa_)) int id(int a, int b) { return a * 3 + b; }
__attribute__((noipa_)) int aux(int a) { return a ^ 5; }
__attribute__((noipa_)) void probe(void) {
    if(mode == 0) { raws.push_back({chain, cpptrace::generate_raw_trace()}); }
    else if(mode == 1) { full.push_back({chain, cpptrace::generate_trace()}); }
    else { objs.push_back({chain, cpptrace::generate_object_trace()}); }
    std::fflush(nullptr); /* not a tail call */
}
[[noreturn]] __attribute__((noipa_)) void probe_bail(void) { probe(); throw 1; }
}
static void esc(FILE* f, const std::string& s) { for(char c : s) { if(c == '\n' || c == '\t' || c == '\\') std::fprintf(f, "\\%02x", c); else std::fputc(c, f); } }
static void print(FILE* f, int c, const std::vector<cpptrace::stacktrace_frame>& v, std::size_t from, std::size_t n) {
    std::fprintf(f, "T %d %zu\n", c, n);
    for(std::size_t i = from; i < from + n; i++) {
        auto& x = v[i];
        std::fprintf(f, "%d\t", x.line.has_value() ? int(x.line.value()) : -1); esc(f, x.symbol); std::fputc('\t', f); esc(f, x.filename); std::fprintf(f, "\t%d\n", int(x.is_inline));
    }
}
extern "C" void finish(const char* out) {
    FILE* f = std::fopen(out, "wb");
    cpptrace::raw_trace all;
    for(auto& r : raws) all.frames.insert(all.frames.end(), r.second.frames.begin(), r.second.frames.end());
    auto res = all.resolve();
    if(res.frames.size() != all.frames.size()) { std::fprintf(f, "E count\n"); std::fclose(f); std::_Exit(3); }
    std::size_t at = 0;
    for(auto& r : raws) { print(f, r.first, res.frames, at, r.second.frames.size()); at += r.second.frames.size(); }
    for(auto& t : full) print(f, t.first, t.second.frames, 0, t.second.frames.size());
    for(auto& o : objs) { auto t = o.second.resolve(); print(f, o.first, t.frames, 0, t.frames.size()); }
    std::fprintf(f, "END\n");
    std::fclose(f);
}
)SRC";

std::string support() {
    static std::string d = fixture::once_dir("support", [](const std::string& dir) {
        fixture::spit(dir + "/support.cpp", support_source);
        std::string attr = clang ? "noinline" : "noipa";
        if(std::system((std::string(VT_CXX) + " -w -std=c++17 -g -O1 -fPIC -fno-optimize-sibling-calls -Dnoipa_=" + attr + " " + VT_INC + " -c " + dir + "/support.cpp -o " + dir + "/support.o").c_str()) != 0) { std::fprintf(stderr, "cannot compile the support code\n"); _exit(99); }
    });
    return d + "/support.o";
}

enum Kind { free_fn, in_ns, static_fn, anon_fn, method, static_method, virt, tmpl, ctor, dtor, oper, cfun, noreturn_fn, kinds };
const char* kind_names[] = {"free", "in namespace", "static", "anonymous namespace", "method", "static method", "virtual", "template", "constructor", "destructor", "operator", "extern C", "noreturn"};
using u64 = std::uint64_t;
struct Site { int callee = -1, form = 0, line = 0, first = 0, last = 0; }; // a statement over several lines may be attributed to any of them
struct Fn { int id = 0, tu = 0; Kind kind = free_fn; std::vector<Site> sites; int probe_line = 0; };
struct Tu { int object = 0; std::string path, shown; std::string text; int line = 1; };

std::string n(int i) { return std::to_string(i); }
struct Program {
    std::vector<Fn> fns;
    std::vector<Tu> tus;
    std::string header;
    void put(Tu& t, const std::string& s) { t.text += s + "\n"; t.line++; }
    bool local(const Fn& f) const { return f.kind == static_fn || f.kind == anon_fn; }
    std::string call(const Fn& f, const std::string& arg) const {
        std::string name = "f_" + n(f.id);
        switch(f.kind) {
            case in_ns: return "n_" + n(f.id) + "::deeper::" + name + "(" + arg + ")";
            case method: return "S_" + n(f.id) + "{}." + name + "(" + arg + ")";
            case static_method: return "S_" + n(f.id) + "::" + name + "(" + arg + ")";
            case virt: return "get_" + n(f.id) + "()->" + name + "(" + arg + ")";
            case tmpl: return name + "<long>(" + arg + ")";
            case ctor: return name + "(" + arg + ").v";
            case dtor: return name + "{" + arg + "}.v";
            case oper: return "(" + name + "{} + (" + arg + "))";
            default: return name + "(" + arg + ")";
        }
    }
    std::string declare(const Fn& f) const {
        std::string i = n(f.id), name = "f_" + i;
        switch(f.kind) {
            case in_ns: return "namespace n_" + i + " { namespace deeper { int " + name + "(int); } }";
            case method: return "struct S_" + i + " { int " + name + "(int) const; };";
            case static_method: return "struct S_" + i + " { static int " + name + "(int); };";
            case virt: return "struct B_" + i + " { virtual int " + name + "(int) = 0; }; struct S_" + i + " : B_" + i + " { int " + name + "(int) override; }; B_" + i + "* get_" + i + "();";
            case tmpl: return "template<typename T> NI int " + name + "(T);";
            case ctor: return "struct " + name + " { int v; " + name + "(int); };";
            case dtor: return "struct " + name + " { int v; ~" + name + "() noexcept(false); };";
            case oper: return "struct " + name + " {}; int operator+(const " + name + "&, int);";
            case cfun: return "extern \"C\" int " + name + "(int);";
            case noreturn_fn: return "[[noreturn]] void " + name + "(int);";
            case static_fn: case anon_fn: return "";
            default: return "int " + name + "(int);";
        }
    }
    std::vector<std::string> open(const Fn& f) const {
        std::string i = n(f.id), name = "f_" + i;
        switch(f.kind) {
            case in_ns: return {"namespace n_" + i + " { namespace deeper {", "NI int " + name + "(int x) {"};
            case static_fn: return {"NI static int " + name + "(int x) {"};
            case anon_fn: return {"namespace { NI int " + name + "(int x) {"};
            case method: return {"NI int S_" + i + "::" + name + "(int x) const", "{"};
            case static_method: return {"NI int S_" + i + "::" + name + "(int x) {"};
            case virt: return {"NI B_" + i + "* get_" + i + "() { static S_" + i + " s; return &s; }", "NI int S_" + i + "::" + name + "(int x) {"};
            case tmpl: return {"template<typename T>", "NI int " + name + "(T x) {"};
            case ctor: return {"NI " + name + "::" + name + "(int x) {"};
            case dtor: return {"NI " + name + "::~" + name + "() noexcept(false) {", "int x = v;"};
            case oper: return {"NI int operator+(const " + name + "&, int x) {"};
            case cfun: return {"extern \"C\" NI int " + name + "(int x) {"};
            case noreturn_fn: return {"[[noreturn]] NI void " + name + "(int x) {"};
            default: return {"NI int " + name + "(int x)", "{"};
        }
    }
};
std::string quote_sh(const std::string& s) {
    std::string o = "'";
    for(char c : s) { if(c == '\'') o += "'\\''"; else o += c; }
    return o + "'";
}
struct Expect { std::string token; bool lambda = false; std::string file; int line = 0; bool exported = true; int first = 0, last = 0; };
bool token_in(const std::string& s, const std::string& t) {
    auto word = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_'; };
    for(std::size_t p = 0; (p = s.find(t, p)) != std::string::npos; p++) if((p == 0 || !word(s[p - 1])) && (p + t.size() >= s.size() || !word(s[p + t.size()]))) return true;
    return false;
}
}

VT_PROP_FULL(generated_program, "at least five frames across two files", true, 120) {
    Program p;
    std::string dir = vt::scratch_dir() + "/p" + std::to_string(::getpid());
    ::mkdir(dir.c_str(), 0755);
    static const char* dirs[] = {"plain", "a b", "look at this", "p:7", "d\xc3\xa9", "(x)", "dir.1"};
    dir += std::string("/") + c.pick(dirs);
    ::mkdir(dir.c_str(), 0755);
    // translation units over objects: 0 is the executable
    std::size_t nobj = 1 + c.below(3), ntu = nobj + c.below(3);
    static const char* shown[] = {"odd name.h", "x at y.c", "c:1.h", "(y).inc", " (discriminator 2).h", "noext", "?.h"};
    for(std::size_t i = 0; i < ntu; i++) {
        Tu t;
        t.object = i < nobj ? int(i) : int(c.below(nobj));
        t.path = "t" + n(int(i)) + (c.chance(1, 4) ? " x.cpp" : ".cpp");
        t.shown = t.path;
        p.put(t, "#include \"all.h\"");
        if(c.chance(1, 3)) { t.shown = n(int(i)) + c.pick(shown); for(u64 z = c.below(3) * c.below(5000); z > 0; z--) p.put(t, ""); } // the code is in an included file
        p.tus.push_back(t);
    }
    std::size_t nf = 3 + c.size(22);
    for(std::size_t i = 0; i < nf; i++) {
        Fn f;
        f.id = int(i);
        f.tu = int(c.below(ntu));
        f.kind = Kind(c.below(kinds));
        if(i == 0) f.kind = free_fn;
        p.fns.push_back(f);
    }
    // call sites; one per callee and function, so that nothing can be merged
    for(std::size_t i = 0; i + 1 < nf; i++) {
        auto& f = p.fns[i];
        std::set<int> used;
        std::size_t m = 1 + c.below(4);
        for(std::size_t k = 0; k < m; k++) {
            int j = int(i + 1 + (c.flip() ? c.below(3) : c.below(nf)) % (nf - i - 1));
            auto& g = p.fns[j];
            if(used.count(j) || (p.local(g) && g.tu != f.tu)) continue;
            if(f.kind == noreturn_fn && !used.empty()) break;
            used.insert(j);
            Site s;
            s.callee = j;
            s.form = int(c.below(11));
            f.sites.push_back(s);
        }
    }
    // text, callees first
    for(int i = int(nf) - 1; i >= 0; i--) {
        auto& f = p.fns[i];
        auto& t = p.tus[f.tu];
        for(std::size_t b = c.below(3); b > 0; b--) p.put(t, "// filler");
        for(auto& l : p.open(f)) p.put(t, l);
        p.put(t, "  int r = int(x);");
        auto site = [&](Site& s, bool last) {
            auto& g = p.fns[s.callee];
            std::string arg = "r + " + n(s.callee * 17 + 3), e = p.call(g, arg);
            if(g.kind == noreturn_fn) { s.form = -1; s.line = t.line; p.put(t, "    " + e + ";" + (last ? "" : " /* not back */")); return; }
            switch(s.form) {
                case 1: {
                    bool plain = g.kind == free_fn || g.kind == static_fn || g.kind == anon_fn || g.kind == cfun || g.kind == in_ns || g.kind == static_method;
                    if(!plain) { s.form = 0; s.line = t.line; p.put(t, "    r += " + e + ";"); break; }
                    std::string name = e.substr(0, e.find('('));
                    s.line = t.line; p.put(t, "    { int (*volatile q)(int) = " + name + "; r += q(" + arg + "); }"); break;
                }
                case 2: s.line = t.line; p.put(t, "    for(int i = 0; i < 1; i++) r += " + e + ";"); break;
                case 3: s.line = t.line; p.put(t, "    if(" + e + " > 1000000) r++;"); break;
                case 4: s.line = t.line; p.put(t, "    r += id(" + e + ", 3) * 2;"); break;
                case 5: s.first = t.line; p.put(t, "    r += id("); p.put(t, "      1,"); s.line = t.line; p.put(t, "      " + e); s.last = t.line; p.put(t, "    );"); break;
                case 6: s.line = t.line; p.put(t, "    r += [&](int y) __attribute__((noinline)) { return " + e + " + y; }(r);"); break;
                case 7: s.line = t.line; p.put(t, "    r += DOUBLE(" + e + ");"); break;
                case 8: s.line = t.line; p.put(t, "    r += r != 12345 ? " + e + " : 7;"); break;
                case 9: p.put(t, "    try {"); s.line = t.line; p.put(t, "      r += " + e + "; }"); p.put(t, "    catch(long) { r++; }"); break;
                case 10: p.put(t, "    r += aux(r);"); s.line = t.line; p.put(t, "    r += " + e + ";"); p.put(t, "    r += aux(r);"); break;
                default: s.line = t.line; p.put(t, "    r += " + e + ";"); break;
            }
        };
        if(f.kind == noreturn_fn) {
            p.put(t, "  if(step() == 0) {");
            f.probe_line = t.line;
            p.put(t, "    probe_bail();");
            p.put(t, "  }");
            if(!f.sites.empty()) site(f.sites[0], true);
            if(f.sites.empty() || p.fns[f.sites[0].callee].kind != noreturn_fn) p.put(t, "  throw r;");
        } else {
            p.put(t, "  switch(step()) {");
            for(std::size_t k = 0; k < f.sites.size(); k++) { p.put(t, "  case " + n(int(k) + 1) + ":"); site(f.sites[k], false); p.put(t, "    break;"); }
            p.put(t, "  default:");
            f.probe_line = t.line;
            p.put(t, "    probe();");
            p.put(t, "  }");
            p.put(t, f.kind == ctor ? "  v = r ^ 1;" : f.kind == dtor ? "  sink = r;" : "  return r ^ " + n(f.id) + ";");
        }
        p.put(t, "}");
        if(f.kind == in_ns) p.put(t, "} }");
        if(f.kind == anon_fn) p.put(t, "}");
        if(f.kind == tmpl) p.put(t, "template int f_" + n(f.id) + "<long>(long);");
    }
    // chains: ways through the program
    struct Chain { std::vector<int> path; std::vector<Expect> frames; int mode; };
    std::vector<Chain> chains;
    std::size_t nc = 1 + c.size(24);
    auto& mt = p.tus[0];
    p.put(mt, "int main(int argc, char** argv)");
    p.put(mt, "{");
    p.put(mt, "  int r = argc;");
    std::set<std::string> files_seen;
    for(std::size_t k = 0; k < nc; k++) {
        Chain ch;
        ch.mode = c.chance(1, 6) ? int(1 + c.below(2)) : 0;
        std::vector<Expect> rev;
        Fn* f = &p.fns[0];
        for(std::size_t start = 0; start < 6 && k % 3 == 2; start++) { // not all start at the first
            auto& g = p.fns[c.below(nf)];
            if(p.local(g) && g.tu != 0) continue;
            f = &g;
            break;
        }
        rev.push_back({"main", false, mt.shown, mt.line, true});
        std::string e = p.call(*f, "r + 1"), stmt = f->kind == noreturn_fn ? e + ";" : "r += " + e + ";";
        // the path is written once the chain is known
        std::string before = "  { static const int path[] = {";
        for(;;) {
            auto& t = p.tus[f->tu];
            bool exported = !p.local(*f);
            std::size_t pick = f->sites.empty() || (rev.size() > 2 && c.chance(1, 8)) ? 0 : 1 + c.below(f->sites.size());
            ch.path.push_back(int(pick));
            if(pick == 0) { rev.push_back({"f_" + n(f->id), false, t.shown, f->probe_line, exported}); if(f->kind == noreturn_fn) rev.push_back({"probe_bail", false, "support.cpp", 0, true}); break; }
            auto& s = f->sites[pick - 1];
            rev.push_back({"f_" + n(f->id), false, t.shown, s.line, exported, s.first, s.last});
            if(s.form == 6) rev.push_back({"f_" + n(f->id), true, t.shown, s.line, false});
            files_seen.insert(t.shown);
            f = &p.fns[s.callee];
        }
        rev.push_back({"probe", false, "support.cpp", 0, true});
        std::reverse(rev.begin(), rev.end());
        ch.frames = rev;
        for(int x : ch.path) before += n(x) + ", ";
        p.put(mt, before + "0}; set_path(" + n(int(k)) + ", " + n(ch.mode) + ", path); try { " + stmt + " } catch(int) { r++; } }");
        chains.push_back(ch);
    }
    p.put(mt, "  finish(argv[1]);");
    p.put(mt, "  return r == 123456;");
    p.put(mt, "}");
    std::string h = "#define NI __attribute__((" + std::string(clang ? "noinline" : "noipa") + "))\n#define DOUBLE(e) ((e) * 2)\nextern int sink;\nextern \"C\" { void set_path(int, int, const int*); int step(void); int id(int, int); int aux(int); void probe(void); [[noreturn]] void probe_bail(void); void finish(const char*); }\n";
    for(auto& f : p.fns) { auto d = p.declare(f); if(!d.empty()) h += d + "\n"; if(f.kind == tmpl) h += "extern template int f_" + n(f.id) + "<long>(long);\n"; }
    // extern template before the definition needs the definition elsewhere, and gets it from the explicit instantiation
    p.put(mt, "int sink;");
    fixture::spit(dir + "/all.h", h);
    static const char* opts[] = {"-O0", "-O1", "-O2", "-Os", "-O3", "-Og"};
    static const char* dbg_gcc[] = {"-g", "-gdwarf-4", "-gdwarf-5", "-g1", "-g3", "-ggdb -gz"};
    static const char* dbg_clang[] = {"-g", "-gdwarf-4", "-gdwarf-5", "-gline-tables-only", "-g -fdebug-types-section", "-g -gz"};
    static const char* extra[] = {"", "-ffunction-sections", "-fomit-frame-pointer", "-fno-omit-frame-pointer", "-fcf-protection=none", "-fno-plt"};
    static const char* links[] = {"", "-Wl,-z,noseparate-code", "-fuse-ld=lld", "-fuse-ld=gold", "-Wl,--gc-sections", "-Wl,-z,now", "-Wl,-Ttext-segment=0x200000000"};
    std::string flags = std::string(c.pick(opts)) + " " + (clang ? c.pick(dbg_clang) : c.pick(dbg_gcc)) + " " + c.pick(extra) + (clang ? " -mllvm -enable-tail-merge=false -mllvm -sink-common-insts=false" : " -fno-ipa-icf -fno-crossjumping -fno-tree-tail-merge -fno-reorder-blocks-and-partition") + " -fno-optimize-sibling-calls";
    // binutils' addr2line takes the wrong file for some DWARF 5 line tables of units with several files
    for(auto& t : p.tus) if(t.shown != t.path && flags.find("-gdwarf") == std::string::npos) flags += " -gdwarf-4";
    if(auto d5 = flags.find("-gdwarf-5"); d5 != std::string::npos) for(auto& t : p.tus) if(t.shown != t.path) flags[d5 + 8] = '4';
    bool pie = c.flip();
    std::string link = c.pick(links);
    c.note("flags ").note(flags).note(pie ? " pie " : " no-pie ").line(link);
    std::string cmd = "cd " + quote_sh(dir) + " && (";
    for(std::size_t i = 0; i < ntu; i++) {
        if(p.tus[i].shown != p.tus[i].path) fixture::spit(dir + "/" + p.tus[i].path, "int unused_" + n(int(i)) + "() { return 3; }\n#include \"" + p.tus[i].shown + "\"\n");
        fixture::spit(dir + "/" + p.tus[i].shown, p.tus[i].text);
        std::string mode = p.tus[i].object ? "-fPIC" : pie ? "-fPIE" : "-fno-pie";
        cmd += std::string(VT_CXX) + " -w -std=c++17 " + flags + " " + mode + " -c " + quote_sh(p.tus[i].path) + " -o t" + n(int(i)) + ".o || exit 5; ";
    }
    auto objs = [&](int o) { std::string s; for(std::size_t i = 0; i < ntu; i++) if(p.tus[i].object == o) s += " t" + n(int(i)) + ".o"; return s; };
    std::string libs;
    for(std::size_t o = 1; o < nobj; o++) { std::string so = "'lib o" + n(int(o)) + ".so'"; cmd += std::string(VT_CXX) + " -shared -Wl,--no-as-needed " + (link.find("Ttext") == std::string::npos ? link : "") + objs(int(o)) + " -o " + so + " || exit 6; "; libs += " " + quote_sh(dir + "/lib o" + n(int(o)) + ".so"); }
    cmd += std::string(VT_CXX) + " " + (pie ? "-pie" : "-no-pie") + " -rdynamic -Wl,--no-as-needed " + link + objs(0) + " " + support() + libs + " " VT_LIB " " VT_LIBS " -o 'the prog' || exit 7) > build.log 2>&1";
    if(std::system(cmd.c_str()) != 0) {
        std::string log = fixture::slurp(dir + "/build.log");
        // not every combination of flags and linkers can build
        c.event("did not build");
        c.note(log.substr(0, 1500));
        if(c.thorough || std::getenv("VT_SHOW_BUILD")) std::fprintf(stderr, "build: %s\n%s\n", flags.c_str(), log.substr(0, 800).c_str());
        c.discard();
    }
    std::size_t total = 0;
    for(auto& ch : chains) total += ch.frames.size();
    c.nontrivial(total >= 5 && files_seen.size() >= 2);
    c.event(flags.substr(0, 3));
    int rc = std::system(("cd / && timeout 100 " + quote_sh(dir + "/the prog") + " " + quote_sh(dir + "/out") + " > " + quote_sh(dir + "/run.log") + " 2>&1").c_str());
    std::string out = fixture::slurp(dir + "/out");
    if(std::getenv("VT_KEEP")) (void)!std::system(("rm -rf -- /tmp/q/keep; cp -r " + quote_sh(dir) + " /tmp/q/keep").c_str());
    c.note("functions:\n");
    for(auto& f : p.fns) { c.note("  f_").note(f.id).note(" ").note(kind_names[f.kind]).note(" in ").note(p.tus[f.tu].path).note(" of object ").note(p.tus[f.tu].object).line(""); }
    c.check(rc == 0 && out.size() > 4 && out.substr(out.size() - 4) == "END\n", "the program failed (" + std::to_string(rc) + "): " + out.substr(0, 100) + fixture::slurp(dir + "/run.log").substr(0, 500));
    std::vector<std::string> lines;
    for(std::size_t a = 0, b; (b = out.find('\n', a)) != std::string::npos; a = b + 1) lines.push_back(out.substr(a, b - a));
    std::set<int> seen;
    std::size_t at = 0;
    while(at < lines.size() && lines[at] != "END") {
        int k = -1;
        std::size_t cnt = 0;
        std::sscanf(lines[at].c_str(), "T %d %zu", &k, &cnt);
        c.check(k >= 0 && k < int(chains.size()) && seen.insert(k).second, "unexpected output of the program");
        auto& ch = chains[std::size_t(k)];
        std::string all;
        for(std::size_t i = 0; i < cnt; i++) all += "    " + lines[at + 1 + i] + "\n";
        std::string wanted;
        for(auto& e : ch.frames) wanted += "    " + std::to_string(e.line) + "\t" + e.token + (e.lambda ? " (lambda)" : "") + "\t" + e.file + "\n";
        std::string context = "\n  chain " + std::to_string(k) + " printed\n" + all + "  expected\n" + wanted;
        c.check(cnt >= ch.frames.size(), "too few frames" + context);
        for(std::size_t i = 0; i < ch.frames.size(); i++) {
            auto& e = ch.frames[i];
            auto& l = lines[at + 1 + i];
            std::size_t t1 = l.find('\t'), t2 = l.find('\t', t1 + 1), t3 = l.rfind('\t');
            int line = std::atoi(l.c_str());
            std::string sym = l.substr(t1 + 1, t2 - t1 - 1), file = l.substr(t2 + 1, t3 - t2 - 1);
            std::string where = "frame " + std::to_string(i) + ": " + vt::quote(l, 400) + context;
            if(dl_only) {
                if(e.exported) c.check(token_in(sym, e.token), "wrong function in " + where);
                continue;
            }
            if(e.lambda && sym == "operator()") sym += " " + e.token; // all that libbacktrace says of a local function
            c.check(token_in(sym, e.token), "wrong function in " + where);
            if(e.lambda) c.check(sym.find("lambda") != std::string::npos || sym.find("$_") != std::string::npos || sym.find("operator()") != std::string::npos, "not a lambda in " + where);
            for(std::size_t q = 0; (q = sym.find("f_", q)) != std::string::npos; q++) {
                if(q && (std::isalnum(static_cast<unsigned char>(sym[q - 1])) || sym[q - 1] == '_')) continue;
                std::size_t z = q + 2;
                while(z < sym.size() && std::isdigit(static_cast<unsigned char>(sym[z]))) z++;
                c.check(sym.substr(q, z - q) == e.token, "another function's name in " + where);
            }
            std::string want = "/" + e.file;
            c.check(file.size() >= want.size() && file.compare(file.size() - want.size(), want.size(), want) == 0, "wrong file in " + where);
            if(e.line) c.check(e.first ? line >= e.first && line <= e.last : line == e.line, "wrong line in " + where);
        }
        at += 1 + cnt;
    }
    c.eq(seen.size(), chains.size(), "traces printed");
    if(!std::getenv("VT_KEEP")) (void)!std::system(("rm -rf -- " + quote_sh(dir)).c_str());
}
