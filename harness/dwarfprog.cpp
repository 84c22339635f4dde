// P32: the reader of debug information, on programs that the installed compilers built: what their entries say by a
// plain search through all of them is expected
#include "vt.hpp"
#include "fixture.hpp"
#include "fakedwarf/fakedwarf.hpp"

#include <cpptrace/cpptrace.hpp>

#include <algorithm>
#include <elf.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

namespace {
using vt::Case;
using vt::u64;
std::string n(long long k) { return std::to_string(k); }
std::string quote_sh(const std::string& s) { return "'" + s + "'"; }

struct Fn { int id, kind; bool in_header; int tu; bool local_linkage; };
struct Source {
    Case& c;
    std::vector<Fn> fns;
    std::vector<std::string> tus;
    std::string header;
    int serial = 0;
    explicit Source(Case& c) : c(c) {}
    std::string call(const Fn& f, const std::string& arg) {
        std::string i = n(f.id);
        switch(f.kind) {
            case 1: return "f" + i + "<" + n(int(c.below(3))) + ">(" + arg + ")";
            case 2: return "S" + i + "(" + arg + ").f" + i + "(" + arg + ")";
            case 3: return "n" + i + "::f" + i + "(" + arg + ")";
            case 6: return "S" + i + "::f" + i + "(" + arg + ")";
            default: return "f" + i + "(" + arg + ")";
        }
    }
    std::string expr(const std::vector<const Fn*>& callees, const std::string& v) {
        if(callees.empty() || c.chance(1, 6)) return c.pick({v + " * 3 + sink", "sink ^ " + v, "(" + v + " >> 1) - sink"});
        return call(*c.pick(callees), c.flip() ? v : v + " + " + n(int(c.below(9))));
    }
    void stmts(std::string& o, const std::vector<const Fn*>& callees, const std::string& ind, const std::string& v, int depth) {
        for(u64 k = 1 + c.below(3); k; k--) {
            int id = serial++;
            std::string e = expr(callees, v);
            switch(depth > 0 ? c.below(10) : c.below(3)) {
                case 0: case 1: o += ind + v + " += " + e + ";\n"; break;
                case 2: o += ind + "sink = " + v + ";\n"; break;
                case 3: o += ind + "if(" + v + " > " + n(int(c.below(50))) + ") {\n"; stmts(o, callees, ind + "    ", v, depth - 1); o += ind + "}\n"; break;
                case 4: o += ind + "if(__builtin_expect(sink == " + n(id) + ", 0)) {\n"; stmts(o, callees, ind + "    ", v, depth - 1); o += ind + "    " + c.pick({"__builtin_trap();", "abort_here();", ""}) + "\n" + ind + "}\n"; break;
                case 5: o += ind + "for(int i = 0; i < sink; i++) {\n"; stmts(o, callees, ind + "    ", v, depth - 1); o += ind + "}\n"; break;
                case 6: o += ind + "{ int z" + n(id) + " = " + e + ";\n"; stmts(o, callees, ind + "    ", "z" + n(id), depth - 1); o += ind + "    " + v + " ^= z" + n(id) + ";\n" + ind + "}\n"; break;
                case 7: case 8: {
                    std::string q = "q" + n(id);
                    bool ref = c.flip();
                    o += ind + "auto l" + n(id) + " = [" + (ref ? "&" : "") + "](int " + q + ")" + c.pick({"", " __attribute__((noinline))", " mutable"}) + " {\n";
                    stmts(o, callees, ind + "    ", q, depth - 1);
                    o += ind + "    return " + q + ";\n" + ind + "};\n" + ind + v + " += l" + n(id) + "(" + v + ");\n";
                    break;
                }
                default: {
                    std::string q = "q" + n(id), L = "L" + n(id);
                    o += ind + c.pick({"struct ", "union ", "class "}) + L + " { public: " + c.pick({"", "int pad; "}) + (c.flip() ? "static " : "") + "int m(int " + q + ") {\n";
                    stmts(o, callees, ind + "    ", q, depth - 1);
                    o += ind + "    return " + q + ";\n" + ind + "} };\n" + ind + v + " -= " + L + "().m(" + v + ");\n";
                    break;
                }
            }
        }
    }
    std::string attributes() {
        static const char* a[] = {"", "", "", "noinline", "always_inline", "cold", "hot", "flatten", "noclone"};
        std::string x = a[c.below(9)];
        return x.empty() ? x : "__attribute__((" + x + ")) ";
    }
    void build(int ntus) {
        tus.assign(std::size_t(ntus), "#include \"h.hpp\"\n");
        header = "#pragma once\nextern volatile int sink;\nextern \"C\" [[noreturn]] void abort_here();\n";
        u64 count = 4 + c.below(16);
        for(u64 k = 0; k < count; k++) {
            Fn f{int(k), int(c.below(7)), c.chance(1, 3), int(c.below(u64(ntus))), false};
            std::string i = n(f.id), attr = attributes();
            std::vector<const Fn*> callees;
            for(auto& g : fns) if(g.in_header || !f.in_header) if(!g.local_linkage || g.tu == f.tu) if(c.chance(2, 3)) callees.push_back(&g);
            std::string body = "{\n    int r = a;\n";
            stmts(body, callees, "    ", "r", 2);
            body += "    return r;\n}\n";
            std::string& out = f.in_header ? header : tus[std::size_t(f.tu)];
            bool always = attr.find("always") != std::string::npos;
            std::string inl = f.in_header || always ? "inline " : "";
            if(c.chance(1, 16)) out += "#line " + n(int(1 + c.below(5000))) + " \"made up.y\"\n";
            if(!f.in_header && (always || c.chance(1, 4))) f.local_linkage = true;
            if(f.kind == 4 && f.local_linkage) f.kind = 0;
            if(f.kind == 1) { f.local_linkage = !f.in_header; out += "template<int N> " + attr + inl + "int f" + i + "(int a) " + body; }
            else if(f.kind == 2 || f.kind == 6) {
                bool st = f.kind == 6, inside = f.in_header || always || c.flip();
                std::string s = std::string(c.flip() ? "struct" : "class") + " S" + i + " { int v" + i + "; public: S" + i + "(int a) : v" + i + "(a) { sink = a; } ~S" + i + "() { sink = " + i + "; } " + (st ? "static " : "") + attr + "int f" + i + "(int a)";
                if(inside) { f.local_linkage = !f.in_header; out += s + " " + body + "};\n"; }
                else { f.local_linkage = false; header += s + "; };\n"; out += "int S" + i + "::f" + i + "(int a) " + body; }
            }
            else if(f.kind == 3) {
                bool anon = f.local_linkage && c.flip();
                out += std::string(anon ? "namespace { " : "") + "namespace n" + i + " { " + attr + (f.local_linkage && !anon ? "static " : "") + inl + "int f" + i + "(int a) " + body + "}" + (anon ? "}" : "") + "\n";
                if(!f.in_header && !f.local_linkage) header += "namespace n" + i + " { int f" + i + "(int a); }\n";
            }
            else {
                std::string ec = f.kind == 4 ? "extern \"C\" " : "";
                out += ec + attr + (f.local_linkage ? "static " : "") + inl + "int f" + i + "(int a) " + body;
                if(!f.in_header && !f.local_linkage) header += ec + "int f" + i + "(int a);\n";
            }
            fns.push_back(f);
        }
        // everything is used
        for(int t = 0; t < ntus; t++) {
            std::string e = "int entry" + n(t) + "(int a) {\n    int r = a;\n";
            for(auto& f : fns) if(f.in_header || f.tu == t) e += "    r += " + call(f, "r") + ";\n";
            tus[std::size_t(t)] += e + "    return r;\n}\n";
        }
        tus[0] += "volatile int sink;\nextern \"C\" void abort_here() { __builtin_trap(); }\n";
    }
};
struct Frame { std::string symbol, file; u64 line = 0, col = 0; };
u64 counter = 0;
std::vector<std::pair<u64, u64>> code_of(const std::string& path) {
    std::string f = fixture::slurp(path);
    std::vector<std::pair<u64, u64>> r;
    if(f.size() < sizeof(Elf64_Ehdr)) return r;
    Elf64_Ehdr e;
    std::memcpy(&e, f.data(), sizeof e);
    for(unsigned k = 0; k < e.e_shnum; k++) {
        Elf64_Shdr s;
        std::memcpy(&s, f.data() + e.e_shoff + k * sizeof s, sizeof s);
        if((s.sh_flags & SHF_EXECINSTR) && s.sh_type == SHT_PROGBITS && s.sh_size > 0) r.push_back({s.sh_addr, s.sh_addr + s.sh_size});
    }
    return r;
}
std::map<std::string, std::shared_ptr<fake::Object>> loaded;
std::shared_ptr<fake::Object> load(const std::string& path) {
    auto it = loaded.find(path);
    if(it != loaded.end()) return it->second;
    return loaded[path] = fake::load_elf(path);
}
std::string basename(const std::string& s) { return s.substr(s.rfind('/') + 1); }
using Pieces = std::vector<std::pair<u64, u64>>;
// everything the entries say, searched without any of the shortcuts a resolver takes
struct Model {
    std::shared_ptr<fake::Object> main;
    struct Full { fake::Unit* lines; std::shared_ptr<fake::Object> object; fake::Unit* unit; };
    std::vector<std::pair<Pieces, Full>> units;
    std::map<fake::Die*, Pieces> cache;
    static std::string text(fake::Die& d, fake::u16 at) { auto* a = d.get(at); return a ? a->s : ""; }
    const Pieces& at(fake::Die& d, const Full& f) {
        auto it = cache.find(&d);
        if(it != cache.end()) return it->second;
        auto& p = cache[&d];
        fake::Object* tied = f.object == main ? nullptr : main.get();
        u64 lo = 0, hi = 0;
        auto* l = d.get(DW_AT_low_pc);
        auto* h = d.get(DW_AT_high_pc);
        if(l && h && fake::address_of(tied, d.unit, *l, lo)) {
            bool address = h->form == DW_FORM_addr || h->indexed;
            if(!address) p.push_back({lo, lo + h->u});
            else if(fake::address_of(tied, d.unit, *h, hi)) p.push_back({lo, hi});
        }
        auto* r = d.get(DW_AT_ranges);
        if(!r) return p;
        if(d.unit->version < 5) {
            u64 base = 0, off = r->u;
            if(auto* b = f.lines->root.get(DW_AT_low_pc)) fake::address_of(nullptr, f.lines, *b, base);
            if(d.unit != f.lines) off += f.lines->ranges_base;
            if(auto* v = main->ranges_at(off)) for(auto& e : *v) {
                if(e.type == DW_RANGES_ADDRESS_SELECTION) base = e.b;
                else if(e.type == DW_RANGES_ENTRY) p.push_back({base + e.a, base + e.b});
            }
        } else {
            std::vector<fake::Range5>* v = nullptr;
            if(r->form == DW_FORM_rnglistx) { if(r->u < d.unit->rnglists.size()) v = &d.unit->rnglists[r->u]; }
            else { auto k = d.unit->object->rnglists.find(r->u); if(k != d.unit->object->rnglists.end()) v = &k->second; }
            if(v) for(auto& e : fake::cooked(tied, d.unit, *v)) if(e.rle != DW_RLE_end_of_list && e.rle != DW_RLE_base_address && e.rle != DW_RLE_base_addressx && !e.unavailable) p.push_back({e.a, e.b});
        }
        return p;
    }
    static bool inside(const Pieces& p, u64 pc) { for(auto& x : p) if(pc >= x.first && pc < x.second) return true; return false; }
    explicit Model(std::shared_ptr<fake::Object> o) : main(o) {
        for(auto& u : o->units) {
            if(u->types || u->sig_die) continue;
            Full f{u.get(), o, u.get()};
            std::string dwo = text(u->root, DW_AT_dwo_name).empty() ? text(u->root, DW_AT_GNU_dwo_name) : text(u->root, DW_AT_dwo_name);
            if(!dwo.empty()) {
                f.object = load(dwo[0] == '/' ? dwo : text(u->root, DW_AT_comp_dir) + "/" + dwo);
                f.unit = f.object ? f.object->full_or_skeleton(u->dwo_id) : nullptr;
            }
            Pieces p = at(u->root, Full{u.get(), o, u.get()});
            units.push_back({p, f});
        }
    }
    fake::Die* signed_entry(const char* sig, fake::Object& o) { for(auto& u : o.units) if(u->sig_die && std::memcmp(u->sig, sig, 8) == 0) return u->sig_die; return nullptr; }
    std::string name(fake::Die& d, const Full& f, int depth = 0) {
        for(auto k : {DW_AT_linkage_name, DW_AT_MIPS_linkage_name}) if(!text(d, fake::u16(k)).empty()) return text(d, fake::u16(k));
        for(auto k : {DW_AT_specification, DW_AT_abstract_origin}) if(auto* a = d.get(fake::u16(k))) {
            fake::Die* t = a->form == DW_FORM_ref_sig8 ? signed_entry(a->sig, *d.unit->object) : a->ref;
            if(t && depth < 20) return name(*t, f, depth + 1);
        }
        return text(d, DW_AT_name);
    }
    struct Deep { fake::Die* die; int depth; };
    void subprograms(fake::Die& d, const Full& f, u64 pc, int depth, std::vector<Deep>& out) {
        if(d.tag == DW_TAG_subprogram && inside(at(d, f), pc)) out.push_back({&d, depth});
        for(auto& k : d.kids) subprograms(*k, f, pc, depth + 1, out);
    }
    void inlines(fake::Die& d, const Full& f, u64 pc, std::vector<fake::Die*>& out) {
        for(auto& k : d.kids) {
            auto& p = at(*k, f);
            if(k->tag == DW_TAG_inlined_subroutine && inside(p, pc)) { out.push_back(k.get()); inlines(*k, f, pc, out); return; }
            if(k->tag == DW_TAG_lexical_block && (p.empty() || inside(p, pc))) { auto n = out.size(); inlines(*k, f, pc, out); if(out.size() != n) return; }
        }
    }
    // false: it cannot be told
    bool expect(u64 pc, std::vector<Frame>& out) {
        const Full* full = nullptr;
        for(auto& u : units) if(inside(u.first, pc)) { if(full) return false; full = &u.second; }
        if(!full || !full->unit) return false;
        Frame f;
        auto& rows = full->lines->rows;
        std::size_t covers = 0;
        for(std::size_t b = 0, e; b < rows.size(); b = e + 1) {
            for(e = b; e < rows.size() && !rows[e].end; e++);
            if(e == rows.size()) break;
            const fake::Row* hit = nullptr;
            if(pc < rows[e].addr) for(std::size_t k = b; k < e; k++) if(rows[k].addr <= pc) hit = &rows[k];
            if(hit) { covers++; f.file = hit->file; f.line = hit->line; f.col = hit->col; }
        }
        if(covers != 1) return false;
        std::vector<Deep> fns;
        subprograms(full->unit->root, *full, pc, 0, fns);
        if(fns.empty()) return false;
        Deep* deepest = &fns[0];
        for(auto& d : fns) if(d.depth > deepest->depth) deepest = &d;
        for(auto& d : fns) { auto* x = deepest->die; while(x && x != d.die) x = x->parent; if(!x) return false; }
        std::vector<fake::Die*> chain;
        inlines(*deepest->die, *full, pc, chain);
        for(std::size_t k = chain.size(); k; k--) {
            auto& d = *chain[k - 1];
            f.symbol = name(d, *full);
            out.push_back(f);
            auto number = [&] (fake::u16 at) { auto* a = d.get(at); return a ? a->u : 0; };
            u64 file = number(DW_AT_call_file);
            if(full->lines->line_version < 5) file--;
            f = Frame{"", file < full->lines->files.size() ? full->lines->files[file] : "", number(DW_AT_call_line), number(DW_AT_call_column)};
        }
        f.symbol = name(*deepest->die, *full);
        out.push_back(f);
        return true;
    }
};
std::string shown(const std::string& s) { return s.compare(0, 2, "_Z") == 0 ? cpptrace::demangle(s) : s; }
bool agree(const std::vector<cpptrace::stacktrace_frame>& got, const std::vector<Frame>& want, bool exact) {
    if(got.size() != want.size()) return false;
    for(std::size_t j = 0; j < want.size(); j++) {
        auto& g = got[j]; auto& e = want[j];
        if(!e.symbol.empty() && e.symbol != "??" && g.symbol != shown(e.symbol)) return false;
        if(exact ? g.filename != e.file : e.file != "??" && basename(g.filename) != basename(e.file)) return false;
        if((g.line.has_value() ? g.line.value() : 0) != e.line || (g.column.has_value() ? g.column.value() : 0) != e.col) return false;
        if(g.is_inline != (j + 1 < want.size())) return false;
    }
    return true;
}
// another opinion
std::vector<Frame> symbolizer(const std::string& dir, u64 pc) {
    std::vector<Frame> cur;
    char b[40];
    std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)pc);
    (void)!std::system(("cd " + quote_sh(dir) + " && { [ -e bare.so ] || llvm-objcopy -R .symtab -R .strtab prog.so bare.so; } > objcopy.log 2>&1; llvm-symbolizer --obj=bare.so --inlines --no-demangle --functions=linkage " + b + " > out 2>&1").c_str());
    std::string out = fixture::slurp(dir + "/out");
    std::vector<std::string> lines;
    for(std::size_t a = 0, e; (e = out.find('\n', a)) != std::string::npos; a = e + 1) lines.push_back(out.substr(a, e - a));
    for(std::size_t k = 0; k + 1 < lines.size() && !lines[k].empty(); k += 2) {
        auto& l = lines[k + 1];
        std::size_t c2 = l.rfind(':'), c1 = c2 == std::string::npos || c2 == 0 ? std::string::npos : l.rfind(':', c2 - 1);
        if(c1 == std::string::npos) break;
        cur.push_back({lines[k], l.substr(0, c1), std::strtoull(l.c_str() + c1 + 1, nullptr, 10), std::strtoull(l.c_str() + c2 + 1, nullptr, 10)});
    }
    return cur;
}

VT_PROP(debug_programs, "at least five frames with inlined calls") {
    std::string dir = vt::scratch_dir() + "/dp" + n(::getpid()) + "_" + n(int(counter++));
    ::mkdir(dir.c_str(), 0755);
    Source s(c);
    int ntus = 1 + int(c.below(3));
    s.build(ntus);
    fixture::spit(dir + "/h.hpp", s.header);
    static const char* opts[] = {"-O0", "-O1", "-O2", "-O2", "-Os", "-O3", "-Og"};
    static const char* versions[] = {"-g", "-gdwarf-5", "-gdwarf-4", "-gdwarf-4", "-gdwarf-3", "-gdwarf-2"};
    static const char* extra[] = {"", "", "-gsplit-dwarf", "-gsplit-dwarf", "-fdebug-types-section", "-gz", "-gdwarf64", "-gno-column-info", "-g1", "-fno-inline"};
    static const char* code[] = {"", "", "-ffunction-sections", "-freorder-blocks-and-partition", "-fno-inline-small-functions"};
    static const char* links[] = {"", "-Wl,--gc-sections", "-fuse-ld=lld", "-fuse-ld=gold", "-Wl,--compress-debug-sections=zlib"};
    std::string cmd = "cd " + quote_sh(dir) + " && (", objs;
    bool lto = c.chance(1, 8);
    for(int t = 0; t < ntus; t++) {
        fixture::spit(dir + "/t" + n(t) + ".cpp", s.tus[std::size_t(t)]);
        bool clang = !lto && c.chance(2, 5);
        std::string v = c.pick(versions), x = c.pick(extra), fl = std::string(c.pick(opts)) + " " + v + " " + x + " " + c.pick(code);
        if(x == "-gdwarf64" && v == "-gdwarf-2") fl = "-O2 -gdwarf-4 -gdwarf64";
        if(x == "-g1" && c.flip()) fl += " " + v;
        if(lto) fl = std::string(c.pick(opts)) + " " + v + " -flto";
        std::string src = c.flip() ? "t" + n(t) + ".cpp" : dir + "/t" + n(t) + ".cpp";
        cmd += std::string(clang ? "clang++-18" : "g++") + " -w -std=c++17 -fPIC " + fl + " -c " + src + " -o t" + n(t) + ".o || exit 5; ";
        c.note(clang ? "clang " : "gcc ").line(fl);
        objs += " t" + n(t) + ".o";
    }
    std::string link = lto ? "-flto -O2" : c.pick(links);
    if(c.chance(1, 4)) link += " -Wl,--build-id";
    c.line(link);
    cmd += "g++ -shared " + link + objs + " -o prog.so || exit 6) > build.log 2>&1";
    auto clean = [&] { (void)!std::system(("rm -rf -- " + quote_sh(dir)).c_str()); };
    if(std::system(cmd.c_str()) != 0) {
        c.event("did not build");
        if(std::getenv("VT_SHOW_BUILD")) std::fprintf(stderr, "build: %s\n%s\n", cmd.c_str(), fixture::slurp(dir + "/build.log").substr(0, 800).c_str());
        clean();
        c.discard();
    }
    std::string path = dir + "/prog.so";
    auto object = load(path);
    c.check(object != nullptr, "no debug information in " + path);
    auto code_ranges = code_of(path);
    auto is_code = [&] (u64 a) { for(auto& r : code_ranges) if(a >= r.first && a < r.second) return true; return false; };
    std::vector<u64> points;
    for(auto& u : object->units) for(auto& r : u->rows) if(is_code(r.addr)) points.push_back(r.addr);
    c.check(!points.empty(), "no rows for the code");
    std::vector<u64> pcs;
    for(u64 k = 60 + c.below(200); k; k--) {
        u64 a = c.pick(points) + c.pick({u64(0), u64(1), u64(2), u64(5), ~u64(0)});
        if(is_code(a)) pcs.push_back(a);
    }
    if(std::getenv("VT_KEEP")) (void)!std::system(("rm -rf -- /tmp/q/keep; cp -r " + quote_sh(dir) + " /tmp/q/keep").c_str());
    Model model(object);
    fake::loader = load;
    fake::problems.clear();
    cpptrace::set_log_level(cpptrace::log_level::warning);
    cpptrace::set_log_callback([&c] (cpptrace::log_level, const char* m) { c.note("log: ").line(std::string(m).substr(0, 400)); });
    std::size_t chains = 0, known = 0;
    static const cpptrace::cache_mode mode_values[] = {cpptrace::cache_mode::prioritize_memory, cpptrace::cache_mode::hybrid, cpptrace::cache_mode::prioritize_speed};
    std::size_t at = 0;
    while(at < pcs.size()) {
        std::size_t m = std::min(pcs.size() - at, std::size_t(1 + c.below(60)));
        int mode = int(c.below(3));
        cpptrace::experimental::set_cache_mode(mode_values[mode]);
        cpptrace::experimental::set_dwarf_resolver_disable_aranges(c.flip());
        cpptrace::object_trace trace;
        for(std::size_t k = 0; k < m; k++) trace.frames.push_back({pcs[at + k], pcs[at + k], path});
        auto r = trace.resolve();
        std::size_t q = 0;
        for(std::size_t k = 0; k < m; k++) {
            std::vector<cpptrace::stacktrace_frame> got;
            while(q < r.frames.size()) { got.push_back(r.frames[q++]); if(!got.back().is_inline) break; }
            std::vector<Frame> w;
            c.check(!got.empty() && got.back().raw_address == pcs[at + k] && got.back().object_address == pcs[at + k], "a frame is missing or has another address");
            if(!model.expect(pcs[at + k], w)) continue;
            known++;
            if(w.size() > 1) chains++;
            if(agree(got, w, true)) continue;
            auto other = symbolizer(dir, pcs[at + k]);
            if(agree(got, other, false)) { c.event("only llvm-symbolizer agrees"); if(!std::getenv("VT_STRICT")) continue; }
            std::ostringstream show;
            show << std::hex << "0x" << pcs[at + k] << std::dec << " mode " << mode << "\n got\n";
            for(auto& g : got) { show << "  " << g.symbol << " " << g.filename << ":"; if(g.line.has_value()) show << g.line.value(); show << ":"; if(g.column.has_value()) show << g.column.value(); show << "\n"; }
            for(auto* v : {&w, &other}) {
                show << (v == &w ? " expected\n" : " llvm-symbolizer\n");
                for(auto& g : *v) show << "  " << shown(g.symbol) << " " << g.file << ":" << g.line << ":" << g.col << "\n";
            }
            c.fail(show.str());
        }
        c.eq(q, r.frames.size(), "number of frames");
        at += m;
    }
    fake::loader = nullptr;
    cpptrace::set_log_level(cpptrace::log_level::error);
    cpptrace::set_log_callback([] (cpptrace::log_level, const char*) {});
    loaded.clear();
    cpptrace::experimental::set_cache_mode(cpptrace::cache_mode::prioritize_speed);
    cpptrace::experimental::set_dwarf_resolver_disable_aranges(false);
    c.check(fake::problems.empty(), "misuse of the debug information library: " + fake::problems);
    if(known * 2 < pcs.size()) c.event("less than half can be told");
    c.nontrivial(chains >= 5);
    clean();
}
}
