// Reads the debug information of linked ELF files (64 bit, little endian) and of split units' files into the stand-in's trees
#include "fakedwarf.hpp"
#include <cstdio>
#include <stdexcept>
#include <elf.h>
#include <zlib.h>

namespace fake {
namespace {
using u8 = unsigned char;
struct Rd {
    const u8* p; const u8* end; const u8* begin;
    explicit Rd(const std::string& s, u64 at = 0) : p(reinterpret_cast<const u8*>(s.data())), end(p + s.size()), begin(p) { if(at > s.size()) throw std::runtime_error("offset"); p += at; }
    u64 pos() const { return u64(p - begin); }
    u64 n(unsigned k) { if(u64(end - p) < k) throw std::runtime_error("short"); u64 v = 0; for(unsigned i = 0; i < k; i++) v |= u64(p[i]) << (8 * i); p += k; return v; }
    u64 uleb() { u64 v = 0; unsigned s = 0; u8 b; do { b = u8(n(1)); if(s < 64) v |= u64(b & 0x7f) << s; s += 7; } while(b & 0x80); return v; }
    long long sleb() { u64 v = 0; unsigned s = 0; u8 b; do { b = u8(n(1)); if(s < 64) v |= u64(b & 0x7f) << s; s += 7; } while(b & 0x80); if((b & 0x40) && s < 64) v |= ~0ull << s; return (long long)v; }
    std::string str() { auto* q = static_cast<const u8*>(std::memchr(p, 0, std::size_t(end - p))); if(!q) throw std::runtime_error("string"); std::string r(reinterpret_cast<const char*>(p), std::size_t(q - p)); p = q + 1; return r; }
    void skip(u64 k) { if(u64(end - p) < k) throw std::runtime_error("short"); p += k; }
};
struct Sections {
    std::map<std::string, std::string> m;
    const std::string& operator[](const std::string& n) { return m[n]; }
};
bool read_sections(const std::string& path, Sections& out) {
    std::string f;
    FILE* h = std::fopen(path.c_str(), "rb");
    if(!h) return false;
    char b[65536];
    for(std::size_t k; (k = std::fread(b, 1, sizeof b, h)) > 0;) f.append(b, k);
    std::fclose(h);
    if(f.size() < sizeof(Elf64_Ehdr) || std::memcmp(f.data(), "\177ELF\2\1", 6) != 0) return false;
    Elf64_Ehdr e;
    std::memcpy(&e, f.data(), sizeof e);
    std::vector<Elf64_Shdr> sh(e.e_shnum);
    if(e.e_shoff + sizeof(Elf64_Shdr) * sh.size() > f.size()) return false;
    std::memcpy(sh.data(), f.data() + e.e_shoff, sizeof(Elf64_Shdr) * sh.size());
    if(e.e_shstrndx >= sh.size()) return false;
    for(auto& s : sh) {
        if(s.sh_type == SHT_NOBITS) continue;
        std::string name = f.c_str() + sh[e.e_shstrndx].sh_offset + s.sh_name, d = f.substr(s.sh_offset, s.sh_size);
        if((s.sh_flags & SHF_COMPRESSED) && d.size() > sizeof(Elf64_Chdr)) {
            Elf64_Chdr c;
            std::memcpy(&c, d.data(), sizeof c);
            if(c.ch_type != ELFCOMPRESS_ZLIB) continue;
            std::string r(c.ch_size, 0);
            uLongf n = c.ch_size;
            if(uncompress(reinterpret_cast<Bytef*>(&r[0]), &n, reinterpret_cast<const Bytef*>(d.data() + sizeof c), d.size() - sizeof c) != Z_OK) continue;
            d = r;
        }
        out.m[name] = d;
    }
    return true;
}
struct AbbrevAttr { unsigned at, form; long long value; };
struct Abbrev { unsigned tag; bool kids; std::vector<AbbrevAttr> attrs; };
using Abbrevs = std::map<u64, Abbrev>;
struct Loader {
    Sections s;
    std::shared_ptr<Object> o = std::make_shared<Object>();
    bool dwo = false;
    std::map<u64, Abbrevs> abbrevs;
    struct Pending { Die* d; std::size_t k; u64 target; bool types; };
    std::vector<Pending> pending;
    struct U { Unit* u; unsigned os; u64 str_base = 0, addr_base = 0, rng_base = 0; std::string comp_dir; u64 type_offset = 0; };
    std::string sec(const std::string& n) { return dwo ? n + ".dwo" : n; }
    const Abbrevs& abbrev(u64 off) {
        auto it = abbrevs.find(off);
        if(it != abbrevs.end()) return it->second;
        auto& t = abbrevs[off];
        Rd r(s[sec(".debug_abbrev")], off);
        while(u64 code = r.uleb()) {
            Abbrev a;
            a.tag = unsigned(r.uleb()); a.kids = r.n(1);
            for(;;) {
                unsigned at = unsigned(r.uleb()), form = unsigned(r.uleb());
                long long v = form == DW_FORM_implicit_const ? r.sleb() : 0;
                if(!at && !form) break;
                a.attrs.push_back({at, form, v});
            }
            t[code] = a;
        }
        return t;
    }
    std::string at(const std::string& section, u64 off) { Rd r(s[section], off); return r.str(); }
    // where strings are needed the bases have to be known already
    Attr value(Rd& r, U& x, const AbbrevAttr& aa, bool strings) {
        Unit& u = *x.u;
        Attr a{u16(aa.at), u16(aa.form), 0, {}, nullptr, {}, false};
        unsigned form = aa.form;
        if(form == DW_FORM_indirect) { form = unsigned(r.uleb()); a.form = u16(form); }
        auto index = [&] (u64 k) {
            a.u = k;
            if(!strings) return;
            Rd t(s[sec(".debug_str_offsets")], x.str_base + k * x.os);
            a.s = at(sec(".debug_str"), t.n(x.os));
        };
        switch(form) {
            case DW_FORM_addr: a.u = r.n(8); break;
            case DW_FORM_data1: case DW_FORM_flag: a.u = r.n(1); break;
            case DW_FORM_data2: a.u = r.n(2); break;
            case DW_FORM_data4: a.u = r.n(4); break;
            case DW_FORM_data8: a.u = r.n(8); break;
            case DW_FORM_data16: r.skip(16); break;
            case DW_FORM_udata: case DW_FORM_rnglistx: case DW_FORM_loclistx: a.u = r.uleb(); break;
            case DW_FORM_sdata: a.u = u64(r.sleb()); break;
            case DW_FORM_implicit_const: a.u = u64(aa.value); break;
            case DW_FORM_flag_present: a.u = 1; break;
            case DW_FORM_sec_offset: a.u = r.n(x.os); break;
            case DW_FORM_block1: r.skip(r.n(1)); break;
            case DW_FORM_block2: r.skip(r.n(2)); break;
            case DW_FORM_block4: r.skip(r.n(4)); break;
            case DW_FORM_block: case DW_FORM_exprloc: r.skip(r.uleb()); break;
            case DW_FORM_string: a.s = r.str(); break;
            case DW_FORM_strp: { u64 k = r.n(x.os); if(strings) a.s = at(sec(".debug_str"), k); break; }
            case DW_FORM_line_strp: { u64 k = r.n(x.os); if(strings) a.s = at(".debug_line_str", k); break; }
            case DW_FORM_strx: case DW_FORM_GNU_str_index: index(r.uleb()); break;
            case DW_FORM_strx1: index(r.n(1)); break;
            case DW_FORM_strx2: index(r.n(2)); break;
            case DW_FORM_strx3: index(r.n(3)); break;
            case DW_FORM_strx4: index(r.n(4)); break;
            case DW_FORM_addrx: case DW_FORM_GNU_addr_index: a.u = r.uleb(); a.indexed = true; break;
            case DW_FORM_addrx1: a.u = r.n(1); a.indexed = true; break;
            case DW_FORM_addrx2: a.u = r.n(2); a.indexed = true; break;
            case DW_FORM_addrx3: a.u = r.n(3); a.indexed = true; break;
            case DW_FORM_addrx4: a.u = r.n(4); a.indexed = true; break;
            case DW_FORM_ref1: a.u = u.off + r.n(1); break;
            case DW_FORM_ref2: a.u = u.off + r.n(2); break;
            case DW_FORM_ref4: a.u = u.off + r.n(4); break;
            case DW_FORM_ref8: a.u = u.off + r.n(8); break;
            case DW_FORM_ref_udata: a.u = u.off + r.uleb(); break;
            case DW_FORM_ref_addr: a.u = r.n(u.version <= 2 ? 8 : x.os); break;
            case DW_FORM_ref_sig8: for(auto& c : a.sig) c = char(r.n(1)); break;
            case DW_FORM_ref_sup4: r.skip(4); break;
            case DW_FORM_ref_sup8: r.skip(8); break;
            case DW_FORM_strp_sup: case DW_FORM_GNU_strp_alt: case DW_FORM_GNU_ref_alt: r.skip(x.os); break;
            default: throw std::runtime_error("form");
        }
        return a;
    }
    static bool is_ref(unsigned f) { return (f >= DW_FORM_ref_addr && f <= DW_FORM_ref_udata); }
    void entry(Rd& r, U& x, const Abbrev& ab, Die& d) {
        for(auto& aa : ab.attrs) {
            d.attrs.push_back(value(r, x, aa, true));
            auto& a = d.attrs.back();
            if(is_ref(a.form)) pending.push_back({&d, d.attrs.size() - 1, a.u, x.u->types && a.form != DW_FORM_ref_addr});
        }
    }
    void unit(Rd& r, bool types) {
        o->units.emplace_back(new Unit);
        U x{o->units.back().get(), 4};
        Unit& u = *x.u;
        u.object = o.get(); u.off = r.pos(); u.types = types;
        u64 len = r.n(4);
        if(len == 0xffffffff) { x.os = 8; len = r.n(8); }
        const u8* end = r.p + len;
        if(end > r.end) throw std::runtime_error("unit");
        u.end = u64(end - r.begin);
        u.version = unsigned(r.n(2));
        u64 ab;
        if(u.version >= 5) {
            u.kind = unsigned(r.n(1)); r.n(1); ab = r.n(x.os);
            if(u.kind == DW_UT_skeleton || u.kind == DW_UT_split_compile) u.dwo_id = r.n(8);
        } else { ab = r.n(x.os); r.n(1); u.kind = types ? DW_UT_type : DW_UT_compile; }
        if(types || u.kind == DW_UT_type || u.kind == DW_UT_split_type) { for(auto& c : u.sig) c = char(r.n(1)); x.type_offset = u.off + r.n(x.os); }
        auto& t = abbrev(ab);
        bool v5 = u.version >= 5;
        if(dwo && v5) { x.str_base = x.os == 8 ? 16 : 8; x.rng_base = x.os == 8 ? 20 : 12; }
        { // the bases
            Rd q = r;
            auto& a = t.at(q.uleb());
            for(auto& aa : a.attrs) {
                Attr v = value(q, x, aa, false);
                if(aa.at == DW_AT_str_offsets_base) x.str_base = v.u;
                else if(aa.at == DW_AT_addr_base || aa.at == DW_AT_GNU_addr_base) x.addr_base = v.u;
                else if(aa.at == DW_AT_rnglists_base) x.rng_base = v.u;
                else if(aa.at == DW_AT_GNU_ranges_base) u.ranges_base = v.u;
                else if(aa.at == DW_AT_GNU_dwo_id) u.dwo_id = v.u;
            }
        }
        if(!dwo) { // the rest of the section, more than the unit's own part
            auto& d = s[".debug_addr"];
            for(u64 k = x.addr_base; k + 8 <= d.size(); k += 8) u.addresses.push_back(Rd(d, k).n(8));
        }
        std::vector<Die*> stack;
        bool first = true;
        while(r.p < end) {
            u64 off = r.pos(), code = r.uleb();
            if(code == 0) { if(stack.empty()) break; stack.pop_back(); if(stack.empty()) break; continue; }
            auto it = t.find(code);
            if(it == t.end()) throw std::runtime_error("abbreviation");
            if(!first && stack.empty()) throw std::runtime_error("entry after the root");
            Die& d = first ? u.root : stack.back()->kid(u16(it->second.tag));
            d.tag = u16(it->second.tag); d.unit = &u; d.off = off;
            (types ? o->by_offset_types : o->by_offset)[off] = &d;
            entry(r, x, it->second, d);
            if(it->second.kids) stack.push_back(&d);
            else if(first) break;
            first = false;
        }
        r.p = end;
        if(x.type_offset) { auto& m = types ? o->by_offset_types : o->by_offset; auto k = m.find(x.type_offset); if(k != m.end()) u.sig_die = k->second; }
        if(auto* a = u.root.get(DW_AT_comp_dir)) x.comp_dir = a->s;
        lists(x);
        u.has_lines = false;
        if(!dwo) if(auto* a = u.root.get(DW_AT_stmt_list)) lines(x, a->u, u.root.get(DW_AT_name) ? u.root.get(DW_AT_name)->s : "");
    }
    // range lists the unit's entries refer to
    void lists(U& x) {
        Unit& u = *x.u;
        if(u.version >= 5) {
            auto& d = s[sec(".debug_rnglists")];
            if(d.size() > 12 && x.rng_base >= 4) { // the number of lists is right before the offsets
                u64 n = Rd(d, x.rng_base - 4).n(4);
                for(u64 k = 0; k < n; k++) u.rnglists.push_back(list5(d, x.rng_base + Rd(d, x.rng_base + k * x.os).n(x.os)));
            }
        }
        walk(u.root, [&] (Die& e) {
            auto* a = e.get(DW_AT_ranges);
            if(!a || a->form == DW_FORM_rnglistx) return;
            if(u.version >= 5) o->rnglists[a->u] = list5(s[sec(".debug_rnglists")], a->u);
        });
    }
    template<typename F> static void walk(Die& d, const F& f) { f(d); for(auto& k : d.kids) walk(*k, f); }
    static std::vector<Range5> list5(const std::string& d, u64 off) {
        std::vector<Range5> v;
        for(Rd r(d, off);;) {
            Range5 x = range5(unsigned(r.n(1)), 0, 0, false);
            x.raw = true;
            switch(x.rle) {
                case DW_RLE_end_of_list: x.b = ~0ull; break;
                case DW_RLE_base_addressx: x.a = r.uleb(); break;
                case DW_RLE_startx_endx: case DW_RLE_startx_length: case DW_RLE_offset_pair: x.a = r.uleb(); x.b = r.uleb(); break;
                case DW_RLE_base_address: x.a = r.n(8); break;
                case DW_RLE_start_end: x.a = r.n(8); x.b = r.n(8); break;
                case DW_RLE_start_length: x.a = r.n(8); x.b = r.uleb(); break;
                default: throw std::runtime_error("range list");
            }
            v.push_back(x);
            if(x.rle == DW_RLE_end_of_list) return v;
        }
    }
    void lines(U x, u64 off, const std::string& name) {
        Unit& u = *x.u;
        x.os = 4; // the table's own
        Rd r(s[".debug_line"], off);
        u64 len = r.n(4);
        if(len == 0xffffffff) { x.os = 8; len = r.n(8); }
        const u8* end = r.p + len;
        if(end > r.end) throw std::runtime_error("lines");
        unsigned version = u.line_version = unsigned(r.n(2));
        if(version >= 5) { r.n(1); r.n(1); }
        u64 hl = r.n(x.os);
        const u8* program = r.p + hl;
        unsigned min_len = unsigned(r.n(1));
        if(version >= 4) r.n(1);
        bool is_stmt = r.n(1); (void)is_stmt;
        int line_base = int(static_cast<signed char>(r.n(1)));
        unsigned line_range = unsigned(r.n(1)), opcode_base = unsigned(r.n(1));
        std::vector<unsigned> args(opcode_base);
        for(unsigned k = 1; k < opcode_base; k++) args[k] = unsigned(r.n(1));
        std::vector<std::string> dirs;
        std::vector<std::pair<std::string, u64>> files;
        if(version >= 5) {
            for(int what = 0; what < 2; what++) {
                std::vector<std::pair<unsigned, unsigned>> f;
                for(u64 n = r.n(1); n; n--) { unsigned a = unsigned(r.uleb()), b = unsigned(r.uleb()); f.push_back({a, b}); }
                for(u64 n = r.uleb(); n; n--) {
                    std::string path; u64 dir = 0;
                    for(auto& c : f) {
                        Attr v = value(r, x, {0, c.second, 0}, true);
                        if(c.first == 1) path = v.s; else if(c.first == 2) dir = v.u;
                    }
                    if(what == 0) dirs.push_back(path); else files.push_back({path, dir});
                }
            }
        } else {
            dirs.push_back(x.comp_dir);
            for(std::string d; !(d = r.str()).empty();) dirs.push_back(d);
            for(std::string f; !(f = r.str()).empty();) { u64 d = r.uleb(); r.uleb(); r.uleb(); files.push_back({f, d}); }
        }
        auto shown = [&] (const std::pair<std::string, u64>& f) {
            if(!f.first.empty() && f.first[0] == '/') return f.first;
            std::string d = f.second < dirs.size() ? dirs[f.second] : "";
            if(d.empty() || d[0] != '/') d = d.empty() || f.second == 0 ? x.comp_dir : x.comp_dir + "/" + d;
            return d + "/" + f.first;
        };
        for(auto& f : files) u.files.push_back(shown(f));
        (void)name;
        r.p = program;
        u64 addr, line, col, file;
        auto reset = [&] { addr = 0; line = 1; col = 0; file = 1; };
        auto row = [&] (bool e) {
            u64 k = version >= 5 ? file : file - 1;
            u.rows.push_back({addr, line, col, k < u.files.size() ? u.files[k] : "", e});
        };
        reset();
        while(r.p < end) {
            unsigned op = unsigned(r.n(1));
            if(op >= opcode_base) { unsigned k = op - opcode_base; addr += u64(k / line_range) * min_len; line += u64(line_base + int(k % line_range)); row(false); continue; }
            switch(op) {
                case 0: {
                    u64 n = r.uleb(); const u8* next = r.p + n;
                    if(n == 0) break;
                    unsigned sub = unsigned(r.n(1));
                    if(sub == 1) { row(true); reset(); }
                    else if(sub == 2) addr = r.n(unsigned(n - 1));
                    else if(sub == 3) { std::string f = r.str(); u64 d = r.uleb(); u.files.push_back(shown({f, d})); }
                    r.p = next;
                    break;
                }
                case 1: row(false); break;
                case 2: addr += r.uleb() * min_len; break;
                case 3: line += u64(r.sleb()); break;
                case 4: file = r.uleb(); break;
                case 5: col = r.uleb(); break;
                case 8: addr += u64((255 - opcode_base) / line_range) * min_len; break;
                case 9: addr += r.n(2); break;
                default: for(unsigned k = op < args.size() ? args[op] : 0; k; k--) r.uleb();
                    break;
                case 6: case 7: case 10: case 11: break;
            }
        }
        u.has_lines = true;
    }
    bool load(const std::string& path) {
        if(!read_sections(path, s)) return false;
        if(s[".debug_info"].empty()) { if(s[".debug_info.dwo"].empty()) return false; dwo = true; }
        o->split = dwo;
        if(!dwo) o->ranges_section = s[".debug_ranges"];
        for(int types = 0; types < 2; types++) {
            const std::string& d = s[sec(types ? ".debug_types" : ".debug_info")];
            for(Rd r(d); r.p < r.end;) unit(r, types);
        }
        for(auto& p : pending) {
            auto& m = p.types ? o->by_offset_types : o->by_offset;
            auto it = m.find(p.target);
            if(it != m.end()) p.d->attrs[p.k].ref = it->second;
        }
        const std::string& ar = s[".debug_aranges"];
        if(!ar.empty()) {
            o->has_aranges = true;
            for(Rd r(ar); r.p < r.end;) {
                u64 at = r.pos(), len = r.n(4); unsigned os = 4;
                if(len == 0xffffffff) { os = 8; len = r.n(8); }
                const u8* end = r.p + len;
                r.n(2);
                u64 info = r.n(os);
                r.n(1); r.n(1);
                while((r.pos() - at) % 16) r.n(1);
                Unit* u = nullptr;
                for(auto& x : o->units) if(!x->types && x->off == info) u = x.get();
                while(r.p < end) { u64 a = r.n(8), n = r.n(8); if(!a && !n) break; if(u && n) o->aranges.push_back({a, n, u}); }
                r.p = end;
            }
        }
        return true;
    }
};
}
std::shared_ptr<Object> load_elf(const std::string& path) {
    Loader l;
    try { return l.load(path) ? l.o : nullptr; } catch(const std::exception& e) { std::fprintf(stderr, "cannot read %s: %s\n", path.c_str(), e.what()); return nullptr; }
}
}
