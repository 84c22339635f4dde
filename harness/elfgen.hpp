// Writes ELF images from a description, in either word size and byte order.
#pragma once
#include "vt.hpp"
#include <algorithm>
#include <cstdint>
#include <elf.h>
#include <map>
#include <string>
#include <vector>

namespace eg {
using vt::Case;
struct Sym { std::string name; std::uint64_t value = 0, size = 0; std::uint16_t shndx = 1; unsigned char info = 2; };
struct Table { bool present = false; std::vector<Sym> syms; bool linked = true; bool shares_strings = false; };
struct Text { std::string name; std::uint64_t addr, size; };
struct Image {
    bool is64 = true, little = true;
    bool has_phdr = false;        // PT_PHDR entry
    std::vector<std::pair<std::uint64_t, std::uint64_t>> loads; // vaddr, offset of PT_LOAD entries, in ascending order
    unsigned notes = 0;           // other program headers before them
    std::vector<Text> texts;
    Table symtab, dynsym;
    unsigned phpad = 0, shpad = 0; // e_*entsize beyond the structure
    bool tables_first = false;     // section header table before the section contents
    bool big_gap = false;
    std::vector<unsigned> order;   // permutation seed of the sections
    std::uint64_t base = 0;
};
// where things ended up, for structure-aware damage
struct Field { std::size_t off; unsigned width; const char* what; };

struct Writer {
    const Image& im;
    std::string out;
    std::vector<Field> fields;
    explicit Writer(const Image& i) : im(i) {}
    void put(std::size_t off, std::uint64_t v, unsigned w, const char* what = nullptr) {
        if(out.size() < off + w) out.resize(off + w);
        for(unsigned i = 0; i < w; i++) out[off + (im.little ? i : w - 1 - i)] = char(v >> (8 * i));
        if(what) fields.push_back({off, w, what});
    }
    unsigned wd() const { return im.is64 ? 8 : 4; }
    struct Sec { std::string name; std::uint32_t type = 0, link = 0; std::uint64_t addr = 0, size = 0, entsize = 0, offset = 0; std::string data; bool nobits = false; unsigned namepos = 0; };
    std::string strings(const std::vector<Sym>& v, std::map<std::string, unsigned>& pos, std::string tab, Case* c) {
        if(tab.empty()) tab.push_back('\0');
        for(auto& s : v) {
            if(pos.count(s.name)) continue;
            auto p = tab.find(s.name + std::string(1, '\0')); // share tails
            if(p == std::string::npos) { p = tab.size(); tab += s.name; tab.push_back('\0'); }
            pos[s.name] = unsigned(p);
        }
        return tab;
    }
    std::string write() {
        unsigned eh = im.is64 ? 64 : 52, ph = (im.is64 ? 56 : 32), she = im.is64 ? 64 : 40, se = im.is64 ? 24 : 16;
        std::vector<Sec> secs(1);
        for(auto& t : im.texts) { Sec s; s.name = t.name; s.type = SHT_PROGBITS; s.addr = t.addr; s.size = t.size; s.nobits = true; secs.push_back(s); }
        std::map<std::string, unsigned> dynpos, sympos;
        std::string dynstr, strtab;
        if(im.dynsym.present) dynstr = strings(im.dynsym.syms, dynpos, "", nullptr);
        bool share = im.symtab.present && im.symtab.shares_strings && im.dynsym.present;
        if(share) dynstr = strings(im.symtab.syms, sympos, dynstr, nullptr);
        else if(im.symtab.present) strtab = strings(im.symtab.syms, sympos, "", nullptr);
        auto add = [&](const std::string& n, std::uint32_t type, const std::string& d, std::uint64_t ent) { Sec s; s.name = n; s.type = type; s.data = d; s.size = d.size(); s.entsize = ent; secs.push_back(s); };
        auto table = [&](const Table& t, std::map<std::string, unsigned>& pos) {
            Writer w(im);
            for(std::size_t i = 0; i < t.syms.size(); i++) {
                auto& s = t.syms[i];
                std::size_t o = i * se;
                w.put(o, pos[s.name], 4);
                if(im.is64) { w.put(o + 4, s.info, 1); w.put(o + 5, 0, 1); w.put(o + 6, s.shndx, 2); w.put(o + 8, s.value, 8); w.put(o + 16, s.size, 8); }
                else { w.put(o + 4, s.value, 4); w.put(o + 8, s.size, 4); w.put(o + 12, s.info, 1); w.put(o + 13, 0, 1); w.put(o + 14, s.shndx, 2); }
            }
            return w.out;
        };
        if(im.dynsym.present) { add(".dynsym", SHT_DYNSYM, table(im.dynsym, dynpos), se); add(".dynstr", SHT_STRTAB, dynstr, 0); }
        if(im.symtab.present) { add(".symtab", SHT_SYMTAB, table(im.symtab, sympos), se); if(!share) add(".strtab", SHT_STRTAB, strtab, 0); }
        add(".shstrtab", SHT_STRTAB, "", 0);
        // permute (the null section stays first)
        for(std::size_t i = 0; i < im.order.size() && secs.size() > 2; i++) std::swap(secs[1 + i % (secs.size() - 1)], secs[1 + im.order[i] % (secs.size() - 1)]);
        auto find = [&](const std::string& n) { for(unsigned i = 0; i < secs.size(); i++) if(secs[i].name == n && secs[i].type != SHT_PROGBITS) return i; return 0u; };
        if(im.dynsym.present) secs[find(".dynsym")].link = im.dynsym.linked ? find(".dynstr") : 0;
        if(im.symtab.present) secs[find(".symtab")].link = im.symtab.linked ? find(share ? ".dynstr" : ".strtab") : 0;
        std::string shstr(1, '\0');
        for(auto& s : secs) if(!s.name.empty()) {
            auto p = shstr.find(s.name + std::string(1, '\0'));
            if(p == std::string::npos) { p = shstr.size(); shstr += s.name; shstr.push_back('\0'); }
            s.namepos = unsigned(p);
        }
        auto& ss = secs[find(".shstrtab")];
        ss.data = shstr; ss.size = shstr.size();
        unsigned phn = im.notes + (im.has_phdr ? 1 : 0) + unsigned(im.loads.size());
        std::size_t pos = eh, phoff = phn ? pos : 0;
        pos += phn * (ph + im.phpad);
        std::size_t shoff = 0;
        if(im.tables_first) { shoff = pos; pos += secs.size() * (she + im.shpad); }
        for(auto& s : secs) if(!s.nobits && s.type) { s.offset = pos; pos += s.data.size() + (im.big_gap ? 37 : 0); }
        if(!im.tables_first) { shoff = pos; }
        // header
        const unsigned char id[16] = {0x7f, 'E', 'L', 'F', (unsigned char)(im.is64 ? 2 : 1), (unsigned char)(im.little ? 1 : 2), 1};
        for(unsigned i = 0; i < 16; i++) put(i, id[i], 1, "e_ident");
        put(16, ET_DYN, 2); put(18, im.is64 ? 62 : 3, 2); put(20, 1, 4);
        put(24, 0, wd());
        put(24 + wd(), phoff, wd(), "e_phoff");
        put(24 + 2 * wd(), shoff, wd(), "e_shoff");
        std::size_t o = 24 + 3 * wd();
        put(o, 0, 4); put(o + 4, eh, 2, "e_ehsize"); put(o + 6, ph + im.phpad, 2, "e_phentsize"); put(o + 8, phn, 2, "e_phnum");
        put(o + 10, she + im.shpad, 2, "e_shentsize"); put(o + 12, secs.size(), 2, "e_shnum"); put(o + 14, find(".shstrtab"), 2, "e_shstrndx");
        std::size_t p = phoff;
        auto phdr = [&](std::uint32_t type, std::uint64_t off, std::uint64_t va, std::uint64_t sz) {
            put(p, type, 4, "p_type");
            if(im.is64) { put(p + 4, 5, 4); put(p + 8, off, 8, "p_offset"); put(p + 16, va, 8, "p_vaddr"); put(p + 24, va, 8); put(p + 32, sz, 8); put(p + 40, sz, 8); put(p + 48, 0x1000, 8); }
            else { put(p + 4, off, 4, "p_offset"); put(p + 8, va, 4, "p_vaddr"); put(p + 12, va, 4); put(p + 16, sz, 4); put(p + 20, sz, 4); put(p + 24, 5, 4); put(p + 28, 0x1000, 4); }
            p += ph;
            if(im.phpad) { put(p + im.phpad - 1, 0x5a, 1); p += im.phpad; }
        };
        if(im.has_phdr) phdr(PT_PHDR, phoff, im.base + phoff, phn * ph);
        for(unsigned i = 0; i < im.notes; i++) phdr(i % 2 ? PT_NOTE : PT_GNU_STACK, 0x1234, 0x987654, 16);
        for(auto& l : im.loads) phdr(PT_LOAD, l.second, l.first, 0x1000);
        for(std::size_t i = 0; i < secs.size(); i++) {
            auto& s = secs[i];
            std::size_t q = shoff + i * (she + im.shpad);
            put(q, s.namepos, 4, "sh_name"); put(q + 4, s.type, 4, "sh_type");
            put(q + 8, 0, wd());
            put(q + 8 + wd(), s.addr, wd(), "sh_addr"); put(q + 8 + 2 * wd(), s.offset, wd(), "sh_offset"); put(q + 8 + 3 * wd(), s.size, wd(), "sh_size");
            std::size_t r = q + 8 + 4 * wd();
            put(r, s.link, 4, "sh_link"); put(r + 4, 0, 4); put(r + 8, 1, wd()); put(r + 8 + wd(), s.entsize, wd(), "sh_entsize");
            if(im.shpad) put(q + she + im.shpad - 1, 0x5a, 1);
        }
        for(auto& s : secs) if(!s.nobits && s.type) {
            if(out.size() < s.offset + s.data.size()) out.resize(s.offset + s.data.size());
            out.replace(s.offset, s.data.size(), s.data);
            if(s.type == SHT_SYMTAB || s.type == SHT_DYNSYM)
                for(std::size_t i = 0; i < s.data.size() / se; i++) {
                    fields.push_back({s.offset + i * se, 4, "st_name"});
                    if(im.is64) { fields.push_back({s.offset + i * se + 8, 8, "st_value"}); fields.push_back({s.offset + i * se + 16, 8, "st_size"}); }
                    else { fields.push_back({s.offset + i * se + 4, 4, "st_value"}); fields.push_back({s.offset + i * se + 8, 4, "st_size"}); }
                }
        }
        return out;
    }
};

// non-overlapping extents (aliases allowed) in [lo, ...)
inline std::vector<Sym> draw_syms(Case& c, std::uint64_t lo, std::uint64_t limit, const char* prefix) {
    std::vector<Sym> v;
    std::size_t n = c.size(40);
    std::uint64_t at = lo + c.below(64);
    for(std::size_t i = 0; i < n; i++) {
        Sym s;
        s.name = c.chance(1, 16) ? "" : std::string(prefix) + (c.chance(1, 10) ? c.str_of("ab_Z", 300) : c.str_of("abcZ_019", 12));
        s.info = c.chance(1, 5) ? 1 : 2;
        s.shndx = c.chance(1, 8) ? c.pick({std::uint16_t(0xfff1), std::uint16_t(0xfff2), std::uint16_t(0xffff), std::uint16_t(0), std::uint16_t(0xff00), std::uint16_t(0xfeff)}) : std::uint16_t(1 + c.below(3));
        if(c.chance(1, 10)) s.info = (unsigned char)c.below(256);
        if(c.chance(1, 8) && !v.empty() && v.back().size) { auto p = v.back(); s.value = p.value; s.size = p.size; v.push_back(s); continue; } // alias
        s.value = at;
        s.size = c.chance(1, 6) ? 0 : c.chance(1, 12) ? 1 + c.below(1u << 20) : 1 + c.below(40);
        if(s.value + s.size > limit) break;
        at += s.size + (c.flip() ? 0 : c.below(20));
        if(c.chance(1, 20)) at += c.below(1u << 24);
        v.push_back(s);
    }
    if(c.chance(1, 30) && at + 10 < limit) { Sym s; s.name = "last"; s.value = limit - 9; s.size = 9; v.push_back(s); } // ends at the top of the address space
    // any order
    if(c.chance(3, 4)) for(std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]);
    return v;
}

inline Image draw_image(Case& c, std::uint64_t text_at = 0, std::uint64_t text_room = 0) {
    Image im;
    im.is64 = !c.chance(1, 3);
    im.little = !c.chance(1, 3);
    std::uint64_t limit = im.is64 ? ~0ull : 0xffffffffull;
    im.base = c.chance(1, 2) ? 0 : c.chance(1, 2) ? 0x400000 : (c.below(limit >> 16) << 12);
    im.has_phdr = c.flip();
    im.notes = unsigned(c.below(4));
    std::size_t loads = im.has_phdr ? 1 + c.below(3) : c.below(4);
    // the first segment may start anywhere in the file
    std::uint64_t first = c.chance(1, 2) ? 0 : c.pick({std::uint64_t(0x1000), std::uint64_t(0x40), std::uint64_t(0x123000), std::uint64_t(c.below(1u << 20))});
    if(im.base + first > limit - 0x10000) first = 0;
    for(std::size_t i = 0; i < loads; i++) im.loads.push_back({im.base + first + i * 0x3000, first + (i ? i * 0x1000 : 0)});
    if(text_room) { // ranges inside a given window
        std::uint64_t at = text_at;
        std::size_t n = 1 + c.below(3);
        for(std::size_t i = 0; i < n && at < text_at + text_room; i++) {
            std::uint64_t sz = std::min<std::uint64_t>(c.below(text_room / 2 + 1), text_at + text_room - at);
            im.texts.push_back({c.chance(1, 4) ? c.pick({std::string(".text.hot"), std::string(".textual"), std::string("text"), std::string(".data")}) : ".text", at, sz});
            at += sz + c.below(16);
        }
    } else {
        std::size_t n = c.below(4);
        for(std::size_t i = 0; i < n; i++)
            im.texts.push_back({c.chance(1, 2) ? ".text" : c.pick({std::string(".text.hot"), std::string(".textual"), std::string(".tex"), std::string("text"), std::string(".data"), std::string(".plt")}), im.base + 0x1000 + c.below(1u << 20), c.below(1u << 16)});
    }
    std::uint64_t lo = text_room ? text_at : im.base + (c.flip() ? 0x1000 : 0);
    if(lo >= limit) lo = 0;
    im.symtab.present = c.chance(5, 6);
    im.dynsym.present = c.flip();
    if(im.symtab.present) im.symtab.syms = draw_syms(c, lo, limit, "s");
    if(im.dynsym.present) im.dynsym.syms = draw_syms(c, lo, limit, "d");
    im.symtab.linked = !c.chance(1, 12);
    im.dynsym.linked = !c.chance(1, 12);
    im.symtab.shares_strings = c.chance(1, 6);
    if(c.chance(1, 5)) im.phpad = unsigned(1 + c.below(24));
    if(c.chance(1, 5)) im.shpad = unsigned(1 + c.below(24));
    im.tables_first = c.flip();
    im.big_gap = c.flip();
    for(std::size_t i = 0, n = c.below(8); i < n; i++) im.order.push_back(unsigned(c.below(100)));
    return im;
}
inline std::string describe(const Image& im) {
    std::ostringstream o;
    o << (im.is64 ? "ELF64 " : "ELF32 ") << (im.little ? "LSB" : "MSB") << " base 0x" << std::hex << im.base << (im.has_phdr ? " PT_PHDR" : "") << std::dec << " loads " << im.loads.size() << " notes " << im.notes;
    for(auto& t : im.texts) o << " [" << t.name << " 0x" << std::hex << t.addr << "+0x" << t.size << std::dec << "]";
    auto tab = [&](const char* n, const Table& t) {
        if(!t.present) return;
        o << "\n " << n << (t.linked ? "" : " (no string table)") << (t.shares_strings ? " (shared strings)" : "") << ":";
        std::size_t k = 0;
        for(auto& s : t.syms) { if(k++ > 12) { o << " ..."; break; } o << " " << vt::quote(s.name, 24) << "@0x" << std::hex << s.value << "+0x" << s.size << std::dec; }
    };
    tab("symtab", im.symtab); tab("dynsym", im.dynsym);
    if(im.phpad || im.shpad) o << "\n padding " << im.phpad << "/" << im.shpad;
    return o.str();
}
}
