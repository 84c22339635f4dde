// P32: the reader of debug information, on generated trees of entries behind a stand-in for libdwarf (fakedwarf)
#include "vt.hpp"
#include "elfgen.hpp"
#include "fakedwarf/fakedwarf.hpp"

#include <cpptrace/cpptrace.hpp>

#include <algorithm>
#include <set>
#include <unistd.h>

namespace {
using vt::Case;
using vt::u64;
using Pieces = std::vector<std::pair<u64, u64>>;

struct Inline { Pieces at; std::string symbol, file; u64 line; bool has_col; u64 col; std::vector<Inline> inner; };
struct Function { std::string symbol; Pieces at; std::vector<Inline> inlines; int unit; };
struct Slot { u64 lo, hi; int unit; int fn; }; // fn -1: code without an entry
struct Truth {
    std::string path;
    bool readable = true; // there is debug information
    std::vector<Slot> slots;
    std::vector<Function> fns;
    std::vector<std::string> elf_symbols; // per slot, empty if none
    std::vector<bool> unit_ok;  // false: damaged or missing, answers may be less
    std::vector<bool> unit_lines;
    struct Seq { u64 lo, hi; std::vector<fake::Row> rows; };
    std::vector<Seq> seqs;
    std::shared_ptr<std::string> jit;
};
bool inside(const Pieces& p, u64 pc) { for(auto& x : p) if(pc >= x.first && pc < x.second) return true; return false; }

struct Gen {
    Case& c;
    int serial = 0;
    std::shared_ptr<fake::Object> o = std::make_shared<fake::Object>();
    std::shared_ptr<fake::Object> dwo[8];
    Truth t;
    u64 next_list = 0x40;
    fake::Unit* shared = nullptr; // a unit for entries others refer to
    fake::Unit* type_unit = nullptr;
    explicit Gen(Case& c) : c(c) {}

    std::string mangled(std::string& shown) {
        std::string n = "fn" + std::to_string(serial++);
        std::string l = std::to_string(n.size());
        switch(c.below(4)) {
            case 0: shown = n + "(int)"; return "_Z" + l + n + "i";
            case 1: shown = "ns::" + n + "()"; return "_ZN2ns" + l + n + "Ev";
            case 2: shown = n; return n;
            default: shown = n + "()"; return "_Z" + l + n + "v";
        }
    }
    unsigned string_form() { return c.pick({unsigned(DW_FORM_string), unsigned(DW_FORM_strp), unsigned(DW_FORM_strx1), unsigned(DW_FORM_line_strp)}); }
    unsigned const_form() { return c.pick({unsigned(DW_FORM_data1), unsigned(DW_FORM_data2), unsigned(DW_FORM_udata), unsigned(DW_FORM_implicit_const), unsigned(DW_FORM_data4)}); }
    // gives a die a name, directly or through a chain of references to other entries
    void name_die(fake::Die& d, fake::Die& decls, std::string& shown, int depth = 0) {
        bool chain = depth < 3 && c.chance(2, 5);
        if(chain) {
            bool spec = c.flip();
            bool far = shared && !d.unit->types && d.unit->object == shared->object && c.chance(1, 4);
            bool sig = !far && type_unit && d.unit->object == type_unit->object && spec && !type_unit->sig_die && c.chance(1, 3);
            fake::Die& host = sig ? type_unit->root : far ? shared->root : decls;
            fake::Die* holder = &host;
            if(c.flip()) { holder = &host.kid(c.pick({fake::u16(DW_TAG_structure_type), fake::u16(DW_TAG_class_type), fake::u16(DW_TAG_namespace)})); holder->add(DW_AT_name, DW_FORM_string, "holder"); }
            fake::Die& k = holder->kid(DW_TAG_subprogram);
            if(sig) type_unit->sig_die = &k;
            name_die(k, host, shown, depth + 1); // local references stay within a unit
            if(spec) k.add(DW_AT_declaration, DW_FORM_flag_present, u64(1)); else k.add(DW_AT_inline, DW_FORM_data1, u64(1));
            if(sig) { auto& a = d.add(DW_AT_specification, DW_FORM_ref_sig8, u64(0)); std::memcpy(a.sig, type_unit->sig, 8); }
            else d.add(spec ? DW_AT_specification : DW_AT_abstract_origin, far ? unsigned(DW_FORM_ref_addr) : c.pick({unsigned(DW_FORM_ref1), unsigned(DW_FORM_ref2), unsigned(DW_FORM_ref4), unsigned(DW_FORM_ref8), unsigned(DW_FORM_ref_udata), unsigned(DW_FORM_ref_addr)}), &k);
            return;
        }
        std::string m = mangled(shown);
        switch(c.below(3)) {
            case 0: d.add(DW_AT_name, string_form(), m); break;
            case 1: d.add(DW_AT_name, string_form(), "plain"); d.add(DW_AT_linkage_name, string_form(), m); break;
            default: d.add(DW_AT_MIPS_linkage_name, string_form(), m); d.add(DW_AT_name, string_form(), "plain"); break;
        }
    }
    u64 ranges_of(fake::Unit& u, const Pieces& p, u64 base, unsigned& form) {
        auto& ob = *u.object;
        if(u.version < 5) {
            std::vector<fake::Range4> v;
            u64 b = base;
            for(auto& x : p) {
                if(c.chance(1, 5)) { b = c.chance(1, 2) ? x.first - c.below(x.first) : 0; v.push_back({DW_RANGES_ADDRESS_SELECTION, ~0ull, b}); }
                if(x.first - b == 0 && x.second - b == 0) continue;
                v.push_back({DW_RANGES_ENTRY, x.first - b, x.second - b});
            }
            v.push_back({DW_RANGES_END, 0, 0});
            u64 off = next_list; next_list += 0x10 + 16 * v.size();
            ob.ranges[off] = v;
            form = DW_FORM_sec_offset;
            return off;
        }
        std::vector<fake::Range5> v;
        for(auto& x : p) {
            if(c.chance(1, 6)) v.push_back({c.flip() ? unsigned(DW_RLE_base_address) : unsigned(DW_RLE_base_addressx), x.first, x.first + 0x1000000, false});
            if(c.chance(1, 12)) v.push_back({DW_RLE_startx_endx, 0, 0, true});
            v.push_back({c.pick({unsigned(DW_RLE_offset_pair), unsigned(DW_RLE_startx_endx), unsigned(DW_RLE_start_end), unsigned(DW_RLE_startx_length), unsigned(DW_RLE_start_length)}), x.first, x.second, false});
        }
        v.push_back({DW_RLE_end_of_list, 0, ~0ull, false});
        if(c.flip()) { u.rnglists.push_back(v); form = DW_FORM_rnglistx; return u.rnglists.size() - 1; }
        u64 off = next_list; next_list += 0x10 + 4 * v.size();
        ob.rnglists[off] = v;
        form = DW_FORM_sec_offset;
        return off;
    }
    void place(fake::Die& d, const Pieces& p, u64 base) {
        if(p.size() == 1 && c.chance(4, 5)) {
            d.add(DW_AT_low_pc, d.unit->object->split || c.chance(1, 6) ? unsigned(DW_FORM_addrx) : unsigned(DW_FORM_addr), p[0].first);
            if(c.chance(1, 4)) d.add(DW_AT_high_pc, c.flip() ? unsigned(DW_FORM_addrx) : unsigned(DW_FORM_addr), p[0].second);
            else d.add(DW_AT_high_pc, const_form(), p[0].second - p[0].first);
            return;
        }
        unsigned form = 0;
        u64 v = ranges_of(*d.unit, p, base, form);
        d.add(DW_AT_ranges, form, v);
    }
    Pieces part_of(const Pieces& p, u64& from) { // some of it, after `from`; leaves `from` at its end
        Pieces r;
        u64 want = 1 + c.below(3);
        for(auto& x : p) {
            if(x.second <= from || r.size() >= want) continue;
            u64 lo = std::max(x.first, from), n = x.second - lo;
            if(n == 0) continue;
            u64 a = c.below(n), b = a + 1 + c.below(n - a);
            r.push_back({lo + a, lo + b});
            from = lo + b;
            if(c.flip()) break;
        }
        return r;
    }
    void clutter(fake::Die& d) {
        static const unsigned tags[] = {DW_TAG_formal_parameter, DW_TAG_variable, DW_TAG_label, DW_TAG_call_site, DW_TAG_typedef, DW_TAG_base_type, DW_TAG_imported_declaration, DW_TAG_lexical_block, DW_TAG_template_type_parameter};
        for(u64 k = c.chance(1, 3) ? 1 + c.below(2) : 0; k; k--) {
            auto& x = d.kid(tags[c.below(9)]);
            x.add(DW_AT_name, DW_FORM_string, "x");
            if(x.tag == DW_TAG_lexical_block && c.flip()) { auto& y = x.kid(DW_TAG_variable); y.add(DW_AT_name, DW_FORM_string, "y"); }
            if(x.tag == DW_TAG_label) x.add(DW_AT_low_pc, DW_FORM_addr, u64(0x1000 + c.below(0x400)));
        }
    }
    void inlines_of(fake::Unit& lines, fake::Die& d, fake::Die& decls, const Pieces& p, u64 base, std::vector<Inline>& out, int depth) {
        u64 from = 0;
        clutter(d);
        for(u64 k = depth > 0 ? c.below(4) : 0; k; k--) {
            Pieces q = part_of(p, from);
            if(q.empty()) break;
            if(c.chance(1, 4)) { // a block, which does not count as a call
                auto& b = d.kid(DW_TAG_lexical_block);
                place(b, q, base);
                inlines_of(lines, b, decls, q, base, out, depth - 1);
                continue;
            }
            auto& i = d.kid(DW_TAG_inlined_subroutine);
            Inline v;
            v.at = q;
            { // named through its abstract entry
                fake::Die& a = decls.kid(DW_TAG_subprogram);
                name_die(a, decls, v.symbol);
                if(c.chance(1, 2)) clutter(a);
                i.add(DW_AT_abstract_origin, DW_FORM_ref4, &a);
            }
            place(i, q, base);
            u64 f = c.below(lines.files.size());
            v.file = lines.files[f];
            v.line = 1 + c.below(c.chance(1, 8) ? 100000 : 200);
            v.has_col = c.chance(2, 3);
            v.col = v.has_col ? 1 + c.below(120) : 0;
            i.add(DW_AT_call_file, const_form(), lines.line_version == 5 ? f : f + 1);
            i.add(DW_AT_call_line, const_form(), v.line);
            if(v.has_col) i.add(DW_AT_call_column, const_form(), v.col);
            inlines_of(lines, i, decls, q, base, v.inner, depth - 1);
            out.push_back(v);
            clutter(d);
        }
    }
    void build(bool big) {
        std::size_t nslots = 1 + c.below(big ? 30 : 12);
        std::size_t nunits = 1 + c.below(5);
        u64 at = c.pick({u64(0x1000), u64(0x401000), u64(0x1040), u64(0x7ff600000000)});
        // code of different units may be mixed
        bool mixed = c.flip();
        for(std::size_t k = 0; k < nslots; k++) {
            u64 size = c.chance(1, 10) ? 1 : 1 + c.below(c.chance(1, 6) ? 400 : 40);
            int unit = mixed ? int(c.below(nunits)) : int(k * nunits / nslots);
            t.slots.push_back({at, at + size, unit, -1});
            at += size + (c.chance(2, 3) ? 0 : c.chance(1, 2) ? 1 : c.below(64));
        }
        // type and partial units around
        bool with_shared = c.chance(1, 3), with_types = c.chance(1, 4);
        auto extra = [&] (bool types) {
            o->units.emplace_back(new fake::Unit);
            auto& u = *o->units.back();
            u.object = o.get(); u.version = types ? (c.flip() ? 5 : 4) : 4; u.has_lines = false;
            u.types = types && u.version == 4;
            u.kind = types ? DW_UT_type : DW_UT_partial;
            u.root.unit = &u; u.root.tag = types ? DW_TAG_type_unit : DW_TAG_partial_unit;
            std::memcpy(u.sig, "sigsigsi", 8);
            return &u;
        };
        if(with_shared && c.flip()) shared = extra(false);
        if(with_types && c.flip()) type_unit = extra(true);
        std::vector<fake::Unit*> skel(nunits), full(nunits);
        std::vector<u64> base(nunits, 0);
        t.unit_ok.assign(nunits, true);
        t.unit_lines.assign(nunits, true);
        for(std::size_t n = 0; n < nunits; n++) {
            o->units.emplace_back(new fake::Unit);
            auto& u = *o->units.back();
            skel[n] = full[n] = &u;
            u.object = o.get();
            u.version = c.pick({2u, 3u, 4u, 4u, 5u, 5u, 5u});
            u.line_version = c.chance(1, 6) ? 2 + unsigned(c.below(4)) : u.version;
            u.root.unit = &u; u.root.tag = DW_TAG_compile_unit;
            if(with_shared && !shared && c.flip()) shared = extra(false);
            if(with_types && !type_unit && c.flip()) type_unit = extra(true);
            bool lines = !c.chance(1, 10);
            u.has_lines = lines;
            t.unit_lines[n] = lines;
            for(u64 k = 0, m = 1 + c.below(4); k < m; k++) u.files.push_back("/src/u" + std::to_string(n) + "_" + std::to_string(k) + (c.flip() ? ".cpp" : ".h"));
            Pieces p;
            for(auto& s : t.slots) if(s.unit == int(n)) { if(!p.empty() && p.back().second == s.lo && c.chance(9, 10)) p.back().second = s.hi; else p.push_back({s.lo, s.hi}); }
            if(c.chance(1, 3)) for(std::size_t k = p.size(); k > 1; k--) std::swap(p[k - 1], p[c.below(k)]);
            bool split = lines && u.version >= 4 && c.chance(1, 6) && n < 8;
            u.root.add(DW_AT_producer, DW_FORM_strp, "gen");
            if(!p.empty()) {
                if(p.size() == 1 && c.chance(2, 3)) { place(u.root, p, 0); base[n] = u.root.get(DW_AT_low_pc) ? p[0].first : 0; }
                else {
                    u64 b = c.chance(1, 3) ? p[0].first - c.below(p[0].first) : 0;
                    if(b || c.flip()) u.root.add(DW_AT_low_pc, DW_FORM_addr, b);
                    unsigned form = 0;
                    u64 r = ranges_of(u, p, b, form);
                    u.root.add(DW_AT_ranges, form, r);
                    base[n] = b;
                }
            }
            if(split) {
                if(u.version >= 5) { u.root.tag = DW_TAG_skeleton_unit; u.kind = DW_UT_skeleton; }
                bool absolute = c.chance(1, 3);
                std::string name = "unit" + std::to_string(n) + ".dwo", dir = "/build" + std::to_string(n);
                std::string path = absolute ? t.path + "." + name : dir + t.path + "/" + name;
                u.root.add(u.version >= 5 && !c.chance(1, 4) ? DW_AT_dwo_name : DW_AT_GNU_dwo_name, string_form(), absolute ? path : name);
                if(!absolute) u.root.add(DW_AT_comp_dir, string_form(), dir + t.path);
                else if(c.flip()) u.root.add(DW_AT_comp_dir, string_form(), "/elsewhere");
                dwo[n] = std::make_shared<fake::Object>();
                dwo[n]->split = true;
                dwo[n]->units.emplace_back(new fake::Unit);
                auto& f = *dwo[n]->units.back();
                full[n] = &f;
                f.object = dwo[n].get(); f.version = u.version; f.kind = DW_UT_split_compile; f.has_lines = false;
                f.root.unit = &f; f.root.tag = DW_TAG_compile_unit;
                if(c.chance(1, 3)) f.root.add(DW_AT_dwo_name, DW_FORM_strx1, name);
                int gone = c.chance(1, 8) ? 1 + int(c.below(2)) : 0;
                if(gone) t.unit_ok[n] = false;
                if(gone == 1) ; // no such file
                else { if(gone == 2) dwo[n]->status = c.flip() ? DW_DLV_NO_ENTRY : DW_DLV_ERROR; fake::registry[path] = dwo[n]; }
                base[n] = 0;
            }
        }
        // functions of one or several pieces
        for(std::size_t n = 0; n < nunits; n++) {
            fake::Unit& u = *full[n];
            bool split = full[n] != skel[n];
            std::vector<std::size_t> own;
            for(std::size_t k = 0; k < t.slots.size(); k++) if(t.slots[k].unit == int(n)) own.push_back(k);
            auto& decls = u.root; // declarations and abstract entries go among the rest
            std::vector<fake::Die*> homes{&u.root};
            while(!own.empty()) {
                if(c.chance(1, 12)) { own.pop_back(); continue; } // code without an entry
                Function f;
                f.unit = int(n);
                std::size_t m = split && u.version < 5 ? 1 : c.chance(3, 4) ? 1 : 1 + c.below(3);
                std::vector<std::size_t> mine;
                for(; m && !own.empty(); m--) { std::size_t k = c.below(own.size()); mine.push_back(own[k]); own.erase(own.begin() + long(k)); }
                for(auto k : mine) { f.at.push_back({t.slots[k].lo, t.slots[k].hi}); t.slots[k].fn = int(t.fns.size()); }
                if(c.chance(1, 4)) { // somewhere below
                    auto& h = c.pick(homes)->kid(c.pick({fake::u16(DW_TAG_namespace), fake::u16(DW_TAG_namespace), fake::u16(DW_TAG_structure_type), fake::u16(DW_TAG_class_type), fake::u16(DW_TAG_union_type), fake::u16(DW_TAG_module)}));
                    h.add(DW_AT_name, DW_FORM_string, "scope");
                    homes.push_back(&h);
                }
                auto& home = *c.pick(homes);
                auto& d = home.kid(DW_TAG_subprogram);
                name_die(d, decls, f.symbol);
                bool simple = split && u.version < 5;
                Pieces p = f.at;
                place_fn(d, p, base[n], simple);
                if(c.chance(1, 12)) { // no name anywhere
                    d.attrs.erase(std::remove_if(d.attrs.begin(), d.attrs.end(), [] (fake::Attr& a) { return a.at == DW_AT_name || a.at == DW_AT_linkage_name || a.at == DW_AT_MIPS_linkage_name || a.at == DW_AT_specification || a.at == DW_AT_abstract_origin; }), d.attrs.end());
                    f.symbol = "";
                }
                if(skel[n]->has_lines && !simple) inlines_of(*skel[n], d, decls, f.at, base[n], f.inlines, 4);
                else clutter(d);
                if(c.chance(1, 3)) { // functions within functions, and within their blocks
                    auto* h = &d;
                    for(u64 k = c.below(3); k; k--) {
                        h = &h->kid(DW_TAG_lexical_block);
                        if(!simple && c.flip()) { u64 from = 0; Pieces q = part_of(f.at, from); if(!q.empty()) place(*h, q, base[n]); }
                    }
                    homes.push_back(h);
                }
                if(c.chance(1, 25)) { d.broken = true; t.unit_ok[n] = false; }
                t.fns.push_back(f);
            }
            // functions the linker dropped
            for(u64 k = c.chance(1, 3) ? 1 + c.below(3) : 0; k; k--) {
                auto& d = c.pick(homes)->kid(DW_TAG_subprogram);
                d.add(DW_AT_name, DW_FORM_string, "dropped");
                d.add(DW_AT_low_pc, DW_FORM_addr, c.chance(1, 3) ? ~0ull : u64(0));
                d.add(DW_AT_high_pc, DW_FORM_data4, u64(1 + c.below(0x200)));
            }
        }
        // line tables: sequences over adjacent code of a unit, in any order
        for(std::size_t n = 0; n < nunits; n++) if(skel[n]->has_lines) {
            fake::Unit& u = *skel[n];
            std::vector<Truth::Seq> seqs;
            for(auto& s : t.slots) if(s.unit == int(n)) {
                if(!seqs.empty() && seqs.back().hi == s.lo && c.chance(1, 2)) seqs.back().hi = s.hi;
                else seqs.push_back({s.lo, s.hi, {}});
            }
            if(c.chance(1, 5)) { seqs.push_back({0, 1 + c.below(0x100), {}}); }
            for(auto& q : seqs) {
                u64 a = q.lo;
                while(a < q.hi) {
                    for(u64 k = c.chance(1, 4) ? 1 + c.below(3) : 1; k; k--) q.rows.push_back({a, c.chance(1, 20) ? 0 : 1 + c.below(c.chance(1, 10) ? 70000 : 300), c.below(100), c.pick(u.files), false});
                    a += 1 + c.below(c.flip() ? 6 : 30);
                }
                if(c.chance(1, 6)) q.rows.push_back({q.hi, 1 + c.below(50), 0, u.files[0], false});
                q.rows.push_back({q.hi, c.flip() ? q.rows.back().line : 1 + c.below(300), 0, u.files[0], true});
            }
            if(c.flip()) for(std::size_t k = seqs.size(); k > 1; k--) std::swap(seqs[k - 1], seqs[c.below(k)]);
            for(auto& q : seqs) { for(auto& r : q.rows) u.rows.push_back(r); if(q.lo) t.seqs.push_back(q); }
        }
        o->has_aranges = c.flip();
        if(o->has_aranges) for(std::size_t n = 0; n < nunits; n++) {
            if(c.chance(1, 5)) continue; // some units have none
            for(auto& s : t.slots) if(s.unit == int(n)) o->aranges.push_back({s.lo, s.hi - s.lo, skel[n]});
        }
        o->number();
        for(auto& d : dwo) if(d) d->number();
        if(c.chance(1, 16)) { o->status = c.flip() ? DW_DLV_NO_ENTRY : DW_DLV_ERROR; t.readable = false; }
        t.elf_symbols.assign(t.slots.size(), "");
        if(t.path.compare(0, 4, "/vt/") != 0) { // a file with symbols of its own
            eg::Image im;
            im.base = 0;
            im.texts.push_back({".text", 0x1000, at});
            im.symtab.present = true;
            for(std::size_t k = 0; k < t.slots.size(); k++) if(c.chance(2, 3)) {
                t.elf_symbols[k] = "elf" + std::to_string(k);
                im.symtab.syms.push_back({t.elf_symbols[k], t.slots[k].lo, t.slots[k].hi - t.slots[k].lo, 1, 2});
            }
            std::string data = eg::Writer(im).write();
            ::unlink(t.path.c_str());
            if(FILE* f = std::fopen(t.path.c_str(), "wb")) { std::fwrite(data.data(), 1, data.size(), f); std::fclose(f); }
        }
        fake::registry[t.path] = o;
    }
    void place_fn(fake::Die& d, const Pieces& p, u64 base, bool simple) {
        if(!simple) { place(d, p, base); return; }
        d.add(DW_AT_low_pc, DW_FORM_GNU_addr_index, p[0].first);
        d.add(DW_AT_high_pc, const_form(), p[0].second - p[0].first);
    }
};

struct Expect { std::string symbol, file; bool has_line; u64 line; bool has_col; u64 col; bool is_inline; u64 raw, obj; };
const Slot* slot_of(const Truth& t, u64 pc, std::size_t& k) { for(k = 0; k < t.slots.size(); k++) if(pc >= t.slots[k].lo && pc < t.slots[k].hi) return &t.slots[k]; return nullptr; }
const fake::Row* row_of(const Truth& t, int unit, u64 pc) {
    if(!t.unit_lines[std::size_t(unit)]) return nullptr;
    for(auto& q : t.seqs) if(pc >= q.lo && pc < q.hi) {
        const fake::Row* r = nullptr;
        for(auto& x : q.rows) if(!x.end && x.addr <= pc) r = &x;
        return r;
    }
    return nullptr;
}
std::vector<Expect> expected(const Truth& t, u64 raw, u64 pc, bool inlines) {
    std::size_t k = 0;
    const Slot* s = slot_of(t, pc, k);
    Expect f{"", t.path, false, 0, false, 0, false, raw, pc};
    if(!s || !t.readable) {
        if(s) f.symbol = t.elf_symbols[k];
        return {f};
    }
    if(auto* r = row_of(t, s->unit, pc)) { f.file = r->file; f.has_line = true; f.line = r->line; f.has_col = true; f.col = r->col; }
    std::vector<const Inline*> chain;
    if(s->fn >= 0) {
        auto& fn = t.fns[std::size_t(s->fn)];
        f.symbol = fn.symbol;
        if(inlines) for(auto* v = &fn.inlines; v;) {
            const Inline* hit = nullptr;
            for(auto& i : *v) if(inside(i.at, pc)) { hit = &i; break; }
            if(!hit) break;
            chain.push_back(hit);
            v = &hit->inner;
        }
    }
    if(f.symbol.empty()) f.symbol = t.elf_symbols[k];
    // innermost first; each is at the place in it where the one before was called
    std::vector<Expect> out;
    std::reverse(chain.begin(), chain.end());
    Expect at = f;
    for(auto* i : chain) {
        out.push_back({i->symbol, at.file, at.has_line, at.line, at.has_col, at.col, true, 0, 0});
        at.file = i->file; at.has_line = true; at.line = i->line; at.has_col = i->has_col; at.col = i->col;
    }
    out.push_back({f.symbol, at.file, at.has_line, at.line, at.has_col, at.col, false, raw, pc});
    return out;
}
std::string show(const cpptrace::stacktrace_frame& f) { std::ostringstream o; o << (f.is_inline ? "inline " : "") << std::hex << f.raw_address << "/" << f.object_address << std::dec << " " << f.symbol << " " << f.filename << ":"; if(f.line.has_value()) o << f.line.value(); else o << "-"; o << ":"; if(f.column.has_value()) o << f.column.value(); else o << "-"; return o.str(); }
std::string show(const Expect& f) { std::ostringstream o; o << (f.is_inline ? "inline " : "") << std::hex << f.raw << "/" << f.obj << std::dec << " " << f.symbol << " " << f.file << ":"; if(f.has_line) o << f.line; else o << "-"; o << ":"; if(f.has_col) o << f.col; else o << "-"; return o.str(); }
bool same(const cpptrace::stacktrace_frame& f, const Expect& e) {
    if(f.raw_address != e.raw || f.object_address != e.obj || f.symbol != e.symbol || f.filename != e.file || f.is_inline != e.is_inline) return false;
    if(e.has_line ? !f.line.has_value() || f.line.value() != e.line : f.line.has_value()) return false;
    // an unknown column may also be given as 0
    if(e.has_col && e.col ? !f.column.has_value() || f.column.value() != e.col : f.column.has_value() && f.column.value() != 0) return false;
    return true;
}
bool bare(const cpptrace::stacktrace_frame& f, u64 raw, u64 obj) { return f.raw_address == raw && f.object_address == obj && !f.is_inline; }

u64 counter = 0;
const char* const modes[] = {"memory", "hybrid", "speed"};
const cpptrace::cache_mode mode_values[] = {cpptrace::cache_mode::prioritize_memory, cpptrace::cache_mode::hybrid, cpptrace::cache_mode::prioritize_speed};

std::vector<Truth> objects_of(Case& c) {
    std::vector<Truth> v;
    for(u64 n = 1 + c.below(2), k = 0; k < n; k++) {
        Gen g(c);
        counter++;
        std::string id = std::to_string(::getpid()) + "_" + std::to_string(counter);
        g.t.path = c.chance(1, 4) ? vt::scratch_dir() + "/dw" + id : "/vt/object" + id;
        g.build(c.chance(1, 3));
        v.push_back(g.t);
    }
    if(c.chance(1, 4)) { // code made at run time, known by its symbols
        Truth t;
        t.readable = false;
        eg::Image im;
        im.symtab.present = true;
        u64 base = 0x100000 + c.below(16) * 0x1000, at = 0;
        for(u64 n = 1 + c.below(6), k = 0; k < n; k++) {
            u64 size = 1 + c.below(40);
            t.slots.push_back({base + at, base + at + size, 0, -1});
            t.elf_symbols.push_back(c.chance(1, 6) ? "" : "jit" + std::to_string(k));
            if(!t.elf_symbols.back().empty()) im.symtab.syms.push_back({t.elf_symbols.back(), at, size, 1, 2});
            at += size + (c.flip() ? 0 : c.below(9));
        }
        t.unit_ok.assign(1, true);
        im.texts.push_back({".text", base, at});
        t.jit = std::make_shared<std::string>(eg::Writer(im).write());
        cpptrace::register_jit_object(t.jit->data(), t.jit->size());
        v.push_back(t);
    }
    if(c.chance(1, 4)) { // one nobody knows
        Truth t;
        counter++;
        t.path = "/vt/unknown" + std::to_string(counter);
        t.readable = false;
        v.push_back(t);
    }
    return v;
}
u64 draw_pc(Case& c, const Truth& t) {
    if(t.slots.empty()) return 0x1000 + c.below(500);
    auto& s = c.pick(t.slots);
    if(s.fn >= 0 && c.chance(1, 2)) { // somewhere interesting in an inline tree
        auto* v = &t.fns[std::size_t(s.fn)].inlines;
        const Inline* hit = nullptr;
        while(!v->empty() && (!hit || c.chance(3, 4))) { hit = &c.pick(*v); v = &hit->inner; }
        if(hit) { auto& p = c.pick(hit->at); return c.pick({p.first, p.second - 1, p.second, p.first - 1, p.first + c.below(p.second - p.first)}); }
    }
    return c.pick({s.lo, s.hi - 1, s.hi, s.lo + c.below(s.hi - s.lo), s.lo + c.below(s.hi - s.lo), s.lo - 1});
}
void describe(Case& c, const std::vector<Truth>& v) {
    for(auto& t : v) {
        std::ostringstream o;
        o << t.path << (t.readable ? "" : " (no debug information)") << std::hex;
        for(auto& s : t.slots) o << "\n  [" << s.lo << "," << s.hi << ") unit " << std::dec << s.unit << (t.unit_ok[std::size_t(s.unit)] ? "" : " (damaged)") << " " << (s.fn >= 0 ? t.fns[std::size_t(s.fn)].symbol + " inlines " + std::to_string(t.fns[std::size_t(s.fn)].inlines.size()) : std::string("-")) << std::hex;
        c.line(o.str());
    }
}
void tidy(const std::vector<Truth>& v) {
    for(auto& t : v) if(!t.jit && t.path.compare(0, 4, "/vt/") != 0) ::unlink(t.path.c_str());
    cpptrace::clear_all_jit_objects();
    fake::registry.clear();
    cpptrace::experimental::set_cache_mode(cpptrace::cache_mode::prioritize_speed);
    cpptrace::experimental::set_dwarf_resolver_disable_aranges(false);
    cpptrace::experimental::set_dwarf_resolver_line_table_cache_size(cpptrace::nullable<std::size_t>::null());
    cpptrace::enable_inlined_call_resolution(true);
    cpptrace::absorb_trace_exceptions(true);
    fake::fail_at = -1;
    cpptrace::set_log_level(cpptrace::log_level::error);
    cpptrace::set_log_callback([] (cpptrace::log_level, const char*) {});
}

// rounds of resolutions with varying settings; `faults` makes single calls of the interface fail
void rounds(Case& c, bool faults) {
    auto objs = objects_of(c);
    describe(c, objs);
    fake::problems.clear();
    cpptrace::set_log_level(cpptrace::log_level::warning);
    cpptrace::set_log_callback([&c] (cpptrace::log_level, const char* m) { c.note("  log: ").line(std::string(m).substr(0, 400)); });
    std::size_t chains = 0, resolved = 0;
    bool damaged_history = false;
    bool speed_used = false;
    long before = fake::live;
    for(u64 n = 1 + c.below(5), k = 0; k < n; k++) {
        int mode = int(c.below(3));
        bool inlines = !c.chance(1, 8);
        cpptrace::experimental::set_cache_mode(mode_values[mode]);
        bool no_aranges = c.chance(1, 4);
        cpptrace::experimental::set_dwarf_resolver_disable_aranges(no_aranges);
        u64 limit = c.below(4);
        cpptrace::experimental::set_dwarf_resolver_line_table_cache_size(limit ? cpptrace::nullable<std::size_t>(limit) : cpptrace::nullable<std::size_t>::null());
        cpptrace::enable_inlined_call_resolution(inlines);
        cpptrace::object_trace trace;
        std::vector<std::pair<const Truth*, u64>> what;
        for(u64 m = 1 + c.size(20), j = 0; j < m; j++) {
            auto& t = c.pick(objs);
            u64 pc = draw_pc(c, t);
            u64 raw = t.jit ? pc : pc + c.pick({u64(0), u64(0x555555554000), u64(0x7f0000000000)});
            what.push_back({&t, pc});
            trace.frames.push_back({raw, pc, t.path});
        }
        bool absorb = !faults || !c.chance(1, 5);
        cpptrace::absorb_trace_exceptions(absorb);
        fake::calls = 0;
        fake::fail_at = faults && c.chance(3, 4) ? 1 + long(c.below(c.flip() ? 60 : 2000)) : -1;
        bool damaged = false;
        for(auto& w : what) { std::size_t x; auto* s = slot_of(*w.first, w.second, x); if(s && !w.first->unit_ok[std::size_t(s->unit)]) damaged = true; }
        c.note("round ").note(modes[mode]).note(no_aranges ? " no aranges" : "").note(inlines ? "" : " no inlines").note(" tables ").note(limit).note(absorb ? "" : " propagating").note(" fail at ").line(fake::fail_at);
        cpptrace::stacktrace r;
        bool threw = false;
        try { r = trace.resolve(); } catch(const std::exception& e) { threw = true; c.note("  threw ").line(e.what()); }
        bool failed = fake::fail_at != -1 && fake::calls >= fake::fail_at;
        fake::fail_at = -1;
        if(failed) damaged_history = true;
        if(threw) { c.check(!absorb, "an exception came out although they are absorbed"); c.check(failed || damaged, "an exception without a failure"); damaged_history = true; continue; }
        std::size_t at = 0;
        for(std::size_t j = 0; j < what.size(); j++) {
            auto& t = *what[j].first;
            u64 pc = what[j].second, raw = trace.frames[j].raw_address;
            auto e = expected(t, raw, pc, inlines);
            std::size_t x;
            auto* s = slot_of(t, pc, x);
            bool may_less = damaged_history || (s && !t.unit_ok[std::size_t(s->unit)]);
            if(may_less) { // the frame itself is there, with its addresses
                std::size_t b = at;
                while(at < r.frames.size() && r.frames[at].is_inline) { c.check(r.frames[at].raw_address == 0, "inline frame with an address"); at++; }
                c.check(at < r.frames.size(), "a frame is missing after a failure");
                c.check(bare(r.frames[at], raw, pc), "after a failure: got " + show(r.frames[at]) + " for the frame " + show(e.back()));
                at++;
                c.check(at - b <= e.size(), "more frames than there are calls");
                c.check(t.jit || !r.frames[at - 1].filename.empty(), "no file or object name after a failure: " + show(r.frames[at - 1]));
                if(at - b > 1 || (at - b == 1 && !r.frames[b].symbol.empty() && s && s->fn >= 0 && r.frames[b].symbol == t.fns[std::size_t(s->fn)].symbol)) resolved++;
                continue;
            }
            if(e.size() > 1) chains++;
            if(s && s->fn >= 0) resolved++;
            std::string got, want;
            bool ok = at + e.size() <= r.frames.size();
            for(std::size_t q = 0; q < e.size(); q++) { want += "\n  " + show(e[q]); if(at + q < r.frames.size()) { got += "\n  " + show(r.frames[at + q]); ok = ok && same(r.frames[at + q], e[q]); } }
            if(!ok) c.fail("frame " + std::to_string(j) + " at " + show(e.back()) + " (" + modes[mode] + "): got" + got + "\nexpected" + want);
            at += e.size();
        }
        c.eq(at, r.frames.size(), "number of frames");
        c.check(fake::problems.empty(), "misuse of the debug information library: " + fake::problems);
        if(mode == 2) speed_used = true;
        // resolvers are kept in the speed mode only
        if(!speed_used && !damaged_history && !damaged) c.check(fake::live == before, "things from the debug information library were not given back: " + fake::live_kinds());
    }
    tidy(objs);
    c.check(fake::problems.empty(), "misuse of the debug information library: " + fake::problems);
    if(!faults) c.nontrivial(chains > 0 && resolved > 3);
    else c.nontrivial(damaged_history && resolved > 1);
}

VT_PROP(debug_trees, "at least one frame with inlined calls and more than three frames in known functions") { rounds(c, false); }
VT_PROP(debug_failures, "a call of the debug information library failed, and at least two frames were still named") { rounds(c, true); }
}
