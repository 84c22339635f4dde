// What the stand-in for libdwarf presents: trees of debug information entries, filled by a generator or from an ELF file
#ifndef VT_FAKEDWARF_HPP
#define VT_FAKEDWARF_HPP
#include "libdwarf.h"
#include "dwarf.h"
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace fake {
using u64 = std::uint64_t;
using u16 = std::uint16_t;
struct Die;
struct Unit;
struct Object;
struct Attr {
    u16 at, form;
    u64 u = 0;         // constants, addresses, range lists
    std::string s;     // strings
    Die* ref = nullptr; // references
    char sig[8] = {};
    bool indexed = false; // u is an index into the unit's address table
};
struct Die {
    u64 off = 0;
    u16 tag = 0;
    std::vector<Attr> attrs;
    std::vector<std::unique_ptr<Die>> kids;
    Die* parent = nullptr;
    Unit* unit = nullptr;
    std::size_t at_parent = 0;
    bool broken = false; // damaged: everything but its tag and place is an error
    Attr* get(u16 at) { for(auto& a : attrs) if(a.at == at) return &a; return nullptr; }
    Attr& add(u16 at, u16 form, u64 u) { attrs.push_back({at, form, u, {}, nullptr, {}, false}); return attrs.back(); }
    Attr& add(u16 at, u16 form, const std::string& s) { attrs.push_back({at, form, 0, s, nullptr, {}, false}); return attrs.back(); }
    Attr& add(u16 at, u16 form, Die* r) { attrs.push_back({at, form, 0, {}, r, {}, false}); return attrs.back(); }
    Die& kid(u16 t) {
        kids.emplace_back(new Die);
        auto& k = *kids.back();
        k.tag = t; k.parent = this; k.unit = unit; k.at_parent = kids.size() - 1;
        return k;
    }
};
struct Range4 { Dwarf_Ranges_Entry_Type type; u64 a, b; };
struct Range5 { unsigned rle; u64 a, b; bool unavailable; bool raw = false; }; // raw: as in the file, not cooked
inline Range5 range5(unsigned rle, u64 a, u64 b, bool unavailable) { Range5 r; r.rle = rle; r.a = a; r.b = b; r.unavailable = unavailable; return r; }
struct Row { u64 addr; u64 line, col; std::string file; bool end; };
struct Unit {
    Object* object = nullptr;
    u64 off = 0, end = 0;
    unsigned version = 4;
    bool types = false; // a type unit outside of .debug_info
    char sig[8] = {};
    Die* sig_die = nullptr;
    unsigned kind = DW_UT_compile;
    Die root;
    bool has_lines = true;
    unsigned line_version = 4;
    std::vector<Row> rows;
    std::vector<std::string> files; // as dwarf_srcfiles gives them
    std::vector<std::vector<Range5>> rnglists; // for DW_FORM_rnglistx
    u64 dwo_id = 0;
    std::vector<u64> addresses; // for indexed addresses
    u64 ranges_base = 0;
};
struct Arange { u64 start, length; Unit* unit; };
struct Object {
    int status = DW_DLV_OK;
    bool split = false; // addresses need the tied object
    std::vector<std::unique_ptr<Unit>> units;
    bool has_aranges = false;
    std::vector<Arange> aranges;
    std::map<u64, std::vector<Range4>> ranges;     // .debug_ranges
    std::string ranges_section;                    // the same, as in a file
    std::vector<Range4>* ranges_at(u64 off);
    std::map<u64, std::vector<Range5>> rnglists;   // .debug_rnglists
    std::map<u64, Die*> by_offset, by_offset_types;
    void number(); // assign offsets
    Unit* full_or_skeleton(u64 dwo_id) { for(auto& u : units) if(u->dwo_id == dwo_id && dwo_id) return u.get(); return nullptr; }
};
extern std::map<std::string, std::shared_ptr<Object>> registry;
// another source of objects, for paths that are not registered; null if it has none
extern std::shared_ptr<Object> (*loader)(const std::string& path);
std::shared_ptr<Object> load_elf(const std::string& path); // elfdwarf.cpp; null if there is no debug information
bool address_of(Object* tied, const Unit* u, const Attr& a, u64& out); // false if the address table is missing
std::vector<Range5> cooked(Object* tied, Unit* u, const std::vector<Range5>& v);
extern std::string problems;       // misuses of the interface seen so far
extern long live;                  // things handed out and not taken back
std::string live_kinds();
extern long calls;                 // calls that can fail
extern long fail_at;               // the number of the call that fails, once; -1 for none
extern long opened;                // files opened so far
}
#endif
