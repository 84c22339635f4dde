#include "fakedwarf.hpp"
#include <atomic>
#include <cstdlib>
#include <set>
#include <unistd.h>

namespace fake {
std::map<std::string, std::shared_ptr<Object>> registry;
std::shared_ptr<Object> (*loader)(const std::string&) = nullptr;
std::string problems;
long live = 0, calls = 0, fail_at = -1, opened = 0;
static std::map<std::string, long> kinds;
std::string live_kinds() { std::string s; for(auto& k : kinds) if(k.second) s += k.first + "=" + std::to_string(k.second) + " "; return s; }
void problem(const std::string& s) { if(problems.size() < 4000) problems += s + "\n"; }
static void number_die(Object& o, Die& d, u64& at, bool types) {
    d.off = at;
    at += 3 + d.attrs.size() * 2;
    (types ? o.by_offset_types : o.by_offset)[d.off] = &d;
    for(auto& k : d.kids) number_die(o, *k, at, types);
    at += 1;
}
void Object::number() {
    u64 at = 0, tat = 0;
    for(auto& u : units) {
        auto& x = u->types ? tat : at;
        u->off = x;
        x += u->version >= 5 ? 12 : 11;
        number_die(*this, u->root, x, u->types);
        u->end = x;
    }
}
struct Inside { // one thread at a time
    static std::atomic<int>& n() { static std::atomic<int> v{0}; return v; }
    Inside() { if(n().fetch_add(1) != 0) problem("two threads inside of libdwarf at once"); }
    ~Inside() { n().fetch_sub(1); }
};
}
using namespace fake;

struct Dwarf_Debug_s { std::shared_ptr<Object> o; long pos = -1; Dwarf_Debug tied = nullptr; long live = 0; std::map<std::string, long> kinds; std::map<void*, Dwarf_Unsigned> blocks; };
namespace {
struct Handle {
    Dwarf_Debug dbg; const char* kind;
    Handle(Dwarf_Debug dbg, const char* kind) : dbg(dbg), kind(kind) { if(dbg) { dbg->live++; dbg->kinds[kind]++; } live++; kinds[kind]++; }
    ~Handle() { if(dbg) { dbg->live--; dbg->kinds[kind]--; } live--; kinds[kind]--; }
    Handle(const Handle&) = delete;
};
}
struct Dwarf_Die_s : Handle { Die* die; Dwarf_Die_s(Dwarf_Debug d, Die* x) : Handle(d, "die"), die(x) {} };
struct Dwarf_Attribute_s : Handle { Die* die; Attr* a; Dwarf_Attribute_s(Dwarf_Debug d, Die* x, Attr* a) : Handle(d, "attribute"), die(x), a(a) {} };
struct Dwarf_Line_s { Dwarf_Debug dbg; Row* row; };
struct Dwarf_Line_Context_s : Handle { std::vector<Dwarf_Line_s> lines; std::vector<Dwarf_Line> pointers; Dwarf_Line_Context_s(Dwarf_Debug d) : Handle(d, "line context") {} };
struct Dwarf_Arange_s : Handle { Arange a; Dwarf_Arange_s(Dwarf_Debug d, Arange a) : Handle(d, "arange"), a(a) {} };
struct Dwarf_Rnglists_Head_s : Handle { std::vector<Range5> v; Dwarf_Rnglists_Head_s(Dwarf_Debug d, std::vector<Range5> v) : Handle(d, "range list"), v(std::move(v)) {} };
struct Dwarf_Error_s : Handle { int n; std::string m; Dwarf_Error_s(int n, const char* m) : Handle(nullptr, "error"), n(n), m(m) {} };

namespace {
int error(Dwarf_Error* e, int n, const char* m) { if(e) *e = new Dwarf_Error_s(n, m); return DW_DLV_ERROR; }
bool fails() { return ++calls == fail_at; }
#define ENTER Inside inside_; if(fails()) return error(e, 900, "DW_DLE_INJECTED: injected")
#define NEED(x) if(!(x)) { problem(std::string(__func__) + ": " #x " is false"); return error(e, 901, "DW_DLE_NULL: misuse"); }
#define WHOLE(d) if((d)->broken) return error(e, 902, "DW_DLE_DAMAGED: damaged entry")
char* string_block(Dwarf_Debug dbg, const std::string& s) {
    char* p = static_cast<char*>(std::malloc(s.size() + 1));
    std::memcpy(p, s.c_str(), s.size() + 1);
    dbg->blocks[p] = DW_DLA_STRING; dbg->live++; dbg->kinds["string"]++; live++; kinds["string"]++;
    return p;
}
void* list_block(Dwarf_Debug dbg, std::size_t n) {
    void* p = std::malloc(n ? n : 1);
    dbg->blocks[p] = DW_DLA_LIST; dbg->live++; dbg->kinds["list"]++; live++; kinds["list"]++;
    return p;
}
bool local_ref(unsigned f) { return f == DW_FORM_ref1 || f == DW_FORM_ref2 || f == DW_FORM_ref4 || f == DW_FORM_ref8 || f == DW_FORM_ref_udata; }
bool is_string(unsigned f) { return f == DW_FORM_string || f == DW_FORM_strp || f == DW_FORM_line_strp || f == DW_FORM_strx || (f >= DW_FORM_strx1 && f <= DW_FORM_strx4) || f == DW_FORM_GNU_str_index; }
bool is_const(unsigned f) { return f == DW_FORM_data1 || f == DW_FORM_data2 || f == DW_FORM_data4 || f == DW_FORM_data8 || f == DW_FORM_udata || f == DW_FORM_sdata || f == DW_FORM_implicit_const || f == DW_FORM_rnglistx || f == DW_FORM_loclistx; }
bool is_addr(unsigned f) { return f == DW_FORM_addr || f == DW_FORM_addrx || (f >= DW_FORM_addrx1 && f <= DW_FORM_addrx4) || f == DW_FORM_GNU_addr_index; }
int address(Dwarf_Debug dbg, Die* d, Attr* a, Dwarf_Addr* out, Dwarf_Error* e) {
    if(a->form != DW_FORM_addr && dbg->o->split && !dbg->tied) return error(e, 903, "DW_DLE_MISSING_NEEDED_DEBUG_ADDR_SECTION: no tied object");
    u64 v;
    if(!address_of(dbg->tied ? dbg->tied->o.get() : nullptr, d->unit, *a, v)) return error(e, 903, "DW_DLE_MISSING_NEEDED_DEBUG_ADDR_SECTION: no such address");
    *out = v;
    return DW_DLV_OK;
}
}
namespace fake {
static Unit* main_unit(Object* tied, const Unit* u) { // the unit with the tables, in the file that was linked
    if(!u->object->split) return const_cast<Unit*>(u);
    return tied ? tied->full_or_skeleton(u->dwo_id) : nullptr;
}
std::vector<Range4>* Object::ranges_at(u64 off) {
    auto it = ranges.find(off);
    if(it != ranges.end()) return &it->second;
    std::vector<Range4> v;
    for(u64 at = off; at + 16 <= ranges_section.size(); at += 16) {
        u64 x[2];
        std::memcpy(x, ranges_section.data() + at, 16);
        if(!x[0] && !x[1]) { v.push_back({DW_RANGES_END, 0, 0}); return &(ranges[off] = v); }
        v.push_back({x[0] == ~0ull ? DW_RANGES_ADDRESS_SELECTION : DW_RANGES_ENTRY, x[0], x[1]});
    }
    return nullptr;
}
bool address_of(Object* tied, const Unit* u, const Attr& a, u64& out) {
    if(!a.indexed) { out = a.u; return true; }
    Unit* m = main_unit(tied, u);
    if(!m || a.u >= m->addresses.size()) return false;
    out = m->addresses[a.u];
    return true;
}
std::vector<Range5> cooked(Object* tied, Unit* u, const std::vector<Range5>& v) {
    std::vector<Range5> r = v;
    Unit* m = main_unit(tied, u);
    u64 base = 0;
    if(m) if(auto* a = m->root.get(DW_AT_low_pc)) address_of(nullptr, m, *a, base);
    auto at = [&] (Range5& x, u64 k) { if(!m || k >= m->addresses.size()) { x.unavailable = true; return u64(0); } return m->addresses[k]; };
    for(auto& x : r) {
        if(!x.raw) continue;
        switch(x.rle) {
            case DW_RLE_base_address: base = x.a; break;
            case DW_RLE_base_addressx: base = at(x, x.a); x.a = base; break;
            case DW_RLE_offset_pair: x.a += base; x.b += base; break;
            case DW_RLE_startx_endx: x.a = at(x, x.a); x.b = at(x, x.b); break;
            case DW_RLE_startx_length: x.a = at(x, x.a); x.b += x.a; break;
            case DW_RLE_start_length: x.b += x.a; break;
            default: break;
        }
    }
    return r;
}
}

extern "C" {
int dwarf_set_de_alloc_flag(int v) { static int f = 1; int o = f; f = v; return o; }
int dwarf_init_path_a(const char* path, char* buffer, unsigned length, unsigned group, unsigned universal, Dwarf_Handler, Dwarf_Ptr, Dwarf_Debug* dbg, Dwarf_Error* e) {
    (void)group; (void)universal;
    *dbg = nullptr;
    ENTER;
    opened++;
    auto it = registry.find(path);
    std::shared_ptr<Object> o = it != registry.end() ? it->second : nullptr;
    if(!o && loader) o = loader(path);
    if(!o) { if(::access(path, R_OK) == 0) return DW_DLV_NO_ENTRY; return error(e, 62, "DW_DLE_FILE_UNAVAILABLE: no such file"); }
    if(o->status == DW_DLV_NO_ENTRY) return DW_DLV_NO_ENTRY;
    if(o->status == DW_DLV_ERROR) return error(e, 114, "DW_DLE_ELF_GETIDENT_ERROR: not an object");
    if(buffer && length > std::strlen(path)) std::strcpy(buffer, path);
    *dbg = new Dwarf_Debug_s;
    (*dbg)->o = o;
    return DW_DLV_OK;
}
int dwarf_init_path(const char* path, char* b, unsigned l, unsigned g, Dwarf_Handler h, Dwarf_Ptr p, Dwarf_Debug* d, Dwarf_Error* e) { return dwarf_init_path_a(path, b, l, g, 0, h, p, d, e); }
int dwarf_finish(Dwarf_Debug dbg) {
    if(!dbg) return DW_DLV_OK;
    Inside in;
    if(dbg->live) { std::string k; for(auto& x : dbg->kinds) if(x.second) k += " " + x.first + "=" + std::to_string(x.second); problem("dwarf_finish while things from it are in use:" + k); return DW_DLV_OK; }
    delete dbg;
    return DW_DLV_OK;
}
int dwarf_set_tied_dbg(Dwarf_Debug dbg, Dwarf_Debug tied, Dwarf_Error* e) {
    ENTER;
    if(!dbg) return error(e, 81, "DW_DLE_DBG_NULL: no object");
    dbg->tied = tied;
    return DW_DLV_OK;
}
Dwarf_Unsigned dwarf_errno(Dwarf_Error e) { return e ? e->n : 0; }
char* dwarf_errmsg(Dwarf_Error e) { static char none[] = "no error"; return e ? const_cast<char*>(e->m.c_str()) : none; }
void dwarf_dealloc_error(Dwarf_Debug, Dwarf_Error e) { delete e; }
void dwarf_dealloc(Dwarf_Debug dbg, void* p, Dwarf_Unsigned type) {
    Inside in;
    if(!p) return;
    if(!dbg) { problem("dwarf_dealloc without object"); return; }
    if(type == DW_DLA_ARANGE) { delete static_cast<Dwarf_Arange>(p); return; }
    if(type == DW_DLA_DIE) { delete static_cast<Dwarf_Die>(p); return; }
    if(type == DW_DLA_ATTR) { delete static_cast<Dwarf_Attribute>(p); return; }
    auto it = dbg->blocks.find(p);
    if(it == dbg->blocks.end()) { problem("dwarf_dealloc of something that was not handed out"); return; }
    if(it->second != type) problem("dwarf_dealloc with the wrong type");
    const char* k = it->second == DW_DLA_STRING ? "string" : "list";
    dbg->blocks.erase(it); dbg->live--; dbg->kinds[k]--; live--; kinds[k]--;
    std::free(p);
}
int dwarf_next_cu_header_d(Dwarf_Debug dbg, Dwarf_Bool info, Dwarf_Unsigned* length, Dwarf_Half* version, Dwarf_Off* abbrev, Dwarf_Half* asize, Dwarf_Half* lsize, Dwarf_Half* ext, Dwarf_Sig8* sig, Dwarf_Unsigned* typeoff, Dwarf_Unsigned* next, Dwarf_Half* type, Dwarf_Error* e) {
    ENTER;
    NEED(dbg);
    auto& v = dbg->o->units;
    long p = dbg->pos + 1;
    while(p < long(v.size()) && v[p]->types == bool(info)) p++;
    if(p >= long(v.size())) { dbg->pos = -1; return DW_DLV_NO_ENTRY; } // and starts over
    dbg->pos = p;
    auto& u = *v[p];
    if(length) *length = u.end - u.off - 4;
    if(version) *version = u.version;
    if(abbrev) *abbrev = 0;
    if(asize) *asize = 8;
    if(lsize) *lsize = 4;
    if(ext) *ext = 0;
    if(sig) std::memcpy(sig->signature, u.sig, 8);
    if(typeoff) *typeoff = 0;
    if(next) *next = u.end;
    if(type) *type = u.kind;
    return DW_DLV_OK;
}
int dwarf_siblingof_b(Dwarf_Debug dbg, Dwarf_Die die, Dwarf_Bool, Dwarf_Die* out, Dwarf_Error* e) {
    ENTER;
    NEED(dbg);
    if(!die) {
        if(dbg->pos < 0) return error(e, 904, "DW_DLE_DBG_NO_CU_CONTEXT: no unit");
        *out = new Dwarf_Die_s(dbg, &dbg->o->units[dbg->pos]->root);
        return DW_DLV_OK;
    }
    Die* d = die->die;
    if(!d->parent || d->at_parent + 1 >= d->parent->kids.size()) return DW_DLV_NO_ENTRY;
    *out = new Dwarf_Die_s(dbg, d->parent->kids[d->at_parent + 1].get());
    return DW_DLV_OK;
}
int dwarf_child(Dwarf_Die die, Dwarf_Die* out, Dwarf_Error* e) {
    ENTER;
    NEED(die);
    if(die->die->kids.empty()) return DW_DLV_NO_ENTRY;
    *out = new Dwarf_Die_s(die->dbg, die->die->kids[0].get());
    return DW_DLV_OK;
}
int dwarf_offdie_b(Dwarf_Debug dbg, Dwarf_Off off, Dwarf_Bool info, Dwarf_Die* out, Dwarf_Error* e) {
    ENTER;
    NEED(dbg);
    auto& m = info ? dbg->o->by_offset : dbg->o->by_offset_types;
    auto it = m.find(off);
    if(it == m.end()) return error(e, 905, "DW_DLE_OFFSET_BAD: no entry there");
    *out = new Dwarf_Die_s(dbg, it->second);
    return DW_DLV_OK;
}
int dwarf_find_die_given_sig8(Dwarf_Debug dbg, Dwarf_Sig8* sig, Dwarf_Die* out, Dwarf_Bool* info, Dwarf_Error* e) {
    ENTER;
    NEED(dbg);
    for(auto& u : dbg->o->units) if(u->sig_die && std::memcmp(u->sig, sig->signature, 8) == 0) { *out = new Dwarf_Die_s(dbg, u->sig_die); *info = !u->types; return DW_DLV_OK; }
    return DW_DLV_NO_ENTRY;
}
Dwarf_Bool dwarf_get_die_infotypes_flag(Dwarf_Die die) { return !die->die->unit->types; }
int dwarf_get_version_of_die(Dwarf_Die die, Dwarf_Half* version, Dwarf_Half* size) { if(!die) return DW_DLV_ERROR; *version = die->die->unit->version; *size = 4; return DW_DLV_OK; }
void dwarf_dealloc_die(Dwarf_Die die) { Inside in; delete die; }
int dwarf_tag(Dwarf_Die die, Dwarf_Half* tag, Dwarf_Error* e) { ENTER; NEED(die); *tag = die->die->tag; return DW_DLV_OK; }
int dwarf_dieoffset(Dwarf_Die die, Dwarf_Off* off, Dwarf_Error* e) { ENTER; NEED(die); *off = die->die->off; return DW_DLV_OK; }
int dwarf_die_CU_offset(Dwarf_Die die, Dwarf_Off* off, Dwarf_Error* e) { ENTER; NEED(die); *off = die->die->off - die->die->unit->off; return DW_DLV_OK; }
int dwarf_CU_dieoffset_given_die(Dwarf_Die die, Dwarf_Off* off, Dwarf_Error* e) { ENTER; NEED(die); *off = die->die->unit->root.off; return DW_DLV_OK; }
int dwarf_diename(Dwarf_Die die, char** name, Dwarf_Error* e) {
    ENTER; NEED(die); WHOLE(die->die);
    auto* a = die->die->get(DW_AT_name);
    if(!a) return DW_DLV_NO_ENTRY;
    *name = const_cast<char*>(a->s.c_str());
    return DW_DLV_OK;
}
int dwarf_hasattr(Dwarf_Die die, Dwarf_Half at, Dwarf_Bool* has, Dwarf_Error* e) { ENTER; NEED(die); WHOLE(die->die); *has = die->die->get(at) != nullptr; return DW_DLV_OK; }
int dwarf_attr(Dwarf_Die die, Dwarf_Half at, Dwarf_Attribute* out, Dwarf_Error* e) {
    ENTER; NEED(die); WHOLE(die->die);
    auto* a = die->die->get(at);
    if(!a) return DW_DLV_NO_ENTRY;
    *out = new Dwarf_Attribute_s(die->dbg, die->die, a);
    return DW_DLV_OK;
}
void dwarf_dealloc_attribute(Dwarf_Attribute a) { Inside in; delete a; }
int dwarf_whatform(Dwarf_Attribute a, Dwarf_Half* form, Dwarf_Error* e) { ENTER; NEED(a); *form = a->a->form; return DW_DLV_OK; }
int dwarf_formref(Dwarf_Attribute a, Dwarf_Off* off, Dwarf_Bool* info, Dwarf_Error* e) {
    ENTER; NEED(a);
    if(!local_ref(a->a->form)) return error(e, 114, "DW_DLE_BAD_REF_FORM: not a reference within the unit");
    *off = a->a->ref->off - a->die->unit->off;
    *info = !a->die->unit->types;
    return DW_DLV_OK;
}
int dwarf_global_formref(Dwarf_Attribute a, Dwarf_Off* off, Dwarf_Error* e) {
    ENTER; NEED(a);
    unsigned f = a->a->form;
    if(local_ref(f) || f == DW_FORM_ref_addr) *off = a->a->ref->off;
    else if(f == DW_FORM_sec_offset || f == DW_FORM_data4 || f == DW_FORM_data8) *off = a->a->u;
    else return error(e, 114, "DW_DLE_BAD_REF_FORM: not a reference");
    return DW_DLV_OK;
}
int dwarf_convert_to_global_offset(Dwarf_Attribute a, Dwarf_Off off, Dwarf_Off* out, Dwarf_Error* e) {
    ENTER; NEED(a);
    if(local_ref(a->a->form)) *out = off + a->die->unit->off;
    else if(a->a->form == DW_FORM_ref_addr) *out = off;
    else return error(e, 114, "DW_DLE_BAD_REF_FORM: not a reference");
    return DW_DLV_OK;
}
int dwarf_formsig8(Dwarf_Attribute a, Dwarf_Sig8* sig, Dwarf_Error* e) {
    ENTER; NEED(a);
    if(a->a->form != DW_FORM_ref_sig8) return DW_DLV_NO_ENTRY;
    std::memcpy(sig->signature, a->a->sig, 8);
    return DW_DLV_OK;
}
int dwarf_formstring(Dwarf_Attribute a, char** s, Dwarf_Error* e) {
    ENTER; NEED(a);
    if(!is_string(a->a->form)) return error(e, 114, "DW_DLE_STRING_FORM_IMPROPER: not a string");
    *s = const_cast<char*>(a->a->s.c_str());
    return DW_DLV_OK;
}
int dwarf_formudata(Dwarf_Attribute a, Dwarf_Unsigned* v, Dwarf_Error* e) {
    ENTER; NEED(a);
    if(!is_const(a->a->form)) return error(e, 114, "DW_DLE_ATTR_FORM_BAD: not a constant");
    *v = a->a->u;
    return DW_DLV_OK;
}
int dwarf_formsdata(Dwarf_Attribute a, Dwarf_Signed* v, Dwarf_Error* e) { Dwarf_Unsigned u = 0; int r = dwarf_formudata(a, &u, e); *v = static_cast<Dwarf_Signed>(u); return r; }
int dwarf_formaddr(Dwarf_Attribute a, Dwarf_Addr* v, Dwarf_Error* e) {
    ENTER; NEED(a);
    if(!is_addr(a->a->form)) return error(e, 114, "DW_DLE_ATTR_FORM_BAD: not an address");
    return address(a->dbg, a->die, a->a, v, e);
}
int dwarf_lowpc(Dwarf_Die die, Dwarf_Addr* v, Dwarf_Error* e) {
    ENTER; NEED(die); WHOLE(die->die);
    auto* a = die->die->get(DW_AT_low_pc);
    if(!a) return DW_DLV_NO_ENTRY;
    return address(die->dbg, die->die, a, v, e);
}
int dwarf_highpc_b(Dwarf_Die die, Dwarf_Addr* v, Dwarf_Half* form, enum Dwarf_Form_Class* cls, Dwarf_Error* e) {
    ENTER; NEED(die); WHOLE(die->die);
    auto* a = die->die->get(DW_AT_high_pc);
    if(!a) return DW_DLV_NO_ENTRY;
    if(form) *form = a->form;
    if(is_addr(a->form)) { if(cls) *cls = DW_FORM_CLASS_ADDRESS; return address(die->dbg, die->die, a, v, e); }
    if(cls) *cls = DW_FORM_CLASS_CONSTANT;
    *v = a->u;
    return DW_DLV_OK;
}
int dwarf_get_TAG_name(unsigned, const char** n) { *n = "DW_TAG"; return DW_DLV_OK; }
int dwarf_get_ranges_baseaddress(Dwarf_Debug dbg, Dwarf_Die die, Dwarf_Bool* known, Dwarf_Unsigned* base, Dwarf_Bool* at_ranges, Dwarf_Unsigned* off, Dwarf_Error* e) {
    ENTER; NEED(die);
    (void)dbg;
    *known = false; *base = 0;
    auto* r = die->die->get(DW_AT_ranges);
    if(at_ranges) *at_ranges = r != nullptr;
    if(off) *off = r ? r->u : 0;
    auto* a = die->die->unit->root.get(DW_AT_low_pc);
    if(a) { *known = true; *base = a->u; }
    return DW_DLV_OK;
}
int dwarf_get_ranges_b(Dwarf_Debug dbg, Dwarf_Off off, Dwarf_Die die, Dwarf_Off* final_off, Dwarf_Ranges** out, Dwarf_Signed* count, Dwarf_Unsigned* bytes, Dwarf_Error* e) {
    ENTER; NEED(dbg);
    auto* o = dbg->o.get();
    if(o->split && dbg->tied) { // the lists are in the linked file
        o = dbg->tied->o.get();
        if(auto* m = die ? o->full_or_skeleton(die->die->unit->dwo_id) : nullptr) off += m->ranges_base;
    }
    auto* list = o->ranges_at(off);
    if(!list) return error(e, 906, "DW_DLE_DEBUG_RANGES_OFFSET_BAD: no list there");
    auto n = list->size();
    auto* p = static_cast<Dwarf_Ranges*>(std::malloc(sizeof(Dwarf_Ranges) * (n + 1)));
    dbg->blocks[p] = DW_DLA_RANGES; dbg->live++; dbg->kinds["ranges"]++; live++; kinds["ranges"]++;
    for(std::size_t k = 0; k < n; k++) p[k] = {(*list)[k].a, (*list)[k].b, (*list)[k].type};
    *out = p; *count = n;
    if(final_off) *final_off = off;
    if(bytes) *bytes = n * 16;
    return DW_DLV_OK;
}
void dwarf_dealloc_ranges(Dwarf_Debug dbg, Dwarf_Ranges* p, Dwarf_Signed count) {
    Inside in;
    if(!p) return;
    auto it = dbg->blocks.find(p);
    if(it == dbg->blocks.end() || it->second != DW_DLA_RANGES) { problem("dwarf_dealloc_ranges of something else"); return; }
    (void)count;
    dbg->blocks.erase(it); dbg->live--; dbg->kinds["ranges"]--; live--; kinds["ranges"]--;
    std::free(p);
}
int dwarf_rnglists_get_rle_head(Dwarf_Attribute a, Dwarf_Half form, Dwarf_Unsigned v, Dwarf_Rnglists_Head* out, Dwarf_Unsigned* count, Dwarf_Unsigned* off, Dwarf_Error* e) {
    ENTER; NEED(a);
    std::vector<Range5>* l = nullptr;
    if(form == DW_FORM_rnglistx) { if(v < a->die->unit->rnglists.size()) l = &a->die->unit->rnglists[v]; }
    else { auto it = a->dbg->o->rnglists.find(v); if(it != a->dbg->o->rnglists.end()) l = &it->second; }
    if(!l) return error(e, 907, "DW_DLE_RNGLISTS_ERROR: no list there");
    *out = new Dwarf_Rnglists_Head_s(a->dbg, cooked(a->dbg->tied ? a->dbg->tied->o.get() : nullptr, a->die->unit, *l));
    *count = l->size();
    if(off) *off = v;
    return DW_DLV_OK;
}
int dwarf_get_rnglists_entry_fields_a(Dwarf_Rnglists_Head h, Dwarf_Unsigned k, unsigned* length, unsigned* rle, Dwarf_Unsigned* raw1, Dwarf_Unsigned* raw2, Dwarf_Bool* unavailable, Dwarf_Unsigned* c1, Dwarf_Unsigned* c2, Dwarf_Error* e) {
    ENTER; NEED(h);
    if(k >= h->v.size()) return DW_DLV_NO_ENTRY;
    auto& r = h->v[k];
    *length = 3; *rle = r.rle;
    *raw1 = r.a ^ 0x5555; *raw2 = r.b ^ 0x3333; // only the cooked values mean something
    *unavailable = r.unavailable;
    if(r.unavailable) { *c1 = 0; *c2 = ~0ull; } else { *c1 = r.a; *c2 = r.b; }
    return DW_DLV_OK;
}
void dwarf_dealloc_rnglists_head(Dwarf_Rnglists_Head h) { Inside in; delete h; }
int dwarf_get_aranges(Dwarf_Debug dbg, Dwarf_Arange** out, Dwarf_Signed* count, Dwarf_Error* e) {
    ENTER; NEED(dbg);
    if(!dbg->o->has_aranges) return DW_DLV_NO_ENTRY;
    auto n = dbg->o->aranges.size();
    auto* p = static_cast<Dwarf_Arange*>(list_block(dbg, n * sizeof(Dwarf_Arange)));
    for(std::size_t k = 0; k < n; k++) p[k] = new Dwarf_Arange_s(dbg, dbg->o->aranges[k]);
    *out = p; *count = n;
    return DW_DLV_OK;
}
int dwarf_get_arange(Dwarf_Arange* v, Dwarf_Unsigned n, Dwarf_Addr a, Dwarf_Arange* out, Dwarf_Error* e) {
    ENTER; NEED(v);
    for(Dwarf_Unsigned k = 0; k < n; k++) if(a >= v[k]->a.start && a < v[k]->a.start + v[k]->a.length) { *out = v[k]; return DW_DLV_OK; }
    return DW_DLV_NO_ENTRY;
}
int dwarf_get_cu_die_offset(Dwarf_Arange a, Dwarf_Off* off, Dwarf_Error* e) { ENTER; NEED(a); *off = a->a.unit->root.off; return DW_DLV_OK; }
int dwarf_srclines_b(Dwarf_Die die, Dwarf_Unsigned* version, Dwarf_Small* tables, Dwarf_Line_Context* out, Dwarf_Error* e) {
    ENTER; NEED(die); WHOLE(die->die);
    Unit& u = *die->die->unit;
    if(die->die != &u.root || !u.has_lines) return DW_DLV_NO_ENTRY;
    auto* c = new Dwarf_Line_Context_s(die->dbg);
    for(auto& r : u.rows) c->lines.push_back({die->dbg, &r});
    for(auto& l : c->lines) c->pointers.push_back(&l);
    *version = u.line_version; *tables = u.rows.empty() ? 0 : 1; *out = c;
    return DW_DLV_OK;
}
int dwarf_srclines_from_linecontext(Dwarf_Line_Context c, Dwarf_Line** v, Dwarf_Signed* n, Dwarf_Error* e) { ENTER; NEED(c); *v = c->pointers.data(); *n = c->pointers.size(); return DW_DLV_OK; }
int dwarf_srclines_two_level_from_linecontext(Dwarf_Line_Context c, Dwarf_Line** v, Dwarf_Signed* n, Dwarf_Line** v2, Dwarf_Signed* n2, Dwarf_Error* e) {
    ENTER; NEED(c);
    *v = c->pointers.data(); *n = c->pointers.size(); *v2 = nullptr; *n2 = 0;
    return DW_DLV_OK;
}
void dwarf_srclines_dealloc_b(Dwarf_Line_Context c) { Inside in; delete c; }
int dwarf_lineaddr(Dwarf_Line l, Dwarf_Addr* v, Dwarf_Error* e) { ENTER; NEED(l); *v = l->row->addr; return DW_DLV_OK; }
int dwarf_lineno(Dwarf_Line l, Dwarf_Unsigned* v, Dwarf_Error* e) { ENTER; NEED(l); *v = l->row->line; return DW_DLV_OK; }
int dwarf_lineoff_b(Dwarf_Line l, Dwarf_Unsigned* v, Dwarf_Error* e) { ENTER; NEED(l); *v = l->row->col; return DW_DLV_OK; }
int dwarf_linesrc(Dwarf_Line l, char** v, Dwarf_Error* e) { ENTER; NEED(l); *v = string_block(l->dbg, l->row->file); return DW_DLV_OK; }
int dwarf_lineendsequence(Dwarf_Line l, Dwarf_Bool* v, Dwarf_Error* e) { ENTER; NEED(l); *v = l->row->end; return DW_DLV_OK; }
int dwarf_linebeginstatement(Dwarf_Line l, Dwarf_Bool* v, Dwarf_Error* e) { ENTER; NEED(l); *v = true; return DW_DLV_OK; }
int dwarf_srcfiles(Dwarf_Die die, char*** v, Dwarf_Signed* n, Dwarf_Error* e) {
    ENTER; NEED(die); WHOLE(die->die);
    Unit& u = *die->die->unit;
    if(!u.has_lines) return DW_DLV_NO_ENTRY;
    auto* p = static_cast<char**>(list_block(die->dbg, u.files.size() * sizeof(char*)));
    for(std::size_t k = 0; k < u.files.size(); k++) p[k] = string_block(die->dbg, u.files[k]);
    *v = p; *n = u.files.size();
    return DW_DLV_OK;
}
}
