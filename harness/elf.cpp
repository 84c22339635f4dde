// P25 (ELF reader against a model), P26 (damaged images), P27 (JIT registry against a model)
#include "elfgen.hpp"

#include <cpptrace/cpptrace.hpp>
#include <cpptrace/gdb_jit.hpp>

#include "binary/elf.hpp"
#include "binary/module_base.hpp"
#include "jit/jit_objects.hpp"
#include "utils/utils.hpp"

#include <memory>
#include <set>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));

namespace cpptrace { namespace detail { extern "C" { jit_descriptor __jit_debug_descriptor = {1, 0, nullptr, nullptr}; } } }

namespace {
using vt::Case;
using eg::Image;
using cpptrace::detail::elf;
using u64 = std::uint64_t;

std::size_t biggest = 0;
bool watching = false;
void on_malloc(const volatile void*, std::size_t n) { if(watching && n > biggest) biggest = n; }
void on_free(const volatile void*) {}
void install() { static int once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void)once; }

struct Buffer { // exactly the image, so that any read outside is seen
    std::unique_ptr<char[]> p; std::size_t n;
    explicit Buffer(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), s.size()); }
    cpptrace::detail::cbspan span() const { return cpptrace::detail::cbspan(static_cast<const char*>(p.get()), n); }
};
std::string write_file(const std::string& data, const char* name) {
    std::string path = vt::scratch_dir() + "/" + name + std::to_string(::getpid());
    ::unlink(path.c_str());
    FILE* f = std::fopen(path.c_str(), "wb");
    std::fwrite(data.data(), 1, data.size(), f);
    std::fclose(f);
    return path;
}
u64 limit_of(const Image& im) { return im.is64 ? ~0ull : 0xffffffffull; }
std::vector<u64> interesting_pcs(const Image& im) {
    std::vector<u64> v{0, 1, im.base, im.base + 0x1000, limit_of(im), limit_of(im) - 1, ~0ull};
    for(auto* t : {&im.symtab, &im.dynsym}) for(auto& s : t->syms) for(u64 d : {u64(0), u64(-1), s.size, s.size - 1, s.size / 2, s.size + 1}) v.push_back(s.value + d);
    for(auto& t : im.texts) for(u64 d : {u64(0), u64(-1), t.size, t.size - 1, t.size / 2}) v.push_back(t.addr + d);
    return v;
}
std::set<std::string> covering(const Image& im, u64 pc) {
    std::set<std::string> r;
    for(auto* t : {&im.symtab, &im.dynsym}) if(t->present && t->linked) for(auto& s : t->syms) if(s.size && pc >= s.value && pc - s.value < s.size) r.insert(s.name);
    return r;
}
using Entry = std::tuple<u64, u64, unsigned, std::string>;
std::multiset<Entry> model_entries(const eg::Table& t) {
    std::multiset<Entry> r;
    for(auto& s : t.syms) if(s.size) r.insert(Entry{s.value, s.size, s.shndx, t.linked ? s.name : ""});
    return r;
}
std::string text_of(const std::multiset<Entry>& m) {
    std::ostringstream o;
    for(auto& e : m) o << " " << vt::quote(std::get<3>(e), 30) << "@" << std::hex << std::get<0>(e) << "+" << std::get<1>(e) << "#" << std::get<2>(e);
    return o.str();
}
template<typename R> void check_entries(Case& c, R&& res, const eg::Table& t, const char* what) {
    c.check(!res.is_error(), std::string(what) + ": reading the symbols failed");
    auto& v = res.unwrap_value();
    c.eq(v.has_value(), t.present, std::string(what) + " is present");
    if(!t.present) return;
    std::multiset<Entry> got;
    for(auto& e : v.unwrap()) if(e.st_size) got.insert(Entry{e.st_value, e.st_size, e.st_shndx, t.linked ? e.st_name : ""});
    auto want = model_entries(t);
    c.check(got == want, std::string(what) + " entries: got" + text_of(got) + ", expected" + text_of(want));
}
void query_and_check(Case& c, elf& e, const Image& im, const std::vector<u64>& pcs, unsigned op) {
    switch(op) {
        case 0: {
            auto b = e.get_module_image_base();
            c.check(!b.is_error(), "reading the load base failed");
            c.eq(u64(b.unwrap_value()), im.loads.empty() ? 0 : im.base, "load base");
            break;
        }
        case 1: {
            auto r = e.get_pc_ranges();
            c.check(!r.is_error(), "reading the pc ranges failed");
            std::multiset<std::pair<u64, u64>> got, want;
            for(auto& x : r.unwrap_value()) if(x.low != x.high) got.insert({x.low, x.high});
            for(auto& t : im.texts) if(t.name == ".text" && t.size) want.insert({t.addr, t.addr + t.size});
            c.check(got == want, "pc ranges differ: got " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()));
            break;
        }
        case 2: check_entries(c, e.get_symtab_entries(), im.symtab, "symtab"); break;
        case 3: check_entries(c, e.get_dynamic_symtab_entries(), im.dynsym, "dynsym"); break;
        default: {
            u64 pc = c.chance(1, 8) ? (c.flip() ? c.draw(~0ull) : c.draw(limit_of(im))) : c.pick(pcs);
            auto r = e.lookup_symbol(pc);
            auto want = covering(im, pc);
            std::ostringstream o;
            o << "symbol at 0x" << std::hex << pc;
            if(want.empty()) c.check(!r.has_value(), o.str() + ": got " + (r.has_value() ? vt::quote(r.unwrap()) : "") + " but no symbol covers it");
            else {
                c.check(r.has_value(), o.str() + ": nothing found, expected " + vt::quote(*want.begin()));
                c.check(want.count(r.unwrap()) == 1, o.str() + ": got " + vt::quote(r.unwrap()) + ", expected " + vt::quote(*want.begin()));
                c.event("covered");
            }
        }
    }
}
VT_PROP(elf_model, "an image with a symbol table that has at least two sized symbols") {
    Image im = eg::draw_image(c);
    c.line(eg::describe(im));
    eg::Writer w(im);
    std::string data = w.write();
    Buffer buf(data);
    bool on_disk = c.chance(1, 3);
    std::string path = on_disk ? write_file(data, "elf") : "";
    auto mem = elf::open(buf.span());
    c.check(!mem.is_error(), "opening the image in memory failed");
    std::vector<elf*> handles{&mem.unwrap_value()};
    std::unique_ptr<elf> disk;
    if(on_disk) {
        auto d = elf::open(cpptrace::detail::cstring_view(path));
        c.check(!d.is_error(), "opening the image file failed");
        disk.reset(new elf(std::move(d).unwrap_value()));
        handles.push_back(disk.get());
    }
    auto pcs = interesting_pcs(im);
    std::size_t n = 1 + c.below(24);
    for(std::size_t i = 0; i < n; i++) query_and_check(c, *handles[c.below(handles.size())], im, pcs, unsigned(c.below(9)));
    if(on_disk) { ::unlink(path.c_str()); c.event("on disk"); }
    c.event(im.is64 ? "64-bit" : "32-bit");
    c.event(im.little ? "little endian" : "big endian");
    std::size_t sized = 0;
    for(auto* t : {&im.symtab, &im.dynsym}) if(t->present) for(auto& s : t->syms) sized += s.size != 0;
    c.nontrivial(sized >= 2);
}

// ---------------------------------------------------------------------------------------------------------- P26
std::string damage(Case& c, const Image& im, eg::Writer& w, std::string d) {
    std::size_t n = 1 + c.below(4);
    for(std::size_t i = 0; i < n && !d.empty(); i++) {
        switch(c.below(8)) {
            case 0: { std::size_t k = c.chance(1, 2) ? c.below(d.size() + 1) : d.size() - std::min<std::size_t>(d.size(), c.below(80)); d.resize(k); c.line("cut to " + std::to_string(k)); break; }
            case 1: { std::size_t p = c.below(d.size()); d[p] = char(c.below(256)); c.line("byte " + std::to_string(p)); break; }
            case 2: { std::size_t p = c.below(std::min<std::size_t>(d.size(), 64)); d[p] = char(c.below(256)); c.line("header byte " + std::to_string(p)); break; }
            default: {
                const eg::Field& f = w.fields[c.below(w.fields.size())];
                u64 v;
                u64 max = f.width == 8 ? ~0ull : (1ull << (8 * f.width)) - 1;
                switch(c.below(7)) {
                    case 0: v = 0; break;
                    case 1: v = max - c.below(64); break;
                    case 2: v = (max >> 1) + c.below(3) - 1; break;
                    case 3: v = d.size() + c.below(5) - 2; break;
                    case 4: v = c.below(d.size() + 1); break;
                    case 5: v = c.pick({u64(24), u64(16), u64(64), u64(40), u64(1) << 20, u64(1) << 30, u64(1) << 33, u64(1) << 40, u64(1) << 62, u64(SHT_STRTAB), u64(SHT_SYMTAB), u64(SHT_DYNSYM), u64(SHT_NOBITS)}); break;
                    default: v = c.draw(max); break;
                }
                if(f.off + f.width <= d.size()) for(unsigned k = 0; k < f.width; k++) d[f.off + (im.little ? k : f.width - 1 - k)] = char(v >> (8 * k));
                std::ostringstream o;
                o << f.what << " at " << f.off << " := 0x" << std::hex << (v & max);
                c.line(o.str());
            }
        }
    }
    return d;
}
void poke(Case& c, elf& e, const std::vector<u64>& pcs, std::size_t ops) {
    for(std::size_t i = 0; i < ops; i++) switch(c.below(8)) {
        case 0: { auto r = e.get_module_image_base(); c.event(r.is_error() ? "base: error" : "base: value"); break; }
        case 1: { auto r = e.get_pc_ranges(); c.event(r.is_error() ? "ranges: error" : "ranges: value"); break; }
        case 2: { auto r = e.get_symtab_entries(); c.event(r.is_error() ? "symtab: error" : "symtab: value"); break; }
        case 3: { auto r = e.get_dynamic_symtab_entries(); c.event(r.is_error() ? "dynsym: error" : "dynsym: value"); break; }
        default: {
            auto r = e.lookup_symbol(c.chance(1, 8) ? c.draw(~0ull) : c.pick(pcs));
            if(r.has_value()) { volatile std::size_t n = std::strlen(r.unwrap().c_str()); (void)n; }
            c.event(r.has_value() ? "lookup: found" : "lookup: none");
        }
    }
}
VT_PROP(elf_damage, "a damaged image that still opens as an object") {
    install();
    Image im = eg::draw_image(c);
    eg::Writer w(im);
    std::string good = w.write();
    std::string bad;
    if(c.chance(1, 10)) { bad = c.bytes(200); if(c.flip()) bad = std::string("\x7f" "ELF") + char(1 + c.below(2)) + char(1 + c.below(2)) + "\x01" + bad; }
    else { c.line(eg::describe(im)); bad = damage(c, im, w, good); }
    c.line("image of " + std::to_string(bad.size()) + " bytes");
    auto pcs = interesting_pcs(im);
    Buffer good_buf(good), bad_buf(bad);
    bool opened = false;
    std::string path;
    biggest = 0;
    std::size_t ops = 1 + c.below(12);
    unsigned how = unsigned(c.below(4));
    if(how == 1 || how == 2) path = write_file(bad, "bad");
    auto intact = elf::open(good_buf.span());
    c.check(!intact.is_error(), "opening an intact image failed");
    query_and_check(c, intact.unwrap_value(), im, pcs, unsigned(c.below(9)));
    watching = true;
    if(how == 1) {
        auto r = elf::open(cpptrace::detail::cstring_view(path));
        opened = !r.is_error();
        if(opened) poke(c, r.unwrap_value(), pcs, ops);
    } else if(how == 2) {
        cpptrace::experimental::set_cache_mode(c.flip() ? cpptrace::cache_mode::prioritize_memory : cpptrace::cache_mode::hybrid);
        // a fresh name for every case: opened objects are remembered by name
        std::string unique = path + "." + std::to_string(c.index) + "." + std::to_string(c.draw(~0ull));
        std::rename(path.c_str(), unique.c_str());
        path = unique;
        for(int i = 0; i < 2; i++) {
            auto r = cpptrace::detail::open_elf_cached(path);
            opened = !r.is_error();
            if(opened) poke(c, *r.unwrap_value(), pcs, ops / 2 + 1);
        }
        auto b = cpptrace::detail::get_module_image_base(path);
        (void)b.is_error();
    } else if(how == 3) {
        cpptrace::absorb_trace_exceptions(true);
        cpptrace::register_jit_object(bad_buf.p.get(), bad_buf.n);
        for(std::size_t i = 0; i < ops; i++) {
            auto r = cpptrace::detail::lookup_jit_object(c.pick(pcs));
            if(r.has_value()) { opened = true; poke(c, r.unwrap().object, pcs, 1); }
        }
        cpptrace::unregister_jit_object(bad_buf.p.get());
        cpptrace::clear_all_jit_objects();
    } else {
        auto r = elf::open(bad_buf.span());
        opened = !r.is_error();
        if(opened) poke(c, r.unwrap_value(), pcs, ops);
    }
    watching = false;
    if(!path.empty()) ::unlink(path.c_str());
    std::size_t bound = (std::size_t(4) << 20) + 64 * bad.size();
    c.check(biggest <= bound, "a block of " + std::to_string(biggest) + " bytes was allocated for an image of " + std::to_string(bad.size()) + " bytes");
    query_and_check(c, intact.unwrap_value(), im, pcs, unsigned(c.below(9)));
    auto again = elf::open(good_buf.span());
    c.check(!again.is_error(), "opening an intact image failed afterwards");
    query_and_check(c, again.unwrap_value(), im, pcs, unsigned(c.below(9)));
    c.event(how == 0 ? "memory" : how == 1 ? "file" : how == 2 ? "cached file" : "jit");
    c.nontrivial(opened && bad != good);
}

// ---------------------------------------------------------------------------------------------------------- P27
VT_PROP(jit_registry, "a history with a lookup that finds an object after an unregistration or re-registration") {
    cpptrace::clear_all_jit_objects();
    struct Slot { std::vector<char> mem; Image im; bool valid = false; };
    struct Reg { int slot; Image im; };
    const int slots = 6;
    std::vector<std::unique_ptr<Slot>> slot(slots);
    std::map<int, Image> live; // by slot
    std::vector<cpptrace::detail::jit_code_entry> list(slots);
    bool interesting = false, removed = false;
    auto window = [&](int i) { return u64(0x10000 + i * 0x1000); };
    // a slot's buffer stays where it is; what is written there may change while it is not registered
    auto fill = [&](int i) {
        if(!slot[i]) { slot[i].reset(new Slot); slot[i]->mem.resize(20000); }
        Image im = eg::draw_image(c, window(i), 0x1000);
        if(c.chance(1, 6)) im.texts.push_back({".text", window(int(c.below(slots))) + c.below(0x1000), 0}); // code elsewhere, as with one section per function
        eg::Writer w(im);
        std::string d = w.write();
        slot[i]->valid = true;
        if(c.chance(1, 8)) { d[c.below(7)] ^= 0x40; slot[i]->valid = false; } // magic, class (nonsense), data, version
        if(d.size() > slot[i]->mem.size()) c.discard();
        if(!slot[i]->valid) d.assign("not an object");
        std::copy(d.begin(), d.end(), slot[i]->mem.begin());
        slot[i]->im = im;
        return d.size();
    };
    std::vector<std::size_t> size(slots, 0);
    auto check_lookup = [&](u64 pc) {
        auto r = cpptrace::detail::lookup_jit_object(pc);
        int want = -1;
        u64 low = 0;
        for(auto& kv : live) for(auto& t : kv.second.texts) if(t.name == ".text" && pc >= t.addr && pc - t.addr < t.size) { want = kv.first; low = t.addr; }
        std::ostringstream o;
        o << "lookup of 0x" << std::hex << pc;
        if(want < 0) c.check(!r.has_value(), o.str() + ": found an object, but no registered object contains it");
        else {
            c.check(r.has_value(), o.str() + ": not found, expected the object of slot " + std::to_string(want));
            c.eq(u64(r.unwrap().base), low, o.str() + ": base");
            // is it that object? its symbols tell
            auto pcs = interesting_pcs(live[want]);
            for(int k = 0; k < 3; k++) query_and_check(c, r.unwrap().object, live[want], pcs, unsigned(c.below(9)));
            c.event("found");
            if(removed) interesting = true;
        }
    };
    std::size_t n = 1 + c.below(40);
    for(std::size_t step = 0; step < n; step++) {
        int i = int(c.below(slots));
        switch(c.below(10)) {
            case 0: case 1: case 2: { // register (again)
                if(!live.count(i)) size[i] = fill(i);
                else { removed = true; if(c.flip()) { cpptrace::unregister_jit_object(slot[i]->mem.data()); live.erase(i); c.line("unregister " + std::to_string(i)); size[i] = fill(i); } }
                c.line("register " + std::to_string(i) + (slot[i]->valid ? " " + eg::describe(slot[i]->im) : " (invalid)"));
                bool absorb = c.chance(3, 4);
                cpptrace::absorb_trace_exceptions(absorb);
                bool threw = false;
                try { cpptrace::register_jit_object(slot[i]->mem.data(), size[i]); } catch(const std::exception&) { threw = true; }
                cpptrace::absorb_trace_exceptions(true);
                if(slot[i]->valid) { c.check(!threw, "registering a valid object threw"); live[i] = slot[i]->im; }
                else c.check(!(threw && absorb), "registering an invalid object threw although failures are absorbed");
                break;
            }
            case 3: {
                c.line("unregister " + std::to_string(i));
                if(slot[i]) cpptrace::unregister_jit_object(slot[i]->mem.data());
                else cpptrace::unregister_jit_object(reinterpret_cast<const char*>(&live));
                live.erase(i);
                removed = true;
                break;
            }
            case 4: if(c.chance(1, 4)) { c.line("clear"); cpptrace::clear_all_jit_objects(); live.clear(); removed = true; } break;
            case 5: if(c.chance(1, 3)) { // the GDB list: everything not on it is forgotten
                std::vector<int> on;
                for(int k = 0; k < slots; k++) if(c.flip()) on.push_back(k);
                cpptrace::clear_all_jit_objects();
                live.clear();
                cpptrace::detail::jit_code_entry* prev = nullptr;
                cpptrace::detail::__jit_debug_descriptor.first_entry = nullptr;
                for(int k : on) {
                    size[k] = fill(k);
                    list[k] = {nullptr, prev, slot[k]->mem.data(), size[k]};
                    (prev ? prev->next_entry : cpptrace::detail::__jit_debug_descriptor.first_entry) = &list[k];
                    prev = &list[k];
                    if(slot[k]->valid) live[k] = slot[k]->im;
                }
                c.line("gdb list of " + std::to_string(on.size()));
                if(c.flip() && slot[i] && std::find(on.begin(), on.end(), i) == on.end()) cpptrace::register_jit_object(slot[i]->mem.data(), size[i]); // not on the list
                cpptrace::experimental::register_jit_objects_from_gdb_jit_interface();
                removed = true;
                break;
            }
            // fallthrough
            default: {
                u64 pc = c.chance(1, 10) ? c.draw(~0ull) : window(i) + c.below(0x1000);
                if(slot[i] && c.flip()) { auto& t = c.pick(slot[i]->im.texts); pc = t.addr + (c.flip() ? c.pick({u64(0), u64(-1), t.size, t.size - 1}) : c.below(t.size + 1)); }
                check_lookup(pc);
            }
        }
    }
    for(auto& kv : live) for(auto& t : kv.second.texts) { check_lookup(t.addr); check_lookup(t.addr + t.size); }
    cpptrace::clear_all_jit_objects();
    for(auto& kv : live) for(auto& t : kv.second.texts) c.check(!cpptrace::detail::lookup_jit_object(t.addr).has_value(), "an object was found after clearing");
    c.nontrivial(interesting);
}
}
