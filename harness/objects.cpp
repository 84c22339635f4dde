// P04: addresses to objects and file-relative addresses, through histories of loading and unloading
#include "vt.hpp"

#include <cpptrace/cpptrace.hpp>
#include <ctrace/ctrace.h>

#include <algorithm>
#include <climits>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
using vt::Case;
using u64 = std::uint64_t;
using Ptr = cpptrace::frame_ptr;

std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = std::fopen(p.c_str(), "rb");
    if(!f) return s;
    char b[65536];
    for(std::size_t n; (n = std::fread(b, 1, sizeof b, f)) > 0;) s.append(b, n);
    std::fclose(f);
    return s;
}
void spit(const std::string& p, const std::string& s) {
    ::unlink(p.c_str());
    FILE* f = std::fopen(p.c_str(), "wb");
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
}
struct Seg { u64 vaddr, off, filesz, memsz; unsigned flags; };
struct Image { std::string bytes; std::vector<Seg> loads; };
Image parse(const std::string& bytes) {
    Image im;
    im.bytes = bytes;
    if(bytes.size() < sizeof(Elf64_Ehdr) || std::memcmp(bytes.data(), "\x7f" "ELF", 4)) return im;
    Elf64_Ehdr h;
    std::memcpy(&h, bytes.data(), sizeof h);
    for(unsigned i = 0; i < h.e_phnum; i++) {
        Elf64_Phdr p;
        std::memcpy(&p, bytes.data() + h.e_phoff + i * h.e_phentsize, sizeof p);
        if(p.p_type == PT_LOAD) im.loads.push_back({p.p_vaddr, p.p_offset, p.p_filesz, p.p_memsz, p.p_flags});
    }
    return im;
}

// objects of many layouts, made once per run by the toolchain
const std::vector<Image>& templates() {
    static std::vector<Image> v = [] {
        std::string dir = vt::scratch_dir() + "/templates", tmp = dir + "." + std::to_string(::getpid());
        int lock = ::open((dir + ".lock").c_str(), O_CREAT | O_RDWR, 0644);
        ::flock(lock, LOCK_EX);
        const char* link[] = {"", "-Wl,-Ttext-segment=0x10000000", "-Wl,-z,noseparate-code", "-Wl,-z,max-page-size=0x10000", "-Wl,-Ttext-segment=0x7000000000 -Wl,-z,separate-code", "-Wl,--hash-style=sysv -s", "-fuse-ld=lld -Wl,-z,separate-loadable-segments",
            "-fuse-ld=lld", "-Wl,-Ttext-segment=0x3000 -Wl,-z,noseparate-code", "-fuse-ld=gold"};
        struct stat sb;
        if(::stat(dir.c_str(), &sb) != 0) {
            ::mkdir(tmp.c_str(), 0755);
            std::string all;
            int k = 0;
            for(auto l : link) {
                std::string src = tmp + "/s" + std::to_string(k) + ".c", code = "static int q(int x) { volatile int a[40]; for(int i = 0; i < 40; i++) a[i] = i * x; return a[x % 40]; }\nint data[" + std::to_string(100 + 3000 * k) + "] = {1, 2, 3}; int bss[" + std::to_string(50 + 4000 * (k % 3)) + "];\n"
                    "int fn(int x) { return q(x) + data[1] + bss[2]; }\nint fn2(int x) { if(x > 3) return fn(x - 1) + 3; return q(x * 2); }\n";
                for(int i = 0; i < 10 + 30 * k; i++) code += "int pad" + std::to_string(i) + "(int x) { return x * " + std::to_string(i + 3) + " + fn(x); }\n";
                spit(src, code);
                all += "gcc -w -shared -fPIC -nostdlib -O1 -Wl,-Bsymbolic " + std::string(l) + " " + src + " -o " + tmp + "/t" + std::to_string(k++) + " >/dev/null 2>&1 & ";
            }
            (void)!std::system((all + "wait").c_str());
            if(::rename(tmp.c_str(), dir.c_str()) != 0) { for(int i = 0; i < 20; i++) { ::unlink((tmp + "/t" + std::to_string(i)).c_str()); ::unlink((tmp + "/s" + std::to_string(i) + ".c").c_str()); }  ::rmdir(tmp.c_str()); }
        }
        ::close(lock);
        std::vector<Image> r;
        for(int i = 0; i < 10; i++) {
            std::string b = slurp(dir + "/t" + std::to_string(i)); // not every linker may be there
            if(!b.empty()) r.push_back(parse(b));
        }
        return r;
    }();
    return v;
}

// what the loader has mapped, from /proc/self/maps
struct Mapping { u64 lo, hi, off; bool x, r; std::string path; };
std::vector<Mapping> maps() {
    std::vector<Mapping> v;
    FILE* f = std::fopen("/proc/self/maps", "r");
    char line[8192];
    while(std::fgets(line, sizeof line, f)) {
        unsigned long lo, hi, off;
        char perm[8];
        int n = 0;
        if(std::sscanf(line, "%lx-%lx %7s %lx %*s %*s %n", &lo, &hi, perm, &off, &n) < 4) continue;
        std::string path = line + n;
        while(!path.empty() && path.back() == '\n') path.pop_back();
        v.push_back({lo, hi, off, perm[2] == 'x', perm[0] == 'r', path});
    }
    std::fclose(f);
    return v;
}
struct Answer { bool known = false; std::string path; u64 address = 0; };
std::string hex(u64 p) { std::ostringstream o; o << "0x" << std::hex << p; return o.str(); }
std::string text(const cpptrace::object_frame& f) { return "{" + hex(f.raw_address) + ", " + hex(f.object_address) + ", " + vt::quote(f.object_path, 200) + "}"; }

struct Slot {
    std::string path;       // as given to the loader
    std::string real;       // where it is
    int tmpl = -1;          // what the file contains now
    void* handle = nullptr;
    const Image* image = nullptr; // what is loaded
    u64 bias = 0;
    bool unlinked = false;
};
int in_exe(int x) { return x * 3 + 1; }

// every way to ask about an address; all must agree with the expectation
void ask(Case& c, const std::vector<Ptr>& addrs, const std::vector<Answer>& want, const std::vector<std::string>& what) {
    cpptrace::raw_trace raw;
    raw.frames = addrs;
    auto o = raw.resolve_object_trace();
    c.eq(o.frames.size(), addrs.size(), "frames of the object trace");
    ctrace_raw_trace craw{const_cast<Ptr*>(addrs.data()), addrs.size()};
    auto co = ctrace_resolve_raw_trace_to_object_trace(&craw);
    c.eq(co.count, addrs.size(), "frames of the C object trace");
    for(std::size_t i = 0; i < addrs.size(); i++) {
        auto& f = o.frames[i];
        std::string ctx = what[i] + " " + hex(addrs[i]) + ": got " + text(f);
        c.eq(f.raw_address, addrs[i], ctx + ": raw address");
        if(want[i].known) {
            c.check(f.object_path == want[i].path && f.object_address == want[i].address, ctx + ", expected " + hex(want[i].address) + " in " + vt::quote(want[i].path));
        }
        c.check(co.frames[i].raw_address == f.raw_address && co.frames[i].obj_address == f.object_address && co.frames[i].obj_path && f.object_path == co.frames[i].obj_path, ctx + ", from C " + hex(co.frames[i].obj_address) + " in " + (co.frames[i].obj_path ? co.frames[i].obj_path : "(null)"));
        cpptrace::stacktrace_frame sf{};
        sf.raw_address = addrs[i];
        sf.object_address = 0x1234; // must not matter
        auto g = sf.get_object_info();
        c.check(g.raw_address == f.raw_address && g.object_address == f.object_address && g.object_path == f.object_path, ctx + ", from get_object_info " + text(g));
        ctrace_stacktrace_frame csf{};
        csf.raw_address = addrs[i];
        auto cg = ctrace_get_object_info(&csf);
        c.check(cg.raw_address == f.raw_address && cg.obj_address == f.object_address && cg.obj_path && f.object_path == cg.obj_path, ctx + ", from ctrace_get_object_info " + hex(cg.obj_address));
        ctrace_owning_string owned{cg.obj_path};
        ctrace_free_owning_string(&owned);
        if(cpptrace::can_get_safe_object_frame()) {
            static cpptrace::safe_object_frame s;
            std::memset(&s, 0x5a, sizeof s);
            cpptrace::get_safe_object_frame(addrs[i], &s);
            c.check(std::memchr(s.object_path, 0, sizeof s.object_path) != nullptr, ctx + ": unterminated path in the safe object frame");
            auto r = s.resolve();
            c.check(r.raw_address == f.raw_address && r.object_address == f.object_address && r.object_path == f.object_path, ctx + ", from the safe object frame " + text(r));
            static ctrace_safe_object_frame cs;
            std::memset(&cs, 0x5b, sizeof cs);
            ctrace_get_safe_object_frame(addrs[i], &cs);
            c.check(cs.raw_address == s.raw_address && cs.relative_obj_address == s.address_relative_to_object_start && std::strcmp(cs.object_path, s.object_path) == 0, ctx + ": the C safe object frame differs");
        } else { // then it must not look like one
            static cpptrace::safe_object_frame s;
            std::memset(&s, 0x5a, sizeof s);
            cpptrace::get_safe_object_frame(addrs[i], &s);
            c.check(s.raw_address == addrs[i] && s.address_relative_to_object_start == 0 && s.object_path[0] == 0, ctx + ": a signal-safe lookup works though it is said not to be available");
        }
    }
    ctrace_free_object_trace(&co);
}

std::string self_path() {
    static std::string p = [] { char b[PATH_MAX + 1] = {}; ::readlink("/proc/self/exe", b, PATH_MAX); return std::string(b); }();
    return p;
}

VT_PROP(object_history, "lookups in at least two loaded objects and one lookup after an unload, or in three or more objects") {
    auto& T = templates();
    if(T.size() < 5) c.fail("harness: the toolchain did not produce the test objects");
    std::string base = vt::scratch_dir() + "/o" + std::to_string(::getpid());
    ::mkdir(base.c_str(), 0755);
    std::size_t n_slots = 1 + c.below(5);
    std::vector<Slot> slots(n_slots);
    const char* names[] = {"liba.so", "with space.so", "lib b:c.so", "\xc3\xa9t\xc3\xa9.so", "plugin"};
    for(std::size_t i = 0; i < n_slots; i++) {
        std::string dir = base;
        switch(c.below(5)) {
            case 0: dir += "/sub dir"; break;
            case 1: dir += "/" + std::string(1 + c.below(200), 'd'); break;
            case 2: { for(u64 k = c.below(12); k-- > 0;) { dir += "/" + std::string(200, 'n'); ::mkdir(dir.c_str(), 0755); } break; } // long paths
            default: break;
        }
        ::mkdir(dir.c_str(), 0755);
        slots[i].path = slots[i].real = dir + "/" + std::to_string(i) + names[c.below(5)];
        if(c.chance(1, 6)) { // through a symbolic link
            std::string link = base + "/link" + std::to_string(i);
            ::unlink(link.c_str());
            if(::symlink(slots[i].real.c_str(), link.c_str()) == 0) slots[i].path = link;
        }
        slots[i].tmpl = int(c.below(T.size()));
        spit(slots[i].real, T[slots[i].tmpl].bytes);
    }
    std::vector<std::pair<Ptr, int>> gone; // addresses of unloaded objects
    void* anon = ::mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    std::size_t ops = 4 + c.below(c.thorough ? 40 : 24);
    int looked = 0, looked_gone = 0;
    std::vector<bool> seen(n_slots);
    bool absorb = c.flip();
    cpptrace::absorb_trace_exceptions(absorb);
    try {
        for(std::size_t op = 0; op < ops; op++) {
            auto k = c.below(n_slots);
            Slot& s = slots[k];
            switch(c.weighted({6, 2, 2, 1, 6})) {
                case 0: { // load
                    if(s.handle || s.unlinked) break;
                    bool own_namespace = c.chance(1, 12);
                    s.handle = own_namespace ? ::dlmopen(LM_ID_NEWLM, s.path.c_str(), RTLD_NOW) : ::dlopen(s.path.c_str(), RTLD_NOW | (c.flip() ? RTLD_GLOBAL : RTLD_LOCAL));
                    if(!s.handle) { if(own_namespace) break; c.fail(std::string("harness: dlopen failed: ") + ::dlerror()); }
                    s.image = &T[s.tmpl];
                    // where it went, from the kernel's view of the mappings
                    auto fn = u64(::dlsym(s.handle, "fn"));
                    auto ms = maps();
                    auto m = std::find_if(ms.begin(), ms.end(), [&](const Mapping& m) { return fn >= m.lo && fn < m.hi; });
                    if(m == ms.end()) c.fail("harness: no mapping");
                    u64 off = fn - m->lo + m->off;
                    auto sg = std::find_if(s.image->loads.begin(), s.image->loads.end(), [&](const Seg& g) { return (g.flags & PF_X) && off >= g.off && off < g.off + g.filesz; });
                    if(sg == s.image->loads.end()) c.fail("harness: no segment");
                    s.bias = fn - (off - sg->off + sg->vaddr);
                    c.line("load " + std::to_string(k) + " (layout " + std::to_string(s.tmpl) + ") at bias " + (s.bias ? "nonzero" : "0"));
                    c.event(own_namespace ? "dlmopen" : "dlopen");
                    break;
                }
                case 1: { // unload
                    if(!s.handle) break;
                    for(auto& g : s.image->loads) if(g.flags & PF_X) gone.push_back({s.bias + g.vaddr + c.below(g.filesz), int(k)});
                    ::dlclose(s.handle);
                    s.handle = nullptr;
                    s.image = nullptr;
                    c.line("unload " + std::to_string(k));
                    c.event("dlclose");
                    break;
                }
                case 2: { // another object under the same name
                    if(s.handle) break;
                    s.tmpl = int(c.below(T.size()));
                    spit(s.real, T[s.tmpl].bytes);
                    s.unlinked = false;
                    c.line("replace " + std::to_string(k) + " by layout " + std::to_string(s.tmpl));
                    c.event("file replaced");
                    break;
                }
                case 3: {
                    if(!s.handle || c.chance(2, 3)) break;
                    ::unlink(s.real.c_str());
                    s.unlinked = true;
                    c.line("delete the file of " + std::to_string(k));
                    c.event("file deleted");
                    break;
                }
                default: {
                    std::vector<Ptr> addrs;
                    std::vector<Answer> want;
                    std::vector<std::string> what;
                    std::size_t n = 1 + c.below(8);
                    auto put = [&](Ptr a, Answer w, const std::string& t) { addrs.push_back(a); want.push_back(w); what.push_back(t); };
                    for(std::size_t i = 0; i < n; i++) {
                        switch(c.weighted({8, 2, 2, 1, 1, 2, 1, 1})) {
                            case 0: {
                                auto q = c.below(n_slots);
                                Slot& t = slots[q];
                                if(!t.handle) break;
                                auto& g = t.image->loads[c.below(t.image->loads.size())];
                                u64 span = g.flags & PF_X ? g.filesz : g.memsz;
                                u64 v = c.chance(1, 4) ? 0 : c.chance(1, 4) ? span - 1 : c.below(span);
                                u64 a = t.bias + g.vaddr + v;
                                if((g.flags & PF_X) && std::memcmp(reinterpret_cast<const void*>(a), t.image->bytes.data() + g.off + v, 1) != 0) c.fail("harness: the loaded byte differs from the file's");
                                put(a, {true, t.path, g.vaddr + v}, "address in object " + std::to_string(q));
                                if(!seen[q]) { seen[q] = true; looked++; }
                                c.event(g.flags & PF_X ? "code address" : "data address");
                                break;
                            }
                            case 1: {
                                auto a = Ptr(&in_exe) + c.below(8);
                                static Image self = parse(slurp(self_path()));
                                auto ms = maps();
                                auto m = std::find_if(ms.begin(), ms.end(), [&](const Mapping& m) { return a >= m.lo && a < m.hi; });
                                u64 off = a - m->lo + m->off;
                                for(auto& g : self.loads) if((g.flags & PF_X) && off >= g.off && off < g.off + g.filesz) put(a, {true, self_path(), off - g.off + g.vaddr}, "address in the executable");
                                c.event("executable");
                                break;
                            }
                            case 2: { // some code in some library of the process
                                auto ms = maps();
                                std::vector<Mapping> xs;
                                for(auto& m : ms) if(m.x && !m.path.empty() && m.path[0] == '/' && m.path.find(vt::scratch_dir()) == std::string::npos && m.path.find(".so") != std::string::npos) xs.push_back(m);
                                if(xs.empty()) break;
                                auto& m = xs[c.below(xs.size())];
                                static std::map<std::string, Image> images;
                                if(!images.count(m.path)) images[m.path] = parse(slurp(m.path));
                                for(auto& g : images[m.path].loads) if((g.flags & PF_X) && m.off >= (g.off & ~u64(4095)) && m.off < g.off + g.filesz) {
                                    u64 span = std::min(m.hi - m.lo, g.off + g.filesz - m.off), d = c.below(span), a = m.lo + d;
                                    if(m.off + d < g.off) break;
                                    // the loader may have been given another name for the file
                                    Answer w{true, "", m.off + d - g.off + g.vaddr};
                                    Dl_info info;
                                    char real[PATH_MAX + 1];
                                    if(::dladdr(reinterpret_cast<void*>(a), &info) && info.dli_fname && ::realpath(info.dli_fname, real) && m.path == real) w.path = info.dli_fname; else w.known = false;
                                    put(a, w, "address in " + m.path);
                                    break;
                                }
                                c.event("system library");
                                break;
                            }
                            case 3: put(Ptr(anon) + c.below(8192), {true, "", 0}, "anonymous memory"); break;
                            case 4: { int local; put(Ptr(&local), {true, "", 0}, "stack address"); break; }
                            case 5: {
                                if(gone.empty()) break;
                                auto g = gone[c.below(gone.size())];
                                bool mapped = false;
                                for(auto& m : maps()) if(g.first >= m.lo && g.first < m.hi) mapped = true;
                                if(mapped) { // something else moved in
                                    bool ours = false;
                                    for(auto& t : slots) if(t.handle) for(auto& sg : t.image->loads) if(g.first >= t.bias + sg.vaddr && g.first < t.bias + sg.vaddr + sg.memsz) { put(g.first, {true, t.path, g.first - t.bias}, "reused address"); ours = true; c.event("reused address"); }
                                    if(!ours) put(g.first, {}, "reused address");
                                } else { put(g.first, {true, "", 0}, "address of an unloaded object"); looked_gone++; c.event("unloaded"); }
                                break;
                            }
                            case 6: put(c.pick({Ptr(0), Ptr(1), Ptr(4095), ~Ptr(0), Ptr(1) << 63, Ptr(0xffff800000000000)}), {true, "", 0}, "address outside the process"); break;
                            default: put(c.draw(~u64(0)) | (u64(1) << 62), {true, "", 0}, "random address"); break;
                        }
                    }
                    for(std::size_t i = 0; i < addrs.size(); i++) c.line("ask about " + what[i]);
                    ask(c, addrs, want, what);
                }
            }
        }
    } catch(...) {
        for(auto& s : slots) if(s.handle) ::dlclose(s.handle);
        ::munmap(anon, 8192);
        cpptrace::absorb_trace_exceptions(true);
        throw;
    }
    for(auto& s : slots) { if(s.handle) ::dlclose(s.handle); ::unlink(s.real.c_str()); if(s.path != s.real) ::unlink(s.path.c_str()); }
    ::munmap(anon, 8192);
    cpptrace::absorb_trace_exceptions(true);
    c.nontrivial(looked >= 3 || (looked >= 2 && looked_gone));
}
}
