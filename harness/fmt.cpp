// P08 formatter model, P09 sinks and color, P10 formatter value semantics
#include "gen.hpp"
#include <cpptrace/io.hpp>
#include <algorithm>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <unistd.h>

using vt::Case;
using cpptrace::formatter;
using cpptrace::stacktrace;
using cpptrace::stacktrace_frame;

namespace {
using color_mode = formatter::color_mode;
using address_mode = formatter::address_mode;
using path_mode = formatter::path_mode;
using symbol_mode = formatter::symbol_mode;

// ---- filters and transforms, as data
bool filter_fn(int kind, const stacktrace_frame& f) {
    switch(kind) {
        case 0: return true;
        case 1: return false;
        case 2: return f.raw_address % 2 == 0;
        case 3: return f.symbol.size() % 2 == 0;
        case 4: return f.line.has_value();
        case 5: return !f.filename.empty();
        case 6: return f.symbol.find("T:") == std::string::npos;
        default: return f.raw_address % 3 != 0;
    }
}
stacktrace_frame transform_fn(int kind, stacktrace_frame f) {
    switch(kind) {
        case 0: return f;
        case 1: f.symbol = "T:" + f.symbol; return f;
        case 2: f.filename.clear(); return f;
        case 3: f.is_inline = !f.is_inline; return f;
        case 4: f.raw_address += 1; f.object_address += 16; return f;
        case 5: f.line.reset(); return f;
        case 6: f.symbol = "__cxa_throw"; return f;
        case 7: std::swap(f.symbol, f.filename); return f;
        default: f.filename = "/t/" + f.filename; f.column = 7; return f;
    }
}
constexpr int n_filters = 8, n_transforms = 9;

struct Model {
    std::string header = "Stack trace (most recent call first):";
    color_mode color = color_mode::automatic;
    address_mode addresses = address_mode::raw;
    path_mode paths = path_mode::full;
    bool snippets = false, columns = true, placeholders = true, brk = false, hide = true;
    int context = 2;
    symbol_mode symbols = symbol_mode::full;
    int filter = -1, transform = -1;

    static std::string repeat(char ch, std::size_t n) { return std::string(n, ch); }

    std::string frame_text(const stacktrace_frame& f, bool color, std::size_t col) const {
        auto paint = [&](const char* code, const std::string& s) { return color ? "\x1b[" + std::string(code) + "m" + s + "\x1b[0m" : s; };
        std::string o;
        if(f.is_inline) {
            o += "(inlined)" + repeat(' ', 18 - 9) + " ";
            col += 19;
        } else if(addresses != address_mode::none) {
            char b[32];
            std::snprintf(b, sizeof b, "0x%016llx", (unsigned long long) (addresses == address_mode::raw ? f.raw_address : f.object_address));
            o += paint("34", b) + " ";
            col += 19;
        }
        if(!f.symbol.empty()) {
            std::string s = symbols == symbol_mode::full ? f.symbol : symbols == symbol_mode::pretty ? cpptrace::prettify_symbol(f.symbol) : cpptrace::prune_symbol(f.symbol);
            o += "in " + paint("33", s);
        }
        if(!f.symbol.empty() && !f.filename.empty()) o += brk ? "\n" + repeat(' ', col) : " ";
        if(!f.filename.empty()) {
            std::string p = f.filename;
            if(paths == path_mode::basename) {
                std::size_t k = p.size();
                while(k > 0 && p[k - 1] != '/' && p[k - 1] != '\\') k--;
                p = p.substr(k);
            }
            o += "at " + paint("32", p);
            if(f.line.has_value()) {
                o += ":" + paint("34", std::to_string(f.line.value()));
                if(f.column.has_value() && columns) o += ":" + paint("34", std::to_string(f.column.value()));
            }
        }
        return o;
    }
    std::string frame(const stacktrace_frame& f, bool color, std::size_t indent = 0) const { return frame_text(transform >= 0 ? transform_fn(transform, f) : f, color, indent); }
    std::string trace(const stacktrace& t, bool color) const {
        std::string o;
        if(!header.empty()) o += header + "\n";
        if(t.frames.empty()) return o + "<empty trace>";
        std::size_t start = 0;
        if(hide) {
            for(std::size_t i = 0; i < t.frames.size(); i++) {
                auto& s = t.frames[i].symbol;
                if(s == "__cxa_throw" || s == "CxxThrowException" || s == "_CxxThrowException") {
                    start = i + 1;
                    break;
                }
            }
        }
        std::size_t width = std::to_string(t.frames.size() - 1).size();
        std::vector<std::string> lines;
        for(std::size_t i = start, n = 0; i < t.frames.size(); i++, n++) {
            stacktrace_frame f = transform >= 0 ? transform_fn(transform, t.frames[i]) : t.frames[i];
            bool out = filter >= 0 && !filter_fn(filter, f);
            if(out && !placeholders) continue;
            std::string num = std::to_string(n);
            std::string l = "#" + num + repeat(' ', width - num.size()) + " ";
            if(out) l += "(filtered)";
            else {
                l += frame_text(f, color, 2 + width);
                if(snippets && f.line.has_value() && !f.filename.empty()) {
                    std::string s = cpptrace::get_snippet(f.filename, f.line.value(), f.column, std::size_t(context), color);
                    if(!s.empty()) l += "\n" + s;
                }
            }
            lines.push_back(l);
        }
        for(std::size_t i = 0; i < lines.size(); i++) o += (i ? "\n" : "") + lines[i];
        return o;
    }
    bool colored_string(int arg) const { return arg >= 0 ? arg != 0 : color == color_mode::always; } // arg: -1 none, 0, 1
};

std::string show(const Model& m) {
    std::ostringstream o;
    o << "header=" << vt::quote(m.header) << " color=" << int(m.color) << " addresses=" << int(m.addresses) << " paths=" << int(m.paths) << " snippets=" << m.snippets << " context=" << m.context
      << " columns=" << m.columns << " symbols=" << int(m.symbols) << " placeholders=" << m.placeholders << " break=" << m.brk << " hide=" << m.hide << " filter=" << m.filter << " transform=" << m.transform;
    return o.str();
}

// what the callbacks of a formatter saw
struct Log { std::vector<stacktrace_frame> filter_in, transform_in; };

// one random setter call on a formatter and on the model
std::string set_option(Case& c, formatter& f, Model& m, std::shared_ptr<Log> log = nullptr) {
    formatter* r = nullptr;
    std::string d;
    switch(c.below(13)) {
        case 0: m.header = c.pick({std::string("H:"), std::string(""), std::string("two\nlines {}"), std::string("nul\0in it", 9), std::string("Stack trace (most recent call first):")}); r = &f.header(m.header); d = "header(" + vt::quote(m.header) + ")"; break;
        case 1: m.color = c.pick({color_mode::none, color_mode::automatic, color_mode::always}); r = &f.colors(m.color); d = "colors(" + std::to_string(int(m.color)) + ")"; break;
        case 2: m.addresses = c.pick({address_mode::raw, address_mode::object, address_mode::none}); r = &f.addresses(m.addresses); d = "addresses(" + std::to_string(int(m.addresses)) + ")"; break;
        case 3: m.paths = c.pick({path_mode::full, path_mode::basename}); r = &f.paths(m.paths); d = "paths(" + std::to_string(int(m.paths)) + ")"; break;
        case 4: m.snippets = c.flip(); r = &f.snippets(m.snippets); d = "snippets(" + std::to_string(m.snippets) + ")"; break;
        case 5: m.context = int(c.below(5)); r = &f.snippet_context(m.context); d = "snippet_context(" + std::to_string(m.context) + ")"; break;
        case 6: m.columns = c.flip(); r = &f.columns(m.columns); d = "columns(" + std::to_string(m.columns) + ")"; break;
        case 7: m.symbols = c.pick({symbol_mode::full, symbol_mode::pretty, symbol_mode::pruned}); r = &f.symbols(m.symbols); d = "symbols(" + std::to_string(int(m.symbols)) + ")"; break;
        case 8: m.placeholders = c.flip(); r = &f.filtered_frame_placeholders(m.placeholders); d = "placeholders(" + std::to_string(m.placeholders) + ")"; break;
        case 9: {
            int k = m.filter = int(c.below(n_filters));
            r = &f.filter([k, log](const stacktrace_frame& fr) {
                if(log) log->filter_in.push_back(fr);
                return filter_fn(k, fr);
            });
            d = "filter(" + std::to_string(k) + ")";
            break;
        }
        case 10: {
            int k = m.transform = int(c.below(n_transforms));
            r = &f.transform([k, log](stacktrace_frame fr) {
                if(log) log->transform_in.push_back(fr);
                return transform_fn(k, fr);
            });
            d = "transform(" + std::to_string(k) + ")";
            break;
        }
        case 11:
            if(c.flip()) { m.brk = c.flip(); r = &f.break_before_filename(m.brk); }
            else { m.brk = true; r = &f.break_before_filename(); }
            d = "break_before_filename(" + std::to_string(m.brk) + ")";
            break;
        default:
            if(c.flip()) { m.hide = c.flip(); r = &f.hide_exception_machinery(m.hide); }
            else { m.hide = true; r = &f.hide_exception_machinery(); }
            d = "hide_exception_machinery(" + std::to_string(m.hide) + ")";
            break;
    }
    c.check(r == &f, "setter " + d + " does not return the formatter");
    return d;
}

// a source file whose snippets are shown
std::string snippet_file(int k) {
    static std::string base;
    std::string dir = vt::scratch_dir();
    std::string p = dir + "/src" + std::to_string(getpid()) + "_" + std::to_string(k) + ".cpp";
    static std::vector<bool> made(8, false);
    if(!made[std::size_t(k)]) {
        std::ofstream f(p);
        for(int i = 1; i <= 5 + 3 * k; i++) {
            if((i + k) % 4 == 0) f << "\n";
            else f << "line " << i << " of file " << k << std::string(std::size_t(i), '.') << "\n";
        }
        made[std::size_t(k)] = true;
    }
    return p;
}
void point_at_files(Case& c, stacktrace& t) {
    for(auto& f : t.frames) {
        if(c.chance(1, 3)) {
            int k = int(c.below(3));
            f.filename = snippet_file(k);
            f.line = std::uint32_t(1 + c.below(5 + 3 * std::uint64_t(k)));
            f.column = c.flip() ? cpptrace::nullable<std::uint32_t>(std::uint32_t(1 + c.below(12))) : cpptrace::nullable<std::uint32_t>::null();
        }
        if(f.line.has_value() && f.line.value() == 0 && f.filename.find("/src") != std::string::npos) f.line = 1;
    }
}
std::string strip_ansi(const std::string& s) {
    std::string o;
    for(std::size_t i = 0; i < s.size();) {
        if(s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
            std::size_t j = i + 2;
            while(j < s.size() && ((s[j] >= '0' && s[j] <= '9') || s[j] == ';')) j++;
            if(j < s.size() && s[j] == 'm') { i = j + 1; continue; }
        }
        o += s[i++];
    }
    return o;
}
bool has_escape(const stacktrace& t) {
    for(auto& f : t.frames) if(f.symbol.find('\x1b') != std::string::npos || f.filename.find('\x1b') != std::string::npos) return true;
    return false;
}
void drop_escapes(stacktrace& t) {
    for(auto& f : t.frames) {
        f.symbol.erase(std::remove(f.symbol.begin(), f.symbol.end(), '\x1b'), f.symbol.end());
        f.filename.erase(std::remove(f.filename.begin(), f.filename.end(), '\x1b'), f.filename.end());
    }
}
bool interesting(const Model& m) { return m.header.empty() || m.color != color_mode::automatic || m.addresses != address_mode::raw || m.paths != path_mode::full || m.snippets || !m.columns || m.symbols != symbol_mode::full || m.filter >= 0 || m.transform >= 0 || m.brk || !m.hide; }

struct Setup {
    formatter f;
    Model m;
    std::shared_ptr<Log> log = std::make_shared<Log>();
    std::string desc;
};
void setup(Case& c, Setup& s) {
    std::size_t n = c.below(9);
    for(std::size_t i = 0; i < n; i++) s.desc += "." + set_option(c, s.f, s.m, s.log);
}

std::string read_all(int fd) {
    std::string s;
    char b[4096];
    ssize_t k;
    lseek(fd, 0, SEEK_SET);
    while((k = read(fd, b, sizeof b)) > 0) s.append(b, std::size_t(k));
    return s;
}
std::string via_file(const std::function<void(std::FILE*)>& w) {
    std::FILE* fp = std::tmpfile();
    if(!fp) throw vt::Discard{};
    w(fp);
    std::fflush(fp);
    std::string s = read_all(fileno(fp));
    std::fclose(fp);
    return s;
}
// runs w with fd 1 pointing at a file (or with the given fd), and std::cout flushed around it
std::string via_stdout(const std::function<void()>& w) {
    std::cout.flush();
    std::fflush(stdout);
    std::FILE* fp = std::tmpfile();
    if(!fp) throw vt::Discard{};
    int saved = dup(1);
    dup2(fileno(fp), 1);
    w();
    std::cout.flush();
    std::fflush(stdout);
    std::string s = read_all(fileno(fp));
    dup2(saved, 1);
    close(saved);
    std::fclose(fp);
    return s;
}
}

VT_PROP(fmt_model, "a formatter after 0..8 random setter calls formats a random trace; non-trivial when the trace has frames and an option differs from its default") {
    Setup s;
    setup(c, s);
    stacktrace t = gen::trace(c);
    if(s.m.snippets || c.chance(1, 4)) point_at_files(c, t);
    int arg = int(c.below(3)) - 1;
    c.line("formatter{}" + s.desc).line(gen::show(t)).note("color argument: " + std::to_string(arg));
    stacktrace before = t;
    std::string got = arg < 0 ? s.f.format(t) : s.f.format(t, arg == 1);
    std::string want = s.m.trace(t, s.m.colored_string(arg));
    c.eq(got, want, "formatted trace");
    c.check(gen::same(t, before), "formatting changed the trace");
    c.nontrivial(!t.frames.empty() && interesting(s.m));
    if(s.m.filter >= 0) c.event("filter");
    if(s.m.transform >= 0) c.event("transform");
    if(s.m.filter >= 0 && s.m.transform >= 0) c.event("filter+transform");
    if(got.find("> ") != std::string::npos && s.m.snippets) c.event("snippet shown");
    if(t.frames.empty()) c.event("empty trace");
    // the callbacks: each shown frame is transformed exactly once, in order, and the filter sees the transformed frame
    std::size_t start = 0;
    if(s.m.hide) for(std::size_t i = 0; i < t.frames.size(); i++) { auto& y = t.frames[i].symbol; if(y == "__cxa_throw" || y == "CxxThrowException" || y == "_CxxThrowException") { start = i + 1; break; } }
    if(start) c.event("machinery hidden");
    if(s.m.transform >= 0) {
        c.eq(s.log->transform_in.size(), t.frames.size() - start, "number of transform calls");
        for(std::size_t i = 0; i < s.log->transform_in.size(); i++) c.check(gen::same(s.log->transform_in[i], t.frames[start + i]), "transform call " + std::to_string(i) + " got another frame");
    }
    if(s.m.filter >= 0) {
        c.eq(s.log->filter_in.size(), t.frames.size() - start, "number of filter calls");
        for(std::size_t i = 0; i < s.log->filter_in.size(); i++) c.check(gen::same(s.log->filter_in[i], s.m.transform >= 0 ? transform_fn(s.m.transform, t.frames[start + i]) : t.frames[start + i]), "filter call " + std::to_string(i) + " did not get the transformed frame");
    }
    // and again: formatting is repeatable
    c.eq(arg < 0 ? s.f.format(t) : s.f.format(t, arg == 1), want, "formatted trace, second time");
}

VT_PROP(fmt_frame_model, "a formatter after random setter calls formats a single random frame, with and without indent; non-trivial when an option differs from its default") {
    Setup s;
    setup(c, s);
    stacktrace t;
    t.frames.push_back(gen::frame(c));
    const auto& fr = t.frames[0];
    int arg = int(c.below(4)) - 1;
    std::size_t indent = arg == 2 ? c.below(40) : 0;
    bool col = c.flip();
    c.line("formatter{}" + s.desc).line(gen::show(fr)).note("color argument: " + std::to_string(arg) + " indent " + std::to_string(indent));
    std::string got, want;
    if(arg == 2) { got = s.f.format(fr, col, indent); want = s.m.frame(fr, col, indent); }
    else { got = arg < 0 ? s.f.format(fr) : s.f.format(fr, arg == 1); want = s.m.frame(fr, s.m.colored_string(arg)); }
    c.eq(got, want, "formatted frame");
    c.nontrivial(interesting(s.m));
    if(s.m.transform >= 0) c.eq(s.log->transform_in.size(), std::size_t(1), "number of transform calls");
}

VT_PROP(fmt_sinks, "one random trace, frame and formatter through every sink; non-trivial when the trace has frames") {
    Setup s;
    setup(c, s);
    stacktrace t = gen::trace(c, 5);
    if(s.m.snippets || c.chance(1, 4)) point_at_files(c, t);
    drop_escapes(t);
    const formatter& f = s.f;
    c.line("formatter{}" + s.desc).line(gen::show(t));
    c.nontrivial(!t.frames.empty());
    std::string plain = f.format(t, false), colored = f.format(t, true), dflt = f.format(t);
    c.eq(strip_ansi(colored), strip_ansi(plain), "colored trace with escapes removed");
    if(plain.find('\x1b') != std::string::npos) c.fail("escape sequence although color is off: " + vt::quote(plain));
    c.eq(dflt, s.m.color == color_mode::always ? colored : plain, "format() without color argument");
    if(!t.frames.empty()) c.check(s.m.addresses == address_mode::none || s.m.filter >= 0 || s.m.hide || s.m.transform >= 0 || t.frames[0].is_inline || colored != plain, "color argument true adds no color");
    auto one = [&](const char* what, const std::string& got, const std::string& want) { c.eq(got, want + "\n", what); };
    std::ostringstream o1, o2, o3;
    f.print(o1, t);
    f.print(o2, t, true);
    f.print(o3, t, false);
    one("print(ostream)", o1.str(), dflt);
    one("print(ostream, true)", o2.str(), colored);
    one("print(ostream, false)", o3.str(), plain);
    one("print(FILE*)", via_file([&](std::FILE* fp) { f.print(fp, t); }), dflt);
    one("print(FILE*, true)", via_file([&](std::FILE* fp) { f.print(fp, t, true); }), colored);
    one("print(FILE*, false)", via_file([&](std::FILE* fp) { f.print(fp, t, false); }), plain);
    if(c.chance(1, 4)) {
        c.event("stdout");
        one("print()", via_stdout([&] { f.print(t); }), dflt);
        one("print(true)", via_stdout([&] { f.print(t, true); }), colored);
        one("print(false)", via_stdout([&] { f.print(t, false); }), plain);
        one("print(cout)", via_stdout([&] { f.print(std::cout, t); }), dflt);
    }
    // frames
    if(!t.frames.empty()) {
        const auto& fr = t.frames[c.below(t.frames.size())];
        std::string fp = f.format(fr, false), fc = f.format(fr, true), fd = f.format(fr);
        c.eq(strip_ansi(fc), strip_ansi(fp), "colored frame with escapes removed");
        c.eq(fd, s.m.color == color_mode::always ? fc : fp, "format(frame) without color argument");
        std::size_t ind = c.below(30);
        std::ostringstream q1, q2, q3;
        f.print(q1, fr);
        f.print(q2, fr, true);
        f.print(q3, fr, false, ind);
        one("print(ostream, frame)", q1.str(), fd);
        one("print(ostream, frame, true)", q2.str(), fc);
        one("print(ostream, frame, false, indent)", q3.str(), f.format(fr, false, ind));
        one("print(FILE*, frame)", via_file([&](std::FILE* h) { f.print(h, fr); }), fd);
        one("print(FILE*, frame, true)", via_file([&](std::FILE* h) { f.print(h, fr, true); }), fc);
        one("print(FILE*, frame, true, indent)", via_file([&](std::FILE* h) { f.print(h, fr, true, ind); }), f.format(fr, true, ind));
        if(c.chance(1, 4)) {
            one("print(frame)", via_stdout([&] { f.print(fr); }), fd);
            one("print(frame, false)", via_stdout([&] { f.print(fr, false); }), fp);
        }
        // members: the default formatter
        const formatter& d = cpptrace::get_default_formatter();
        Model dm;
        c.eq(d.format(fr, false), dm.frame(fr, false), "default formatter, frame");
        c.eq(fr.to_string(), d.format(fr, false), "frame.to_string()");
        c.eq(fr.to_string(true), d.format(fr, true), "frame.to_string(true)");
        c.eq(fr.to_string(false), d.format(fr, false), "frame.to_string(false)");
        std::ostringstream q4;
        q4 << fr;
        c.eq(q4.str(), d.format(fr, false), "stream << frame");
#if defined(CPPTRACE_STD_FORMAT) && defined(__cpp_lib_format)
        c.event("std::format");
        c.eq(std::format("{}", fr), d.format(fr, false), "std::format of a frame");
#endif
    }
    const formatter& d = cpptrace::get_default_formatter();
    Model dm;
    std::string dp = d.format(t, false), dc = d.format(t, true);
    c.eq(dp, dm.trace(t, false), "default formatter");
    c.eq(dc, dm.trace(t, true), "default formatter, colored");
    c.eq(t.to_string(), dp, "trace.to_string()");
    c.eq(t.to_string(true), dc, "trace.to_string(true)");
    std::ostringstream m1, m2, m3, m4, m5, m6, m7;
    m1 << t;
    one("stream << trace", m1.str(), dp);
    t.print(m2);
    one("trace.print(ostream)", m2.str(), dp);
    t.print(m3, true);
    one("trace.print(ostream, true)", m3.str(), dc);
    t.print(m7, false);
    one("trace.print(ostream, false)", m7.str(), dp);
    Model sm;
    sm.snippets = true;
    t.print_with_snippets(m4);
    one("print_with_snippets(ostream)", m4.str(), sm.trace(t, false));
    t.print_with_snippets(m5, true);
    one("print_with_snippets(ostream, true)", m5.str(), sm.trace(t, true));
    t.print_with_snippets(m6, false);
    one("print_with_snippets(ostream, false)", m6.str(), sm.trace(t, false));
    if(c.chance(1, 6)) {
        one("trace.print()", via_stdout([&] { t.print(); }), dp);
        one("print_with_snippets()", via_stdout([&] { t.print_with_snippets(); }), sm.trace(t, false));
    }
#if defined(CPPTRACE_STD_FORMAT) && defined(__cpp_lib_format)
    c.eq(std::format("{}", t), dp, "std::format of a trace");
#endif
}

namespace {
// runs w with fd (1 or 2) connected to a terminal, returns what the terminal received
bool via_tty(int fd, const std::function<void()>& w, std::string& out) {
    int m = posix_openpt(O_RDWR | O_NOCTTY);
    if(m < 0) return false;
    const char* sn = nullptr;
    if(grantpt(m) != 0 || unlockpt(m) != 0 || !(sn = ptsname(m))) { close(m); return false; }
    int s = open(sn, O_RDWR | O_NOCTTY);
    if(s < 0) { close(m); return false; }
    std::cout.flush();
    std::cerr.flush();
    int saved = dup(fd);
    dup2(s, fd);
    w();
    std::cout.flush();
    std::cerr.flush();
    dup2(saved, fd);
    close(saved);
    fcntl(m, F_SETFL, O_NONBLOCK);
    char b[4096];
    ssize_t k;
    while((k = read(m, b, sizeof b)) > 0) out.append(b, std::size_t(k));
    close(s);
    close(m);
    std::string o;
    for(char ch : out) if(ch != '\r') o += ch;
    out = o;
    return true;
}
}
VT_PROP(fmt_tty, "a small trace printed to a stream that is or is not a terminal, every color mode and argument; every case is non-trivial") {
    Setup s;
    s.m.color = c.pick({color_mode::automatic, color_mode::always, color_mode::none});
    s.f.colors(s.m.color);
    stacktrace t;
    std::size_t n = c.below(3);
    for(std::size_t i = 0; i < n; i++) {
        stacktrace_frame f{0x10 + i, 0x20 + i, {std::uint32_t(3 + i)}, {std::uint32_t(i)}, "f.cpp", "sym" + std::to_string(i), c.flip()};
        t.frames.push_back(f);
    }
    int arg = int(c.below(3)) - 1;
    unsigned how = unsigned(c.below(5));
    bool frame = !t.frames.empty() && c.flip();
    std::string got;
    bool tty_stream = false, ran = true;
    auto doprint = [&](std::ostream& o) {
        if(frame) { if(arg < 0) s.f.print(o, t.frames[0]); else s.f.print(o, t.frames[0], arg == 1); }
        else { if(arg < 0) s.f.print(o, t); else s.f.print(o, t, arg == 1); }
    };
    switch(how) {
        case 0: tty_stream = true; ran = via_tty(1, [&] { doprint(std::cout); }, got); break;
        case 1: tty_stream = true; ran = via_tty(2, [&] { doprint(std::cerr); }, got); break;
        case 2: ran = via_tty(1, [&] { std::ostringstream o; doprint(o); got = o.str(); }, got); break;
        case 3: { std::string other; ran = via_tty(2, [&] { got = via_stdout([&] { doprint(std::cout); }); }, other); break; }
        default: tty_stream = true; ran = via_tty(1, [&] { if(frame) { if(arg < 0) s.f.print(t.frames[0]); else s.f.print(t.frames[0], arg == 1); } else { if(arg < 0) s.f.print(t); else s.f.print(t, arg == 1); } }, got); break;
    }
    if(!ran) c.discard();
    c.nontrivial();
    c.event(std::string(tty_stream ? "terminal" : "no terminal") + " mode " + std::to_string(int(s.m.color)) + " arg " + std::to_string(arg));
    bool want_color = arg >= 0 ? arg == 1 : s.m.color == color_mode::always || (s.m.color == color_mode::automatic && tty_stream);
    c.line("mode " + std::to_string(int(s.m.color)) + " arg " + std::to_string(arg) + " how " + std::to_string(how) + (frame ? " frame" : " trace")).note(gen::show(t));
    c.eq(got, (frame ? s.m.frame(t.frames[0], want_color) : s.m.trace(t, want_color)) + "\n", "text received");
}

// ---- P10
VT_PROP(fmt_values, "a history of construct/copy/move/assign/set/format over a pool of up to 5 formatters against option records; non-trivial when formatters were copied, moved or assigned and then used") {
    struct Item { std::unique_ptr<formatter> f; Model m; };
    std::vector<Item> pool;
    auto add = [&](formatter* f, const Model& m) { Item i; i.f.reset(f); i.m = m; pool.push_back(std::move(i)); };
    add(new formatter, Model{});
    std::size_t steps = 2 + c.size(30);
    stacktrace t = gen::trace(c, 4);
    if(c.flip()) point_at_files(c, t);
    c.line(gen::show(t, 6));
    bool moved = false, used_after = false;
    for(std::size_t k = 0; k < steps; k++) {
        std::size_t i = c.below(pool.size()), j = c.below(pool.size());
        std::string I = std::to_string(i), J = std::to_string(j);
        switch(c.weighted({6, 2, 3, 2, 3, 3, 1, 6, 1, 1})) {
            case 0: c.line("f" + I + "." + set_option(c, *pool[i].f, pool[i].m)); break;
            case 1: if(pool.size() < 5) { add(new formatter, Model{}); c.line("new formatter"); } break;
            case 2: if(pool.size() < 5) { c.line("copy-construct from f" + I); add(new formatter(*pool[i].f), pool[i].m); moved = true; } break;
            case 3: { // move-construct, the source is destroyed
                c.line("move-construct from f" + I);
                std::unique_ptr<formatter> n(new formatter(std::move(*pool[i].f)));
                pool[i].f = std::move(n);
                moved = true;
                break;
            }
            case 4: c.line("f" + I + " = f" + J); { formatter& r = (*pool[i].f = *pool[j].f); c.check(&r == pool[i].f.get(), "copy assignment result"); } pool[i].m = Model(pool[j].m); moved = true; c.event(i == j ? "self copy-assign" : "copy-assign"); break;
            case 5:
                c.line("f" + I + " = move(f" + J + ")");
                { formatter& r = (*pool[i].f = std::move(*pool[j].f)); c.check(&r == pool[i].f.get(), "move assignment result"); }
                pool[i].m = Model(pool[j].m);
                moved = true;
                c.event(i == j ? "self move-assign" : "move-assign");
                if(i != j) { // the moved-from one is either given a new value or destroyed
                    if(c.flip()) { c.line("f" + J + " = formatter{}"); *pool[j].f = formatter(); pool[j].m = Model{}; }
                    else if(c.flip()) { c.line("f" + J + " = f" + I); *pool[j].f = *pool[i].f; pool[j].m = pool[i].m; }
                    else { c.line("destroy f" + J); pool.erase(pool.begin() + long(j)); }
                }
                break;
            case 6: if(pool.size() > 1) { c.line("destroy f" + I); pool.erase(pool.begin() + long(i)); } break;
            case 7: {
                int arg = int(c.below(3)) - 1;
                c.line("format with f" + I + " color argument " + std::to_string(arg));
                stacktrace before = t;
                c.eq(arg < 0 ? pool[i].f->format(t) : pool[i].f->format(t, arg == 1), pool[i].m.trace(t, pool[i].m.colored_string(arg)), "formatted by f" + I + " (" + show(pool[i].m) + ")");
                c.check(gen::same(t, before), "formatting changed the trace");
                if(moved) used_after = true;
                break;
            }
            case 8: { c.line("swap(f" + I + ", f" + J + ")"); if(i != j) { std::swap(*pool[i].f, *pool[j].f); std::swap(pool[i].m, pool[j].m); moved = true; } break; }
            default: { // a vector of formatters, reallocating
                c.line("through a vector");
                std::vector<formatter> v;
                std::vector<Model> ms;
                for(auto& p : pool) { v.push_back(*p.f); ms.push_back(p.m); }
                v.erase(v.begin());
                ms.erase(ms.begin());
                for(std::size_t q = 0; q < v.size(); q++) c.eq(v[q].format(t, false), ms[q].trace(t, false), "formatter in vector");
                moved = used_after = true;
            }
        }
    }
    for(std::size_t i = 0; i < pool.size(); i++) c.eq(pool[i].f->format(t), pool[i].m.trace(t, pool[i].m.colored_string(-1)), "finally, formatted by f" + std::to_string(i) + " (" + show(pool[i].m) + ")");
    Model dm;
    c.eq(cpptrace::get_default_formatter().format(t), dm.trace(t, false), "default formatter afterwards");
    c.nontrivial(moved && used_after && !t.frames.empty());
}
