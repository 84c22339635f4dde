// P11 snippets, P12 prettify_symbol, P13 prune_symbol, P14 demangle
#include "vt.hpp"
#include <sys/stat.h>
#include <cpptrace/basic.hpp>
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include <algorithm>
#include <cctype>
#include <cxxabi.h>
#include <fstream>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include "demangle/demangle.hpp"

using vt::Case;
extern "C" std::size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
namespace {
std::size_t allocated() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

// ------------------------------------------------------------------------------------------------ P11
std::string rjust(const std::string& s, std::size_t w) { return s.size() >= w ? s : std::string(w - s.size(), ' ') + s; }

struct Doc { // a file and the lines a reader of it sees
    std::string path, bytes;
    std::vector<std::string> lines;
    bool readable = true, phantom = false; // phantom: the empty line after a final newline
};
std::vector<std::string> split_lines(const std::string& b, bool& phantom) {
    std::vector<std::string> v;
    std::string cur;
    for(std::size_t i = 0; i < b.size(); i++) {
        if(b[i] == '\n') {
            if(!cur.empty() && cur.back() == '\r') cur.pop_back();
            v.push_back(cur);
            cur.clear();
        } else cur += b[i];
    }
    phantom = cur.empty();
    v.push_back(cur);
    return v;
}
std::string model_snippet(const Doc& f, vt::u64 line, cpptrace::nullable<std::uint32_t> col, vt::u64 ctx, bool color) {
    if(!f.readable || line < 1 || line > f.lines.size()) return "";
    vt::u64 n = f.lines.size();
    vt::u64 first = ctx >= line ? 1 : line - ctx, last = ctx >= n - line ? n : line + ctx;
    while(first < line && f.lines[first - 1].empty()) first++;
    while(last > line && f.lines[last - 1].empty()) last--;
    std::string o;
    for(vt::u64 l = first; l <= last; l++) {
        std::string num = std::to_string(l);
        if(l == line) {
            std::string m = rjust(" > " + num, 8);
            o += (color ? "\x1b[33m" : "") + m + ": " + (color ? "\x1b[0m" : "") + f.lines[l - 1];
            if(col.has_value()) o += "\n" + std::string(m.size() + 2 + (col.value() ? col.value() - 1 : 0), ' ') + (color ? "\x1b[33m^\x1b[0m" : "^");
        } else o += rjust(num, 8) + ": " + f.lines[l - 1];
        if(l != last) o += "\n";
    }
    return o;
}
Doc draw_doc(Case& c, int i) {
    Doc d;
    static int serial = 0;
    d.path = vt::scratch_dir() + "/snip" + std::to_string(getpid()) + "_" + std::to_string(serial++) + (i ? " b.c" : ".cpp");
    if(c.chance(1, 6)) { // deep paths which share their last (up to ~250) or first characters with those of other documents
        d.path = vt::scratch_dir() + "/deep" + std::to_string(getpid()) + "_" + std::to_string(serial++);
        mkdir(d.path.c_str(), 0755);
        if(c.flip()) {
            d.path = vt::scratch_dir() + "/deep" + std::to_string(getpid());
            mkdir(d.path.c_str(), 0755);
            d.path += "/" + std::string(c.pick({std::size_t(1), std::size_t(50), std::size_t(120)}), 'p') + std::to_string(serial);
            mkdir(d.path.c_str(), 0755);
        }
        d.path += "/" + std::string(c.pick({std::size_t(1), std::size_t(10), std::size_t(60), std::size_t(200)}), 'd');
        mkdir(d.path.c_str(), 0755);
        d.path += c.flip() ? "/same_name.cpp" : "/" + std::string(40, 's') + ".cpp";
    }
    switch(c.weighted({12, 1, 1, 1, 1})) {
        case 1: d.readable = false; return d;                               // missing
        case 2: d.readable = false; d.path = vt::scratch_dir(); return d;   // a directory
        case 3: d.readable = false; d.path = ""; return d;
        case 4: { // six-digit line numbers
            std::size_t n = 99990 + c.below(30);
            d.bytes = std::string(n, '\n') + "x\n  y\nz";
            break;
        }
        default: {
            std::size_t n = c.size(60);
            for(std::size_t l = 0; l < n; l++) {
                switch(c.below(6)) {
                    case 0: break;
                    case 1: d.bytes += "   "; break;
                    case 2: d.bytes += c.str_of("ab \t{}\xc3\xa9\r%\0", 12); break;
                    case 3: d.bytes += std::string(c.size(200), 'w'); break;
                    default: d.bytes += "int line" + std::to_string(l) + ";"; break;
                }
                if(l + 1 < n || c.flip()) d.bytes += c.chance(1, 5) ? "\r\n" : "\n";
            }
        }
    }
    std::ofstream(d.path, std::ios::binary) << d.bytes;
    d.lines = split_lines(d.bytes, d.phantom);
    return d;
}
VT_PROP(snippet_model, "a line inside a readable file of several lines") {
    std::vector<Doc> docs;
    std::size_t nd = 1 + c.below(2);
    for(std::size_t i = 0; i < nd; i++) docs.push_back(draw_doc(c, int(i)));
    bool nontriv = false;
    std::size_t q = 1 + c.below(6);
    for(std::size_t i = 0; i < q; i++) {
        const Doc& d = docs[c.below(nd)];
        vt::u64 n = d.lines.size(), line;
        switch(c.weighted({8, 2, 2, 1, 1})) {
            case 0: line = n ? 1 + c.below(n) : c.below(3); break;
            case 1: line = n; break;
            case 2: line = n + 1 + c.below(4); break;
            case 3: line = 0; break;
            default: line = c.flip() ? ~0ull - c.below(3) : c.draw(~0ull); break;
        }
        vt::u64 ctx = c.chance(1, 8) ? (c.flip() ? ~0ull - c.below(4) : c.draw(~0ull)) : c.size(30);
        cpptrace::nullable<std::uint32_t> col;
        switch(c.below(4)) {
            case 0: break;
            case 1: col = std::uint32_t(1 + c.below(30)); break;
            case 2: col = std::uint32_t(1 + c.below(3)); break;
            default: col = std::uint32_t(1 + c.below(3000)); break;
        }
        bool color = c.flip();
        c.line("query " + std::to_string(i) + " file of " + std::to_string(n) + (d.readable ? "" : " (unreadable)") + " line " + std::to_string(line) + " column " + (col.has_value() ? std::to_string(col.value()) : "-") + " context " + std::to_string(ctx) + (color ? " color" : ""));
        if(d.bytes.size() < 400) c.line(vt::quote(d.bytes));
        std::string got = !col.has_value() && c.flip() ? cpptrace::get_snippet(d.path, line, ctx, color) : cpptrace::get_snippet(d.path, line, col, ctx, color);
        std::string want = model_snippet(d, line, col, ctx, color);
        if(line == n && d.readable && d.phantom && got.empty()) want = ""; // whether the empty rest after a final newline is a line is a matter of taste
        c.eq(got, want, "snippet");
        if(d.readable && line >= 1 && line <= n && n > 2) nontriv = true;
        c.event(!d.readable ? "unreadable" : line < 1 || line > n ? "outside the file" : "inside");
    }
    for(auto& d : docs) if(d.readable) ::unlink(d.path.c_str());
    c.nontrivial(nontriv);
}
VT_PROP(snippet_in_formatter, "a frame whose snippet is shown") {
    Doc d = draw_doc(c, 0);
    cpptrace::stacktrace t;
    cpptrace::stacktrace_frame f;
    f.raw_address = 0x1234; f.object_address = 0x34; f.symbol = "f()"; f.is_inline = false;
    f.filename = d.path;
    std::size_t n = d.lines.size();
    if(c.chance(7, 8)) f.line = std::uint32_t(c.chance(3, 4) && n ? 1 + c.below(n) : c.below(n + 4));
    if(c.flip()) f.column = std::uint32_t(1 + c.below(40));
    int ctx = c.chance(1, 8) ? int(c.draw(0x7fffffff)) : int(c.size(20));
    bool columns = c.flip(), color = c.flip();
    t.frames = {f, f};
    c.line("line " + (f.line.has_value() ? std::to_string(f.line.value()) : "-") + " of " + std::to_string(n) + " context " + std::to_string(ctx));
    auto plain = cpptrace::formatter{}.columns(columns);
    auto snip = cpptrace::formatter{}.columns(columns).snippets(true).snippet_context(ctx);
    std::string a = plain.format(t, color), b = snip.format(t, color);
    std::string s = f.line.has_value() ? model_snippet(d, f.line.value(), f.column, vt::u64(ctx), color) : "";
    std::string bf = snip.format(f, color), af = plain.format(f, color);
    c.check(bf == af || bf == af + (s.empty() ? "" : "\n" + s), "formatted frame with snippet: " + vt::quote(bf));
    bool phantom_target = f.line.has_value() && f.line.value() == n && d.phantom;
    if(phantom_target && a == b) s = "";
    // the snippet adds its lines after each frame's line and changes nothing else
    c.check(b.size() >= a.size(), "the snippet removed text");
    std::string rebuilt;
    std::size_t pos = 0, count = 0;
    std::string nl = "\n" + s;
    while(!s.empty()) {
        auto p = b.find(nl, pos);
        if(p == std::string::npos) break;
        rebuilt += b.substr(pos, p - pos);
        pos = p + nl.size();
        count++;
    }
    rebuilt += b.substr(pos);
    auto strip = [](std::string x) { while(!x.empty() && x.back() == '\n') x.pop_back(); return x; };
    // an extra blank line may separate frames with snippets
    std::string norm; for(std::size_t i = 0; i < rebuilt.size(); i++) if(!(rebuilt[i] == '\n' && i + 1 < rebuilt.size() && rebuilt[i + 1] == '\n')) norm += rebuilt[i];
    c.eq(strip(norm), strip(a), "trace text without its snippets");
    if(!s.empty()) c.eq(count, std::size_t(2), "snippets shown");
    if(d.readable) ::unlink(d.path.c_str());
    c.nontrivial(!s.empty());
}

// ------------------------------------------------------------------------------------------------ P12
struct Spelled { std::string raw, pretty; };
struct Style { // the demangler's manners
    bool tight;      // >> instead of > >
    bool msvc;
    std::string cxx11; // "__cxx11::" or "__1::" or "" in front of string names
    std::string inl;   // inline namespace of the other library names ("" or "__1::")
};
Style draw_style(Case& c) {
    switch(c.below(4)) {
        case 0: return {false, false, "__cxx11::", ""};
        case 1: return {true, false, "__cxx11::", ""};
        case 2: return {true, false, "__1::", "__1::"};
        default: return {false, true, "", ""};
    }
}
std::string sep(const Style& st) { return st.msvc ? "," : ", "; }
void close(const Style& st, std::string& s) { if(!st.tight && !s.empty() && s.back() == '>') s += " "; s += ">"; }
Spelled type(Case& c, const Style& st, int depth, bool top = false) {
    std::string kw = st.msvc ? (c.flip() ? "class " : "struct ") : "";
    auto S = [](std::string x) { return Spelled{x, x}; };
    if(depth <= 0 || c.chance(1, 3)) {
        switch(c.below(9)) {
            case 0: return S("int");
            case 1: return S("unsigned long");
            case 2: return S("char const*");
            case 3: return {kw + "ns::Foo", "ns::Foo"};
            case 4: return st.msvc ? Spelled{kw + "`anonymous namespace'::Anon", "(anonymous namespace)::Anon"} : S("(anonymous namespace)::Anon");
            case 5: return S("subclass_t"); // look-alikes
            case 6: return S("mystd::basic_string_like");
            case 7: return S("classy::structure");
            default: return S("std::allocator_arg_t");
        }
    }
    auto tmpl = [&](const std::string& rawname, const std::string& prettyname, std::vector<Spelled> args, std::size_t keep) {
        Spelled r{rawname + "<", prettyname + "<"};
        for(std::size_t i = 0; i < args.size(); i++) {
            r.raw += (i ? sep(st) : "") + args[i].raw;
            if(i < keep) r.pretty += (i ? ", " : "") + args[i].pretty;
        }
        close(st, r.raw);
        r.pretty += ">";
        return r;
    };
    auto wrap = [&](const char* name, const Spelled& a) { // default argument, dropped
        std::string r = kw + "std::" + st.inl + name + "<" + a.raw;
        close(st, r);
        return Spelled{r, ""};
    };
    Spelled t = type(c, st, depth - 1);
    switch(c.below(13)) {
        case 0: case 1: {
            std::string r = kw + "std::" + st.cxx11 + "basic_string<char" + sep(st) + kw + "std::" + st.inl + "char_traits<char>" + sep(st) + kw + "std::" + st.inl + "allocator<char>";
            close(st, r);
            return {r, "std::string"};
        }
        case 2: {
            std::string r = kw + "std::" + st.inl + "basic_string_view<char" + sep(st) + kw + "std::" + st.inl + "char_traits<char>";
            close(st, r);
            return {r, "std::string_view"};
        }
        case 3: { // another character type stays as it is, apart from its allocator
            std::string ch = c.pick({std::string("wchar_t"), std::string("char16_t"), std::string("char32_t"), std::string("char8_t")});
            std::string pn = "std::" + (st.cxx11 == "__cxx11::" ? std::string() : st.cxx11);
            std::string r = kw + "std::" + st.cxx11 + "basic_string<" + ch + sep(st) + kw + "std::" + st.inl + "char_traits<" + ch + ">" + sep(st) + kw + "std::" + st.inl + "allocator<" + ch + ">";
            close(st, r);
            return {r, pn + "basic_string<" + ch + ", std::" + st.inl + "char_traits<" + ch + ">>"};
        }
        case 4: return tmpl(kw + "std::" + st.inl + "vector", "std::" + st.inl + "vector", {t, wrap("allocator", t)}, 1);
        case 5: return tmpl(kw + "std::" + st.inl + "unique_ptr", "std::" + st.inl + "unique_ptr", {t, wrap("default_delete", t)}, 1);
        case 6: { // lists live in the __cxx11 namespace too
            std::string pn = "std::" + (st.cxx11 == "__cxx11::" ? std::string() : st.cxx11);
            return tmpl(kw + "std::" + st.cxx11 + "list", pn + "list", {t, wrap("allocator", t)}, 1);
        }
        case 7: {
            Spelled k = type(c, st, depth - 2);
            Spelled less = tmpl(kw + "std::" + st.inl + "less", "std::" + st.inl + "less", {k}, 1);
            Spelled kc{k.raw + " const", k.pretty + " const"};
            Spelled p = tmpl(kw + "std::" + st.inl + "pair", "std::" + st.inl + "pair", {kc, t}, 2);
            return tmpl(kw + "std::" + st.inl + "map", "std::" + st.inl + "map", {k, t, less, wrap("allocator", p)}, 3);
        }
        case 8: return tmpl(kw + "std::" + st.inl + "pair", "std::" + st.inl + "pair", {t, type(c, st, depth - 2)}, 2);
        case 9: return tmpl(kw + "ns::Holder", "ns::Holder", {t}, 1);
        case 10: return {t.raw + (st.msvc ? " const &" : " const&"), t.pretty + (st.msvc ? " const &" : " const&")};
        case 11: return {t.raw + "*", t.pretty + "*"};
        default: { // function type
            Spelled r{"void (", "void ("};
            std::size_t n = 1 + c.below(2);
            for(std::size_t i = 0; i < n; i++) {
                Spelled a = i ? type(c, st, depth - 2) : t;
                r.raw += (i ? sep(st) : "") + a.raw; r.pretty += (i ? ", " : "") + a.pretty;
            }
            r.raw += ")"; r.pretty += ")";
            return r;
        }
    }
}
// Demanglers put a space between two closing brackets even behind a suffix-free argument; a const or * in between needs none.
VT_PROP(prettify_types, "a name in which something is rewritten") {
    Style st = draw_style(c);
    Spelled s;
    switch(c.below(3)) {
        case 0: s = type(c, st, 4); break;
        case 1: { // function with parameters
            s = {"ns::f(", "ns::f("};
            std::size_t n = c.below(4);
            for(std::size_t i = 0; i < n; i++) { Spelled a = type(c, st, 3); s.raw += (i ? sep(st) : "") + a.raw; s.pretty += (i ? ", " : "") + a.pretty; }
            s.raw += ") const"; s.pretty += ") const";
            break;
        }
        default: { // template function
            Spelled r = type(c, st, 2), a = type(c, st, 3), b = type(c, st, 2);
            s.raw = r.raw + " ns::g<" + a.raw; close(st, s.raw); s.raw += "(" + b.raw + ")";
            s.pretty = r.pretty + " ns::g<" + a.pretty + ">(" + b.pretty + ")";
        }
    }
    c.note(vt::quote(s.raw, 3000));
    std::string got = cpptrace::prettify_symbol(s.raw);
    c.eq(got, s.pretty, "prettified name");
    c.eq(cpptrace::prettify_symbol(got), s.pretty, "prettifying the result again");
    c.eq(cpptrace::prettify_symbol(s.raw), got, "a second call");
    c.nontrivial(s.raw != s.pretty);
}

bool word(char ch) { return std::isalnum((unsigned char) ch) || ch == '_'; }
bool space(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
// the rules one by one, written without regular expressions
std::string ref_replace_text(std::string s, const std::string& from, const std::string& to) {
    std::string o;
    for(std::size_t i = 0; i < s.size();) if(s.compare(i, from.size(), from) == 0) { o += to; i += from.size(); } else o += s[i++];
    return o;
}
std::string ref_template(const std::string& s, bool arg, const std::string& name, const std::string& to) {
    // arg: the leading comma belongs to the match; otherwise a word boundary does and "char" follows the bracket
    std::string o;
    for(std::size_t i = 0; i < s.size();) {
        std::size_t j = i;
        bool m = true;
        if(arg) { if(s[j] == ',') { j++; while(j < s.size() && space(s[j])) j++; } else m = false; }
        else m = !(i > 0 && word(s[i - 1])) ;
        if(m) {
            m = false;
            if(s.compare(j, 3, "std") == 0) {
                std::size_t k = j + 3;
                auto rest = [&](std::size_t at) -> std::size_t { // end of "::name<[char\b]" at position at, or 0
                    std::string t = "::" + name + "<" + (arg ? "" : "char");
                    if(s.compare(at, t.size(), t) != 0) return 0;
                    std::size_t e = at + t.size();
                    if(!arg && e < s.size() && word(s[e])) return 0;
                    return e;
                };
                std::size_t e = 0;
                if(s.compare(k, 2, "::") == 0) { // with one namespace in between
                    std::size_t q = k + 2;
                    while(q < s.size() && word(s[q])) q++;
                    if(q > k + 2) e = rest(q);
                }
                if(!e) e = rest(k);
                if(e) {
                    m = true;
                    for(int depth = 1; e < s.size() && depth > 0; e++) { if(s[e] == '<') depth++; else if(s[e] == '>') depth--; }
                    o += to;
                    i = e;
                }
            }
        }
        if(!m) o += s[i++];
    }
    return o;
}
std::string ref_prettify(std::string s) {
    { // a space between two closing brackets goes
        std::string o;
        for(std::size_t i = 0; i < s.size(); i++) if(!(s[i] == ' ' && i && s[i - 1] == '>' && i + 1 < s.size() && s[i + 1] == '>')) o += s[i];
        s = o;
    }
    { // commas
        std::string o;
        for(std::size_t i = 0; i < s.size();) {
            std::size_t j = i;
            while(j < s.size() && space(s[j])) j++;
            if(j < s.size() && s[j] == ',') { j++; while(j < s.size() && space(s[j])) j++; o += ", "; i = j; }
            else { if(j == i) j++; o.append(s, i, j - i); i = j; }
        }
        s = o;
    }
    { // class and struct
        std::string o;
        for(std::size_t i = 0; i < s.size();) {
            std::size_t n = 0;
            if(!(i && word(s[i - 1]))) for(const char* k : {"class", "struct"}) { std::size_t l = std::strlen(k); if(s.compare(i, l, k) == 0 && i + l < s.size() && space(s[i + l])) n = l; }
            if(n) { i += n; while(i < s.size() && space(s[i])) i++; }
            else o += s[i++];
        }
        s = o;
    }
    s = ref_replace_text(s, "`anonymous namespace'", "(anonymous namespace)");
    s = ref_template(s, false, "basic_string", "std::string");
    s = ref_template(s, false, "basic_string_view", "std::string_view");
    s = ref_template(s, true, "allocator", "");
    s = ref_template(s, true, "default_delete", "");
    for(;;) { // removing one can make another
        std::string t = s;
        std::size_t p = 0;
        std::string o = t;
        while((p = o.find("std::__cxx11::", p)) != std::string::npos) { o.replace(p, 14, "std::"); p++; }
        s = o;
        break;
    }
    return s;
}
VT_PROP(prettify_tokens, "a text with a library spelling in it") {
    static const char* toks[] = {"std::", "__cxx11::", "__1::", "basic_string<char", "basic_string_view<char", "basic_string<", "char16_t", "allocator<", "default_delete<", ",", " ,", ", ", ">", " >", "> >", "<", "class ", "struct ",
        "`anonymous namespace'", "x", "_", "std", "::", " ", "\t", "char_traits<char>", "int", "(", ")",
        "enum ", "union ", "typename ", "const ", "volatile ", "unsigned ", "signed ", "namespace ", "interface ", "subclass ", "classy ", "structure ", "wchar_t", "char8_t", "unsigned char", "char const", "pmr::", "__ndk1::", "__debug::", "std::less<", "std::hash<",
        "std::equal_to<", "std::char_traits<", "polymorphic_allocator<", "unique_ptr<", "std::vector<", "basic_ostream<char", "basic_stringbuf<char", "[abi:cxx11]", "{lambda(", ")#1}", "'lambda'", "operator,", "operator>", "operator->", "->", "&", "*", "(anonymous namespace)", "{anonymous}", "`anon'", "<unnamed>",
        "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", ", std::allocator<", "class", "v2::"};
    std::string s;
    std::size_t n = 1 + c.size(30);
    for(std::size_t i = 0; i < n; i++) {
        if(c.chance(1, 12)) { s += c.bytes(2); continue; }
        std::string t = c.pick(toks);
        if(c.chance(1, 8)) switch(std::size_t at = c.below(t.size()); c.below(4)) { // nearly that
            case 0: t.erase(at, 1); break;
            case 1: t.insert(at, 1, t[at]); break;
            case 2: t[at] = "abs_ :<>"[c.below(8)]; break;
            default: if(at) std::swap(t[at], t[at - 1]); break;
        }
        s += t;
    }
    // the library looks at bytes above 127 through the locale's regex traits: keep to what both can agree on
    for(char& ch : s) if((unsigned char) ch >= 128 || ch == 0) ch = '$';
    c.note(vt::quote(s, 3000));
    std::string got = cpptrace::prettify_symbol(s);
    c.eq(got, ref_prettify(s), "prettified text");
    c.nontrivial(s.find("std::") != std::string::npos && got != s);
}
VT_PROP(prettify_total, "a text of at least 8 bytes") {
    std::string s = c.flip() ? c.bytes(300) : c.str_of("<>, s:td\t`'ac", 1500);
    c.note(vt::quote(s, 2000));
    std::string a = cpptrace::prettify_symbol(s);
    c.eq(cpptrace::prettify_symbol(s), a, "a second call");
    if(s.empty()) c.eq(a, std::string(), "the empty name");
    c.nontrivial(s.size() >= 8);
}

// ------------------------------------------------------------------------------------------------ P13
enum class D { gnu, llvm, msvc };
std::string id(Case& c) { return c.pick({std::string("foo"), std::string("bar_2"), std::string("S"), std::string("ns"), std::string("operatorx"), std::string("v1"), std::string("_M_x"), std::string("newton"), std::string("$_0"), std::string("deleter"), std::string("lambda"), std::string("constant")}); }
std::string comma(D d) { return d == D::msvc ? "," : ", "; }
std::string args_of(Case& c, D d, int depth, bool tmpl);
std::string ptype(Case& c, D d, int depth) { // a type as printed in a signature
    std::string amp = d == D::msvc ? " &" : "&", star = d == D::msvc ? " *" : "*";
    switch(c.below(depth > 0 ? 14 : 6)) {
        case 0: return "int";
        case 1: return "unsigned long";
        case 2: return "ns::T";
        case 3: return "char const" + star;
        case 4: return d == D::msvc ? "`anonymous namespace'::A" : "(anonymous namespace)::A";
        case 5: return "bool";
        case 6: return "std::vector" + args_of(c, d, depth - 1, true);
        case 7: return ptype(c, d, depth - 1) + " const" + amp;
        case 8: return ptype(c, d, depth - 1) + (d == D::msvc ? " &&" : "&&");
        case 9: return "void (*)" + args_of(c, d, depth - 1, false);
        case 10: return "int (" + std::string(d == D::msvc ? "&" : "&") + ") [3]";
        case 11: return "int (S::*)" + args_of(c, d, depth - 1, false) + " const";
        case 12: return d == D::gnu ? "main::{lambda(int)#2}" : d == D::llvm ? "main::'lambda0'(int)" : "`int main(void)'::`2'::<lambda_1>";
        default: return "ns::U" + args_of(c, d, depth - 1, true) + "::type";
    }
}
std::string targ(Case& c, D d, int depth) {
    switch(c.below(11)) {
        case 0: return std::to_string(c.below(1000));
        case 1: return d == D::gnu ? "12ul" : "12";
        case 2: return d == D::msvc ? "1" : "(char)97";
        case 3: return "&main";
        case 4: return d == D::msvc ? "5" : "(ns::E)3";
        case 5: return "(5 > 3)";
        case 6: return c.pick({std::string("&S::operator>(S const&)"), std::string("&S::operator<(S const&)"), std::string("&S::operator>>(S const&)"), std::string("&S::operator<=(S const&)"), std::string("&S::operator()(int)"), std::string("&S::operator->()")});
        case 7: return d == D::msvc ? "fixed_string<3>{char{97,62,0}}" : "fixed_string<4ul>{\"a>\\\"<(\"}";
        default: return ptype(c, d, depth);
    }
}
std::string args_of(Case& c, D d, int depth, bool tmpl) {
    std::string s = tmpl ? "<" : "(";
    std::size_t n = c.below(4);
    if(depth <= 0 && n > 1) n = 1;
    if(!tmpl && n == 0 && d == D::msvc) s += "void";
    for(std::size_t i = 0; i < n; i++) s += (i ? comma(d) : "") + (tmpl ? targ(c, d, depth) : ptype(c, d, depth));
    if(tmpl && s.back() == '>' && d != D::llvm) s += " ";
    return s + (tmpl ? ">" : ")");
}
std::string quals(Case& c, D d) {
    std::string q;
    std::string sp = d == D::msvc ? "" : " ";
    if(c.chance(1, 3)) q += sp + "const";
    if(c.chance(1, 8)) q += (q.empty() ? sp : " ") + std::string("volatile");
    if(c.chance(1, 8)) q += c.flip() ? " &" : " &&";
    return q;
}
struct Sig { std::string text, name; bool templated; };
// the qualified name of a function with its printed form (without return type)
Sig qualified(Case& c, D d, int depth);
Sig final_part(Case& c, D d, int depth) {
    switch(c.weighted({8, 2, 6, 2, 2, 2, 1})) {
        case 0: { // plain or template function
            std::string n = id(c);
            Sig s{n, n, false};
            if(c.chance(1, 8) && d != D::msvc) s.text += "[abi:cxx11]";
            if(c.flip()) { s.text += args_of(c, d, depth, true); s.templated = true; }
            return s;
        }
        case 1: { std::string n = (c.flip() ? "~" : "") + std::string("S"); return {n, n, false}; }
        case 2: { // operators
            std::string o = c.pick({std::string("+"), std::string("-"), std::string("*"), std::string("/"), std::string("%"), std::string("^"), std::string("&"), std::string("|"), std::string("~"), std::string("!"), std::string("="), std::string("<"), std::string(">"), std::string("+="), std::string("-="),
                std::string("*="), std::string("/="), std::string("%="), std::string("^="), std::string("&="), std::string("|="), std::string("<<"), std::string(">>"), std::string(">>="), std::string("<<="), std::string("=="), std::string("!="), std::string("<="), std::string(">="), std::string("<=>"),
                std::string("&&"), std::string("||"), std::string("++"), std::string("--"), std::string(","), std::string("->*"), std::string("->"), std::string("()"), std::string("[]")});
            Sig s{"operator" + o, "operator" + o, false};
            if(c.chance(1, 3)) {
                std::string a = args_of(c, d, depth, true);
                s.text += (o.back() == '<' ? " " : "") + a;
                s.templated = true;
            }
            return s;
        }
        case 3: { std::string o = c.pick({std::string("new"), std::string("new[]"), std::string("delete"), std::string("delete[]"), std::string("co_await")}); return {"operator " + o, "operator " + o, false}; }
        case 4: { std::string n = c.pick({std::string("_w"), std::string("_km"), std::string("_")}); return {d == D::msvc ? "operator \"\" " + n : "operator\"\" " + n, "operator\"\"" + n, false}; }
        case 5: { // conversion
            switch(c.below(9)) {
                case 0: return {"operator int", "operator int", false};
                case 1: return {"operator unsigned long", "operator unsigned long", false};
                case 2: return {"operator unsigned long long", "operator unsigned long long", false};
                case 3: return {"operator void*", "operator void*", false};
                case 4: return {"operator ns::Z", "operator ns::Z", false};
                case 5: return {"operator X" + args_of(c, d, depth, true), "operator X", false};
                case 6: { std::string r = c.flip() ? "&" : "&&"; return {"operator T" + r, "operator T" + r, false}; }
                case 7: return {"operator decltype(nullptr)", "operator decltype(nullptr)", false};
                default: return {"operator std::vector" + args_of(c, d, depth, true) + " Y" + args_of(c, d, depth, true) + "::*", "operator std::vector Y::*", false};
            }
        }
        default: return {"operator()", "operator()", false};
    }
}
Sig scope(Case& c, D d, int depth) { // something in front of ::
    switch(c.weighted({6, 4, 2, 2, 2})) {
        case 0: { std::string n = id(c); return {n, n, false}; }
        case 1: { std::string n = id(c); return {n + args_of(c, d, depth, true), n, false}; }
        case 2: return {d == D::msvc || c.flip() ? "`anonymous namespace'" : "(anonymous namespace)", "(anonymous namespace)", false};
        case 3: // local entity: a whole function in front
            if(depth > 0 && d != D::msvc) {
                Sig f = qualified(c, d, depth - 1);
                return {f.text + args_of(c, d, depth - 1, false) + quals(c, d), f.name, false};
            }
            if(depth > 0) {
                Sig f = qualified(c, d, depth - 1);
                return {"`" + std::string(c.flip() ? "void " : "") + f.text + args_of(c, d, 0, false) + quals(c, d) + "'::`2'", "`" + f.name + "'::`2'", false};
            }
            return {"main", "main", false};
        default: // unnamed things
            if(d == D::gnu) {
                std::string k = std::to_string(1 + c.below(12));
                if(c.flip()) return {"{lambda" + std::string(c.chance(1, 4) ? "<typename $T0>" : "") + args_of(c, d, depth, false) + "#" + k + "}", "<lambda#" + k + ">", false};
                return {"{unnamed type#" + k + "}", "<unnamed type#" + k + ">", false};
            } else if(d == D::llvm) {
                std::string k = c.flip() ? "" : std::to_string(c.below(12));
                if(c.flip()) return {"'lambda" + k + "'" + (c.chance(1, 4) ? "<typename $T>" : "") + args_of(c, d, depth, false), "<lambda" + k + ">", false};
                return {"'unnamed" + k + "'", "<unnamed" + k + ">", false};
            }
            return {"<lambda_" + std::to_string(1 + c.below(9)) + ">", "<lambda_1>", false};
    }
}
Sig qualified(Case& c, D d, int depth) {
    Sig r{"", "", false};
    std::size_t n = c.below(4);
    for(std::size_t i = 0; i < n; i++) {
        Sig s = scope(c, d, depth);
        if(s.text.rfind("<lambda_", 0) == 0) s.name = s.text;
        if(i == 0 && (s.text[0] == '{' || s.text[0] == '\'' || s.text[0] == '<')) s = {"main", "main", false}; // unnamed things live inside something
        r.text += s.text + "::";
        r.name += s.name + "::";
    }
    Sig f = final_part(c, d, depth);
    return {r.text + f.text, r.name + f.name, f.templated};
}
VT_PROP(prune_signatures, "a qualified or templated name") {
    D d = D(c.below(3));
    Sig q = qualified(c, d, 2);
    std::string params = args_of(c, d, 2, false) + quals(c, d);
    std::string s;
    int form = q.templated || d == D::msvc ? int(1 + c.below(4)) : int(c.below(2));
    switch(form) {
        case 0: s = q.text + params; break;
        case 1: s = ptype(c, d, 0) + " " + q.text + params; break;
        case 2: s = (d == D::msvc ? "static " : "") + std::string("std::vector") + args_of(c, d, 1, true) + " const" + (d == D::msvc ? " &" : "&") + " " + q.text + params; break;
        case 3: s = d == D::gnu ? "decltype (((declval<int>)())<((declval<int>)())) " + q.text + params : d == D::llvm ? "decltype(declval<int>() < declval<int>()) " + q.text + params : "bool " + q.text + params; break;
        default: { // returns a pointer or reference to a function
            std::string p = c.pick({std::string("*"), std::string("**"), std::string("&")});
            std::string cc = d == D::msvc ? "__cdecl" : "";
            s = "void (" + cc + p + (d == D::msvc && p[0] == '*' ? " " : "") + q.text + params + ")" + args_of(c, d, 1, false);
            break;
        }
    }
    if(c.chance(1, 6)) s += c.pick({std::string(" [clone .cold]"), std::string(" [clone .part.0] [clone .constprop.0]"), std::string(" (.cold)"), std::string(" [clone .isra.0]")});
    c.note(vt::quote(s, 3000));
    c.event(d == D::gnu ? "gnu" : d == D::llvm ? "llvm" : "msvc");
    std::string got = cpptrace::prune_symbol(s);
    c.eq(got, q.name, "pruned name");
    c.nontrivial(q.name != q.text || q.name.find("::") != std::string::npos);
}
void total(Case& c, const std::string& s) {
    std::string got = cpptrace::prune_symbol(s);
    c.check(got.empty() == s.empty(), "empty result for a non-empty text");
    c.check(got.size() <= 2 * s.size(), "the result " + vt::quote(got) + " is longer than the text");
    c.eq(cpptrace::prune_symbol(s), got, "a second call");
}
const std::vector<std::string>& corpus();
bool abi_demangle(const std::string& s, std::string& out);
VT_PROP(prune_total, "a text that is changed by pruning") {
    static const char* toks[] = {"foo", "operator", "::", "<", ">", ">>", "(", ")", "[", "]", "{", "}", "{lambda(", "#1}", "'lambda", "'", "`", "\"", "\\", "\"\"", "new", "delete", "co_await", "decltype", "auto", "nullptr", "const", " ", "*", "&", "&&", "~", "~~", "12ul", "(anonymous namespace)",
        "`anonymous namespace'", "{unnamed type#", "(*", "(__cdecl*", "<lambda_1>", "1'000", "$", "#", "->", "<=>", ",", "noexcept", "\xc3", "@plt", "."};
    std::string s;
    if(c.chance(1, 8)) s = c.bytes(60);
    else if(c.chance(1, 2)) {
        while(!abi_demangle(corpus()[c.below(corpus().size())], s)) {}
        std::size_t n = 1 + c.below(3);
        for(std::size_t i = 0; i < n; i++) {
            std::size_t p = c.below(s.size() + 1);
            if(c.flip()) s.erase(p, 1 + c.below(4));
            else s.insert(p, c.pick(toks));
        }
        if(s.empty()) s = "f";
    } else { std::size_t n = 1 + c.size(40); for(std::size_t i = 0; i < n; i++) s += c.pick(toks); }
    if(c.chance(1, 120)) { // deep or long
        std::string unit = c.pick({std::string("("), std::string("<"), std::string("`"), std::string("(*"), std::string("operator "), std::string("a::"), std::string("{"), std::string("'"), std::string("operator a"), std::string("x ")});
        std::size_t n = 1 + c.below(20000);
        std::string deep;
        for(std::size_t i = 0; i < n; i++) deep += unit;
        if(unit == "`" && c.flip()) deep += std::string(n, '\'');
        if(unit == "(*" && c.flip()) deep += "f" + std::string(n, ')');
        s = c.flip() ? deep + s : s + deep;
    }
    c.note(vt::quote(s, 1500));
    total(c, s);
    c.nontrivial(cpptrace::prune_symbol(s) != s);
}

// the mangled symbols of the C++ runtime library
std::vector<std::string> load_corpus() {
    std::vector<std::string> v;
    for(const char* p : {"/usr/lib/x86_64-linux-gnu/libstdc++.so.6", "/lib/x86_64-linux-gnu/libstdc++.so.6"}) {
        std::ifstream f(p, std::ios::binary);
        std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        std::set<std::string> s;
        for(std::size_t i = 0; i + 2 < b.size(); i++) {
            if(b[i] == '_' && b[i + 1] == 'Z' && (i == 0 || b[i - 1] == 0)) {
                std::size_t j = i;
                while(j < b.size() && (word(b[j]) || b[j] == '.' || b[j] == '$')) j++;
                if(j < b.size() && b[j] == 0 && j - i < 600) s.insert(b.substr(i, j - i));
                i = j;
            }
        }
        if(!s.empty()) { v.assign(s.begin(), s.end()); break; }
    }
    if(v.empty()) v = {"_ZNSt6vectorIiSaIiEE9push_backEOi", "_Z3foov", "_ZN2ns3barIiEEvT_"};
    return v;
}
const std::vector<std::string>& corpus() { static const std::vector<std::string> v = load_corpus(); return v; }
bool abi_demangle(const std::string& s, std::string& out) {
    int st = 0;
    char* p = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if(!p) return false;
    out = p;
    std::free(p);
    return true;
}
VT_PROP(prune_real, "a function symbol whose name can be told from its mangled form") {
    const std::string& m = corpus()[c.below(corpus().size())];
    c.note(m);
    std::string full, name;
    if(!abi_demangle(m, full)) c.discard();
    c.note(" ").note(full);
    total(c, full);
    // special symbols and things without a plain name
    for(const char* k : {" for ", "{lambda", "operator", "@", "(anonymous namespace)::", " to "}) if(full.find(k) != std::string::npos) c.discard();
    if(full.back() != ')' && full.find(')') == std::string::npos) c.discard(); // data
    for(std::size_t n = 3; n < m.size(); n++) if(abi_demangle(m.substr(0, n), name)) break;
    if(name.empty()) c.discard();
    // strip template argument lists and abi tags
    std::string want;
    int depth = 0;
    for(char ch : name) {
        if(ch == '<' || ch == '[' || ch == '(') depth++;
        else if(ch == '>' || ch == ']' || ch == ')') depth--;
        else if(depth == 0) want += ch;
    }
    for(int k = 0; k < 3; k++) for(const char* q : {" const", " volatile", " &&", " &"}) if(want.size() > std::strlen(q) && want.compare(want.size() - std::strlen(q), std::string::npos, q) == 0) want.resize(want.size() - std::strlen(q));
    // the shortest prefix may stop short of the function's own name (a constructor or a local entity): demand it is a prefix then
    std::string got = cpptrace::prune_symbol(full);
    c.check(got == want || got.compare(0, want.size() + 2, want + "::") == 0, "pruned to " + vt::quote(got) + ", expected the name " + vt::quote(want));
    c.nontrivial(want != full);
}

// ------------------------------------------------------------------------------------------------ P14
struct Mangler { // a generator over the Itanium grammar (names only need to be well-formed most of the time)
    Case& c;
    std::string src_name() { std::string n = c.pick({std::string("foo"), std::string("S"), std::string("ns"), std::string("_GLOBAL__N_1"), std::string("x9"), std::string("vector")}); return std::to_string(n.size()) + n; }
    std::string type(int d) {
        switch(c.below(d > 0 ? 14 : 6)) {
            case 0: return c.pick({std::string("i"), std::string("c"), std::string("v"), std::string("m"), std::string("y"), std::string("d"), std::string("Dn"), std::string("b"), std::string("z"), std::string("Di"), std::string("n")});
            case 1: return c.pick({std::string("Ss"), std::string("Sa"), std::string("St4less"), std::string("Si"), std::string("S_"), std::string("S0_"), std::string("T_"), std::string("S1_")});
            case 2: return src_name();
            case 3: return "N" + src_name() + src_name() + "E";
            case 4: return "St" + src_name();
            case 5: return "Da";
            case 6: return "P" + type(d - 1);
            case 7: return "R" + type(d - 1);
            case 8: return "K" + type(d - 1);
            case 9: return "O" + type(d - 1);
            case 10: return "A" + std::to_string(c.below(20)) + "_" + type(d - 1);
            case 11: return "F" + type(d - 1) + type(d - 1) + "E";
            case 12: return "M" + src_name() + "F" + type(d - 1) + type(d - 1) + "E";
            default: return src_name() + targs(d - 1);
        }
    }
    std::string targs(int d) {
        std::string s = "I";
        std::size_t n = c.below(3);
        for(std::size_t i = 0; i < n; i++) switch(c.below(6)) {
            case 0: s += "Li" + std::to_string(c.below(100)) + "E"; break;
            case 1: s += "Lb1E"; break;
            case 2: s += "Lin5E"; break;
            case 3: s += "L_Z3foovE"; break;
            case 4: s += "J" + type(d) + "E"; break;
            default: s += type(d); break;
        }
        return s + "E";
    }
    std::string op() { return c.pick({std::string("pl"), std::string("ls"), std::string("cl"), std::string("ix"), std::string("eq"), std::string("nw"), std::string("dl"), std::string("aS"), std::string("lt"), std::string("gt"), std::string("pt"), std::string("ss")}); }
    std::string unq(int d) {
        switch(c.below(8)) {
            case 0: return op();
            case 1: return "cv" + type(d);
            case 2: return "li" + src_name();
            case 3: return src_name() + "B5cxx11";
            case 4: return "Ul" + type(d) + "E" + (c.flip() ? "_" : std::to_string(c.below(5)) + "_");
            case 5: return "Ut" + std::string(c.flip() ? "_" : "0_");
            default: return src_name();
        }
    }
    std::string nested(int d) {
        std::string s = "N" + std::string(c.chance(1, 4) ? "K" : "") + std::string(c.chance(1, 8) ? "O" : "");
        if(c.chance(1, 4)) s += "St";
        std::size_t n = 1 + c.below(3);
        for(std::size_t i = 0; i < n; i++) { s += src_name(); if(c.chance(1, 3)) s += targs(d); }
        switch(c.below(4)) {
            case 0: s += c.pick({std::string("C1"), std::string("C2"), std::string("D0"), std::string("D1"), std::string("D2")}); break;
            default: s += unq(d); if(c.chance(1, 3)) s += targs(d); break;
        }
        return s + "E";
    }
    std::string encoding(int d) {
        std::string s;
        switch(c.below(5)) {
            case 0: s = src_name(); break;
            case 1: s = src_name() + targs(d) + type(d); break;
            case 2: s = "St" + src_name(); break;
            case 3: if(d > 0) { s = "Z" + encoding(d - 1) + "E" + (c.flip() ? "s" : unq(d - 1)); break; } // fallthrough
            default: s = nested(d); break;
        }
        std::size_t n = 1 + c.below(3);
        for(std::size_t i = 0; i < n; i++) s += type(d);
        return s;
    }
    std::string symbol() {
        switch(c.below(10)) {
            case 0: return "_ZTV" + type(2);
            case 1: return "_ZTI" + type(2);
            case 2: return "_ZTS" + type(2);
            case 3: return "_ZThn16_" + encoding(2);
            case 4: return "_ZGV" + encoding(1);
            case 5: return "_ZTv0_n24_" + encoding(1);
            default: return "_Z" + encoding(2);
        }
    }
};
void check_demangle(Case& c, const std::string& s, bool prefix) {
    bool nul = s.find('\0') != std::string::npos;
    bool accepted = false;
    std::size_t before = allocated();
    {
        std::string got = prefix ? cpptrace::detail::demangle(s, true) : cpptrace::demangle(s);
        if(!nul) {
            std::size_t sp = s.find(' ');
            std::string head = s.substr(0, sp), tail = sp == std::string::npos ? "" : s.substr(sp), d;
            std::string strip = head.compare(0, 3, "__Z") == 0 ? head.substr(1) : head;
            bool ok = abi_demangle(strip, d);
            if(prefix && s.compare(0, 2, "_Z") != 0 && s.compare(0, 3, "__Z") != 0) ok = false;
            c.eq(got, ok ? d + tail : s, "demangled");
            if(!prefix) {
                ctrace_owning_string o = ctrace_demangle(s.c_str());
                c.eq(std::string(o.data ? o.data : ""), got, "the C interface");
                ctrace_free_owning_string(&o);
            }
            accepted = ok && head.size() > 1;
        }
    }
    std::size_t after = allocated();
    c.eq(after, before, "bytes allocated after demangling");
    c.nontrivial(accepted);
    c.event(accepted ? "demangles" : "does not demangle");
}
VT_PROP(demangle_grammar, "a symbol the platform demangler accepts") {
    Mangler m{c};
    std::string s = c.chance(1, 3) ? corpus()[c.below(corpus().size())] : m.symbol();
    if(c.chance(1, 10)) s = "_" + s;
    static const char* suf[] = {".cold", ".part.0", ".constprop.1", ".isra.0", ".llvm.12345", "@plt", "@@GLIBCXX_3.4", " (.cold)", " [clone .cold]", " [clone .part.2] x", ".0", " ", "$x"};
    std::string suffix = c.chance(1, 3) ? c.pick(suf) : "";
    c.note(s + suffix);
    check_demangle(c, s + suffix, c.flip());
    // what was appended stays visible
    std::string got = cpptrace::demangle(s + suffix);
    std::string core;
    for(char ch : suffix) if(word(ch)) core += ch; else { if(!core.empty()) c.check(got.find(core) != std::string::npos, "the suffix is gone: " + got); core.clear(); }
    if(!core.empty()) c.check(got.find(core) != std::string::npos, "the suffix is gone: " + got);
}
VT_PROP(demangle_any, "a text the platform demangler accepts") {
    std::string s;
    switch(c.below(4)) {
        case 0: s = c.bytes(80); break;
        case 1: s = c.pick({std::string("main"), std::string("i"), std::string("foo"), std::string("Ss"), std::string("_start"), std::string("__Zfoo"), std::string("_Z"), std::string("__Z"), std::string("_"), std::string(" "), std::string(" _Z3foov"), std::string("_Z3foov _Z3barv"), std::string("clone x"), std::string("")}); break;
        default: { // mutate a valid symbol
            Mangler m{c};
            s = c.flip() ? corpus()[c.below(corpus().size())] : m.symbol();
            std::size_t n = 1 + c.below(4);
            for(std::size_t i = 0; i < n && !s.empty(); i++) {
                std::size_t p = c.below(s.size());
                switch(c.below(4)) {
                    case 0: s.erase(p, 1 + c.below(3)); break;
                    case 1: s[p] = "_Z0129NEISTKLPRJ. "[c.below(17)]; break;
                    case 2: s.insert(p, s.substr(c.below(s.size()), c.below(12))); break;
                    default: s[p] = char(c.below(256)); break;
                }
            }
        }
    }
    c.note(vt::quote(s));
    check_demangle(c, s, c.flip());
}
}
