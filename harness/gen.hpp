// generators shared by harnesses
#ifndef GEN_HPP
#define GEN_HPP
#include "vt.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <cstdint>
#include <string>
#include <vector>

namespace gen {
using vt::Case;
using cpptrace::frame_ptr;
using cpptrace::nullable;

inline std::string type_name(Case& c, int depth = 3) {
    switch(c.weighted({6, depth > 0 ? 8u : 0u})) {
        case 0: return c.pick({std::string("int"), std::string("char const*"), std::string("foo::bar"), std::string("unsigned long"), std::string("(anonymous namespace)::S"), std::string("5ul"), std::string("void (int)"), std::string("double&"), std::string("std::integral_constant<int, 3>")});
        default: {
            std::string a = type_name(c, depth - 1);
            std::string close = a.back() == '>' ? " >" : ">";
            switch(c.below(9)) {
                case 0: return "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >";
                case 1: return "std::vector<" + a + ", std::allocator<" + a + close + " >";
                case 2: return "std::basic_string_view<char, std::char_traits<char> >";
                case 3: return "std::unique_ptr<" + a + ", std::default_delete<" + a + close + " >";
                case 4: return "std::map<int, " + a + ", std::less<int>, std::allocator<std::pair<int const, " + a + close + " > >";
                case 5: return "ns::T<" + a + close;
                case 6: return "std::pair<" + a + ", " + type_name(c, depth - 1) + ">";
                case 7: return "std::__1::basic_string<char, std::__1::char_traits<char>, std::__1::allocator<char> >";
                default: return "struct A<" + a + " , class B>";
            }
        }
    }
}

inline std::string symbol(Case& c) {
    switch(c.weighted({4, 3, 3, 2, 2, 2, 1})) {
        case 0: return c.pick({std::string("foo()"), std::string("main"), std::string("ns::bar(int)"), std::string("void baz<int>(int const&)"), std::string("S::operator()() const")});
        case 1: return "void ns::f<" + type_name(c) + (c.flip() ? ">()" : " >()");
        case 2: return "g(" + type_name(c) + ", " + type_name(c, 1) + ")";
        case 3: return c.pick({std::string("__cxa_throw"), std::string("_CxxThrowException"), std::string("CxxThrowException"), std::string("__cxa_throw2"), std::string("x__cxa_throw"), std::string("__cxa_rethrow")});
        case 4: return "";
        case 5: return c.pick({std::string("std::function<void ()>::operator()() const"), std::string("foo()::{lambda(int)#1}::operator()(int) const"), std::string("(anonymous namespace)::h(char)"), std::string("auto k<(ns::E)3>(int [4])"), std::string("a<b<c> > d(e)")});
#ifdef VT_GEN_C_TEXT
        default: return c.str_of("ab:<>,() {}%\\\"'\n\t&*`#~\x1b\xc3\xa9", 24);
#else
        default: return c.str_of("ab:<>,() {}%\\\"'\n\t&*`#~\x1b\xc3\xa9\0", 24);
#endif
    }
}
inline std::string filename(Case& c) {
    switch(c.weighted({5, 2, 2, 2})) {
        case 0: return c.pick({std::string("/home/u/src/foo.cpp"), std::string("foo.cpp"), std::string("../bar/baz.h"), std::string("/a.c"), std::string("C:\\x\\y.cpp"), std::string("dir/sub dir/f.cc")});
        case 1: return "";
        case 2: return c.pick({std::string("/"), std::string("/x/"), std::string("a\\b/c"), std::string("a/b\\c"), std::string("/tmp/{}{0}.cpp")});
#ifdef VT_GEN_C_TEXT
        default: return c.str_of("ab/\\.:{} ", 18);
#else
        default: return c.str_of("ab/\\.:{} \0", 18);
#endif
    }
}
inline frame_ptr address(Case& c) {
    switch(c.below(5)) {
        case 0: return c.below(17);
        case 1: return 0x555555554000ull + c.below(0x10000);
        case 2: return c.draw(~0ull);
        case 3: return ~0ull - c.below(3);
        default: return 1ull << c.below(64);
    }
}
inline nullable<std::uint32_t> number(Case& c) {
    switch(c.below(5)) {
        case 0: return nullable<std::uint32_t>::null();
        case 1: return {std::uint32_t(0)};
        case 2: return {std::uint32_t(c.below(200))};
        case 3: return {std::uint32_t(0xfffffffe)};
        default: return {std::uint32_t(c.below(0xffffffff))};
    }
}
inline cpptrace::stacktrace_frame frame(Case& c) {
    cpptrace::stacktrace_frame f;
    f.raw_address = address(c);
    f.object_address = address(c);
    f.line = number(c);
    f.column = number(c);
    f.filename = filename(c);
    f.symbol = symbol(c);
    f.is_inline = c.chance(1, 4);
    return f;
}
inline cpptrace::stacktrace trace(Case& c, std::size_t max_small = 8) {
    cpptrace::stacktrace t;
    std::size_t n;
    switch(c.weighted({1, 10, 3, 1})) {
        case 0: n = 0; break;
        case 1: n = 1 + c.below(max_small); break;
        case 2: n = 9 + c.below(4); break;
        default: n = c.pick({std::size_t(99), std::size_t(100), std::size_t(101), std::size_t(102)}); break;
    }
    if(n > 20) { // a few distinct frames, repeated
        std::vector<cpptrace::stacktrace_frame> base;
        for(int i = 0; i < 3; i++) base.push_back(frame(c));
        for(std::size_t i = 0; i < n; i++) t.frames.push_back(base[i % 3]);
    } else for(std::size_t i = 0; i < n; i++) t.frames.push_back(frame(c));
    return t;
}
inline std::string show(const cpptrace::stacktrace_frame& f) {
    char b[80];
    std::snprintf(b, sizeof b, "{raw=%#llx obj=%#llx", (unsigned long long) f.raw_address, (unsigned long long) f.object_address);
    std::string s = b;
    s += " line=" + (f.line.has_value() ? std::to_string(f.line.value()) : "-");
    s += " col=" + (f.column.has_value() ? std::to_string(f.column.value()) : "-");
    s += " file=" + vt::quote(f.filename) + " symbol=" + vt::quote(f.symbol) + (f.is_inline ? " inline}" : "}");
    return s;
}
inline std::string show(const cpptrace::stacktrace& t, std::size_t max = 16) {
    std::string s;
    for(std::size_t i = 0; i < t.frames.size() && i < max; i++) s += "  frame " + std::to_string(i) + " " + show(t.frames[i]) + "\n";
    if(t.frames.size() > max) s += "  ... " + std::to_string(t.frames.size()) + " frames";
    if(t.frames.empty()) s += "  (empty trace)";
    return s;
}
inline bool same(const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) { return a == b && a.is_inline == b.is_inline; }
inline bool same(const cpptrace::stacktrace& a, const cpptrace::stacktrace& b) {
    if(a.frames.size() != b.frames.size()) return false;
    for(std::size_t i = 0; i < a.frames.size(); i++) if(!same(a.frames[i], b.frames[i])) return false;
    return true;
}
}
#endif
