// P19 traced exception objects
#include "vt.hpp"

#include <cpptrace/cpptrace.hpp>
#include <cpptrace/exceptions.hpp>
#include <cpptrace/formatting.hpp>

#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <system_error>

#define NOINLINE __attribute__((noinline))
#define KEEP() asm volatile("" ::: "memory")

namespace {
using vt::Case;
using u64 = std::uint64_t;
using Ptr = cpptrace::frame_ptr;

std::string hex(u64 v) { char b[24]; std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
bool same(const cpptrace::stacktrace_frame& a, const cpptrace::stacktrace_frame& b) {
    return a.raw_address == b.raw_address && a.object_address == b.object_address && a.line == b.line && a.column == b.column && a.filename == b.filename && a.symbol == b.symbol && a.is_inline == b.is_inline;
}
bool same(const cpptrace::stacktrace& a, const cpptrace::stacktrace& b) {
    if(a.frames.size() != b.frames.size()) return false;
    for(std::size_t i = 0; i < a.frames.size(); i++) if(!same(a.frames[i], b.frames[i])) return false;
    return true;
}
std::vector<Ptr> addresses(const cpptrace::stacktrace& t) {
    std::vector<Ptr> v;
    for(auto& f : t.frames) if(!f.is_inline) v.push_back(f.raw_address);
    return v;
}
std::string show(const std::vector<Ptr>& v) {
    std::string s;
    for(auto p : v) s += " " + hex(p);
    return "[" + s + " ]";
}
// resolution is pure: remember it
const cpptrace::stacktrace& resolved(const std::vector<Ptr>& v) {
    static std::map<std::vector<Ptr>, cpptrace::stacktrace> memo;
    auto it = memo.find(v);
    if(it == memo.end()) {
        if(memo.size() > 4000) memo.clear();
        it = memo.emplace(v, v.empty() ? cpptrace::stacktrace{} : cpptrace::raw_trace{v}.resolve()).first;
    }
    return it->second;
}

std::string message_text(Case& c) {
    switch(c.weighted({4, 2, 2, 1})) {
        case 0: return c.pick({std::string("foobar"), std::string("a message long enough not to be stored in place, surely"), std::string("x")});
        case 1: return "";
        case 2: return c.str_of("ab %s{}\\\n:\"\x1b\xc3\xa9\xff", 40);
        default: return std::string(c.size(6000), 'y');
    }
}

// ------------------------------------------------------------------ objects of every class
struct UserError : cpptrace::lazy_exception { // as the documentation suggests
    int v;
    explicit UserError(int v): v(v) {}
    UserError(int v, cpptrace::raw_trace&& t): lazy_exception(std::move(t)), v(v) {}
    const char* message() const noexcept override { return "user error"; }
};
struct UserMessage : cpptrace::runtime_error {
    explicit UserMessage(std::string&& m): runtime_error(std::move(m)) {}
    UserMessage(std::string&& m, cpptrace::raw_trace&& t): runtime_error(std::move(m), std::move(t)) {}
};
struct Payload { int a; std::string b; };

enum Class { LAZY, MESSAGE, LOGIC, DOMAIN_, INVALID, LENGTH, OUT, RUNTIME, RANGE, OVER, UNDER, NESTED, SYSTEM, USER, USERM, n_classes };
const char* class_names[] = {"lazy_exception", "exception_with_message", "logic_error", "domain_error", "invalid_argument", "length_error", "out_of_range", "runtime_error", "range_error", "overflow_error", "underflow_error", "nested_exception", "system_error", "user lazy_exception", "user runtime_error"};

struct Model {
    std::string message;
    std::vector<Ptr> trace;
    bool moved_from = false;
    int code = 0;
    std::exception_ptr inner;
    bool queried = false;
    bool no_inner = false;
};
struct Slot {
    Class k;
    std::shared_ptr<cpptrace::exception> e; // the object (complete type given by k)
    Model m;
};

template<typename F> auto with_class(Class k, F&& f) {
    switch(k) {
        case LAZY: return f((cpptrace::lazy_exception*)nullptr);
        case MESSAGE: return f((cpptrace::exception_with_message*)nullptr);
        case LOGIC: return f((cpptrace::logic_error*)nullptr);
        case DOMAIN_: return f((cpptrace::domain_error*)nullptr);
        case INVALID: return f((cpptrace::invalid_argument*)nullptr);
        case LENGTH: return f((cpptrace::length_error*)nullptr);
        case OUT: return f((cpptrace::out_of_range*)nullptr);
        case RUNTIME: return f((cpptrace::runtime_error*)nullptr);
        case RANGE: return f((cpptrace::range_error*)nullptr);
        case OVER: return f((cpptrace::overflow_error*)nullptr);
        case UNDER: return f((cpptrace::underflow_error*)nullptr);
        case NESTED: return f((cpptrace::nested_exception*)nullptr);
        case SYSTEM: return f((cpptrace::system_error*)nullptr);
        case USER: return f((UserError*)nullptr);
        default: return f((UserMessage*)nullptr);
    }
}
struct Args { std::string message; int code; std::exception_ptr inner; };
// construct an object in place, with its own trace or a given one
template<typename T> struct Make {
    static NOINLINE std::shared_ptr<cpptrace::exception> own(Args a, std::vector<Ptr>& here) {
        here = cpptrace::generate_raw_trace().frames;
        KEEP();
        std::shared_ptr<cpptrace::exception> r;
        if constexpr(std::is_same_v<T, cpptrace::lazy_exception>) r = std::shared_ptr<T>(new T());
        else if constexpr(std::is_same_v<T, UserError>) r = std::shared_ptr<T>(new T(a.code));
        else if constexpr(std::is_same_v<T, cpptrace::nested_exception>) r = std::shared_ptr<T>(new T(a.inner));
        else if constexpr(std::is_same_v<T, cpptrace::system_error>) r = std::shared_ptr<T>(new T(a.code, std::string(a.message)));
        else r = std::shared_ptr<T>(new T(std::string(a.message)));
        KEEP();
        return r;
    }
    static std::shared_ptr<cpptrace::exception> given(Args a, std::vector<Ptr> t) {
        cpptrace::raw_trace rt{std::move(t)};
        if constexpr(std::is_same_v<T, cpptrace::lazy_exception>) return std::make_shared<T>(std::move(rt));
        else if constexpr(std::is_same_v<T, UserError>) return std::make_shared<T>(a.code, std::move(rt));
        else if constexpr(std::is_same_v<T, cpptrace::nested_exception>) return std::make_shared<T>(a.inner, std::move(rt));
        else if constexpr(std::is_same_v<T, cpptrace::system_error>) return std::make_shared<T>(a.code, std::string(a.message), std::move(rt));
        else return std::make_shared<T>(std::string(a.message), std::move(rt));
    }
};
NOINLINE void at_depth(unsigned d, const std::function<void()>& f) {
    if(d == 0) f();
    else at_depth(d - 1, f);
    KEEP();
}
std::exception_ptr some_exception(Case& c, std::string& message) { // with the message a nested exception has for it
    switch(c.below(6)) {
        case 0: { auto m = c.pick({std::string("inner"), std::string(""), std::string("inner: with a rather long text to say what happened")}); message = "Nested exception: " + m; return std::make_exception_ptr(std::runtime_error(m)); }
        case 1: message = "Nested exception holding instance of int"; return std::make_exception_ptr(5);
        case 2: message = "Nested exception holding instance of (anonymous namespace)::Payload"; return std::make_exception_ptr(Payload{3, "p"});
        case 3: { cpptrace::logic_error e("inner traced"); message = "Nested exception: " + std::string(e.what()); return std::make_exception_ptr(e); }
        case 4: message = "Nested exception holding instance of char const*"; return std::make_exception_ptr(static_cast<const char*>("text"));
        default: { std::out_of_range e("far"); message = "Nested exception: far"; return std::make_exception_ptr(e); }
    }
}
struct Run {
    Case& c;
    std::vector<Slot> slots;
    explicit Run(Case& c): c(c) {}
    void query(Slot& s, const char* when) {
        if(s.m.moved_from || s.m.no_inner) { // nothing is said about its content, but it can be asked
            (void)std::strlen(s.e->message());
            (void)s.e->trace().frames.size();
            (void)std::strlen(s.e->what());
            return;
        }
        auto& e = *s.e;
        auto what = [&] { return std::string(when) + ", " + class_names[s.k]; };
        auto ask_message = [&] { if(s.m.message != e.message()) c.fail(what() + ": message() is " + vt::quote(e.message()) + ", given was " + vt::quote(s.m.message)); };
        auto ask_trace = [&] {
            auto& t = e.trace();
            auto& t2 = e.trace();
            if(&t != &t2) c.fail(what() + ": trace() returns different objects");
            if(!same(t, resolved(s.m.trace))) c.fail(what() + ": trace() has addresses " + show(addresses(t)) + ", the trace of the construction " + show(s.m.trace) + "\n" + t.to_string() + "\nexpected\n" + resolved(s.m.trace).to_string());
        };
        auto ask_what = [&] {
            std::string w = e.what(), w2 = e.what();
            if(w != s.m.message + ":\n" + resolved(s.m.trace).to_string()) c.fail(what() + ": what() is\n" + w + "\nexpected\n" + s.m.message + ":\n" + resolved(s.m.trace).to_string());
            if(w2 != w) c.fail(what() + ": a second what() differs");
        };
        unsigned order = unsigned(c.below(6));
        static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        unsigned upto = unsigned(1 + c.below(3));
        for(unsigned i = 0; i < upto; i++) switch(orders[order][i]) {
            case 0: ask_message(); break;
            case 1: ask_trace(); s.m.queried = true; break;
            default: ask_what(); s.m.queried = true;
        }
        if(s.k == SYSTEM) {
            auto& code = static_cast<cpptrace::system_error&>(e).code();
            c.check(code.value() == s.m.code && code.category() == std::generic_category(), what() + ": code()");
        }
        if(s.k == NESTED) c.check(static_cast<cpptrace::nested_exception&>(e).nested_ptr() == s.m.inner, what() + ": nested_ptr()");
        if(s.k == USER) c.check(static_cast<UserError&>(e).v == s.m.code, what() + ": the user's own member");
    }
    void construct() {
        Slot s{};
        s.k = Class(c.below(n_classes));
        Args a{message_text(c), int(c.pick({0, 1, 2, 13, 22, 110, 9999, -1})), nullptr};
        s.m.code = a.code;
        switch(s.k) {
            case LAZY: s.m.message = "cpptrace::lazy_exception"; break;
            case USER: s.m.message = "user error"; break;
            case NESTED: if(c.chance(1, 8)) s.m.no_inner = true; else a.inner = some_exception(c, s.m.message); s.m.inner = a.inner; break;
            case SYSTEM: s.m.message = a.message + ": " + std::error_code(a.code, std::generic_category()).message(); break;
            default: s.m.message = a.message;
        }
        if(c.chance(1, 3)) {
            if(!c.chance(1, 3)) for(std::size_t i = 0, n = 1 + c.below(4); i < n; i++) s.m.trace.push_back(c.pick({Ptr(&some_exception), Ptr(&addresses), Ptr(&std::abort), Ptr(0), Ptr(77)}) + Ptr(c.below(5)));
            c.line(std::string("construct ") + class_names[s.k] + " " + vt::quote(s.m.message, 60) + " with a given trace of " + std::to_string(s.m.trace.size()));
            s.e = with_class(s.k, [&](auto* p) { return Make<std::remove_pointer_t<decltype(p)>>::given(a, s.m.trace); });
        } else {
            unsigned d = unsigned(c.chance(1, 250) ? c.size(3000) : c.size(12));
            if(d > 1000) c.event("deeper than 1000 calls");
            c.line(std::string("construct ") + class_names[s.k] + " " + vt::quote(s.m.message, 60) + " at depth " + std::to_string(d));
            std::vector<Ptr> here;
            at_depth(d, [&] { with_class(s.k, [&](auto* p) { s.e = Make<std::remove_pointer_t<decltype(p)>>::own(a, here); }); });
            // the two captures differ only in where the constructing function was
            auto probe = with_class(s.k, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; return addresses(T(static_cast<const T&>(*s.e)).trace()); });
            c.check(probe.size() == here.size() && std::equal(probe.begin() + (probe.empty() ? 0 : 1), probe.end(), here.begin() + (here.empty() ? 0 : 1)) && probe.size() >= d && !probe.empty(), std::string(class_names[s.k]) + ": the trace is " + show(probe) + ", at the construction it was " + show(here));
            c.check(probe[0] > here[0] && probe[0] - here[0] < 2048, std::string(class_names[s.k]) + ": the trace begins at " + hex(probe[0]) + ", not in the constructing function (" + hex(here[0]) + ")");
            s.m.trace = probe;
        }
        slots.push_back(std::move(s));
    }
    template<typename F> void typed(Slot& s, F&& f) { with_class(s.k, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; f(static_cast<T&>(*s.e)); }); }
    void step() {
        if(slots.empty()) return construct();
        auto& s = slots[c.below(slots.size())];
        auto idx = &s - slots.data();
        std::string who = std::to_string(idx);
        switch(c.weighted({3, 6, 3, 3, 4, 4, 2, 3, 3})) {
            case 0: construct(); break;
            case 1: c.line("query " + who); query(s, "on query"); break;
            case 2: { // copy
                c.line("copy " + who);
                Slot n{s.k, nullptr, s.m};
                typed(s, [&](auto& e) { n.e = std::make_shared<std::decay_t<decltype(e)>>(e); });
                slots.push_back(std::move(n));
                break;
            }
            case 3: {
                c.line("move " + who);
                Slot n{s.k, nullptr, s.m};
                typed(s, [&](auto& e) { n.e = std::make_shared<std::decay_t<decltype(e)>>(std::move(e)); });
                s.m.moved_from = true;
                slots.push_back(std::move(n));
                break;
            }
            case 4: case 5: { // assign between two of a class
                std::vector<std::size_t> v;
                for(std::size_t i = 0; i < slots.size(); i++) if(slots[i].k == s.k) v.push_back(i);
                auto j = v[c.below(v.size())];
                auto& d = slots[j];
                bool mv = c.flip() && &d != &s;
                c.line((mv ? "move-assign " : "assign ") + std::to_string(j) + " = " + who);
                with_class(s.k, [&](auto* p) {
                    using T = std::remove_pointer_t<decltype(p)>;
                    if(mv) static_cast<T&>(*d.e) = std::move(static_cast<T&>(*s.e));
                    else static_cast<T&>(*d.e) = static_cast<T&>(*s.e);
                });
                if(&d != &s) {
                    d.m = s.m;
                    if(mv) s.m.moved_from = true;
                } else c.event("assigned to itself");
                break;
            }
            case 6: c.line("drop " + who); slots.erase(slots.begin() + idx); break;
            case 7: { // thrown, caught through a base, kept by a pointer
                c.line("throw and catch " + who);
                if(s.m.moved_from) break;
                Slot n{s.k, nullptr, s.m};
                std::exception_ptr ep;
                bool inner_query = c.flip();
                try {
                    typed(s, [&](auto& e) { throw e; });
                } catch(cpptrace::exception& e) {
                    Slot t{s.k, std::shared_ptr<cpptrace::exception>(&e, [](auto*) {}), s.m};
                    if(inner_query) query(t, "in the handler");
                    typed(t, [&](auto& x) { n.e = std::make_shared<std::decay_t<decltype(x)>>(x); });
                    ep = std::current_exception();
                }
                try { std::rethrow_exception(ep); } catch(std::exception& e) {
                    auto* x = dynamic_cast<cpptrace::exception*>(&e);
                    c.check(x != nullptr, "caught as another type");
                    Slot t{s.k, std::shared_ptr<cpptrace::exception>(x, [](auto*) {}), s.m};
                    query(t, "after rethrowing");
                }
                slots.push_back(std::move(n));
                break;
            }
            default: { // slices keep their part
                if(s.m.moved_from || s.k == LAZY) break;
                c.line("base copy of " + who);
                cpptrace::lazy_exception base(static_cast<cpptrace::lazy_exception&>(*s.e));
                c.check(same(base.trace(), resolved(s.m.trace)), "the trace of a copy of the base");
            }
        }
    }
};
VT_PROP(exception_objects, "an object was copied, moved or assigned after it was asked for its trace") {
    Run r(c);
    int n = int(2 + c.size(40));
    for(int i = 0; i < n; i++) {
        r.step();
        for(auto& s : r.slots) if(s.m.queried) c.nontrivial(r.slots.size() >= 2);
        if(r.slots.size() > 12) r.slots.erase(r.slots.begin());
    }
    for(auto& s : r.slots) r.query(s, "at the end");
}

// ------------------------------------------------------------------ the holder itself
VT_PROP(trace_holder, "a holder was assigned to itself or copied in both states") {
    using H = cpptrace::detail::lazy_trace_holder;
    struct S { std::unique_ptr<H> h; bool resolved; std::vector<Ptr> t; cpptrace::stacktrace r; bool moved; };
    std::vector<S> v;
    bool self = false, copied[2] = {};
    auto addr = [&] { std::vector<Ptr> t; for(std::size_t i = 0, n = c.below(5); i < n; i++) t.push_back(c.pick({Ptr(&some_exception), Ptr(&addresses), Ptr(0), Ptr(77)}) + Ptr(c.below(3))); return t; };
    auto check = [&](S& s, const std::string& what) {
        c.eq(s.h->is_resolved(), s.resolved, what + ": is_resolved()");
        bool threw = false;
        if(s.resolved) {
            const H& k = *s.h;
            if(!s.moved) c.check(same(k.get_resolved_trace(), s.r), what + ": the resolved trace");
            else (void)k.get_resolved_trace().frames.size();
            try { (void)s.h->get_raw_trace(); } catch(const std::logic_error&) { threw = true; }
            c.check(threw, what + ": get_raw_trace() of a resolved holder does not throw");
        } else {
            if(!s.moved) c.check(s.h->get_raw_trace().frames == s.t, what + ": the raw trace");
            const H& k = *s.h;
            try { (void)k.get_resolved_trace(); } catch(const std::logic_error&) { threw = true; }
            c.check(threw, what + ": get_resolved_trace() of an unresolved const holder does not throw");
        }
    };
    int n = int(2 + c.size(40));
    for(int i = 0; i < n; i++) {
        std::size_t k = v.empty() ? 0 : c.below(v.size());
        switch(v.empty() ? c.below(3) : c.below(10)) {
            case 0: v.push_back({std::make_unique<H>(), false, {}, {}, false}); c.line("empty holder"); break;
            case 1: { auto t = addr(); v.push_back({std::make_unique<H>(cpptrace::raw_trace{t}), false, t, {}, false}); c.line("raw holder of " + std::to_string(t.size())); break; }
            case 2: { cpptrace::stacktrace r = resolved(addr()); v.push_back({std::make_unique<H>(cpptrace::stacktrace(r)), true, {}, r, false}); c.line("resolved holder of " + std::to_string(r.frames.size())); break; }
            case 3: { copied[v[k].resolved] = true; c.line("copy " + std::to_string(k)); S s{std::make_unique<H>(*v[k].h), v[k].resolved, v[k].t, v[k].r, v[k].moved}; v.push_back(std::move(s)); break; }
            case 4: { c.line("move " + std::to_string(k)); S s{std::make_unique<H>(std::move(*v[k].h)), v[k].resolved, v[k].t, v[k].r, v[k].moved}; v[k].moved = true; v.push_back(std::move(s)); break; }
            case 5: case 6: {
                auto j = c.below(v.size());
                c.line("assign " + std::to_string(j) + " = " + std::to_string(k));
                *v[j].h = *v[k].h;
                if(j == k) self = true;
                v[j].resolved = v[k].resolved, v[j].t = v[k].t, v[j].r = v[k].r, v[j].moved = v[k].moved;
                break;
            }
            case 7: {
                auto j = c.below(v.size());
                if(j == k) break;
                c.line("move-assign " + std::to_string(j) + " = " + std::to_string(k));
                *v[j].h = std::move(*v[k].h);
                v[j].resolved = v[k].resolved, v[j].t = v[k].t, v[j].r = v[k].r, v[j].moved = v[k].moved;
                v[k].moved = true;
                break;
            }
            case 8: {
                c.line("resolve " + std::to_string(k));
                auto& t = v[k].h->get_resolved_trace();
                if(!v[k].resolved) v[k].r = resolved(v[k].t), v[k].resolved = true;
                c.check(&t == &v[k].h->get_resolved_trace(), "get_resolved_trace() returns another object the second time");
                if(!v[k].moved) c.check(same(t, v[k].r), "get_resolved_trace()");
                break;
            }
            default: c.line("drop " + std::to_string(k)); v.erase(v.begin() + long(k));
        }
        for(std::size_t j = 0; j < v.size(); j++) check(v[j], "holder " + std::to_string(j));
    }
    c.nontrivial(self || (copied[0] && copied[1]));
}

// ------------------------------------------------------------------ wrapping
struct Sent { int kind; int value; const void* object; std::string message; }; // what was thrown
struct OwnTraced : cpptrace::exception { // straight from the interface
    int v; cpptrace::stacktrace t;
    explicit OwnTraced(int v): v(v) {}
    const char* what() const noexcept override { return "own what"; }
    const char* message() const noexcept override { return "own"; }
    const cpptrace::stacktrace& trace() const noexcept override { return t; }
};
struct TwoBases : std::runtime_error, cpptrace::logic_error {
    int v;
    explicit TwoBases(int v): std::runtime_error("std side"), cpptrace::logic_error("traced side"), v(v) {}
    const char* what() const noexcept override { return "two"; }
};
struct LatelyTraced : OwnTraced { using OwnTraced::OwnTraced; };
[[noreturn]] NOINLINE void throw_it(int kind, int value, Sent& sent) {
    sent = {kind, value, nullptr, ""};
    switch(kind) {
        case 0: throw value;
        case 1: sent.message = "std " + std::to_string(value); throw std::runtime_error(sent.message);
        case 2: throw Payload{value, "payload"};
        case 3: sent.message = "traced " + std::to_string(value); throw cpptrace::range_error(std::string(sent.message));
        case 4: throw UserError(value);
        case 5: throw static_cast<const char*>("c string");
        case 6: sent.message = "lib " + std::to_string(value); throw std::system_error(std::make_error_code(std::errc::bad_address), sent.message);
        case 7: throw std::make_shared<int>(value);
        case 8: throw OwnTraced(value);
        case 9: throw TwoBases(value);
        default: throw LatelyTraced(value);
    }
}
const char* kinds[] = {"int", "std::runtime_error", "struct", "cpptrace::range_error", "user lazy_exception", "const char*", "std::system_error", "shared_ptr", "user cpptrace::exception", "class with a traced and an untraced base", "class derived from a user cpptrace::exception"};
bool is_traced(int k) { return k == 3 || k == 4 || k >= 8; }
int thrown_or(bool thrown, int kind, int value, Sent& s) { if(thrown) throw_it(kind, value, s); return value; }
int global_value = 0;
int& thrown_or_ref(bool thrown, int kind, int value, Sent& s) { if(thrown) throw_it(kind, value, s); return global_value; }

struct Here { std::vector<Ptr> t; int reached = 0; int result = 0; const void* ref = nullptr; };
NOINLINE void wrap_block(bool thrown, int kind, int value, Sent& s, Here& h) {
    h.t = cpptrace::generate_raw_trace().frames;
    KEEP();
    CPPTRACE_WRAP_BLOCK(
        h.reached = 1;
        h.result = thrown_or(thrown, kind, value, s);
        h.reached = 2;
    );
    h.reached = 3;
    KEEP();
}
NOINLINE void wrap_expression(bool thrown, int kind, int value, Sent& s, Here& h) {
    h.t = cpptrace::generate_raw_trace().frames;
    KEEP();
    h.reached = 1;
    h.result = CPPTRACE_WRAP(thrown_or(thrown, kind, value, s));
    h.reached = 3;
    KEEP();
}
NOINLINE void wrap_reference(bool thrown, int kind, int value, Sent& s, Here& h) {
    h.t = cpptrace::generate_raw_trace().frames;
    KEEP();
    h.reached = 1;
    auto&& r = CPPTRACE_WRAP(thrown_or_ref(thrown, kind, value, s));
    static_assert(std::is_same_v<decltype(r), int&>, "");
    h.ref = &r;
    h.result = value;
    h.reached = 3;
    KEEP();
}
NOINLINE void wrap_void(bool thrown, int kind, int value, Sent& s, Here& h) {
    h.t = cpptrace::generate_raw_trace().frames;
    KEEP();
    h.reached = 1;
    CPPTRACE_WRAP(static_cast<void>(thrown_or(thrown, kind, value, s)));
    h.result = value;
    h.reached = 3;
    KEEP();
}
NOINLINE void wrap_direct(bool thrown, int kind, int value, Sent& s, Here& h) {
    h.t = cpptrace::generate_raw_trace().frames;
    KEEP();
    try { h.reached = 1; h.result = thrown_or(thrown, kind, value, s); h.reached = 2; } catch(...) { cpptrace::rethrow_and_wrap_if_needed(0); }
    h.reached = 3;
    KEEP();
}
using Wrapper = void (*)(bool, int, int, Sent&, Here&);
Wrapper wrappers[] = {wrap_block, wrap_expression, wrap_reference, wrap_void, wrap_direct};
const char* wrapper_names[] = {"CPPTRACE_WRAP_BLOCK", "CPPTRACE_WRAP", "CPPTRACE_WRAP (reference)", "CPPTRACE_WRAP (void)", "rethrow_and_wrap_if_needed"};

void check_inner(Case& c, const std::exception_ptr& p, const Sent& s) {
    bool ok = false;
    try { std::rethrow_exception(p); }
    catch(int v) { ok = s.kind == 0 && v == s.value; }
    catch(const char* v) { ok = s.kind == 5 && !std::strcmp(v, "c string"); }
    catch(const Payload& v) { ok = s.kind == 2 && v.a == s.value && v.b == "payload"; }
    catch(const std::shared_ptr<int>& v) { ok = s.kind == 7 && *v == s.value; }
    catch(const cpptrace::range_error& v) { ok = s.kind == 3 && s.message == v.message(); }
    catch(const UserError& v) { ok = s.kind == 4 && v.v == s.value; }
    catch(const LatelyTraced& v) { ok = s.kind == 10 && v.v == s.value; }
    catch(const OwnTraced& v) { ok = s.kind == 8 && v.v == s.value; }
    catch(const TwoBases& v) { ok = s.kind == 9 && v.v == s.value && std::string(v.message()) == "traced side"; }
    catch(const std::system_error& v) { ok = s.kind == 6 && v.code() == std::errc::bad_address && std::string(v.what()).find(s.message) == 0; }
    catch(const std::runtime_error& v) { ok = s.kind == 1 && s.message == v.what(); }
    catch(...) {}
    c.check(ok, std::string("the exception is no longer the thrown ") + kinds[s.kind]);
}
VT_PROP(wrapping, "an exception that has no trace of its own was wrapped") {
    int w = int(c.below(5)), outer = int(c.below(6)) - 1, kind = int(c.below(11)), value = int(c.below(1000));
    bool thrown = !c.chance(1, 6);
    unsigned d = unsigned(c.size(10)), d2 = unsigned(c.size(4));
    c.line(std::string(wrapper_names[w]) + (thrown ? std::string(" with a thrown ") + kinds[kind] : std::string(" without exception")) + " at depth " + std::to_string(d) + (outer >= 0 ? std::string(" inside ") + wrapper_names[outer] : ""));
    Sent s{};
    Here h, h2;
    c.nontrivial(thrown && !is_traced(kind));
    bool caught = false;
    std::exception_ptr first;
    auto body = [&] { at_depth(d2, [&] { wrappers[w](thrown, kind, value, s, h); }); };
    try {
        at_depth(d, [&] {
            if(outer < 0) body();
            else try { body(); } catch(...) { // an outer wrapper sees an exception that already has a trace
                first = std::current_exception();
                switch(outer) {
                    case 0: CPPTRACE_WRAP_BLOCK(std::rethrow_exception(first);); break;
                    case 4: cpptrace::rethrow_and_wrap_if_needed(); break;
                    default: CPPTRACE_WRAP(std::rethrow_exception(first));
                }
            }
        });
    } catch(const cpptrace::nested_exception& e) {
        caught = true;
        c.check(thrown && !is_traced(kind), "an exception with its own trace was wrapped");
        check_inner(c, e.nested_ptr(), s);
        std::string m = kind == 1 || kind == 6 ? "Nested exception: " : "Nested exception holding instance of ";
        std::string type = kind == 0 ? "int" : kind == 2 ? "(anonymous namespace)::Payload" : kind == 5 ? "char const*" : kind == 7 ? "std::shared_ptr<int>" : "";
        if(kind == 1) c.eq(std::string(e.message()), m + s.message, "message()");
        else if(kind == 6) c.check(std::string(e.message()).find(m + s.message) == 0, "message() is " + vt::quote(e.message()));
        else c.eq(std::string(e.message()), m + type, "message()");
        auto t = addresses(e.trace());
        c.check(t.size() == h.t.size() && !t.empty() && std::equal(t.begin() + 1, t.end(), h.t.begin() + 1) && t[0] - h.t[0] + 4096 < 8192, std::string(wrapper_names[w]) + ": the trace is " + show(t) + ", in the wrapping function it was " + show(h.t));
        if(first) { // not wrapped twice: the very same object
            const void* a = &e;
            try { std::rethrow_exception(first); } catch(const cpptrace::nested_exception& x) { c.check(&x == a, "the exception was replaced by another"); }
        }
        c.eq(std::string(e.what()), std::string(e.message()) + ":\n" + e.trace().to_string(), "what()");
    } catch(...) {
        caught = true;
        c.check(thrown && is_traced(kind), "the exception was not wrapped");
        check_inner(c, std::current_exception(), s);
    }
    c.eq(caught, thrown, "an exception came out");
    c.eq(h.reached, thrown ? 1 : 3, "how far the wrapped code got");
    if(!thrown) {
        c.eq(h.result, value, "the wrapped expression's value");
        if(w == 2) c.check(h.ref == &global_value, "the wrapped reference refers elsewhere");
    }
}
}
