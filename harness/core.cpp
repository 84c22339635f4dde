// P29 LRU cache, P30 optional values, P31 text helpers
#include "vt.hpp"
#include <cpptrace/basic.hpp>
#include <cpptrace/cpptrace.hpp>
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <variant>
#include "utils/lru_cache.hpp"
#include "utils/microfmt.hpp"
#include "utils/optional.hpp"
#include "utils/replace_all.hpp"
#include "utils/result.hpp"
#include "utils/span.hpp"
#include "utils/string_view.hpp"
#include "utils/utils.hpp"
#undef VERIFY
#undef ASSERT

using vt::Case;
namespace d = cpptrace::detail;
namespace {

// An instrumented value: knows its own address, counts live instances, marks moved-from ones.
struct Tracked {
    static int live;
    int v;
    const Tracked* self;
    std::string payload;
    explicit Tracked(int x) : v(x), self(this), payload(std::size_t(20 + x % 7), char('a' + x % 26)) { live++; }
    Tracked(const Tracked& o) : v(o.v), self(this), payload(o.payload) { o.good(); live++; }
    Tracked(Tracked&& o) : v(o.v), self(this), payload(std::move(o.payload)) { o.good(); o.v = -1; live++; }
    Tracked& operator=(const Tracked& o) { good(); o.good(); v = o.v; payload = o.payload; return *this; }
    Tracked& operator=(Tracked&& o) {
        good(); o.good();
        if(&o != this) { v = o.v; payload = std::move(o.payload); o.v = -1; }
        return *this;
    }
    ~Tracked() { good(); self = nullptr; live--; }
    void good() const {
        if(self != this) {
            std::fprintf(stderr, "an object was used or destroyed that is not alive\n");
            std::abort();
        }
    }
    bool operator==(const Tracked& o) const { return v == o.v; }
};
int Tracked::live = 0;

// ------------------------------------------------------------------------------------------------ P29
template<typename K, typename MK>
void lru_history(Case& c, MK mk) {
    struct E { K key; int value; };
    std::list<E> model; // most recent first
    std::optional<std::size_t> cap;
    bool evicted = false, hit_after = false;
    auto trim = [&] { while(cap && model.size() > *cap) { model.pop_back(); evicted = true; } };
    auto find = [&](const K& k) { return std::find_if(model.begin(), model.end(), [&](const E& e) { return e.key == k; }); };
    auto draw_cap = [&]() -> std::optional<std::size_t> {
        if(c.chance(1, 4)) return std::nullopt;
        return std::size_t(1 + c.size(12));
    };
    auto to_opt = [](std::optional<std::size_t> o) { return o ? d::optional<std::size_t>(*o) : d::optional<std::size_t>(d::nullopt); };
    {
        if(c.flip()) cap = draw_cap();
        d::lru_cache<K, Tracked> cache = cap ? d::lru_cache<K, Tracked>(to_opt(cap)) : d::lru_cache<K, Tracked>();
        c.note("capacity ").note(cap ? std::to_string(*cap) : "none").note("\n");
        std::size_t n = 1 + c.size(80);
        unsigned keys = 1 + unsigned(c.below(14));
        int next = 1;
        for(std::size_t i = 0; i < n; i++) {
            K k = mk(c.below(keys));
            int op = int(c.weighted({4, 3, 4, 2, 2, 2, 1, 1}));
            switch(op) {
                case 0: {
                    c.note("set ").note(k).note("\n");
                    int v = next++;
                    cache.set(k, Tracked(v));
                    auto it = find(k);
                    if(it != model.end()) { it->value = v; model.splice(model.begin(), model, it); }
                    else { model.push_front({k, v}); trim(); }
                    break;
                }
                case 1: {
                    c.note("insert ").note(k).note("\n");
                    int v = next++;
                    auto r = cache.insert(k, Tracked(v));
                    auto it = find(k);
                    c.eq(r.has_value(), it == model.end(), "insert inserts exactly when the key is absent");
                    if(it == model.end()) {
                        model.push_front({k, v});
                        trim();
                        c.eq(r.unwrap().v, v, "value inserted");
                        r.unwrap().good();
                    }
                    break;
                }
                case 2: case 3: {
                    c.note("get ").note(k).note("\n");
                    auto it = find(k);
                    int got = 0; bool has;
                    if(op == 2) { auto r = cache.maybe_get(k); has = r.has_value(); if(has) { r.unwrap().good(); got = r.unwrap().v; } }
                    else { auto r = static_cast<const d::lru_cache<K, Tracked>&>(cache).maybe_get(k); has = r.has_value(); if(has) { r.unwrap().good(); got = r.unwrap().v; } }
                    c.eq(has, it != model.end(), "presence");
                    if(has) {
                        c.eq(got, it->value, "value found");
                        model.splice(model.begin(), model, it);
                        if(evicted) hit_after = true;
                    }
                    break;
                }
                case 4: {
                    c.note("touch ").note(k).note("\n");
                    cache.maybe_touch(k);
                    auto it = find(k);
                    if(it != model.end()) model.splice(model.begin(), model, it);
                    break;
                }
                case 5: {
                    cap = draw_cap();
                    c.note("capacity ").note(cap ? std::to_string(*cap) : "none").note("\n");
                    cache.set_max_size(to_opt(cap));
                    trim();
                    break;
                }
                case 6: { // capacity 0 is refused and changes nothing
                    c.note("capacity 0\n");
                    bool threw = false;
                    try { cache.set_max_size(d::optional<std::size_t>(std::size_t(0))); } catch(const std::exception&) { threw = true; }
                    c.check(threw, "capacity 0 was accepted");
                    break;
                }
                default: { // write through the reference
                    c.note("modify ").note(k).note("\n");
                    auto it = find(k);
                    auto r = cache.maybe_get(k);
                    c.eq(r.has_value(), it != model.end(), "presence");
                    if(r.has_value()) { r.unwrap() = Tracked(next); it->value = next++; model.splice(model.begin(), model, it); }
                    break;
                }
            }
            c.eq(cache.size(), model.size(), "size");
            c.check(!cap || cache.size() <= *cap, "size exceeds the capacity");
            c.eq(std::size_t(Tracked::live), model.size(), "live values");
        }
        // drain: shrinking the capacity step by step shows the whole order
        c.note("drain\n");
        while(model.size() > 1) {
            K oldest = model.back().key;
            model.pop_back();
            cache.set_max_size(d::optional<std::size_t>(model.size()));
            c.eq(cache.size(), model.size(), "size while draining");
            d::lru_cache<K, Tracked>& cc = cache;
            c.check(!cc.maybe_get(oldest).has_value(), "the least recently used entry was not the one evicted");
            // looking up every other entry oldest first keeps the order as it is
            for(auto it = model.rbegin(); it != model.rend(); ++it) {
                auto r = cc.maybe_get(it->key);
                c.check(r.has_value(), "an entry that is not the oldest was evicted");
                c.eq(r.unwrap().v, it->value, "value while draining");
            }
        }
    }
    c.eq(Tracked::live, 0, "values alive after the cache");
    c.nontrivial(evicted && hit_after);
}
VT_PROP(lru_model, "a history with an eviction followed by a hit") {
    Tracked::live = 0;
    if(c.flip()) lru_history<int>(c, [](vt::u64 k) { return int(k); });
    else lru_history<std::string>(c, [](vt::u64 k) { return "key" + std::string(std::size_t(k * 3), 'x') + std::to_string(k); });
}

// ------------------------------------------------------------------------------------------------ P30
template<typename T> void nullable_history(Case& c) {
    using N = cpptrace::nullable<T>;
    using M = std::optional<T>;
    const T maxv = std::numeric_limits<T>::max();
    auto value = [&]() -> T {
        T v;
        switch(c.below(4)) {
            case 0: v = T(c.below(3)); break;
            case 1: v = T(maxv - 1 - T(c.below(3))); break;
            case 2: v = std::numeric_limits<T>::min(); break;
            default: v = T(c.draw(~0ull)); break;
        }
        return v == maxv ? T(0) : v; // the maximum is the reserved empty marker
    };
    constexpr int K = 3;
    N n[K];
    M m[K];
    bool reset_then_set = false, was_reset = false;
    std::size_t steps = 1 + c.size(30);
    for(std::size_t s = 0; s < steps; s++) {
        std::size_t i = c.below(K), j = c.below(K);
        int op = int(c.below(9));
        c.note("op ").note(op).note(" ").note(i).note(" ").note(j).note("\n");
        switch(op) {
            case 0: { T v = value(); n[i] = v; m[i] = v; if(was_reset) reset_then_set = true; break; }
            case 1: { n[i].reset(); m[i].reset(); was_reset = true; break; }
            case 2: { n[i] = n[j]; m[i] = m[j]; break; }
            case 3: { n[i].swap(n[j]); std::swap(m[i], m[j]); break; }
            case 4: { n[i] = N(); m[i] = M(); break; }
            case 5: { n[i] = N::null(); m[i] = M(); break; }
            case 6: { T v = value(); n[i] = N(v); m[i] = M(v); break; }
            case 7: { N t(n[j]); n[i] = std::move(t); m[i] = m[j]; break; }
            default: if(m[i]) { T v = value(); n[i].value() = v; m[i] = v; } break;
        }
        for(int k = 0; k < K; k++) {
            c.eq(n[k].has_value(), m[k].has_value(), "has_value");
            if(m[k]) { c.check(n[k].value() == *m[k], "value"); c.check(static_cast<const N&>(n[k]).value() == *m[k], "const value"); }
            T alt = value();
            c.check(n[k].value_or(alt) == m[k].value_or(alt), "value_or");
            for(int l = 0; l < K; l++) {
                c.eq(n[k] == n[l], m[k] == m[l], "operator==");
                c.eq(n[k] != n[l], m[k] != m[l], "operator!=");
            }
        }
    }
    c.nontrivial(reset_then_set);
}
VT_PROP(nullable_model, "a history that sets a value after a reset") {
    switch(c.below(4)) {
        case 0: return nullable_history<std::uint32_t>(c);
        case 1: return nullable_history<std::uint64_t>(c);
        case 2: return nullable_history<int>(c);
        default: return nullable_history<std::uint8_t>(c);
    }
}

VT_PROP(optional_model, "a history with a self assignment or swap between full and empty") {
    Tracked::live = 0;
    bool interesting = false;
    {
        using O = d::optional<Tracked>;
        using M = std::optional<int>; // -1: moved from
        constexpr int K = 4;
        std::vector<O> o(K);
        std::vector<M> m(K);
        int next = 1;
        std::size_t steps = 1 + c.size(40);
        for(std::size_t s = 0; s < steps; s++) {
            std::size_t i = c.below(K), j = c.below(K);
            int op = int(c.below(16));
            c.note("op ").note(op).note(" ").note(i).note(" ").note(j).note("\n");
            if(i == j && (op == 1 || op == 2 || op == 3)) interesting = true;
            if(op == 3 && m[i].has_value() != m[j].has_value()) interesting = true;
            switch(op) {
                case 0: { int v = next++; if(c.flip()) o[i] = Tracked(v); else { Tracked t(v); o[i] = t; } m[i] = v; break; }
                case 1: { o[i] = o[j]; m[i] = m[j]; break; }
                case 2: { o[i] = std::move(o[j]); if(i != j) { m[i] = m[j]; if(m[j]) m[j] = -1; } break; }
                case 3: { o[i].swap(o[j]); std::swap(m[i], m[j]); break; }
                case 4: { o[i].reset(); m[i].reset(); break; }
                case 5: { o[i] = d::nullopt; m[i].reset(); break; }
                case 6: { O t(o[j]); c.eq(t.has_value(), m[j].has_value(), "copy"); if(m[j]) c.eq(t.unwrap().v, *m[j], "copied value"); o[i] = t; m[i] = m[j]; break; }
                case 7: { O t(std::move(o[j])); M mt = m[j]; if(m[j]) m[j] = -1; o[i] = std::move(t); m[i] = mt; break; }
                case 8: { Tracked alt(1000); Tracked r = o[i].value_or(alt); c.eq(r.v, m[i].value_or(1000), "value_or"); break; }
                case 9: if(m[i]) { Tracked r = std::move(o[i]).unwrap(); c.eq(r.v, *m[i], "unwrap &&"); m[i] = -1; } break;
                case 10: if(m[i]) { o[i].unwrap() = Tracked(next); m[i] = next++; } break;
                case 11: { Tracked alt(1000); Tracked r = std::move(o[i]).value_or(std::move(alt)); c.eq(r.v, m[i].value_or(1000), "value_or &&"); if(m[i]) m[i] = -1; break; }
                case 12: { O t; c.check(!t.has_value() && !t, "default is empty"); t = o[j]; t.swap(o[i]); m[i] = m[j]; break; }
                case 13: { o[i] = O(Tracked(next)); m[i] = next++; break; }
                case 14: { o[i] = O(); m[i].reset(); break; }
                default: { // unwrapping an empty optional is an error, not a value
                    if(!m[i]) {
                        bool threw = false;
                        try { (void) o[i].unwrap(); } catch(const std::exception&) { threw = true; }
                        c.check(threw, "unwrap of an empty optional gave a value");
                    }
                }
            }
            std::size_t live = 0;
            for(int k = 0; k < K; k++) {
                c.eq(o[k].has_value(), m[k].has_value(), "has_value");
                c.eq(bool(o[k]), m[k].has_value(), "operator bool");
                if(m[k]) { const O& co = o[k]; co.unwrap().good(); c.eq(co.unwrap().v, *m[k], "value"); live++; }
            }
            c.eq(std::size_t(Tracked::live), live, "live objects");
        }
    }
    c.eq(Tracked::live, 0, "objects alive at the end");
    c.nontrivial(interesting);
}
VT_PROP(optional_ref_model, "a rebinding and a write through") {
    int cells[4] = {0, 1, 2, 3};
    d::optional<int&> o[3];
    int* m[3] = {};
    bool wrote = false, rebound = false;
    std::size_t steps = 1 + c.size(24);
    for(std::size_t s = 0; s < steps; s++) {
        std::size_t i = c.below(3), j = c.below(3), k = c.below(4);
        switch(c.below(6)) {
            case 0: if(m[i]) rebound = true; o[i] = d::optional<int&>(cells[k]); m[i] = &cells[k]; break;
            case 1: o[i] = o[j]; m[i] = m[j]; break;
            case 2: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
            case 3: o[i].reset(); m[i] = nullptr; break;
            case 4: if(m[i]) { o[i].unwrap() = int(s) + 100; wrote = true; c.eq(*m[i], int(s) + 100, "write through"); } break;
            default: { int alt = -5; c.eq(&o[i].value_or(alt), m[i] ? m[i] : &alt, "value_or"); }
        }
        for(int l = 0; l < 3; l++) {
            c.eq(o[l].has_value(), m[l] != nullptr, "has_value");
            if(m[l]) c.check(&o[l].unwrap() == m[l], "referenced object");
        }
    }
    c.nontrivial(wrote && rebound);
}

struct Err {
    Tracked t;
    std::string msg;
    explicit Err(int v) : t(v), msg("error " + std::to_string(v)) {}
    const char* what() const { return msg.c_str(); }
};
VT_PROP(result_model, "an assignment that switches between value and error") {
    Tracked::live = 0;
    bool switched = false;
    {
        using R = d::Result<Tracked, Err>;
        struct M { bool ok; int v; };
        constexpr int K = 3;
        std::deque<R> r;
        std::vector<M> m;
        int next = 1;
        auto fresh = [&](bool ok) -> R {
            int v = next++;
            if(ok) { if(c.flip()) return R(Tracked(v)); Tracked t(v); return R(t); }
            if(c.flip()) return R(Err(v)); Err e(v); return R(e);
        };
        for(int i = 0; i < K; i++) { bool ok = c.flip(); r.push_back(fresh(ok)); m.push_back({ok, next - 1}); }
        std::size_t steps = 1 + c.size(40);
        for(std::size_t s = 0; s < steps; s++) {
            std::size_t i = c.below(K), j = c.below(K);
            int op = int(c.below(12));
            c.note("op ").note(op).note(" ").note(i).note(" ").note(j).note("\n");
            switch(op) {
                case 0: { bool ok = c.flip(); if(ok != m[i].ok) switched = true; r[i] = fresh(ok); m[i] = {ok, next - 1}; break; }
                case 1: { if(m[i].ok != m[j].ok) switched = true; r[i] = r[j]; m[i] = m[j]; break; }
                case 2: { if(m[i].ok != m[j].ok) switched = true; r[i] = std::move(r[j]); if(i != j) { m[i] = m[j]; m[j].v = -1; } break; }
                case 3: { R t(std::move(r[j])); M mt = m[j]; m[j].v = -1; r[i] = std::move(t); m[i] = mt; break; }
                case 4: {
                    auto v = static_cast<const R&>(r[i]).value();
                    auto e = static_cast<const R&>(r[i]).error();
                    c.eq(v.has_value(), m[i].ok, "value()");
                    c.eq(e.has_value(), !m[i].ok, "error()");
                    if(v) c.eq(v.unwrap().v, m[i].v, "value() content");
                    if(e) c.eq(e.unwrap().t.v, m[i].v, "error() content");
                    break;
                }
                case 5: { Tracked alt(500); c.eq(static_cast<const R&>(r[i]).value_or(alt).v, m[i].ok ? m[i].v : 500, "value_or"); break; }
                case 6: { Tracked alt(500); c.eq(std::move(r[i]).value_or(std::move(alt)).v, m[i].ok ? m[i].v : 500, "value_or &&"); if(m[i].ok) m[i].v = -1; break; }
                case 7: if(m[i].ok) { r[i].unwrap_value() = Tracked(next); m[i].v = next++; } else { r[i].unwrap_error().t = Tracked(next); m[i].v = next++; } break;
                case 8: {
                    int before = m[i].v;
                    auto t = r[i].transform([](Tracked& x) { return x.v * 2 + 1; });
                    c.eq(t.has_value(), m[i].ok, "transform keeps the kind");
                    if(m[i].ok) c.eq(t.unwrap_value(), before * 2 + 1, "transformed value"); else c.eq(t.unwrap_error().t.v, before, "transform keeps the error");
                    break;
                }
                case 9: { bool threw = false;
                    try { if(m[i].ok) (void) r[i].unwrap_error(); else (void) r[i].unwrap_value(); } catch(const std::exception&) { threw = true; }
                    c.check(threw, "unwrapping the wrong kind gave something");
                    break;
                }
                case 10: { if(m[i].ok) { Tracked x = std::move(r[i]).unwrap_value(); c.eq(x.v, m[i].v, "unwrap_value &&"); } else { Err x = std::move(r[i]).unwrap_error(); c.eq(x.t.v, m[i].v, "unwrap_error &&"); } m[i].v = -1; break; }
                default: {
                    auto v = std::move(r[i]).value();
                    c.eq(v.has_value(), m[i].ok, "value() &&");
                    if(v) { c.eq(v.unwrap().v, m[i].v, "value() && content"); m[i].v = -1; }
                }
            }
            for(int k = 0; k < K; k++) {
                c.eq(r[k].has_value(), m[k].ok, "has_value");
                c.eq(r[k].is_error(), !m[k].ok, "is_error");
                c.eq(bool(r[k]), m[k].ok, "operator bool");
                const R& cr = r[k];
                if(m[k].ok) { cr.unwrap_value().good(); c.eq(cr.unwrap_value().v, m[k].v, "held value"); }
                else { cr.unwrap_error().t.good(); c.eq(cr.unwrap_error().t.v, m[k].v, "held error"); }
            }
            c.eq(Tracked::live, K, "live objects");
        }
    }
    c.eq(Tracked::live, 0, "objects alive at the end");
    c.nontrivial(switched);
}

// ------------------------------------------------------------------------------------------------ P31
std::string ref_digits(std::uint64_t v, char base) {
    unsigned b = base == 'h' || base == 'H' ? 16 : base == 'o' ? 8 : base == 'b' ? 2 : 10;
    const char* dg = base == 'H' ? "0123456789ABCDEF" : "0123456789abcdef";
    std::string s;
    do { s.insert(s.begin(), dg[v % b]); v /= b; } while(v);
    return s;
}
namespace mf = cpptrace::microfmt::detail;
struct Arg {
    int kind;
    std::int64_t i = 0;
    std::uint64_t u = 0;
    std::string s;
    mf::format_value value() const {
        switch(kind) {
            case 0: return mf::format_value(char(i));
            case 1: return mf::format_value(short(i));
            case 2: return mf::format_value(int(i));
            case 3: return mf::format_value((long) i);
            case 4: return mf::format_value((long long) i);
            case 5: return mf::format_value((unsigned char) u);
            case 6: return mf::format_value((unsigned short) u);
            case 7: return mf::format_value((unsigned) u);
            case 8: return mf::format_value((unsigned long) u);
            case 9: return mf::format_value((unsigned long long) u);
            case 10: return mf::format_value(s);
            case 11: return mf::format_value(std::string_view(s));
            case 12: return mf::format_value(d::string_view(s));
            default: return mf::format_value(s.c_str());
        }
    }
    std::string render(char base) const {
        std::int64_t si = kind == 1 ? short(i) : kind == 2 ? int(i) : i;
        std::uint64_t ui = kind == 5 ? (unsigned char) u : kind == 6 ? (unsigned short) u : kind == 7 ? (unsigned) u : u;
        switch(kind) {
            case 0: return std::string(1, char(i));
            case 1: case 2: case 3: case 4: return (si < 0 ? "-" : "") + ref_digits(si < 0 ? 0 - std::uint64_t(si) : std::uint64_t(si), base);
            case 5: case 6: case 7: case 8: case 9: return ref_digits(ui, base);
            case 13: return s.c_str();
            default: return s;
        }
    }
    bool number() const { return kind >= 1 && kind <= 9; }
};
Arg draw_arg(Case& c) {
    Arg a;
    a.kind = int(c.below(14));
    switch(c.below(5)) {
        case 0: a.i = std::int64_t(c.below(20)) - 10; break;
        case 1: a.i = INT64_MIN + std::int64_t(c.below(2)); break;
        case 2: a.i = INT64_MAX - std::int64_t(c.below(2)); break;
        case 3: a.i = std::int64_t(1ull << c.below(64)); break;
        default: a.i = std::int64_t(c.draw(~0ull)); break;
    }
    a.u = std::uint64_t(a.i);
    if(a.kind == 0) a.i = "xY0 {}%"[c.below(7)];
    a.s = c.str_of("abc{}: <>0%\n\xc3", 20);
    return a;
}
VT_PROP(microfmt_model, "a spec with a width larger than the value, or a non-decimal base") {
    std::vector<Arg> args;
    std::string fmt, expect;
    bool nontriv = false;
    std::size_t pieces = 1 + c.size(6);
    for(std::size_t p = 0; p < pieces; p++) {
        if(c.flip()) {
            std::string lit = c.str_of("ab :<>9-\n", 6);
            fmt += lit; expect += lit;
            if(c.chance(1, 5)) { fmt += "{{"; expect += "{"; }
            if(c.chance(1, 5)) { fmt += "}}"; expect += "}"; }
            continue;
        }
        bool right = false; std::size_t width = 0; char fill = ' ', base = 'd';
        fmt += "{";
        int wk = int(c.below(3));
        int al = int(c.below(3));
        if(wk == 2 && args.size() < 5 && al == 0) al = 1; // "{{" is an escape
        if(al == 1) fmt += "<";
        if(al == 2) { fmt += ">"; right = true; }
        if(wk == 1) { width = c.size(40); fmt += std::to_string(width); }
        if(wk == 2 && args.size() < 5) {
            Arg w; w.kind = 1 + int(c.below(9)); width = c.size(40); w.i = std::int64_t(width); w.u = width;
            args.push_back(w);
            fmt += "{}";
        }
        switch(c.below(5)) {
            case 0: break;
            case 1: base = "dhHob"[c.below(5)]; fmt += ":"; fmt += base; break;
            case 2: fill = "0 *-_#x"[c.below(7)]; fmt += ":"; fmt += fill; break;
            case 3: fill = "0 *-_#xhd"[c.below(9)]; base = "dhHob"[c.below(5)]; fmt += ":"; fmt += fill; fmt += base; break;
            default: fmt += ":"; break;
        }
        fmt += "}";
        if(args.size() < 6) {
            args.push_back(draw_arg(c));
            std::string r = args.back().render(base);
            if(width > r.size() || (args.back().number() && base != 'd')) nontriv = true;
            std::string padn(width > r.size() ? width - r.size() : 0, fill);
            expect += right ? padn + r : r + padn;
        }
    }
    c.note("format ").note(vt::quote(fmt)).note(" with ").note(args.size()).note(" arguments:");
    for(auto& a : args) c.note(" ").note(a.kind).note(":").note(vt::quote(a.render('d')));
    std::string out;
    auto v = [&](std::size_t i) { return args[i].value(); };
    auto it = std::back_inserter(out);
    const char* const f = fmt.c_str();
    switch(args.size()) {
        case 0: mf::format(it, f, {}); break;
        case 1: mf::format(it, f, {v(0)}); break;
        case 2: mf::format(it, f, {v(0), v(1)}); break;
        case 3: mf::format(it, f, {v(0), v(1), v(2)}); break;
        case 4: mf::format(it, f, {v(0), v(1), v(2), v(3)}); break;
        case 5: mf::format(it, f, {v(0), v(1), v(2), v(3), v(4)}); break;
        default: mf::format(it, f, {v(0), v(1), v(2), v(3), v(4), v(5)}); break;
    }
    c.eq(out, expect, "formatted text");
    // the front ends agree
    if(args.size() == 1) {
        c.eq(cpptrace::microfmt::format(f, v(0)), expect, "format()");
        std::ostringstream o;
        cpptrace::microfmt::print(static_cast<std::ostream&>(o), f, v(0));
        c.eq(o.str(), expect, "print(ostream)");
        std::FILE* t = std::tmpfile();
        if(t) {
            cpptrace::microfmt::print(static_cast<std::FILE*>(t), f, v(0));
            std::string back(std::size_t(std::ftell(t)), '\0');
            std::rewind(t);
            back.resize(std::fread(&back[0], 1, back.size(), t));
            std::fclose(t);
            c.eq(back, expect, "print(FILE*)");
        }
    }
    c.nontrivial(nontriv);
}
VT_PROP(microfmt_total, "a format string containing a brace") {
    // any format string terminates and stays within bounds; widths are kept small by construction
    std::string fmt = c.str_of("{}<>:dh0*1a\n", 24);
    for(std::size_t i = 0, run = 0; i < fmt.size(); i++) { run = isdigit((unsigned char) fmt[i]) ? run + 1 : 0; if(run > 3) fmt[i] = 'a'; }
    Arg a = draw_arg(c), b = draw_arg(c);
    if(a.number()) { a.kind = 7; a.u = c.below(50); }
    if(b.number()) { b.kind = 7; b.u = c.below(50); }
    c.note(vt::quote(fmt));
    std::vector<char> exact(fmt.begin(), fmt.end()); // no terminator: reads past the end show
    std::string out, out2;
    mf::format(std::back_inserter(out), exact.data(), exact.data() + exact.size(), {a.value(), b.value()});
    mf::format(std::back_inserter(out2), std::string_view(fmt), {a.value(), b.value()});
    c.eq(out2, out, "the spellings of format agree");
    c.nontrivial(fmt.find_first_of("{}") != std::string::npos);
}

bool naive_space(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\f' || ch == '\v'; }
VT_PROP(text_helpers, "a text that contains a delimiter or whitespace") {
    std::string s = c.str_of("ab ,;:\t\n", 20);
    std::string delims = c.str_of(",;: b", 3);
    c.note(vt::quote(s)).note(" delims ").note(vt::quote(delims));
    // split
    std::vector<std::string> parts{""};
    for(char ch : s) if(delims.find(ch) != std::string::npos) parts.emplace_back(); else parts.back() += ch;
    auto got = d::split(s, delims);
    c.check(got == parts, "split gives " + std::to_string(got.size()) + " parts, expected " + std::to_string(parts.size()));
    // join
    std::string dl = c.str_of(",b", 2), j;
    for(std::size_t i = 0; i < parts.size(); i++) j += (i ? dl : "") + parts[i];
    c.eq(d::join(parts, dl), j, "join");
    c.eq(d::join(std::vector<std::string>{}, dl), std::string(), "join of nothing");
    if(delims.size() == 1) c.eq(d::join(d::split(s, delims), delims), s, "join after split");
    // trim
    std::string t = s;
    while(!t.empty() && naive_space(t.front())) t.erase(0, 1);
    while(!t.empty() && naive_space(t.back())) t.pop_back();
    c.eq(d::trim(s), t, "trim");
    // starts_with
    std::string pre = c.flip() ? s.substr(0, c.below(s.size() + 1)) : c.str_of("ab ", 3);
    c.eq(d::starts_with(s, pre), s.rfind(pre, 0) == 0, "starts_with");
    c.nontrivial(parts.size() > 1 || t != s);
}
VT_PROP(view_helpers, "a view that matches partially") {
    std::string s = c.str_of("ab/\\.", 16);
    std::vector<char> exact(s.begin(), s.end());
    exact.reserve(1);
    d::string_view v(exact.data(), exact.size());
    std::string_view r(s);
    c.note(vt::quote(s));
    c.eq(v.size(), r.size(), "size");
    c.eq(v.empty(), r.empty(), "empty");
    c.eq(std::string(v.begin(), v.end()), s, "contents");
    std::size_t pos = c.below(s.size() + 1);
    std::size_t n = c.chance(1, 4) ? d::string_view::npos : c.below(s.size() + 3);
    c.eq(std::string(v.substr(pos, n)), std::string(r.substr(pos, n)), "substr");
    c.eq(std::string(v.substr(pos)), std::string(r.substr(pos)), "substr to end");
    d::string_view adv = v;
    adv.advance(pos);
    c.eq(std::string(adv), std::string(r.substr(pos)), "advance");
    std::string o = c.flip() ? s.substr(c.below(s.size() + 1), c.below(s.size() + 1)) : c.str_of("ab/", 4);
    c.note(" other ").note(vt::quote(o));
    std::vector<char> oe(o.begin(), o.end());
    oe.reserve(1);
    d::string_view ov(oe.data(), oe.size());
    c.eq(v.starts_with(ov), r.substr(0, o.size()) == o, "starts_with");
    c.eq(v.ends_with(ov), r.size() >= o.size() && r.substr(r.size() - o.size()) == o, "ends_with");
    c.eq(v.find_last_of(ov), r.find_last_of(o), "find_last_of");
    c.eq(v == ov, s == o, "operator==");
    c.eq(v != ov, s != o, "operator!=");
    for(std::size_t i = 0; i < s.size() + 2; i++) {
        bool threw = false; char ch = 0;
        try { ch = v.at(i); } catch(const std::exception&) { threw = true; }
        c.eq(threw, i >= s.size(), "at() out of range");
        if(i < s.size()) { c.check(ch == s[i] && v[i] == s[i], "character"); }
    }
    if(!s.empty()) { c.check(v.front() == s.front() && v.back() == s.back(), "front/back"); }
    // the terminated view
    d::cstring_view cv(s);
    c.eq(std::string(cv.substr(pos)), std::string(r.substr(pos)), "cstring_view substr");
    c.eq(std::string(cv.substr(pos).c_str()), std::string(r.substr(pos)), "cstring_view stays terminated");
    c.eq(cv.starts_with(ov), r.substr(0, o.size()) == o, "cstring_view starts_with");
    c.eq(cv.ends_with(ov), r.size() >= o.size() && r.substr(r.size() - o.size()) == o, "cstring_view ends_with");
    c.eq(cv.find_last_of(ov), r.find_last_of(o), "cstring_view find_last_of");
    // basename
    for(bool win : {false, true}) {
        auto p = s.find_last_of(win ? "/\\" : "/");
        c.eq(d::basename(s, win), p == std::string::npos ? s : s.substr(p + 1), "basename");
    }
    c.nontrivial(!s.empty() && !o.empty() && s != o && (r.substr(0, o.size()) == o || r.find(o) != r.npos));
}
template<typename T> void swap_case(Case& c) {
    T v = T(c.flip() ? c.draw(~0ull) : (1ull << c.below(64)));
    unsigned char b[sizeof(T)], e[sizeof(T)];
    std::memcpy(b, &v, sizeof v);
    for(std::size_t i = 0; i < sizeof v; i++) e[i] = b[sizeof v - 1 - i];
    T x; std::memcpy(&x, e, sizeof x);
    c.note(+v);
    c.check(d::byteswap(v) == x, "byteswap of " + std::to_string(v) + " gives " + std::to_string(d::byteswap(v)) + ", expected " + std::to_string(x));
    c.check(d::byteswap(d::byteswap(v)) == v, "byteswap twice");
    unsigned bits = 0;
    for(std::size_t i = 0; i < sizeof v; i++) bits += unsigned(__builtin_popcount(b[i]));
    c.eq(d::is_positive_power_of_two(v), v > 0 && bits == 1, "is_positive_power_of_two");
    c.nontrivial(v != 0);
}
VT_PROP(number_helpers, "a nonzero number") {
    switch(c.below(8)) {
        case 0: swap_case<std::uint8_t>(c); break;
        case 1: swap_case<std::int8_t>(c); break;
        case 2: swap_case<std::uint16_t>(c); break;
        case 3: swap_case<std::int16_t>(c); break;
        case 4: swap_case<std::uint32_t>(c); break;
        case 5: swap_case<std::int32_t>(c); break;
        case 6: swap_case<std::uint64_t>(c); break;
        default: swap_case<std::int64_t>(c); break;
    }
    unsigned n = unsigned(c.flip() ? c.draw(~0u) : c.pick({0u, 9u, 10u, 99u, 100u, 999u, 1000u, 999999999u, 1000000000u, 4294967295u}));
    c.eq(std::size_t(d::n_digits(n)), std::to_string(n).size(), "n_digits");
}
VT_PROP(bounded_search, "a value strictly inside the range") {
    std::vector<int> v;
    std::size_t n = c.size(20);
    for(std::size_t i = 0; i < n; i++) v.push_back(int(c.below(30)) - 3);
    std::sort(v.begin(), v.end());
    int x = int(c.below(34)) - 5;
    auto it = d::first_less_than_or_equal(v.begin(), v.end(), x);
    auto it2 = d::first_less_than_or_equal(v.begin(), v.end(), x, [](int a, int b) { return a < b; });
    int best = -1;
    for(std::size_t i = 0; i < v.size(); i++) if(v[i] <= x) best = int(i);
    c.check(it == it2, "the overloads agree");
    if(best < 0) c.check(it == v.end(), "a value was found although all are larger");
    else c.check(it != v.end() && *it == v[std::size_t(best)], "closest value that is not larger");
    c.nontrivial(best >= 0 && std::size_t(best) + 1 < v.size());
}
VT_PROP(replace_helpers, "at least one replacement") {
    std::string s = c.str_of("ab<>> x", 24);
    std::string from = c.pick({std::string("a"), std::string("ab"), std::string("> >"), std::string("aa"), std::string("<"), std::string("ba b")});
    std::string to = c.pick({std::string(""), std::string("a"), std::string(">>"), std::string("xx"), std::string("aba"), std::string("ab")});
    c.note(vt::quote(s)).note(" ").note(vt::quote(from)).note(" -> ").note(vt::quote(to));
    std::string e;
    for(std::size_t i = 0; i < s.size();) {
        if(s.compare(i, from.size(), from) == 0) { e += to; i += from.size(); }
        else e += s[i++];
    }
    std::string g = s;
    d::replace_all(g, from, to);
    c.eq(g, e, "replace_all");
    c.nontrivial(e != s);
    // folding closing brackets: none of "> >" is left and only those spaces are gone
    g = s;
    d::replace_all_dynamic(g, "> >", ">>");
    std::string f;
    for(std::size_t i = 0; i < s.size(); i++) {
        if(s[i] == ' ' && i > 0 && s[i - 1] == '>' && i + 1 < s.size() && s[i + 1] == '>') continue;
        f += s[i];
    }
    c.eq(g, f, "replace_all_dynamic folding > >");
}
}
