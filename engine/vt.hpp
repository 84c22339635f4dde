// vt: a small property-based testing engine.
//
// A property is a function of a Case. A Case hands out random choices; every choice is recorded on a tape, so a
// failing case is reproduced and shrunk by editing the tape (delete / zero / reduce) and running the property again
// on it. Cases run in forked workers, shrink attempts in one forked child each, so crashes, sanitizer reports and
// hangs are ordinary failures: found, confirmed, shrunk and written out as replay files.
#ifndef VT_HPP
#define VT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace vt {
using u64 = std::uint64_t;
using i64 = std::int64_t;

struct Failure { std::string msg; };
struct Discard {};

struct Shared; // region visible to the parent process

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 hash_bytes(const void* p, std::size_t n, u64 h = 0xcbf29ce484222325ull) {
    auto b = static_cast<const unsigned char*>(p);
    for(std::size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}
inline u64 hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

std::string quote(const std::string& s, std::size_t max = 400);

class Case {
public:
    // source of choices
    enum class Mode { random, tape, bytes } mode = Mode::random;
    u64 rng = 0;
    const u64* in_tape = nullptr;
    std::size_t in_len = 0, in_pos = 0;
    const unsigned char* in_bytes = nullptr;
    // results
    Shared* sh = nullptr;
    std::vector<u64> own_tape; // used when sh is null
    bool is_nontrivial = false;
    bool failed = false;
    std::string fail_msg;
    u64 key_hash = 0;
    bool has_key = false;
    std::map<std::string, u64>* events = nullptr;
    std::string notes; // human-readable description of the case
    bool want_notes = true;
    u64 index = 0;
    bool thorough = false;

    // uniform in [0, bound] (bound inclusive)
    u64 draw(u64 bound);
    u64 below(u64 n) { return n <= 1 ? 0 : draw(n - 1); }
    i64 range(i64 lo, i64 hi) { return static_cast<i64>(static_cast<u64>(lo) + draw(static_cast<u64>(hi) - static_cast<u64>(lo))); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false
    bool flip() { return below(2) == 1; }
    // mostly small, sometimes up to max
    u64 size(u64 max) {
        if(max == 0) return 0;
        u64 k = below(8);
        if(k < 4) return below((max < 4 ? max : 4) + 1);
        if(k < 7) return below((max < 24 ? max : 24) + 1);
        return below(max + 1);
    }
    std::size_t weighted(std::initializer_list<unsigned> w) {
        u64 total = 0;
        for(auto x : w) total += x;
        u64 v = below(total);
        std::size_t i = 0;
        for(auto x : w) {
            if(v < x) return i;
            v -= x;
            i++;
        }
        return 0;
    }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<typename T, std::size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
    template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    template<std::size_t N> std::string str_of(const char (&alphabet)[N], std::size_t maxlen) { // the literal may contain NULs
        std::size_t n = size(maxlen), k = N - 1;
        std::string s;
        for(std::size_t i = 0; i < n; i++) s += alphabet[below(k)];
        return s;
    }
    std::string bytes(std::size_t maxlen) {
        std::size_t n = size(maxlen);
        std::string s;
        for(std::size_t i = 0; i < n; i++) s += static_cast<char>(below(256));
        return s;
    }
    void nontrivial(bool b = true) { if(b) is_nontrivial = true; }
    void event(const std::string& e) { if(events) (*events)[e]++; }
    void key(const std::string& s) { has_key = true; key_hash = hash_bytes(s.data(), s.size(), key_hash ^ 0xcbf29ce484222325ull); }
    template<typename T> Case& note(const T& v) {
        if(want_notes && notes.size() < 24000) {
            std::ostringstream o;
            o << v;
            add_note(o.str());
        }
        return *this;
    }
    template<typename T> Case& line(const T& v) { return note(v).note("\n"); }
    [[noreturn]] void fail(const std::string& m) {
        if(!failed) {
            failed = true;
            fail_msg = m;
        }
        throw Failure{m};
    }
    // for places where an exception must not propagate (callbacks, noexcept)
    void fail_soft(const std::string& m) {
        if(!failed) {
            failed = true;
            fail_msg = m;
        }
    }
    void check(bool ok, const std::string& m) { if(!ok) fail(m); }
    template<typename A, typename B> void eq(const A& actual, const B& expected, const std::string& what) {
        if(!(actual == expected)) {
            std::ostringstream o;
            o << what << ": got " << show(actual) << ", expected " << show(expected);
            fail(o.str());
        }
    }
    [[noreturn]] void discard() { throw Discard{}; }
    u64 tape_hash() const;

    static std::string show(const std::string& s) { return quote(s, 3000); }
    static std::string show(const char* s) { return s ? quote(s, 3000) : "(null)"; }
    static std::string show(bool b) { return b ? "true" : "false"; }
    template<typename T> static std::string show(const T& v) {
        std::ostringstream o;
        o << v;
        return o.str();
    }
private:
    void add_note(const std::string& s);
};

struct Prop {
    std::string name;
    std::function<void(Case&)> fn;
    bool isolated = false;      // one process per case
    double timeout = 40;        // a case running longer counts as a hang
    std::string rule;           // what makes a case non-trivial
};
std::vector<Prop>& registry();
struct Reg { Reg(const char* n, std::function<void(Case&)> f, const char* rule, bool iso = false, double t = 40); };

#define VT_PROP_FULL(NAME, RULE, ISO, TIMEOUT) \
    static void vt_prop_##NAME(::vt::Case&); \
    static ::vt::Reg vt_reg_##NAME(#NAME, vt_prop_##NAME, RULE, ISO, TIMEOUT); \
    static void vt_prop_##NAME(::vt::Case& c)
#define VT_PROP(NAME, RULE) VT_PROP_FULL(NAME, RULE, false, 40)
#define VT_PROP_ISOLATED(NAME, RULE) VT_PROP_FULL(NAME, RULE, true, 40)

std::string scratch_dir(); // private to the running process group, removed at the end
const char* arg0();
}
#endif
