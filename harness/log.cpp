// P24: histories of log settings, messages and failing operations against a model of who has to be told what.
#include "vt.hpp"
#include "allocs.hpp"
#include "fixture.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include "logging.hpp"
#include "utils/error.hpp"
#include "utils/result.hpp"
#include "jit/jit_objects.hpp"

#include <array>
#include <fcntl.h>
#include <memory>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>

using vt::Case;
using vt::u64;
using cpptrace::log_level;
namespace d = cpptrace::detail;
namespace {
struct Message { log_level level; std::string text; bool operator==(const Message& o) const { return level == o.level && text == o.text; } };
const char* const level_names[] = {"debug", "info", "warning", "error"};
std::string show(const std::vector<Message>& v) {
    std::string s = "{";
    for(auto& m : v) s += std::string("\n    ") + (unsigned(m.level) < 4 ? level_names[int(m.level)] : "?") + " " + vt::quote(m.text, 300);
    return s + "}";
}
std::vector<Message> heard[8]; // by each of the callbacks
struct Sink { // of a size that a std::function keeps inside or not
    std::vector<Message>* to;
    std::shared_ptr<int> alive;
    void operator()(log_level l, const char* m) const { allocs::Pause p; to->push_back({l, m}); }
};
struct BigSink : Sink { std::array<char, 100> ballast{}; };
void plain_sink(log_level l, const char* m) { allocs::Pause p; heard[7].push_back({l, m}); }
struct Odd { int x; };

enum Op { LEVEL, CALLBACK, STDERR, DIRECT, FORMATTED, REPORTED, RESULT_ERROR, DROPPED, JIT, NO_MEMORY, QUIET_WORK };
const char* const op_names[] = {"set_log_level", "set_log_callback", "use_default_stderr_logger", "message", "formatted message", "internal exception", "error result", "dropped error", "bad object registered", "operation without memory", "operation"};
struct Step { int op; log_level level; unsigned a, b; std::string text, text2; bool absorb; };

// the operations of the library itself: what they return, as text
std::string work(const Step& s) {
    cpptrace::absorb_trace_exceptions(s.absorb);
    std::string r;
    try {
        switch(s.op) {
            case DIRECT:
                if(s.level == log_level::error) d::log::error(s.text.c_str());
                else if(s.level == log_level::warning) d::log::warn(s.text.c_str());
                else if(s.level == log_level::info) d::log::info(s.text.c_str());
                else d::log::debug(s.text.c_str());
                break;
            case FORMATTED:
                if(s.level == log_level::error) d::log::error("<{}|{}|{}>", s.text, int(s.a), s.text2.c_str());
                else if(s.level == log_level::warning) d::log::warn("<{}|{}|{}>", s.text, int(s.a), s.text2.c_str());
                else if(s.level == log_level::info) d::log::info("<{}|{}|{}>", s.text, int(s.a), s.text2.c_str());
                else d::log::debug("<{}|{}|{}>", s.text, int(s.a), s.text2.c_str());
                break;
            case REPORTED:
                switch(s.a % 4) {
                    case 0: d::log_and_maybe_propagate_exception(std::make_exception_ptr(d::internal_error{"{}", s.text})); break;
                    case 1: d::log_and_maybe_propagate_exception(std::make_exception_ptr(std::runtime_error(s.text))); break;
                    case 2: d::log_and_maybe_propagate_exception(std::make_exception_ptr(Odd{3})); break;
                    default: d::log_and_maybe_propagate_exception(std::make_exception_ptr(42)); break;
                }
                break;
            case RESULT_ERROR: { d::Result<int, d::internal_error> e{d::internal_error{"{}", s.text}}; r = e.is_error() ? "error" : "value"; break; }
            case DROPPED: { d::Result<int, d::internal_error> e{d::internal_error{"{}", s.text}}; e.drop_error(); r = e.is_error() ? "error" : "value"; break; }
            case JIT: {
                static std::string objects[4];
                auto& o = objects[s.b % 4];
                o = s.text;
                cpptrace::register_jit_object(o.data(), o.size());
                r = d::lookup_jit_object(0x1000) ? "found" : "not found";
                cpptrace::unregister_jit_object(o.data());
                break;
            }
            case NO_MEMORY: {
                cpptrace::raw_trace raw;
                for(unsigned k = 0; k < 3 + s.b % 3; k++) raw.frames.push_back(cpptrace::frame_ptr(&plain_sink) + k);
                std::size_t n = 0;
                allocs::Scope scope(s.b / 4, s.b / 4 + 1);
                switch(s.a % 4) {
                    case 0: n = cpptrace::generate_raw_trace(0, 5).frames.size(); break;
                    case 1: n = raw.resolve_object_trace().frames.size(); break;
                    case 2: n = cpptrace::raw_trace::current(0, 5).frames.size(); break;
                    default: n = raw.resolve().frames.size(); break;
                }
                scope.stop();
                r = std::to_string(n) + " frames" + (scope.failed() ? ", failed" : "");
                break;
            }
            case QUIET_WORK: {
                auto t = cpptrace::stacktrace::current(0, 1);
                r = t.to_string() + cpptrace::prune_symbol(s.text) + cpptrace::demangle(s.text) + cpptrace::prettify_symbol("std::vector<int, std::allocator<int> >");
                break;
            }
        }
    } catch(std::exception& e) {
        r = std::string("exception ") + e.what();
    } catch(Odd& o) {
        r = "Odd " + std::to_string(o.x);
    } catch(int x) {
        r = "int " + std::to_string(x);
    }
    return r;
}
void put(std::string& o, const std::string& s) { u64 n = s.size(); o.append(reinterpret_cast<const char*>(&n), 8); o += s; }

struct Capture { // what is written to standard output and error
    int files[2], old[2];
    Capture() {
        for(int k = 0; k < 2; k++) {
            std::string p = vt::scratch_dir() + "/out" + std::to_string(::getpid()) + "-" + std::to_string(k);
            files[k] = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            ::unlink(p.c_str());
            old[k] = ::fcntl(k + 1, F_DUPFD_CLOEXEC, 10);
            ::dup2(files[k], k + 1);
        }
    }
    std::string take(int k) {
        std::fflush(nullptr);
        std::string s;
        char b[4096];
        ssize_t n;
        for(off_t at = 0; (n = ::pread(files[k], b, sizeof b, at)) > 0; at += n) s.append(b, std::size_t(n));
        if(::ftruncate(files[k], 0) != 0) {}
        ::lseek(files[k], 0, SEEK_SET);
        return s;
    }
    ~Capture() { std::fflush(nullptr); for(int k = 0; k < 2; k++) { ::dup2(old[k], k + 1); ::close(old[k]); ::close(files[k]); } }
};

VT_PROP_ISOLATED(log_history, "at least one message was delivered and one was suppressed") {
    std::vector<Step> h;
    std::size_t n = 1 + c.size(14);
    auto text = [&] { return c.pick({std::string("plain words"), std::string(""), std::string("{} {0} }{ %s %n"), std::string("two\nlines"), std::string("t\xc3\xa9xt"), std::string(300, 'm'), c.str_of("ab {}%\n\t", 20)}); };
    for(std::size_t i = 0; i < n; i++) {
        Step s{};
        s.op = int(c.weighted({5, 4, 2, 8, 4, 4, 2, 3, 3, VT_HAVE_ALLOCS ? 4u : 0u, 1}));
        s.level = log_level(c.below(4));
        s.a = unsigned(c.below(16)), s.b = unsigned(c.below(32));
        s.text = s.op == JIT ? c.pick({std::string(""), std::string("\x7f" "ELF"), std::string("\x7f" "ELF\x02\x01\x01") + std::string(57, '\0'), std::string(64, 'x'), c.bytes(100)}) : text();
        s.text2 = text();
        s.absorb = c.flip();
        h.push_back(std::move(s));
    }
    if(c.want_notes) for(auto& s : h) {
        c.note(op_names[s.op]);
        if(s.op == LEVEL || s.op == DIRECT || s.op == FORMATTED) c.note(" ").note(level_names[int(s.level)]);
        if(s.op == CALLBACK) c.note(" ").note(s.a % 8);
        if(s.op > STDERR) c.note(" ").note(vt::quote(s.text, 60)).note(s.absorb ? " absorbed" : " not absorbed").note(" ").note(s.a).note(" ").note(s.b);
        c.line("");
    }
    for(int k = 0; k < 4; k++) c.eq(std::string(cpptrace::to_string(log_level(k))), std::string(level_names[k]), "name of a level");
    c.check(log_level::debug < log_level::info && log_level::info < log_level::warning && log_level::warning < log_level::error, "order of the levels");
    // the model
    log_level level = log_level::error;
    int sink = -1; // -1: nobody, -2: standard error
    std::shared_ptr<int> alive;
    unsigned delivered = 0, suppressed = 0;
    std::vector<Message> expected[8];
    Capture capture;
    for(std::size_t i = 0; i < n; i++) {
        auto& s = h[i];
        std::string at = "step " + std::to_string(i) + " (" + op_names[s.op] + ")";
        std::vector<Message> to_stderr;
        switch(s.op) {
            case LEVEL: cpptrace::set_log_level(s.level); level = s.level; break;
            case CALLBACK: {
                sink = int(s.a % 8);
                std::shared_ptr<int> now = std::make_shared<int>(int(i));
                if(sink == 7) cpptrace::set_log_callback(plain_sink);
                else if(s.b & 1) { BigSink b; b.to = &heard[sink], b.alive = now; cpptrace::set_log_callback(b); }
                else cpptrace::set_log_callback(Sink{&heard[sink], now});
                if(sink != 7) c.check(now.use_count() >= 2, at + ": the callback is not kept");
                if(alive) c.check(alive.use_count() == 1, at + ": the previous callback is not released");
                alive = sink == 7 ? nullptr : now;
                break;
            }
            case STDERR: cpptrace::use_default_stderr_logger(); sink = -2; alive.reset(); break;
            default: {
                // what there is to be told: another process, listening to everything
                int p[2];
                if(::pipe(p) != 0) c.discard();
                pid_t child = ::fork();
                if(child == 0) {
                    std::vector<Message> all;
                    cpptrace::set_log_level(log_level::debug);
                    cpptrace::set_log_callback([&](log_level l, const char* m) { allocs::Pause pa; all.push_back({l, m}); });
                    std::string r = work(s), o;
                    put(o, r);
                    for(auto& m : all) { o += char(m.level); put(o, m.text); }
                    if(::write(p[1], o.data(), o.size()) != ssize_t(o.size())) ::_exit(3);
                    ::_exit(0);
                }
                ::close(p[1]);
                std::string o;
                char b[4096];
                for(ssize_t k; (k = ::read(p[0], b, sizeof b)) > 0;) o.append(b, std::size_t(k));
                ::close(p[0]);
                int st = 0;
                ::waitpid(child, &st, 0);
                c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, at + ": dies with a callback that takes everything, status " + std::to_string(st));
                std::size_t pos = 0;
                auto str = [&] { u64 len = 0; std::memcpy(&len, &o[pos], 8); pos += 8; auto r = o.substr(pos, len); pos += len; return r; };
                std::string want = str();
                std::vector<Message> all;
                while(pos < o.size()) { auto l = log_level(o[pos++]); all.push_back({l, str()}); }
                // what there has to be at least
                std::size_t errors = 0;
                for(auto& m : all) { c.check(unsigned(m.level) < 4, at + ": a message of an unknown level"); errors += m.level == log_level::error; }
                auto only = [&](log_level l, const std::string& t) { std::vector<Message> w{{l, t}}; if(!(all == w)) c.fail(at + ": the messages are " + show(all) + ", expected " + show(w)); };
                auto one_error = [&](const std::string& part) { // functions that call each other may each report what they pass on
                    std::size_t k = 0;
                    for(auto& m : all) if(m.level == log_level::error && m.text.find(part) != std::string::npos) k++;
                    if(k < 1 || k != errors || (k > 1 && (s.absorb || s.op != NO_MEMORY))) c.fail(at + ": the messages are " + show(all) + ", expected one error that says " + vt::quote(part));
                };
                if(s.op == DIRECT) only(s.level, s.text);
                if(s.op == FORMATTED) only(s.level, "<" + s.text + "|" + std::to_string(s.a) + "|" + s.text2 + ">");
                if(s.op == REPORTED) {
                    one_error(s.a % 4 < 2 ? s.text : s.a % 4 == 2 ? "Odd" : "int");
                    if(s.a % 4 == 1) one_error("runtime_error");
                    c.check((want.empty()) == s.absorb, at + ": absorbed or not, against the setting: " + want);
                }
                if(s.op == DROPPED) one_error(s.text);
                if(s.op == RESULT_ERROR) c.check(errors == 0, at + ": an error that may yet be dealt with is logged as one: " + show(all));
                if(s.op == JIT && !s.absorb && s.text.size() < 64) c.check(errors == 1, at + ": the object can't be read, but the messages are " + show(all));
                if(s.op == NO_MEMORY && (want.rfind("exception", 0) == 0 || want.rfind("0 frames, failed", 0) == 0)) one_error("bad_alloc");
                if(s.op == QUIET_WORK && errors) c.fail(at + ": errors are logged, but nothing fails: " + show(all));
                for(auto& m : all) {
                    if(m.level < level) { suppressed++; continue; }
                    if(sink >= 0) { expected[sink].push_back(m); delivered++; }
                    if(sink == -2) { to_stderr.push_back(m); delivered++; }
                }
                auto got = work(s);
                c.eq(got, want, at + ": the result depends on the log settings");
            }
        }
        for(int k = 0; k < 8; k++) if(!(heard[k] == expected[k])) c.fail(at + ": callback " + std::to_string(k) + " was told " + show(heard[k]) + ", expected " + show(expected[k]));
        auto out = capture.take(0), err = capture.take(1);
        if(!out.empty()) c.fail(at + ": standard output got " + vt::quote(out));
        std::size_t pos = 0;
        for(auto& m : to_stderr) { // a line each, with the level's name ahead of the message
            auto eol = err.find('\n', pos), name = err.find(level_names[int(m.level)], pos), msg = name == std::string::npos ? name : err.find(m.text + "\n", name + std::strlen(level_names[int(m.level)]));
            bool ok = msg != std::string::npos && name < eol && msg <= eol && msg - name < 40;
            if(!ok) c.fail(at + ": standard error got " + vt::quote(err) + ", expected " + show(to_stderr));
            pos = msg + m.text.size() + 1;
        }
        if(pos != err.size()) c.fail(at + ": standard error got " + vt::quote(err) + ", expected " + (to_stderr.empty() ? std::string("nothing") : show(to_stderr)));
    }
    c.nontrivial(delivered > 0 && suppressed > 0);
    c.event(sink == -1 ? "nobody listens" : sink == -2 ? "standard error" : "callback");
}
}
