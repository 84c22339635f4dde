#include "vt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/prctl.h>
#include <exception>

namespace vt {
constexpr std::size_t TAPE_MAX = 1 << 20;
constexpr std::size_t TEXT_MAX = 1 << 16;

struct Shared {
    std::atomic<u64> index;
    std::atomic<u64> start_ns; // 0 = no case running
    std::atomic<u64> evaluations;
    std::atomic<u64> verdict; // 0 none, 1 pass, 2 fail, 3 discard
    std::atomic<u64> tape_len;
    std::atomic<u64> notes_len;
    std::atomic<u64> nontrivial;
    char msg[TEXT_MAX];
    char notes[TEXT_MAX];
    u64 tape[TAPE_MAX];
};

static u64 now_ns() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return u64(t.tv_sec) * 1000000000ull + u64(t.tv_nsec);
}

std::string quote(const std::string& s, std::size_t max) {
    std::string o = "\"";
    for(unsigned char ch : s) {
        if(o.size() > max) {
            o += "\"... (" + std::to_string(s.size()) + " bytes)";
            return o;
        }
        char b[8];
        if(ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if(ch == '\n') o += "\\n";
        else if(ch == '\t') o += "\\t";
        else if(ch < 32 || ch >= 127) { std::snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
        else o += char(ch);
    }
    return o + "\"";
}

u64 Case::draw(u64 bound) {
    if(bound == 0) return 0;
    u64 v = 0;
    switch(mode) {
        case Mode::random: {
            rng = mix(rng);
            v = bound == ~0ull ? rng : u64((static_cast<unsigned __int128>(rng) * (static_cast<unsigned __int128>(bound) + 1)) >> 64);
            break;
        }
        case Mode::tape:
            v = in_pos < in_len ? in_tape[in_pos] : 0;
            in_pos++;
            if(v > bound) v = bound == ~0ull ? v : v % (bound + 1);
            break;
        case Mode::bytes: {
            for(u64 b = bound; b; b >>= 8) {
                v = (v << 8) | (in_pos < in_len ? in_bytes[in_pos] : 0);
                in_pos++;
            }
            if(v > bound) v %= bound + 1;
            break;
        }
    }
    if(sh) {
        u64 n = sh->tape_len.load(std::memory_order_relaxed);
        if(n < TAPE_MAX) {
            sh->tape[n] = v;
            sh->tape_len.store(n + 1, std::memory_order_relaxed);
        }
    } else {
        own_tape.push_back(v);
    }
    return v;
}
u64 Case::tape_hash() const {
    if(has_key) return key_hash;
    return sh ? hash_bytes(sh->tape, sh->tape_len.load() * 8) : hash_bytes(own_tape.data(), own_tape.size() * 8);
}
void Case::add_note(const std::string& s) {
    notes += s;
    if(sh) {
        u64 n = sh->notes_len.load();
        std::size_t k = std::min(s.size(), TEXT_MAX - 1 - std::size_t(n));
        const std::string& t = s;
        std::memcpy(sh->notes + n, t.data(), k);
        sh->notes_len.store(n + k);
    }
}

std::vector<Prop>& registry() {
    static std::vector<Prop> r;
    return r;
}
Reg::Reg(const char* n, std::function<void(Case&)> f, const char* rule, bool iso, double t) {
    Prop p;
    p.name = n;
    p.fn = f;
    p.rule = rule;
    p.isolated = iso;
    p.timeout = t;
    registry().push_back(p);
}

static std::string g_scratch;
static const char* g_arg0 = "";
std::string scratch_dir() { return g_scratch; }
const char* arg0() { return g_arg0; }

static void rm_tree(const std::string& d) {
    if(d.size() < 6 || d.find("/vt.") == std::string::npos) return;
    DIR* dir = opendir(d.c_str());
    if(!dir) return;
    while(dirent* e = readdir(dir)) {
        std::string n = e->d_name;
        if(n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p);
        else unlink(p.c_str());
    }
    closedir(dir);
    rmdir(d.c_str());
}

// ------------------------------------------------------------------------------------------------ running one case
enum class Verdict { pass, fail, discard };

static Verdict run_one(const Prop& p, Case& c) {
    try {
        p.fn(c);
    } catch(const Discard&) {
        if(!c.failed) return Verdict::discard;
    } catch(const Failure&) {
    } catch(const std::exception& e) {
        c.fail_soft(std::string("uncaught exception: ") + e.what());
    } catch(...) {
        c.fail_soft("uncaught exception of unknown type");
    }
    return c.failed ? Verdict::fail : Verdict::pass;
}

static void begin(Shared* sh, u64 index) {
    sh->index = index;
    sh->tape_len = 0;
    sh->notes_len = 0;
    sh->verdict = 0;
    sh->nontrivial = 0;
    sh->msg[0] = 0;
    sh->start_ns = now_ns();
}
static void put_msg(Shared* sh, const std::string& m) {
    std::size_t k = std::min(m.size(), TEXT_MAX - 1);
    std::memcpy(sh->msg, m.data(), k);
    sh->msg[k] = 0;
}

static u64 case_seed(u64 seed, const std::string& prop, u64 index) { return mix(mix(seed ^ hash_str(prop)) + index * 0x9e3779b97f4a7c15ull); }

struct Opts {
    u64 seed = 1, cases = 1000;
    unsigned jobs = 8;
    double max_secs = 1e9;
    std::string out, replay_dir = ".", harness, variant;
    bool thorough = false;
};

static Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); _exit(9); }
    return new(p) Shared;
}

static void redirect_stderr(const std::string& f) {
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
}
static std::string slurp_tail(const std::string& f, std::size_t n) {
    FILE* fp = std::fopen(f.c_str(), "rb");
    if(!fp) return "";
    std::string s;
    char b[4096];
    std::size_t k;
    while((k = std::fread(b, 1, sizeof b, fp)) > 0) s.append(b, k);
    std::fclose(fp);
    if(s.size() > n) s = s.substr(0, n);
    return s;
}

struct Outcome {
    enum Kind { pass, fail, crash, hang, discard } kind = pass;
    std::string msg, notes, log;
    std::vector<u64> tape;
    bool bad() const { return kind == fail || kind == crash || kind == hang; }
};

static std::string describe_status(int st) {
    if(WIFSIGNALED(st)) return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    if(WIFEXITED(st)) return "process exited with code " + std::to_string(WEXITSTATUS(st));
    return "process ended";
}
static std::string crash_headline(const std::string& log) {
    std::istringstream in(log);
    std::string l;
    while(std::getline(in, l)) {
        if(l.find("runtime error:") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos
           || l.find("terminate called") != std::string::npos || l.find("ERROR: ThreadSanitizer") != std::string::npos) return l;
    }
    return "";
}

// runs body in a forked child, waits with a timeout
static Outcome in_child(Shared* sh, double timeout, const std::string& errfile, const std::function<void()>& body) {
    Outcome o;
    begin(sh, 0);
    std::fflush(nullptr);
    pid_t pid = fork();
    if(pid < 0) { o.kind = Outcome::pass; o.msg = "fork failed"; return o; }
    if(pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        redirect_stderr(errfile);
        body();
        std::fflush(nullptr);
        _exit(0);
    }
    setpgid(pid, pid);
    int st = 0;
    bool hung = false;
    u64 t0 = now_ns();
    useconds_t nap = 200;
    while(true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) break;
        if(r < 0 && errno != EINTR) break;
        if(double(now_ns() - t0) / 1e9 > timeout) {
            hung = true;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(nap);
        if(nap < 20000) nap = nap * 3 / 2;
    }
    kill(-pid, SIGKILL); // stray children of the case
    o.tape.assign(sh->tape, sh->tape + sh->tape_len.load());
    o.notes.assign(sh->notes, sh->notes_len.load());
    o.log = slurp_tail(errfile, 6000);
    if(hung) { o.kind = Outcome::hang; o.msg = "did not finish within " + std::to_string(int(timeout)) + " s"; return o; }
    u64 v = sh->verdict.load();
    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if(v == 2) { o.kind = Outcome::fail; o.msg = sh->msg; return o; }
    if(!clean || v == 0) {
        o.kind = Outcome::crash;
        o.msg = describe_status(st);
        std::string h = crash_headline(o.log);
        if(!h.empty()) o.msg += ": " + h;
        return o;
    }
    o.kind = v == 3 ? Outcome::discard : Outcome::pass;
    return o;
}

static void run_recorded(const Prop& p, Case& c, Shared* sh) {
    Verdict v = run_one(p, c);
    if(v == Verdict::fail) put_msg(sh, c.fail_msg);
    if(c.is_nontrivial) sh->nontrivial = 1;
    sh->verdict = v == Verdict::pass ? 1 : v == Verdict::fail ? 2 : 3;
}

static Outcome attempt_tape(const Prop& p, Shared* sh, const std::vector<u64>& tape, const Opts& o, u64 index) {
    return in_child(sh, p.timeout, g_scratch + "/attempt.err", [&] {
        Case c;
        c.mode = Case::Mode::tape;
        c.in_tape = tape.data();
        c.in_len = tape.size();
        c.sh = sh;
        c.index = index;
        c.thorough = o.thorough;
        run_recorded(p, c, sh);
    });
}
// the history a worker executed up to and including case index
static Outcome attempt_prefix(const Prop& p, Shared* sh, u64 first, u64 step, u64 index, const Opts& o) {
    return in_child(sh, p.timeout + 300, g_scratch + "/attempt.err", [&] {
        for(u64 i = first; i <= index; i += step) {
            begin(sh, i);
            Case c;
            c.rng = case_seed(o.seed, p.name, i);
            c.sh = sh;
            c.index = i;
            c.thorough = o.thorough;
            run_recorded(p, c, sh);
            if(sh->verdict == 2) return;
        }
    });
}

static Outcome shrink(const Prop& p, Shared* sh, Outcome best, const Opts& o, u64 index) {
    u64 deadline = now_ns() + (best.kind == Outcome::hang ? 30ull : 20ull) * 1000000000ull;
    unsigned budget = best.kind == Outcome::hang ? 6 : 1500;
    auto try_tape = [&](const std::vector<u64>& t) {
        if(budget == 0 || now_ns() > deadline) return false;
        budget--;
        Outcome r = attempt_tape(p, sh, t, o, index);
        if(!r.bad() || r.kind != best.kind) return false;
        // must get simpler
        if(r.tape.size() > best.tape.size()) return false;
        if(r.tape.size() == best.tape.size() && !std::lexicographical_compare(r.tape.begin(), r.tape.end(), best.tape.begin(), best.tape.end())) return false;
        best = r;
        return true;
    };
    bool progress = true;
    while(progress && budget && now_ns() < deadline) {
        progress = false;
        for(std::size_t k = std::max<std::size_t>(1, best.tape.size() / 2); k >= 1; k /= 2) {
            for(std::size_t i = 0; i + k <= best.tape.size() && budget && now_ns() < deadline;) {
                auto t = best.tape;
                t.erase(t.begin() + long(i), t.begin() + long(i + k));
                if(try_tape(t)) progress = true;
                else i += k;
            }
            if(k == 1) break;
        }
        for(std::size_t k = std::max<std::size_t>(1, best.tape.size() / 2); k >= 1; k /= 2) {
            for(std::size_t i = 0; i + k <= best.tape.size() && budget && now_ns() < deadline; i += k) {
                auto t = best.tape;
                if(std::all_of(t.begin() + long(i), t.begin() + long(i + k), [](u64 v) { return v == 0; })) continue;
                std::fill(t.begin() + long(i), t.begin() + long(i + k), 0);
                if(try_tape(t)) progress = true;
            }
            if(k == 1) break;
        }
        for(std::size_t i = 0; i < best.tape.size() && budget && now_ns() < deadline; i++) {
            u64 lo = 0;
            while(i < best.tape.size() && best.tape[i] > lo && budget && now_ns() < deadline) {
                auto t = best.tape;
                u64 cand = lo + (t[i] - lo) / 2;
                t[i] = cand;
                if(try_tape(t)) progress = true;
                else lo = cand + 1;
            }
        }
    }
    return best;
}

static std::string json_str(const std::string& s) {
    std::string o = "\"";
    for(unsigned char ch : s) {
        char b[8];
        if(ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if(ch < 32 || ch >= 127) { std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o + "\"";
}

static bool write_replay(const std::string& file, const Prop& p, const Opts& o, const Outcome& r, const std::string& mode, u64 a, u64 b, u64 idx) {
    FILE* f = std::fopen(file.c_str(), "w");
    if(!f) return false;
    std::fprintf(f, "vt-replay 1\nharness %s\nvariant %s\nprop %s\nseed %llu\ntier %s\nmode %s\n", o.harness.c_str(), o.variant.c_str(), p.name.c_str(),
                 (unsigned long long) o.seed, o.thorough ? "thorough" : "quick", mode.c_str());
    if(mode == "tape") {
        std::fprintf(f, "index %llu\ntape", (unsigned long long) idx);
        for(u64 v : r.tape) std::fprintf(f, " %llu", (unsigned long long) v);
        std::fprintf(f, "\n");
    } else {
        std::fprintf(f, "history %llu %llu %llu\n", (unsigned long long) a, (unsigned long long) b, (unsigned long long) idx);
    }
    std::fprintf(f, "# %s\n", quote(r.msg, 6000).c_str());
    std::istringstream in(r.notes);
    std::string l;
    while(std::getline(in, l)) std::fprintf(f, "# %s\n", l.c_str());
    std::istringstream in2(r.log);
    while(std::getline(in2, l)) std::fprintf(f, "#! %s\n", l.c_str());
    std::fclose(f);
    return true;
}

struct Stats {
    u64 evaluations = 0, discards = 0;
    std::unordered_set<u64> distinct;
    std::map<std::string, u64> events;
    std::vector<std::string> samples;
};

static void save_stats(const std::string& file, const Stats& s) {
    FILE* f = std::fopen(file.c_str(), "wb");
    if(!f) return;
    std::fprintf(f, "%llu %llu %zu %zu %zu\n", (unsigned long long) s.evaluations, (unsigned long long) s.discards, s.distinct.size(), s.events.size(), s.samples.size());
    for(u64 h : s.distinct) std::fwrite(&h, 8, 1, f);
    for(auto& e : s.events) { u64 n = e.first.size(); std::fwrite(&n, 8, 1, f); std::fwrite(e.first.data(), 1, n, f); std::fwrite(&e.second, 8, 1, f); }
    for(auto& e : s.samples) { u64 n = e.size(); std::fwrite(&n, 8, 1, f); std::fwrite(e.data(), 1, n, f); }
    std::fclose(f);
}
static void load_stats(const std::string& file, Stats& s) {
    FILE* f = std::fopen(file.c_str(), "rb");
    if(!f) return;
    unsigned long long ev, di;
    std::size_t nd, ne, ns;
    if(std::fscanf(f, "%llu %llu %zu %zu %zu", &ev, &di, &nd, &ne, &ns) == 5 && std::fgetc(f) == '\n') {
        s.evaluations += ev;
        s.discards += di;
        u64 h;
        for(std::size_t i = 0; i < nd && std::fread(&h, 8, 1, f) == 1; i++) s.distinct.insert(h);
        auto rd = [&](std::string& o) { u64 n; if(std::fread(&n, 8, 1, f) != 1 || n > (1u << 26)) return false; o.resize(n); return std::fread(&o[0], 1, n, f) == n; };
        for(std::size_t i = 0; i < ne; i++) { std::string k; u64 v; if(!rd(k) || std::fread(&v, 8, 1, f) != 1) break; s.events[k] += v; }
        for(std::size_t i = 0; i < ns; i++) { std::string k; if(!rd(k)) break; s.samples.push_back(k); }
    }
    std::fclose(f);
}

static void worker(const Prop& p, const Opts& o, unsigned w, Shared* sh, u64 first, u64 t_end) {
    // runs cases first, first + jobs, ...
    redirect_stderr(g_scratch + "/worker." + std::to_string(w) + ".err");
    Stats s;
    unsigned fails = 0;
    for(u64 i = first; i < o.cases; i += o.jobs) {
        if(now_ns() > t_end) break;
        begin(sh, i);
        Case c;
        c.rng = case_seed(o.seed, p.name, i);
        c.sh = sh;
        c.index = i;
        c.events = &s.events;
        c.thorough = o.thorough;
        Verdict v = run_one(p, c);
        sh->start_ns = 0;
        s.evaluations++;
        sh->evaluations++;
        if(v == Verdict::discard) s.discards++;
        if(v != Verdict::discard && c.is_nontrivial) {
            bool fresh = s.distinct.insert(c.tape_hash()).second;
            if(fresh && s.samples.size() < 2 && (s.distinct.size() % 7 == 3 || o.cases < 200)) s.samples.push_back(c.notes.substr(0, 1200));
        }
        if(v == Verdict::fail) {
            put_msg(sh, c.fail_msg);
            sh->verdict = 2;
            sh->index = i;
            fails++;
            break;
        }
    }
    save_stats(g_scratch + "/stats." + std::to_string(w) + "." + std::to_string(first), s);
    std::fflush(nullptr);
    _exit(fails ? 3 : 0);
}

// one process per case; the parent of those is the worker
static void worker_isolated(const Prop& p, const Opts& o, unsigned w, Shared* sh, u64 first, u64 t_end) {
    std::string err = g_scratch + "/worker." + std::to_string(w) + ".err";
    Stats s;
    // per-case stats come back through a pipe-like file: events and samples are small, so reuse save/load
    std::string tmp = g_scratch + "/iso." + std::to_string(w);
    for(u64 i = first; i < o.cases; i += o.jobs) {
        if(now_ns() > t_end) break;
        unlink(tmp.c_str());
        Outcome r = in_child(sh, p.timeout, err, [&] {
            Stats one;
            Case c;
            c.rng = case_seed(o.seed, p.name, i);
            c.sh = sh;
            c.index = i;
            c.events = &one.events;
            c.thorough = o.thorough;
            run_recorded(p, c, sh);
            if(c.is_nontrivial && sh->verdict != 3) {
                one.distinct.insert(c.tape_hash());
                if(i % 5 == 2 || o.cases < 100) one.samples.push_back(c.notes.substr(0, 1200));
            }
            save_stats(tmp, one);
        });
        sh->index = i;
        sh->start_ns = 0;
        sh->evaluations++;
        s.evaluations++;
        if(r.kind == Outcome::discard) s.discards++;
        Stats one;
        load_stats(tmp, one);
        s.distinct.insert(one.distinct.begin(), one.distinct.end());
        for(auto& e : one.events) s.events[e.first] += e.second;
        if(s.samples.size() < 2) for(auto& x : one.samples) s.samples.push_back(x);
        if(r.bad()) {
            put_msg(sh, r.msg);
            sh->verdict = r.kind == Outcome::fail ? 2 : r.kind == Outcome::crash ? 4 : 5;
            save_stats(g_scratch + "/stats." + std::to_string(w) + "." + std::to_string(first), s);
            _exit(3);
        }
    }
    save_stats(g_scratch + "/stats." + std::to_string(w) + "." + std::to_string(first), s);
    _exit(0);
}

struct PropResult {
    Stats stats;
    std::vector<std::string> failures; // json objects
    std::vector<std::string> unconfirmed;
    double wall = 0;
};

static PropResult run_prop(const Prop& p, const Opts& o) {
    PropResult res;
    u64 t0 = now_ns();
    u64 t_end = o.max_secs > 1e8 ? ~0ull : t0 + u64(o.max_secs * 1e9);
    struct W { pid_t pid = 0; Shared* sh = nullptr; u64 first = 0; bool done = false; unsigned crashes = 0; };
    std::vector<W> ws(o.jobs);
    struct Cand { u64 first, index; std::vector<u64> tape; std::string msg, log; };
    std::vector<Cand> cands;
    auto launch = [&](unsigned w, u64 first) {
        ws[w].first = first;
        ws[w].sh->start_ns = 0;
        std::fflush(nullptr);
        pid_t pid = fork();
        if(pid < 0) { perror("fork"); ws[w].done = true; return; }
        if(pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            if(p.isolated) worker_isolated(p, o, w, ws[w].sh, first, t_end);
            else worker(p, o, w, ws[w].sh, first, t_end);
        }
        setpgid(pid, pid);
        ws[w].pid = pid;
    };
    for(unsigned w = 0; w < o.jobs; w++) {
        ws[w].sh = new_shared();
        launch(w, w);
    }
    bool stop = false;
    while(true) {
        bool alive = false;
        for(unsigned w = 0; w < o.jobs; w++) {
            if(ws[w].done) continue;
            alive = true;
            int st = 0;
            pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
            Shared* sh = ws[w].sh;
            bool hang = false;
            if(r == 0) {
                u64 s = sh->start_ns.load();
                if(!p.isolated && s && double(now_ns() - s) / 1e9 > p.timeout) {
                    kill(-ws[w].pid, SIGKILL);
                    kill(ws[w].pid, SIGKILL);
                    waitpid(ws[w].pid, &st, 0);
                    hang = true;
                } else if(stop) {
                    kill(-ws[w].pid, SIGKILL);
                    kill(ws[w].pid, SIGKILL);
                    waitpid(ws[w].pid, &st, 0);
                    kill(-ws[w].pid, SIGKILL);
                    ws[w].done = true;
                    continue;
                } else continue;
            }
            kill(-ws[w].pid, SIGKILL);
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !hang) { ws[w].done = true; continue; }
            // a failure, crash or hang in case sh->index
            Cand c;
            c.first = ws[w].first;
            c.index = sh->index.load();
            c.tape.assign(sh->tape, sh->tape + sh->tape_len.load());
            c.log = slurp_tail(g_scratch + "/worker." + std::to_string(w) + ".err", 6000);
            if(hang) c.msg = "hang";
            else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) c.msg = sh->msg;
            else {
                c.msg = describe_status(st) + " " + crash_headline(c.log);
                res.stats.evaluations += 1;
            }
            cands.push_back(c);
            ws[w].crashes++;
            if(cands.size() >= 3) stop = true;
            if(!stop && c.index + o.jobs < o.cases && ws[w].crashes < 2) launch(w, c.index + o.jobs);
            else ws[w].done = true;
        }
        if(!alive) break;
        usleep(2000);
    }
    // merge statistics
    for(unsigned w = 0; w < o.jobs; w++) {
        std::string base = "stats." + std::to_string(w) + ".";
        DIR* d = opendir(g_scratch.c_str());
        std::vector<std::string> fs;
        while(dirent* e = d ? readdir(d) : nullptr) if(std::strncmp(e->d_name, base.c_str(), base.size()) == 0) fs.push_back(e->d_name);
        if(d) closedir(d);
        std::sort(fs.begin(), fs.end());
        for(auto& f : fs) { load_stats(g_scratch + "/" + f, res.stats); unlink((g_scratch + "/" + f).c_str()); }
    }
    // confirm, shrink, report
    Shared* sh = ws[0].sh;
    std::unordered_set<std::string> seen;
    unsigned hangs_tried = 0;
    for(auto& c : cands) {
        if(c.msg == "hang" && hangs_tried++ >= 1) continue;
        if(res.failures.size() >= 2) break;
        bool confirmed = true;
        Outcome last;
        unsigned reps = c.msg == "hang" ? 2 : 3;
        for(unsigned k = 0; k < reps && confirmed; k++) {
            last = attempt_tape(p, sh, c.tape, o, c.index);
            confirmed = last.bad();
        }
        std::string mode = "tape";
        if(confirmed) {
            last = shrink(p, sh, last, o, c.index);
        } else if(!p.isolated && c.msg != "hang") {
            mode = "history";
            confirmed = true;
            for(unsigned k = 0; k < 3 && confirmed; k++) {
                last = attempt_prefix(p, sh, c.first, o.jobs, c.index, o);
                confirmed = last.bad();
            }
        }
        if(!confirmed) {
            res.unconfirmed.push_back(json_str(p.name + " case " + std::to_string(c.index) + ": " + c.msg + " | " + c.log.substr(0, 600)));
            continue;
        }
        std::string cls;
        for(char ch : last.msg) { if(cls.size() >= 40) break; if(!std::isdigit((unsigned char) ch) && ch != '=') cls += ch; }
        if(!seen.insert(cls).second) continue;
        std::string file = o.replay_dir + "/" + p.name + "-" + std::to_string(res.failures.size()) + ".replay";
        write_replay(file, p, o, last, mode, c.first, o.jobs, c.index);
        res.failures.push_back("{\"prop\":" + json_str(p.name) + ",\"msg\":" + json_str(last.msg) + ",\"notes\":" + json_str(last.notes.substr(0, 4000)) + ",\"log\":" + json_str(last.log.substr(0, 2500))
                               + ",\"replay\":" + json_str(file) + ",\"case\":" + std::to_string(c.index) + "}");
    }
    for(auto& w : ws) munmap(w.sh, sizeof(Shared));
    res.wall = double(now_ns() - t0) / 1e9;
    return res;
}

static const Prop* find_prop(const std::string& n) {
    for(auto& p : registry()) if(p.name == n) return &p;
    return nullptr;
}

static int do_replay(const char* file) {
    FILE* f = std::fopen(file, "r");
    if(!f) { std::perror(file); return 2; }
    Opts o;
    std::string prop, mode;
    std::vector<u64> tape;
    u64 a = 0, b = 1, idx = 0;
    std::string text;
    char buf[65536];
    std::size_t k;
    while((k = std::fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, k);
    std::fclose(f);
    std::istringstream in(text);
    std::string l;
    while(std::getline(in, l)) {
        std::istringstream ls(l);
        std::string w;
        ls >> w;
        if(w == "prop") ls >> prop;
        else if(w == "seed") ls >> o.seed;
        else if(w == "tier") { std::string t; ls >> t; o.thorough = t == "thorough"; }
        else if(w == "mode") ls >> mode;
        else if(w == "index") ls >> idx;
        else if(w == "tape") { u64 v; while(ls >> v) tape.push_back(v); }
        else if(w == "history") ls >> a >> b >> idx;
    }
    const Prop* p = find_prop(prop);
    if(!p) { std::fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    Shared* sh = new_shared();
    Outcome r = mode == "history" ? attempt_prefix(*p, sh, a, b, idx, o) : attempt_tape(*p, sh, tape, o, idx);
    std::printf("%s%s\n%s\n", r.notes.c_str(), r.bad() ? "FAILS" : "passes", r.msg.c_str());
    if(r.bad()) std::printf("%s\n", r.log.c_str());
    return r.bad() ? 1 : 0;
}

} // namespace vt

#ifndef VT_FUZZ
extern "C" __attribute__((weak)) int vt_alt_main(int argc, char** argv); // a harness's own program, run as HARNESS --alt ...
static int vt_main(int argc, char** argv);
int main(int argc, char** argv) {
    if(argc > 1 && !std::strcmp(argv[1], "--alt") && vt_alt_main) return vt_alt_main(argc - 2, argv + 2);
    return vt_main(argc, argv);
}
static int vt_main(int argc, char** argv) {
    using namespace vt;
    g_arg0 = argv[0];
    Opts o;
    std::vector<std::pair<std::string, u64>> todo;
    std::string cmd = argc > 1 ? argv[1] : "";
    const char* td = std::getenv("TMPDIR");
    std::string tmpl = std::string(td ? td : "/tmp") + "/vt.XXXXXX";
    std::vector<char> tb(tmpl.begin(), tmpl.end());
    tb.push_back(0);
    if(!mkdtemp(tb.data())) { std::perror("mkdtemp"); return 9; }
    g_scratch = tb.data();
    int rc = 0;
    if(cmd == "list") {
        for(auto& p : registry()) std::printf("%s\t%s\n", p.name.c_str(), p.rule.c_str());
    } else if(cmd == "replay" && argc > 2) {
        rc = do_replay(argv[2]);
    } else if(cmd == "run") {
        for(int i = 2; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if(a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
            else if(a == "--jobs") o.jobs = unsigned(std::atoi(val().c_str()));
            else if(a == "--max-secs") o.max_secs = std::atof(val().c_str());
            else if(a == "--out") o.out = val();
            else if(a == "--replay-dir") o.replay_dir = val();
            else if(a == "--harness") o.harness = val();
            else if(a == "--variant") o.variant = val();
            else if(a == "--thorough") o.thorough = true;
            else {
                auto eq = a.find('=');
                todo.emplace_back(a.substr(0, eq), eq == std::string::npos ? 1000 : std::strtoull(a.c_str() + eq + 1, nullptr, 10));
            }
        }
        std::string json = "{\"props\":[";
        bool first = true;
        for(auto& t : todo) {
            const Prop* p = find_prop(t.first);
            if(!p) { std::fprintf(stderr, "unknown property %s\n", t.first.c_str()); rc = 2; continue; }
            Opts oo = o;
            oo.cases = t.second;
            PropResult r = run_prop(*p, oo);
            json += first ? "" : ",";
            first = false;
            json += "{\"name\":" + json_str(p->name) + ",\"rule\":" + json_str(p->rule) + ",\"evaluations\":" + std::to_string(r.stats.evaluations) + ",\"discards\":" + std::to_string(r.stats.discards)
                  + ",\"distinct_nontrivial\":" + std::to_string(r.stats.distinct.size()) + ",\"wall_s\":" + std::to_string(r.wall) + ",\"events\":{";
            bool f2 = true;
            for(auto& e : r.stats.events) { json += (f2 ? "" : ",") + json_str(e.first) + ":" + std::to_string(e.second); f2 = false; }
            json += "},\"samples\":[";
            for(std::size_t i = 0; i < r.stats.samples.size() && i < 4; i++) json += (i ? "," : "") + json_str(r.stats.samples[i]);
            json += "],\"failures\":[";
            for(std::size_t i = 0; i < r.failures.size(); i++) json += (i ? "," : "") + r.failures[i];
            json += "],\"unconfirmed\":[";
            for(std::size_t i = 0; i < r.unconfirmed.size(); i++) json += (i ? "," : "") + r.unconfirmed[i];
            json += "]}";
            if(!r.failures.empty() && rc == 0) rc = 1;
        }
        json += "]}";
        if(o.out.empty()) std::printf("%s\n", json.c_str());
        else {
            FILE* f = std::fopen(o.out.c_str(), "w");
            if(f) { std::fwrite(json.data(), 1, json.size(), f); std::fclose(f); }
        }
    } else {
        std::fprintf(stderr, "usage: %s list | replay FILE | run [--seed N] [--jobs N] [--out F] [--replay-dir D] prop=cases...\n", argv[0]);
        rc = 2;
    }
    rm_tree(g_scratch);
    return rc;
}
#else
extern "C" int LLVMFuzzerTestOneInput(const unsigned char* data, std::size_t n) {
    using namespace vt;
    static const Prop* p = nullptr;
    if(!p) {
        const char* want = std::getenv("VT_PROP");
        p = want ? find_prop(want) : &registry().front();
        const char* td = std::getenv("VT_SCRATCH");
        g_scratch = td ? td : "/tmp";
        if(!p) { std::fprintf(stderr, "no such property\n"); std::abort(); }
    }
    Case c;
    c.mode = Case::Mode::bytes;
    c.in_bytes = data;
    c.in_len = n;
    c.thorough = true;
    if(run_one(*p, c) == Verdict::fail) {
        std::fprintf(stderr, "VT-FAILURE %s\n%s\n", c.fail_msg.c_str(), c.notes.c_str());
        std::fprintf(stderr, "VT-TAPE");
        for(u64 v : c.own_tape) std::fprintf(stderr, " %llu", (unsigned long long) v);
        std::fprintf(stderr, "\n");
        std::abort();
    }
    return 0;
}
#endif
