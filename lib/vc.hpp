// Explorer runtime shared by the C/C++ checks.
//
// A check is a set of units; each unit enumerates a finite space of cases.  A unit runs in its own
// forked child, so an abort, sanitizer report, crash or hang of the code under test is attributed to the
// case being executed.  Every reported violation is first replayed alone (same unit, same case index) in a
// fresh process.  Nothing here is random.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>

namespace vc {

struct Shared {
    volatile uint64_t idx;          // case being executed (1-based)
    volatile uint64_t states, transitions, traces, outcomes, skipped_known;
    volatile int failed;            // 1: property violated
    volatile int done;
    volatile int capped;
    char msg[6000];
    char samples[3][700];
    volatile int nsamples;
    char known[16][200];
    volatile int nknown;
};

struct HashSet {
    std::vector<uint64_t> t; size_t n = 0; bool full = false; size_t cap;
    HashSet(size_t c = (1u << 22)) : t(1024, 0), cap(c) {}
    bool add(uint64_t h) {
        if (h == 0) h = 1;
        if ((n + 1) * 2 > t.size()) {
            if (t.size() >= cap * 2) { full = true; return false; }
            std::vector<uint64_t> o(t.size() * 4, 0); o.swap(t);
            for (auto v : o) if (v) { size_t i = (v * 0x9E3779B97F4A7C15ull) & (t.size() - 1); while (t[i]) i = (i + 1) & (t.size() - 1); t[i] = v; }
        }
        size_t i = (h * 0x9E3779B97F4A7C15ull) & (t.size() - 1);
        while (t[i]) { if (t[i] == h) return false; i = (i + 1) & (t.size() - 1); }
        t[i] = h; n++; return true;
    }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h;
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

struct Violation { };

struct Ctx {
    Shared *sh = nullptr;
    bool thorough = false;
    int64_t target = -1;            // replay: only this case
    uint64_t cur = 0;
    HashSet st{1u << 22}, oc{1u << 16};
    const std::map<std::string, std::string> *known = nullptr;

    // Starts the next case. False: skip it (replaying another one).
    bool next() {
        cur++;
        if (target >= 0 && (int64_t)cur != target) return false;
        sh->idx = cur;
        return true;
    }
    bool replaying() const { return target >= 0; }
    bool past_target() const { return target >= 0 && (int64_t)cur > target; }
    void trace() { sh->traces++; }
    void trans(uint64_t n = 1) { sh->transitions += n; }
    void state(uint64_t h) { if (st.add(h)) sh->states++; }
    void outcome(uint64_t h) { if (oc.add(h)) sh->outcomes++; }
    bool want_sample() { return sh->nsamples < 3; }
    void sample(const char *f, ...) {
        if (sh->nsamples >= 3) return;
        va_list a; va_start(a, f); vsnprintf(sh->samples[sh->nsamples], sizeof sh->samples[0], f, a); va_end(a);
        sh->nsamples++;
    }
    [[noreturn]] void fail(const char *f, ...) {
        va_list a; va_start(a, f); vsnprintf(sh->msg, sizeof sh->msg, f, a); va_end(a);
        sh->failed = 1;
        throw Violation();
    }
    // A listed finding: noted, not a violation. Returns true if `key` is listed.
    bool is_known(const std::string &key) {
        if (!known || !known->count(key)) return false;
        sh->skipped_known++;
        for (int i = 0; i < sh->nknown; i++) if (key == sh->known[i]) return true;
        if (sh->nknown < 16) { strncpy(sh->known[sh->nknown], key.c_str(), 199); sh->nknown++; }
        return true;
    }
};

struct Unit { std::string name; std::function<void(Ctx &)> fn; double cpu_limit; };
inline std::vector<Unit> &units() { static std::vector<Unit> u; return u; }
inline void unit(const std::string &n, std::function<void(Ctx &)> f, double cpu_limit_per_case = 20) { units().push_back({n, f, cpu_limit_per_case}); }

inline std::string fmt(const char *f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline std::string hex(const void *p, size_t n) {
    std::string s; const unsigned char *b = (const unsigned char *)p; char t[3];
    for (size_t i = 0; i < n; i++) { snprintf(t, 3, "%02x", b[i]); s += t; } return s;
}
inline std::string jesc(const std::string &s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); o += t; } else o += c; } return o;
}

// CPU seconds used by pid
inline double cpu_of(pid_t p) {
    char f[64]; snprintf(f, sizeof f, "/proc/%d/stat", p);
    FILE *h = fopen(f, "r"); if (!h) return 0;
    char b[1024]; size_t n = fread(b, 1, sizeof b - 1, h); fclose(h); b[n] = 0;
    char *e = strrchr(b, ')'); if (!e) return 0;
    unsigned long ut = 0, stt = 0; 
    if (sscanf(e + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &stt) != 2) return 0;
    return (double)(ut + stt) / sysconf(_SC_CLK_TCK);
}

struct Child { pid_t pid; size_t u; Shared *sh; std::string err; uint64_t last_idx; double last_cpu; time_t last_wall; bool timed_out; };

inline Shared *new_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    memset(p, 0, sizeof(Shared)); return (Shared *)p;
}
typedef void (*child_init_t)();
inline child_init_t &child_init() { static child_init_t f = nullptr; return f; }

inline pid_t spawn(const Unit &u, Shared *sh, bool thorough, int64_t target, const std::string &errf, const std::map<std::string, std::string> *known) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p) return p;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    Ctx c; c.sh = sh; c.thorough = thorough; c.target = target; c.known = known;
    if (child_init()) child_init()();
    int rc = 0;
    try { u.fn(c); sh->done = 1; } catch (Violation &) { rc = 3; }
    fflush(nullptr);
    _exit(rc);
}

inline std::string tail_file(const std::string &f, size_t n = 2500) {
    FILE *h = fopen(f.c_str(), "r"); if (!h) return "";
    std::string s; char b[4096]; size_t r; while ((r = fread(b, 1, sizeof b, h)) > 0 && s.size() < 200000) s.append(b, r); fclose(h);
    if (s.size() > n) s = s.substr(0, n);
    return s;
}

// 0 fine, 1 violation, 2 timeout
inline int judge(int status, Shared *sh, const std::string &errf, bool timed_out, std::string &msg) {
    if (timed_out) { msg = "no progress within the CPU limit of one case (hang)"; return 2; }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->done) return 0;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 3 && sh->failed) { msg = sh->msg; return 1; }
    if (WIFSIGNALED(status)) msg = fmt("code under test died with signal %d: ", WTERMSIG(status));
    else msg = fmt("code under test ended the process (exit status %d): ", WEXITSTATUS(status));
    msg += tail_file(errf);
    return 1;
}

inline int run_replay(const Unit &u, uint64_t idx, bool thorough, const std::string &errf, const std::map<std::string, std::string> *known, std::string &msg) {
    Shared *sh = new_shared();
    pid_t p = spawn(u, sh, thorough, idx, errf, known);
    int st = 0; bool to = false; time_t t0 = time(nullptr);
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (cpu_of(p) > u.cpu_limit * 3 + 5 || time(nullptr) - t0 > 400) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
        usleep(20000);
    }
    int j = judge(st, sh, errf, to, msg);
    munmap(sh, sizeof(Shared));
    return j;
}

inline int main_(int argc, char **argv) {
    std::string tier = "quick", out, scratch = "/tmp", only; int jobs = 8; int64_t ridx = -1; std::string runit;
    std::map<std::string, std::string> known;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") tier = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--scratch") scratch = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--known") { std::string k = argv[++i]; known[k] = "1"; }
        else if (a == "--replay") { runit = argv[++i]; ridx = atoll(argv[++i]); }
    }
    bool th = tier == "thorough";
    auto &U = units();
    if (ridx >= 0) {
        for (auto &u : U) if (u.name == runit) {
            std::string msg; int j = run_replay(u, ridx, th, scratch + "/replay.err", &known, msg);
            printf("%s unit=%s case=%lld\n%s\n", j ? "REPRODUCED" : "not reproduced", runit.c_str(), (long long)ridx, msg.c_str());
            return j ? 1 : 0;
        }
        fprintf(stderr, "no unit %s\n", runit.c_str()); return 2;
    }
    std::vector<Child> run; size_t nextu = 0;
    uint64_t S = 0, T = 0, R = 0, O = 0, KN = 0; bool stop = false; int nviol = 0, ncap = 0; size_t ndone = 0;
    std::vector<std::string> samples, viol, notes; std::set<std::string> kn; std::string perunit;
    while ((nextu < U.size() && !stop) || !run.empty()) {
        while (!stop && nextu < U.size() && (int)run.size() < jobs) {
            if (!only.empty() && U[nextu].name.find(only) == std::string::npos) { nextu++; continue; }
            Child c; c.u = nextu; c.sh = new_shared(); c.err = scratch + "/u" + std::to_string(nextu) + ".err"; c.last_idx = 0; c.last_cpu = 0; c.last_wall = time(nullptr); c.timed_out = false;
            c.pid = spawn(U[nextu], c.sh, th, -1, c.err, &known);
            run.push_back(c); nextu++;
        }
        bool any = false;
        for (size_t i = 0; i < run.size();) {
            Child &c = run[i]; int st = 0;
            pid_t r = waitpid(c.pid, &st, WNOHANG);
            if (r == 0) {
                if (c.sh->idx != c.last_idx) { c.last_idx = c.sh->idx; c.last_cpu = cpu_of(c.pid); c.last_wall = time(nullptr); }
                else if (cpu_of(c.pid) - c.last_cpu > U[c.u].cpu_limit || time(nullptr) - c.last_wall > 300) { kill(c.pid, SIGKILL); waitpid(c.pid, &st, 0); c.timed_out = true; r = c.pid; }
            }
            if (r == 0) { i++; continue; }
            any = true;
            Child d = c; run.erase(run.begin() + i);
            std::string msg; int j = judge(st, d.sh, d.err, d.timed_out, msg); bool confirmed = true;
            if (j && !stop) {
                std::string m2; int j2 = run_replay(U[d.u], d.sh->idx, th, d.err + ".r", &known, m2);
                if (!j2) { // may depend on the cases before it: rerun the whole unit once
                    Shared *s2 = new_shared(); pid_t p = spawn(U[d.u], s2, th, -1, d.err + ".r2", &known); int st2 = 0; bool to = false; double lc = 0; uint64_t li = 0; time_t lw = time(nullptr);
                    for (;;) { pid_t r2 = waitpid(p, &st2, WNOHANG); if (r2 == p) break; if (s2->idx != li) { li = s2->idx; lc = cpu_of(p); lw = time(nullptr); } else if (cpu_of(p) - lc > U[d.u].cpu_limit * 2 || time(nullptr) - lw > 300) { kill(p, SIGKILL); waitpid(p, &st2, 0); to = true; break; } usleep(20000); }
                    j2 = judge(st2, s2, d.err + ".r2", to, m2);
                    if (j2) m2 = "(needs the preceding cases of the unit) " + m2;
                    munmap(s2, sizeof(Shared));
                }
                if (j2) {
                    nviol++; stop = nviol >= 1;
                    viol.push_back("{\"unit\":\"" + jesc(U[d.u].name) + "\",\"case\":" + std::to_string(d.sh->idx) + ",\"message\":\"" + jesc(m2.empty() ? msg : m2) + "\"}");
                } else { confirmed = false; notes.push_back("not reproduced on replay, not reported: unit " + U[d.u].name + " case " + std::to_string(d.sh->idx) + ": " + msg.substr(0, 300)); }
            }
            if (!j || !confirmed) ndone++;
            S += d.sh->states; T += d.sh->transitions; R += d.sh->traces; O += d.sh->outcomes; KN += d.sh->skipped_known; ncap += d.sh->capped;
            for (int k = 0; k < d.sh->nknown; k++) kn.insert(d.sh->known[k]);
            for (int k = 0; k < d.sh->nsamples && samples.size() < 8 && k < 1 + (U.size() < 4); k++) samples.push_back(d.sh->samples[k]);
            perunit += fmt("%s{\"unit\":\"%s\",\"cases\":%llu,\"states\":%llu,\"transitions\":%llu}", perunit.empty() ? "" : ",", jesc(U[d.u].name).c_str(), (unsigned long long)d.sh->idx, (unsigned long long)d.sh->states, (unsigned long long)d.sh->transitions);
            munmap(d.sh, sizeof(Shared));
        }
        if (stop && !run.empty()) { for (auto &c : run) { kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); } run.clear(); }
        if (!any) usleep(5000);
    }
    std::string js = "{";
    js += fmt("\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"outcomes\":%llu,\"units_total\":%zu,\"units_complete\":%zu,\"capped\":%d,\"known_hits\":%llu,", (unsigned long long)S, (unsigned long long)T, (unsigned long long)R, (unsigned long long)O, U.size(), ndone, ncap, (unsigned long long)KN);
    auto arr = [&](const char *n, const std::vector<std::string> &v, bool raw) { js += std::string("\"") + n + "\":["; for (size_t i = 0; i < v.size(); i++) { if (i) js += ","; js += raw ? v[i] : "\"" + jesc(v[i]) + "\""; } js += "],"; };
    arr("samples", samples, false); arr("violations", viol, true); arr("notes", notes, false);
    arr("known", std::vector<std::string>(kn.begin(), kn.end()), false);
    js += "\"per_unit\":[" + perunit + "]}";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 2; } fwrite(js.data(), 1, js.size(), f); fclose(f); }
    else printf("%s\n", js.c_str());
    return viol.empty() ? 0 : 1;
}
} // namespace vc

#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
namespace vc {
// live heap blocks (AddressSanitizer builds only)
static long heap_live = 0;
inline void heap_count_on() {
    static bool on = false; if (on) return; on = true;
    __sanitizer_install_malloc_and_free_hooks([](const volatile void *p, size_t) { if (p) heap_live++; }, [](const volatile void *p) { if (p) heap_live--; });
}
// Runs fn in a process of its own (cold library state). Violations inside are re-raised here.
inline void forked(Ctx &c, const std::function<void()> &fn, const char *what, unsigned cpu_s = 20) {
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl = {cpu_s, cpu_s + 1}; setrlimit(RLIMIT_CPU, &rl);
        int rc = 0; try { fn(); } catch (Violation &) { rc = 3; } fflush(nullptr); _exit(rc);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && c.sh->failed) throw Violation();
    c.fail("%s: process ended with %s %d (see stderr in the unit log)", what, WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
}
}
