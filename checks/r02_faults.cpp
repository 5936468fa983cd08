// R02: every placement of entropy faults, split reads and forks.
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
extern "C" {
#include <ecc/mpzurandom.h>
}
using vc::Ctx;
enum Kind { NONE, EIO1, EIOP, EOF1, EOFP, EINTR1, NOPEN }; static const char *KN[] = {"none", "one read error", "read errors from here on", "one end of file", "end of file from here on", "one interrupted read", "cannot be opened"};
enum Mode { FULL, HALVES, BYTES, SEVENS }; static const char *MN[] = {"whole reads", "halved reads", "single-byte reads", "7-byte reads"};
static const int NOPS = 6; static const char *ON[] = {"integer below 2^64-59", "integer below 2^521-1", "element mod 2^127-1", "point of secp112r1", "signature on secp112r1", "ciphertext on secp112r1"};
struct Entry { char v[600]; unsigned long served; int op, proc; };
struct Shm { volatile unsigned long pos, reads; int fault, mode; unsigned long at; volatile int n; Entry e[24]; volatile int faulted; };
static Shm *sm;
static unsigned char stream(unsigned long i) { uint64_t x = (i + 12345) * 0x9E3779B97F4A7C15ull; x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; return (x >> 32) | 1; }
static unsigned char next_byte() { return stream(sm->pos++); }
static long plan(size_t want, bool) {
    unsigned long i = sm->reads++; bool here = sm->fault != NONE && sm->fault != NOPEN && (i == sm->at || (i > sm->at && (sm->fault == EIOP || sm->fault == EOFP)));
    if (here) { sm->faulted = 1; switch (sm->fault) { case EIO1: case EIOP: return -1; case EINTR1: return -2; default: return 0; } }
    switch (sm->mode) { case FULL: return want; case HALVES: return want > 1 ? (want + 1) / 2 : want; case BYTES: return want ? 1 : 0; default: return std::min<size_t>(want, 7); }
}
static bool noopen() { return sm->fault != NOPEN; }
struct Kit { NamedCurve A{"secp112r1"}; Scheme S{A.cv, 14}; BigRef r = *golden("secp112r1"); };
static Kit *kit;
static std::string run(int op) {
    Kit &k = *kit; mpECurve_ptr cv = k.A.cv;
    auto pt = [&](mpECP_ptr q) { Z x, y; mpz_set_mpECP_affine_x(x.v, q); mpz_set_mpECP_affine_y(y.v, q); return x.str() + "," + y.str(); };
    switch (op) {
        case 0: { Z r, m = Z::pow2(64) - Z(59); mpz_urandom(r.v, m.v); return r.str(); }
        case 1: { Z r, m = Z::pow2(521) - Z(1); mpz_urandom(r.v, m.v); return r.str(); }
        case 2: { Fe f(Z(0), Z(5)); Z m = Z::pow2(127) - Z(1); mpFp_urandom(f.f, m.v); return f.get().str(); }
        case 3: { Pt P(cv); mpECP_urandom(P.q, cv); return pt(P.q); }
        case 4: { mpECDSASignature_t g; Fe d(Z(4711), k.r.n); unsigned char m[14] = {1, 2, 3}; if (mpECDSASignature_init_Sign(g, k.S.s, d.f, m, 14)) return "refused"; char *t = mpECDSASignature_export_str(g); std::string s = t; free(t); mpECDSASignature_clear(g); return s; }
        default: { mpECElgamalCiphertext_t x; Pt Q(cv), M(cv); set_pt(Q.q, k.r.G, cv); set_pt(M.q, k.r.G, cv); if (mpECElgamal_init_encrypt(x, Q.q, M.q)) return "refused"; std::string s = pt(x->C) + ";" + pt(x->D); mpECElgamal_clear(x); return s; }
    }
}
static void record(int op, int proc) { std::string v = run(op); if (v == "refused") return; int i = sm->n; snprintf(sm->e[i].v, sizeof sm->e[i].v, "%s", v.c_str()); sm->e[i].served = sm->pos; sm->e[i].op = op; sm->e[i].proc = proc; sm->n = i + 1; }
static void reset(int fault, int mode, unsigned long at) { sm->pos = sm->reads = 0; sm->fault = fault; sm->mode = mode; sm->at = at; sm->n = 0; sm->faulted = 0; }
// every operation at every stream position, in a process of its own that reads byte by byte
struct Table { std::map<std::string, int> at[NOPS]; unsigned need[NOPS]; };
static const int OFFS = 1700;
static Table &table() {
    static Table *T = nullptr; if (T) return *T; T = new Table(); struct Row { char v[600]; unsigned need; }; Row *R = (Row *)mmap(0, sizeof(Row) * NOPS * OFFS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork(); if (p == 0) { reset(NONE, BYTES, 0); for (int o = 0; o < NOPS; o++) for (int i = 0; i < OFFS; i++) { sm->pos = i; std::string v = run(o); snprintf(R[o * OFFS + i].v, 600, "%s", v.c_str()); R[o * OFFS + i].need = sm->pos - i; } _exit(0); }
    int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "fault-free run failed\n"); abort(); }
    for (int o = 0; o < NOPS; o++) { T->need[o] = R[o * OFFS].need; for (int i = 0; i < OFFS; i++) T->at[o][R[o * OFFS + i].v] = i; } munmap(R, sizeof(Row) * NOPS * OFFS); return *T;
}
static void start(Ctx &c) { if (!sm) sm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ent::byte_fn() = next_byte; ent::plan() = plan; ent::open_plan() = noopen; if (!kit) kit = new Kit(); Table &T = table(); for (int o = 0; o < NOPS; o++) if (T.need[o] * 8 < 64) c.fail("%s uses only %u entropy bytes", ON[o], T.need[o]); }
// values must be those of disjoint, fully fresh parts of the stream
static void judge(Ctx &c, const std::string &what) {
    Table &T = table(); std::vector<std::pair<int, int>> used;
    for (int i = 0; i < sm->n; i++) { Entry &e = sm->e[i]; auto it = T.at[e.op].find(e.v);
        if (it == T.at[e.op].end()) c.fail("%s: step %d (%s, process %d) produced %s, which is no value of fresh consecutive entropy", what.c_str(), i + 1, ON[e.op], e.proc, e.v);
        int a = it->second, b = a + T.need[e.op]; if (e.served < (unsigned long)b) c.fail("%s: step %d (%s) used bytes not yet delivered", what.c_str(), i + 1, ON[e.op]);
        for (size_t j = 0; j < used.size(); j++) if (a < used[j].second && used[j].first < b) c.fail("%s: step %d (%s, process %d) and step %zu (%s, process %d) use the same entropy bytes", what.c_str(), i + 1, ON[e.op], e.proc, j + 1, ON[sm->e[j].op], sm->e[j].proc);
        used.push_back({a, b}); c.outcome(vc::hash_str(e.v)); }
}
static bool stopped(int st) { return (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 99); }
static int in_child(const std::function<void()> &f) { fflush(0); pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); struct rlimit rl = {5, 6}; setrlimit(RLIMIT_CPU, &rl); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); f(); _exit(0); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st; }
static std::string ops(const std::vector<int> &v) { std::string s; for (int o : v) s += std::string(s.empty() ? "" : ", ") + ON[o]; return s; }
static void faults(Ctx &c, int a, int mode, bool th) {
    start(c); std::vector<std::vector<int>> seqs = {{a}}; for (int b = 0; b < NOPS; b++) { seqs.push_back({a, b}); if (th) for (int d = 0; d < NOPS; d++) seqs.push_back({a, b, d}); }
    for (auto &s : seqs) {
        unsigned long reads = 0; { if (!c.next() && !c.replaying()) continue; reset(NONE, mode, 0); int st = in_child([&]() { for (int o : s) record(o, 0); }); c.trans(s.size()); if (!WIFEXITED(st) || WEXITSTATUS(st) || sm->n != (int)s.size()) c.fail("%s: %s without any fault: the process ended early", ops(s).c_str(), MN[mode]); judge(c, ops(s) + " (" + MN[mode] + ", no fault)"); reads = sm->reads; c.trace(); c.state(c.cur + a * 100000 + mode * 1000000); }
        for (int k = EIO1; k <= NOPEN; k++) for (unsigned long at = 0; at < (k == NOPEN ? 1 : reads); at++) {
            if (!th && s.size() > 1 && mode == BYTES && at > 8 && at + 8 < reads && at % 13) continue; if (!c.next()) continue;
            reset(k, mode, at); int st = in_child([&]() { for (int o : s) record(o, 0); }); c.trans(sm->n + 1); c.trace(); c.state(vc::hash_str(vc::fmt("%d %d %lu ", k, mode, at) + ops(s)));
            std::string what = ops(s) + vc::fmt(" (%s, %s at read %lu)", MN[mode], KN[k], at + 1);
            bool done = WIFEXITED(st) && WEXITSTATUS(st) == 0; if (!done && !stopped(st)) c.fail("%s: the process ended abnormally (%s %d)", what.c_str(), WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            if (k == NOPEN && sm->pos == 0 && sm->n) c.fail("%s: values were produced without any entropy", what.c_str());
            judge(c, what); c.outcome(sm->n * 10 + k + 1000000);
            if (c.cur % 37 == 0) c.sample("%s: %d of %zu steps completed, then %s", what.c_str(), sm->n, s.size(), done ? "the end" : "the process stopped");
        }
    }
}
// process trees: before the fork, then the child, then the parent (or the other way round), optionally a grandchild
static void forks(Ctx &c, int a, int mode, bool th) {
    start(c);
    for (int pre = 0; pre <= 2; pre++) for (int b = 0; b < NOPS; b++) for (int d = 0; d < NOPS; d++) for (int shape = 0; shape < 4; shape++) {
        if (!th && mode != FULL && (b + d + pre) % 2) continue; if (pre == 0 && a) continue; if (!c.next()) continue; reset(NONE, mode, 0);
        int st = in_child([&]() {
            for (int i = 0; i < pre; i++) record((a + i * 2) % NOPS, 0);
            auto child = [&](int proc, int x, int y) { pid_t p = fork(); if (p == 0) { record(x, proc); record(y, proc); if (shape == 2 && proc == 1) { pid_t q = fork(); if (q == 0) { record(x, 3); _exit(0); } int s; waitpid(q, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) _exit(90); record(y, 1); } _exit(0); } return p; };
            auto reap = [](pid_t p) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) _exit(90); };
            if (shape == 1) { int pp[2]; if (pipe(pp)) _exit(91); pid_t p = fork(); if (p == 0) { char t; if (read(pp[0], &t, 1) != 1) _exit(91); record(b, 1); record(d, 1); _exit(0); } record(b, 0); record(d, 0); if (write(pp[1], "x", 1) != 1) _exit(91); reap(p); }
            else { reap(child(1, b, d)); if (shape == 3) reap(child(2, d, b)); record(b, 0); record(d, 0); }
        });
        std::string what = vc::fmt("%d draw(s), fork, %s and %s in each process, shape %d, %s", pre, ON[b], ON[d], shape, MN[mode]); c.trans(sm->n); c.trace(); c.state(vc::hash_str(what) + a);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("%s: a process ended abnormally", what.c_str()); judge(c, what); if (c.cur % 29 == 0) c.sample("%s: %d values, all from different bytes", what.c_str(), (int)sm->n);
    }
}
// long histories: hundreds of draws, then a fork and as many again in both processes
static const int LDRAWS = 900, LOPS = 3;
struct LEntry { char v[140]; unsigned long served; int op, proc; };
static void longrun(Ctx &c, int mode, bool th) {
    start(c); Table &T = table(); const int D = th ? LDRAWS * 4 : LDRAWS; const unsigned long W = (unsigned long)D * 3 * T.need[1];
    struct Row { char v[140]; }; std::map<std::string, long> at[LOPS];
    for (int o = 0; o < LOPS; o++) { Row *R = (Row *)mmap(0, sizeof(Row) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        int st = in_child([&]() { struct rlimit rl = {120, 120}; setrlimit(RLIMIT_CPU, &rl); reset(NONE, FULL, 0); for (unsigned long i = 0; i < W; i++) { sm->pos = i; snprintf(R[i].v, sizeof R[i].v, "%s", run(o).substr(0, 139).c_str()); } }); if (st) c.fail("%lu fault-free draws of %s in one process: the process ended early", W, ON[o]);
        for (unsigned long i = 0; i < W; i++) at[o][R[i].v] = i; munmap(R, sizeof(Row) * W); }
    volatile int *n = (volatile int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); LEntry *E = (LEntry *)mmap(0, sizeof(LEntry) * D * 3, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int pat = 0; pat < 7; pat++) for (int cut = 0; cut < 3; cut++) { if (!c.next()) continue; *n = 0; reset(NONE, mode, 0);
        auto draws = [&](int k, int proc) { for (int i = 0; i < k; i++) { int o = pat < 3 ? pat : pat == 3 ? i % 3 : pat == 4 ? (i / 7) % 3 : pat == 5 ? (i * i) % 3 : (i / 100) % 2; std::string v = run(o); LEntry &e = E[*n]; snprintf(e.v, sizeof e.v, "%s", v.substr(0, 139).c_str()); e.served = sm->pos; e.op = o; e.proc = proc; (*n)++; } };
        int first = cut == 0 ? D : cut == 1 ? D / 2 : D - 113;
        int st = in_child([&]() { struct rlimit rl = {120, 120}; setrlimit(RLIMIT_CPU, &rl); draws(first, 0); if (cut) { pid_t p = fork(); if (p == 0) { draws(D - first + 1, 1); _exit(0); } int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) _exit(90); } draws(D - first, 0); });
        std::string what = vc::fmt("a history of %d draws (pattern %d, %s%s)", *n, pat, MN[mode], cut ? vc::fmt(", fork after %d", first).c_str() : ""); if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("%s: a process ended abnormally", what.c_str());
        std::map<long, int> used; for (int i = 0; i < *n; i++) { LEntry &e = E[i]; auto it = at[e.op].find(e.v); if (it == at[e.op].end()) c.fail("%s: draw %d (%s, process %d) produced %s, which is no value of fresh consecutive entropy", what.c_str(), i + 1, ON[e.op], e.proc, e.v);
            long a = it->second, b = a + T.need[e.op]; if ((long)e.served < b) c.fail("%s: draw %d used bytes not yet delivered", what.c_str(), i + 1); auto u = used.lower_bound(a); if (u != used.end() && u->first < b) c.fail("%s: draws %d and %d use the same entropy bytes", what.c_str(), u->second + 1, i + 1); if (u != used.begin()) { --u; if (u->first + (long)T.need[E[u->second].op] > a) c.fail("%s: draws %d and %d use the same entropy bytes", what.c_str(), u->second + 1, i + 1); } used[a] = i; }
        c.trans(*n); c.trace(); c.state(vc::hash_str(what)); c.outcome(sm->pos * 3 + pat); c.sample("%s: all from different bytes (%lu delivered)", what.c_str(), sm->pos); }
    munmap((void *)n, 4096); munmap(E, sizeof(LEntry) * D * 3);
}
// the real device: processes never agree
static void real(Ctx &c) {
    if (!sm) sm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ent::passthrough() = true; kit = new Kit();
    for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) for (int pre = 0; pre < 2; pre++) { if (!c.next()) continue; reset(NONE, FULL, 0);
        int st = in_child([&]() { if (pre) record(a, 0); for (int ch = 1; ch < 4; ch++) { pid_t p = fork(); if (p == 0) { record(b, ch); record(b, ch); _exit(0); } int s; waitpid(p, &s, 0); if (s) _exit(90); } record(b, 0); });
        if (st) c.fail("with the real device: a process ended abnormally"); for (int i = 0; i < sm->n; i++) for (int j = 0; j < i; j++) if (!strcmp(sm->e[i].v, sm->e[j].v)) c.fail("with the real device, %s, process %d and process %d draw the same %s", pre ? "fork after first use" : "fork before first use", sm->e[i].proc, sm->e[j].proc, ON[sm->e[i].op]);
        c.trans(sm->n); c.trace(); c.state(c.cur + 99999999); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    for (int m : {FULL, HALVES, BYTES, SEVENS}) for (int a = 0; a < NOPS; a++) { vc::unit(vc::fmt("faults, first %s, %s", ON[a], MN[m]), [=](Ctx &c) { faults(c, a, m, th); }, 60); vc::unit(vc::fmt("forks, first %s, %s", ON[a], MN[m]), [=](Ctx &c) { forks(c, a, m, th); }, 60); }
    for (int m : {FULL, HALVES, BYTES, SEVENS}) vc::unit(vc::fmt("long histories, %s", MN[m]), [=](Ctx &c) { longrun(c, m, th); }, 120);
    vc::unit("the real device", real);
    return vc::main_(argc, argv);
}
