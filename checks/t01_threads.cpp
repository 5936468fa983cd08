// T01: all interleavings, up to a preemption bound, of threads that use the library on objects of their own or
// read a shared curve, from a cold library.  See tsched.hpp for the scheduler and the race monitor.
#include "tsched.hpp"
#include "gmpwrap.cpp" // generated from gmp.h
#include "entropy.hpp"
#include "guard.hpp"
#include "curves.hpp"
#include "ecdsa_ref.hpp"
extern "C" {
#include <ecc/mpzurandom.h>
}
using vc::Ctx;
extern "C" {
size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fgetc(FILE *); int __real_getc(FILE *); int __real_fclose(FILE *); int __real_setvbuf(FILE *, char *, int, size_t);
// stdio streams carry a lock of their own
struct StreamLock { void *m; StreamLock(FILE *f) : m(ts::on() ? (char *)f + 1 : nullptr) { if (m) ts_lock(m); } ~StreamLock() { if (m) ts_unlock(m); } };
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) { StreamLock l(f); size_t k = __real_fread(p, a, b, f); if (k && ts::on()) { ts::In g; ts::access(p, a * k, true, PC); } return k; }
int __wrap_fgetc(FILE *f) { StreamLock l(f); return __real_fgetc(f); }
int __wrap_getc(FILE *f) { StreamLock l(f); return __real_getc(f); }
int __wrap_fclose(FILE *f) { if (ts::on()) { StreamLock l(f); } return __real_fclose(f); }
}
// each thread draws from a tape of its own, so its results are those it gets alone
static unsigned long drawn[ts::MAXT + 1];
static unsigned char next_byte() { int t = ts::self < 0 ? ts::MAXT : ts::self; uint64_t x = (++drawn[t] + 1000003ull * (t + 1)) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x >> 56; }
static long plan(size_t n, bool stdio) { if (!stdio && ts::on()) { ts::In g; ts::point(); } return (long)n; }
static bool open_plan() { if (ts::on()) { ts::In g; ts::point(); } return true; }

struct Shared { RefCurve r[4]; mpECurve_t cv[4]; bool have[4] = {false, false, false, false}; std::string s[ts::MAXT]; mpFp_t keep[ts::MAXT]; bool kept[ts::MAXT] = {0}; mpECP_t pt[ts::MAXT]; bool ptk[ts::MAXT] = {0}; Z ptn; };
static Shared *W;
typedef std::function<std::string(int)> Prog;
static std::string num(mpFp_ptr f) { Z z; mpz_set_mpFp(z.v, f); return z.str() + " "; }
static std::string num(mpECP_ptr P) { Z x; mpz_set_mpECP_affine_x(x.v, P); std::string s = x.str(); mpz_set_mpECP_affine_y(x.v, P); return s + "," + x.str() + " "; }
static const char *MERS = "0x7fffffffffffffffffffffffffffffff";
static Z prime(int k) { return k == 0 ? Z(10007) : k == 1 ? Z::s(MERS) : Z::pow2(521) - Z(1); }
// programs; each returns everything it observed
static Prog field(int k, bool keep = false) { return [=](int t) { Z p = prime(k); mpFp_t a, b; mpFp_init(a, p.v); mpFp_init(b, p.v); Z v = p - Z(5 + t); mpFp_set_mpz(a, v.v, p.v); mpFp_set_ui(b, 77, p.v); mpFp_mul(b, a, b); std::string s = num(b); mpFp_inv(b, b); s += num(b); mpFp_sqr(b, b); s += mpFp_sqrt(b, b) ? "no root " : "root "; s += num(b); mpFp_clear(b); if (keep) { W->keep[t][0] = a[0]; W->kept[t] = true; } else mpFp_clear(a); return s; }; }
static Prog two_fields(int k, int l) { return [=](int t) { std::string s; int o[] = {k, l, k}; for (int q : o) { Z p = prime(q); mpFp_t a; mpFp_init(a, p.v); mpFp_set_ui(a, 1234567 + t, p.v); mpFp_sub_ui(a, a, 99999999); s += num(a); mpFp_clear(a); } return s; }; }
static Prog handle(int k) { return [=](int t) { Z p = prime(k); mpFp_field_ptr f = _mpFp_field_lookup(p.v); mpFp_t a; mpFp_init_fp(a, f); mpFp_set_ui_fp(a, 3, f); mpFp_pow_ui(a, a, 1000 + t); std::string s = num(a); W->keep[t][0] = a[0]; W->kept[t] = true; return s; }; }
static Prog fieldrandom(int k) { return [=](int) { Z p = prime(k); mpFp_t a; mpFp_init(a, p.v); mpFp_urandom(a, p.v); std::string s = num(a); mpFp_urandom(a, p.v); s += num(a); mpFp_clear(a); return s; }; }
static Prog random(int times) { return [=](int) { std::string s; Z m = Z::pow2(100), v; for (int i = 0; i < times; i++) { mpz_urandom(v.v, m.v); s += v.str() + " "; } return s; }; }
static Prog points(int f, bool keep = false) { return [=](int t) {
    mpECurve_ptr cv = W->cv[f]; const RefCurve &r = W->r[f]; mpECP_t P, Q; mpECP_init(P, cv); mpECP_init(Q, cv); std::string s; mpECP_set_mpz(P, (mpz_ptr)Z(r.pts[r.gen].x).v, (mpz_ptr)Z(r.pts[r.gen].y).v, cv); Z k(2 + t);
    mpECP_scalar_mul_mpz(Q, P, k.v); s += num(Q); mpECP_add(Q, Q, P); s += num(Q); mpECP_double(Q, Q); mpECP_neg(Q, Q); mpECP_sub(Q, Q, P); char b[80]; mpECP_out_str(b, Q, 1); s += b; s += mpECP_set_str(P, b, cv) ? " bad" : " ok"; s += mpECP_cmp(P, Q) ? " differ" : " same";
    mpECP_clear(P); if (keep) { W->pt[t][0] = Q[0]; W->ptk[t] = true; } else mpECP_clear(Q); return s; }; }
static Prog table(int f) { return [=](int t) { mpECurve_ptr cv = W->cv[f]; const RefCurve &r = W->r[f]; mpECP_t P, Q; mpECP_init(P, cv); mpECP_init(Q, cv); mpECP_set_mpz(P, (mpz_ptr)Z(r.pts[r.gen].x).v, (mpz_ptr)Z(r.pts[r.gen].y).v, cv); mpECP_scalar_base_mul_setup(P); Z k(3 + t); mpECP_scalar_base_mul_mpz(Q, P, k.v); std::string s = num(Q); mpECP_clear(P); mpECP_clear(Q); return s; }; }
static Prog pointrandom(int f) { return [=](int) { mpECurve_ptr cv = W->cv[f]; mpECP_t P; mpECP_init(P, cv); mpECP_urandom(P, cv); char b[80]; mpECP_out_str(b, P, 0); std::string s = b; mpECP_clear(P); return s; }; }
static Prog sign(int f) { return [=](int t) {
    mpECurve_ptr cv = W->cv[f]; const RefCurve &r = W->r[f]; std::string s; Scheme S(cv, 4); Z n(r.n); mpFp_t d; mpFp_init(d, n.v); mpFp_set_ui(d, 2 + t, n.v); unsigned char m[4] = {1, 2, 3, (unsigned char)t}; mpECDSASignature_t g; int e = mpECDSASignature_init_Sign(g, S.s, d, m, 4); s += vc::fmt("sign %d ", e);
    if (!e) { char *x = mpECDSASignature_export_str(g); s += x; mpECDSASignature_t g2; if (!mpECDSASignature_init_import_str(g2, S.s, x)) { mpECP_t Q; mpECP_init(Q, cv); mpECP_set_mpz(Q, (mpz_ptr)Z(r.pts[r.gen].x).v, (mpz_ptr)Z(r.pts[r.gen].y).v, cv); mpECP_scalar_mul(Q, Q, d); s += vc::fmt(" verify %d", mpECDSASignature_verify_cmp(g2, Q, m, 4)); mpECP_clear(Q); mpECDSASignature_clear(g2); } else s += " not imported"; free(x); mpECDSASignature_clear(g); }
    mpFp_clear(d); return s; }; }
static Prog elgamal(int f) { return [=](int t) { mpECurve_ptr cv = W->cv[f]; const RefCurve &r = W->r[f]; Z n(r.n), k(2 + t); mpFp_t d; mpFp_init(d, n.v); mpFp_set_ui(d, 2 + t, n.v); mpECP_t G, Q, R; mpECP_init(G, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, (mpz_ptr)Z(r.pts[r.gen].x).v, (mpz_ptr)Z(r.pts[r.gen].y).v, cv); mpECP_scalar_mul(Q, G, d);
    mpECElgamalCiphertext_t ct; std::string s = vc::fmt("%d ", mpECElgamal_init_encrypt(ct, Q, G)); s += vc::fmt("%d ", mpECElgamal_init_decrypt(R, d, ct)); s += num(R); mpECP_clear(R); mpECElgamal_clear(ct); mpECP_clear(G); mpECP_clear(Q); mpFp_clear(d); return s; }; }
static Prog define(int f) { return [=](int) { const RefCurve &r = W->r[f]; mpECurve_t own, cp; mpECurve_init(own); mpECurve_init(cp); int e = LibCurve::define(own, r.form, Z(r.p), Z(r.a), Z(r.b), Z(r.n), Z(r.h), Z(r.pts[r.gen].x), Z(r.pts[r.gen].y), r.bits()); mpECurve_set(cp, W->cv[f]); std::string s = vc::fmt("%d %d %d %d", e, mpECurve_cmp(own, W->cv[f]), mpECurve_cmp(cp, own), mpECurve_point_check(cp, (mpz_ptr)Z(r.pts[r.gen].x).v, (mpz_ptr)Z(r.pts[r.gen].y).v)); mpECurve_clear(own); mpECurve_clear(cp); return s; }; }
static Prog named(const char *n) { return [=](int) { mpECurve_t own; mpECurve_init(own); int e = mpECurve_set_named(own, (char *)n); std::string s = vc::fmt("%d %u ", e, own->bits) + Z::from(own->fp->p).str() + " " + Z::from(own->n).str(); char **l = _mpECurve_list_standard_curves(); int k = 0; for (char **q = l; *q; q++) { s += **q; free(*q); k++; } free(l); s += vc::fmt(" %d", k); mpECurve_clear(own); return s; }; }

struct Scenario { std::string name; int curves; std::vector<Prog> p; int pb; };
static void prepare(const Scenario &s) {
    W = new Shared; memset(drawn, 0, sizeof drawn); ent::byte_fn() = next_byte; ent::plan() = plan; ent::open_plan() = open_plan;
    for (int f = 0; f < 4; f++) if (s.curves >> f & 1) { W->r[f] = nice((Form)f, f == MO ? 23 : 19, 5); mpECurve_init(W->cv[f]); if (LibCurve::define(W->cv[f], (Form)f, Z(W->r[f].p), Z(W->r[f].a), Z(W->r[f].b), Z(W->r[f].n), Z(W->r[f].h), Z(W->r[f].pts[W->r[f].gen].x), Z(W->r[f].pts[W->r[f].gen].y), W->r[f].bits())) { fprintf(stderr, "curve refused\n"); abort(); } W->have[f] = true; }
}
// what the threads left behind works together
static std::string afterwards(const Scenario &s) {
    for (int i = 0; i < (int)s.p.size(); i++) for (int j = 0; j < (int)s.p.size(); j++) {
        if (W->kept[i] && W->kept[j] && !mpz_cmp(W->keep[i]->fp->p, W->keep[j]->fp->p)) {
            Z p = Z::from(W->keep[i]->fp->p), a, b; mpz_set_mpFp(a.v, W->keep[i]); mpz_set_mpFp(b.v, W->keep[j]); if (W->keep[i]->fp != W->keep[j]->fp) return vc::fmt("threads %d and %d hold elements of one field under two handles", i, j);
            mpFp_t t; mpFp_init(t, p.v); mpFp_add(t, W->keep[i], W->keep[j]); Z g; mpz_set_mpFp(g.v, t); mpFp_clear(t); if (g != (a + b).mod(p)) return "elements made by two threads add up wrongly";
        }
        if (W->ptk[i] && W->ptk[j]) { mpECP_t t; mpECP_init(t, W->pt[i]->cvp); mpECP_add(t, W->pt[i], W->pt[j]); mpECP_sub(t, t, W->pt[j]); int e = mpECP_cmp(t, W->pt[i]); mpECP_clear(t); if (e) return "points made by two threads add up wrongly"; }
    }
    for (int i = 0; i < (int)s.p.size(); i++) { if (W->kept[i]) mpFp_clear(W->keep[i]); if (W->ptk[i]) mpECP_clear(W->pt[i]); }
    for (int f = 0; f < 4; f++) if (W->have[f]) { const RefCurve &r = W->r[f]; mpECurve_t own; mpECurve_init(own); LibCurve::define(own, r.form, Z(r.p), Z(r.a), Z(r.b), Z(r.n), Z(r.h), Z(r.pts[r.gen].x), Z(r.pts[r.gen].y), r.bits()); int e = mpECurve_cmp(own, W->cv[f]); mpECurve_clear(own); if (e) return "the shared curve was modified"; mpECurve_clear(W->cv[f]); }
    Z m = Z::pow2(64), v; mpz_urandom(v.v, m.v); mpFp_t t; Z p = prime(0); mpFp_init(t, p.v); mpFp_set_ui(t, 5, p.v); mpFp_mul_ui(t, t, 5); int e = mpFp_cmp_ui(t, 25); mpFp_clear(t); if (e) return "the library does not work afterwards";
    return "";
}
static void run(const Scenario &s, ts::Trace *tr, const std::vector<uint8_t> &prefix, int only) {
    prepare(s);
    if (only >= 0) { ts::self = only; drawn[only] = 0; std::string r = s.p[only](only); ts::self = -1; strncpy(tr->alone[only], r.c_str(), sizeof tr->alone[0] - 1); _exit(0); }
    ts::execute(tr, s.p, prefix); ts::RT &r = ts::rt();
    for (size_t i = 0; i < s.p.size(); i++) if (r.res[i].substr(0, sizeof tr->res[0] - 1) != tr->alone[i]) ts::stop(ts::WRONG, vc::fmt("thread %zu got \"%s\", alone it gets \"%s\"", i, r.res[i].c_str(), tr->alone[i]));
    std::string e = afterwards(s); if (!e.empty()) ts::stop(ts::WRONG, e);
    exit(0); // with the library's own clean-up
}
static int in_child(const Scenario &s, ts::Trace *tr, const std::vector<uint8_t> &prefix, int only, int &sig) {
    fflush(nullptr); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
    if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); struct rlimit rl = {20, 21}; setrlimit(RLIMIT_CPU, &rl); run(s, tr, prefix, only); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static void explore(Ctx &c, const Scenario &s) {
    ts::Trace *tr = (ts::Trace *)mmap(nullptr, sizeof(ts::Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(tr, 0, sizeof *tr); int sig;
    c.sh->idx = 1; for (size_t i = 0; i < s.p.size(); i++) if (in_child(s, tr, {}, i, sig)) c.fail("thread program %zu of \"%s\" fails even alone (signal %d)", i, s.name.c_str(), sig);
    std::vector<uint8_t> prefix; bool first = true;
    for (;;) {
        bool mine = c.next(); tr->nd = 0; tr->status = 0; tr->syncs = 0; tr->accesses = 0; tr->msg[0] = 0;
        int rc = in_child(s, tr, prefix, -1, sig); int nd = tr->nd;
        std::string sched; int pre = 0; for (int k = 0; k < nd; k++) { auto &d = tr->d[k]; if (d.choice && sched.size() < 500) sched += vc::fmt("%s#%d->T%d", sched.empty() ? "" : " ", k, d.opt[d.choice]); if (d.choice && d.cur_enabled) pre++; }
        if (mine) {
            if (rc != 0) c.fail("%s: %s (schedule: %d decisions, switches %s)", s.name.c_str(), tr->msg[0] ? tr->msg : vc::fmt("the process ended with %s %d", sig ? "signal" : "exit status", sig ? sig : rc).c_str(), nd, sched.empty() ? "none" : sched.c_str());
            c.state(vc::hash_bytes(prefix.data(), prefix.size(), vc::hash_str(s.name) | 1)); c.trans(tr->syncs + 1); c.trace(); c.outcome(vc::hash_str(s.name) + nd);
            if (first) { c.sample("%s: %d scheduling decisions, %lu checked accesses; thread 0 observes %s", s.name.c_str(), nd, (unsigned long)tr->accesses, tr->alone[0]); first = false; }
        }
        // next schedule: the deepest decision with an untried option inside the preemption bound
        std::vector<int> used(nd + 1, 0); for (int k = 0; k < nd; k++) used[k + 1] = used[k] + (tr->d[k].choice && tr->d[k].cur_enabled);
        int k = nd - 1; for (; k >= 0; k--) { auto &d = tr->d[k]; if (d.choice + 1 < d.n && (!d.cur_enabled || used[k] + 1 <= s.pb)) break; }
        if (k < 0) break;
        std::vector<uint8_t> np; for (int j = 0; j < k; j++) np.push_back(tr->d[j].choice); np.push_back(tr->d[k].choice + 1); prefix = np;
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    std::vector<Scenario> S; int B = th ? 4 : 3, L = th ? 2 : 1; // light and heavy programs
    struct NP { std::string n; Prog p; int curves; bool heavy; };
    std::vector<NP> A = {{"first use of field A", field(0, true), 0, false}, {"first use of field B", field(1), 0, false}, {"fields A, B, A", two_fields(0, 1), 0, false}, {"fields B, A, B", two_fields(1, 0), 0, false}, {"handle of field A", handle(0), 0, false}, {"random elements of A", fieldrandom(0), 0, false}, {"two random numbers", random(2), 0, false},
        {"points of a shared Weierstrass curve", points(0, true), 1, false}, {"points of a shared Edwards curve", points(1), 2, false}, {"points of a shared Montgomery curve", points(2), 4, false}, {"points of a shared twisted Edwards curve", points(3), 8, false},
        {"table on a shared Weierstrass curve", table(0), 1, false}, {"random point of a shared Weierstrass curve", pointrandom(0), 1, false}, {"signing on a shared Weierstrass curve", sign(0), 1, true}, {"signing on a shared twisted Edwards curve", sign(3), 8, true}, {"ElGamal on a shared Weierstrass curve", elgamal(0), 1, true}, {"ElGamal on a shared Montgomery curve", elgamal(2), 4, true},
        {"defining and copying a Weierstrass curve", define(0), 1, true}, {"defining and copying an Edwards curve", define(1), 2, true}, {"defining and copying a Montgomery curve", define(2), 4, true}, {"defining and copying a twisted Edwards curve", define(3), 8, true}, {"named curve secp112r1", named("secp112r1"), 0, true}, {"named curve M-221", named("M-221"), 0, true}};
    for (size_t i = 0; i < A.size(); i++) for (size_t j = i; j < A.size(); j++) { bool hv = A[i].heavy || A[j].heavy; S.push_back({A[i].n + " | " + A[j].n, A[i].curves | A[j].curves, {A[i].p, A[j].p}, hv ? L : B}); }
    size_t tr[][3] = {{0, 0, 0}, {0, 1, 0}, {2, 3, 0}, {4, 4, 4}, {6, 6, 6}, {5, 5, 6}, {2, 3, 6}, {7, 7, 6}, {7, 17, 12}, {0, 5, 12}};
    for (auto &t : tr) S.push_back({A[t[0]].n + " | " + A[t[1]].n + " | " + A[t[2]].n, A[t[0]].curves | A[t[1]].curves | A[t[2]].curves, {A[t[0]].p, A[t[1]].p, A[t[2]].p}, (A[t[0]].heavy || A[t[1]].heavy || A[t[2]].heavy) ? L : B - 1});
    for (auto &s : S) vc::unit(s.name + vc::fmt(", %d preemptions", s.pb), [s](Ctx &c) { explore(c, s); }, 60);
    return vc::main_(argc, argv);
}
