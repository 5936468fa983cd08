// P01: one sequence of steps for every secret scalar.  The library is compiled with callbacks at function entry,
// exit and every basic block.  A call of a public operation is one event (its inside is not looked at); everything
// between such calls is recorded block by block.  Traces are compared between scalars, never with a fixed form.
#define NI __attribute__((no_instrument_function))
#include "vc.hpp"
#include "curves.hpp"
#include "bigref.hpp"
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
#include <dlfcn.h>
extern "C" {
#include <ecc/field.h>
#include <ecc/ecdsa.h>
#include <ecc/ecelgamal.h>
#include <ecc/mpzurandom.h>
}
using vc::Ctx;
namespace tr {
struct Op { void *f; const char *n; };
#define O_(x) {(void *)x, #x}
static const Op OPS[] = {O_(_mpFp_field_lookup), O_(mpFp_swap), O_(mpFp_cswap), O_(mpFp_init), O_(mpFp_init_fp), O_(mpFp_clear), O_(mpFp_set), O_(mpFp_set_mpz), O_(mpFp_set_mpz_fp), O_(mpFp_set_ui), O_(mpFp_set_ui_fp), O_(mpz_set_mpFp), O_(mpFp_add), O_(mpFp_add_ui), O_(mpFp_sub), O_(mpFp_sub_ui), O_(mpFp_mul), O_(mpFp_mul_ui), O_(mpFp_sqr), O_(mpFp_pow_mpz), O_(mpFp_pow_ui), O_(mpFp_neg), O_(mpFp_inv), O_(mpFp_cmp), O_(mpFp_cmp_ui), O_(mpFp_cmp_mpz), O_(mpFp_sqrt), O_(mpFp_tstbit), O_(mpFp_urandom), O_(mpz_urandom),
    O_(mpECP_init), O_(mpECP_clear), O_(mpECP_set), O_(mpECP_set_mpz), O_(mpECP_set_mpFp), O_(mpECP_set_neutral), O_(mpFp_set_mpECP_affine_x), O_(mpFp_set_mpECP_affine_y), O_(mpz_set_mpECP_affine_x), O_(mpz_set_mpECP_affine_y), O_(mpECP_swap), O_(mpECP_add), O_(mpECP_double), O_(mpECP_sub), O_(mpECP_neg), O_(mpECP_cmp), O_(mpECP_scalar_base_mul_setup), O_(mpECP_urandom), O_(mpECurve_cmp), O_(mpECurve_set), O_(mpECurve_point_check)};
static const int NOPS = sizeof OPS / sizeof *OPS;
static std::map<void *, int> *ix; static bool open_cswap = false; // look inside the exchange of field elements
static bool active = false; static int depth = 0; static std::vector<uintptr_t> ev; static unsigned long adds;
NI static int id(void *f) { auto i = ix->find(f); if (i == ix->end()) return -1; if (open_cswap && f == (void *)mpFp_cswap) return -1; return i->second; }
NI static void start() { if (!ix) { ix = new std::map<void *, int>; for (int i = 0; i < NOPS; i++) (*ix)[OPS[i].f] = i; } ev.clear(); depth = 0; adds = 0; active = true; }
NI static std::vector<uintptr_t> stop() { active = false; return ev; }
NI static std::string show(uintptr_t e) { if (e < 1000) return std::string("a call of ") + OPS[e].n; Dl_info d; if (dladdr((void *)e, &d) && d.dli_sname) return vc::fmt("a step inside %s+%lu", d.dli_sname, (unsigned long)(e - (uintptr_t)d.dli_saddr)); return "a step of the library"; }
}
extern "C" {
NI void __cyg_profile_func_enter(void *f, void *) { if (!tr::active) return; int i = tr::id(f); if (i < 0) return; if (tr::depth++ == 0) { tr::ev.push_back(i); tr::adds++; } }
NI void __cyg_profile_func_exit(void *f, void *) { if (!tr::active) return; if (tr::id(f) >= 0 && tr::depth > 0) tr::depth--; }
NI void __sanitizer_cov_trace_pc() { if (tr::active && !tr::depth) tr::ev.push_back((uintptr_t)__builtin_return_address(0)); }
}
typedef std::vector<uintptr_t> Tr;
// all traces of one configuration must be equal to the first
struct Same { Tr t; std::string first; bool have = false;
    void add(Ctx &c, const Tr &x, const std::string &what, const std::string &cfg) {
        c.trans(x.size()); c.trace(); uint64_t h = vc::hash_bytes(x.data(), x.size() * sizeof x[0]);
        if (x.empty()) { fprintf(stderr, "nothing was recorded\n"); abort(); }
        if (!have) { t = x; first = what; have = true; c.outcome(h); return; }
        c.outcome(h); if (x == t) return; size_t i = 0; while (i < x.size() && i < t.size() && x[i] == t[i]) i++; size_t ops = 0; for (size_t k = 0; k < i; k++) if (x[k] < 1000) ops++;
        c.fail("%s: %s takes other steps than %s: after %zu operations %s instead of %s", cfg.c_str(), what.c_str(), first.c_str(), ops, i < x.size() ? tr::show(x[i]).c_str() : "the end", i < t.size() ? tr::show(t[i]).c_str() : "the end"); }
};
static void reset(mpECP_ptr q) { mpECP_t t; mpECP_init(t, q->cvp); mpECP_set(t, q); mpECP_set_neutral(q, q->cvp); mpECP_set(q, t); mpECP_clear(t); }
// one multiplication by each path: 0 element, 1 integer, 2 table/element, 3 table/integer; 4, 5: the table is set up on the way
static Tr run(int path, mpECP_ptr r, mpECP_ptr q, const Z &k, const Z &n) {
    if (path >= 4 && q->base_bits) { mpECP_t t; mpECP_init(t, q->cvp); mpECP_add(t, q, q); mpECP_sub(q, t, q); mpECP_clear(t); }
    if ((path == 2 || path == 3) && !q->base_bits) mpECP_scalar_base_mul_setup(q);
    Z kk = path == 1 || path == 3 || path == 5 ? k : k.mod(n); Fe s(k.mod(n), n); tr::start();
    switch (path) { case 0: mpECP_scalar_mul(r, q, s.f); break; case 1: mpECP_scalar_mul_mpz(r, q, kk.v); break; case 2: case 4: mpECP_scalar_base_mul(r, q, s.f); break; default: mpECP_scalar_base_mul_mpz(r, q, kk.v); }
    return tr::stop();
}
static const char *PATH[] = {"element", "integer", "table, element", "table, integer", "new table, element", "new table, integer"};
static void mult(Ctx &c, mpECurve_ptr cv, mpECP_ptr P, const std::string &pname, const Z &n, const std::vector<Z> &ks, int np) {
    for (int path = 0; path < np; path++) { if (!c.next()) continue; Same s; Pt Q(cv), R(cv); for (int scaled = 0; scaled < 2; scaled++) { mpECP_set(Q.q, P); if (scaled) { Pt t(cv); mpECP_add(t.q, Q.q, Q.q); mpECP_sub(Q.q, t.q, Q.q); }
        Same *S = &s; if (scaled) { s = Same(); }
        for (auto &k : ks) { mpECP_t q; mpECP_init(q, cv); if (path >= 4) mpECP_set(q, P); else mpECP_set(q, Q.q); Tr t = run(path, R.q, path >= 4 ? q : Q.q, k, n); mpECP_clear(q); S->add(c, t, "the scalar " + k.str(), vc::fmt("%s, %s", pname.c_str(), PATH[path])); c.state(vc::hash_str(pname + PATH[path] + k.str()) + scaled); } if (path >= 4) break; } 
        if (c.want_sample() && path == 0) c.sample("%s: %zu recorded steps for each of %zu scalars", pname.c_str(), s.t.size(), ks.size()); }
}
static void small(Ctx &c, Form f, long p, bool th) {
    int done = 0; for (auto &ab : coeff_pairs(f, p)) { RefCurve r{f, p, ab.first, ab.second}; if (!r.build() || r.n < 3) continue; if (done++ >= (th ? 12 : 3)) break; LibCurve L(r); std::vector<Z> ks; for (long k = -r.n - 1; k <= 2 * r.n + 1; k++) ks.push_back(Z(k));
        for (size_t i = 0; i < r.pts.size(); i++) { Pt P(r, i, L.cv); mult(c, L.cv, P.q, r.name() + vc::fmt(", point %zu", i), Z(r.n), ks, 6); } }
}
static std::vector<Z> scalars(const Z &n, bool th) {
    std::vector<Z> v = {Z(1), Z(0), Z(2), Z(3), Z(255), Z(256), Z(257), n - Z(1), n - Z(2), n / Z(2), n / Z(3), n, n + Z(1), Z(0) - Z(1), Z(0) - n / Z(3)}; unsigned b = n.bits();
    for (unsigned i = 8; i < b; i += th ? 1 : 29) { v.push_back(Z::pow2(i)); v.push_back(Z::pow2(i) - Z(1)); if (th) v.push_back(n - Z::pow2(i)); } Z a(0), z(0); for (unsigned i = 0; i < b; i++) { if (i % 2) a = a + Z::pow2(i); if ((i / 8) % 2) z = z + Z::pow2(i); } v.push_back(a.mod(n)); v.push_back(z.mod(n)); v.push_back(Z::pow2(b - 1)); return v;
}
static void named(Ctx &c, const char *name, bool th) {
    BigRef r = *golden(name); NamedCurve L(name); auto ks = scalars(r.n, th); std::vector<std::pair<std::string, BP>> P = {{"the generator", r.G}, {"5G", r.mulG(Z(5))}, {"the neutral element", r.zero()}};
    for (size_t i = 0; i < P.size(); i++) { Pt Q(L.cv); set_pt(Q.q, P[i].second, L.cv); mult(c, L.cv, Q.q, std::string(name) + ", " + P[i].first, r.n, i ? std::vector<Z>(ks.begin(), ks.begin() + 15) : ks, i ? 2 : 4); }
    { // 4: signing with every key and nonce of the set, 5: decryption
        static int (*nul)(unsigned char *, unsigned char *, size_t) = nullptr; (void)nul; mpECDSAHashfunc_t H; H->dohash = [](unsigned char *h, unsigned char *m, size_t z) { for (int i = 0; i < 20; i++) h[i] = i < (int)z ? m[i] : i * 7 + 1; }; H->hsz = 20; mpECDSASignatureScheme_t ss; if (mpECDSASignatureScheme_init(ss, L.cv, H)) { fprintf(stderr, "no scheme\n"); abort(); }
        size_t B = 4 * ((r.n.bits() + 7) / 8) + 64; std::vector<ent::Tape> T; auto tape = [&](std::function<int(size_t)> f) { ent::Tape t(B); for (size_t i = 0; i < B; i++) t[i] = f(i); T.push_back(t); };
        tape([](size_t) { return 0xFF; }); tape([](size_t i) { return (int)(i * 37 + 11) & 255; }); tape([](size_t i) { return i & 1 ? 0 : 0x80; }); tape([](size_t) { return 1; }); tape([](size_t i) { return i == 0 || i == 9; }); tape([](size_t i) { return (int)(i * i * 13 + 5) & 255; });
        std::vector<Z> keys = {Z(1), Z(2), r.n - Z(1), r.n / Z(2), r.n / Z(3), Z::pow2(r.n.bits() - 1).mod(r.n)}; unsigned char m[8] = {1, 2, 3, 4, 5, 6, 7, 8};
        if (c.next()) { Same s; unsigned long used = 0; for (int warm = 0; warm < 2; warm++) for (auto &k : keys) for (size_t t = 0; t < T.size(); t++) { Fe d(k, r.n); ent::src().load(T[t]); mpECDSASignature_t g; tr::start(); int st = mpECDSASignature_init_Sign(g, ss, d.f, m, 8); Tr x = tr::stop(); if (st) c.fail("%s: signing fails", name); mpECDSASignature_clear(g); if (!warm) continue; if (!used) used = ent::src().served; if (ent::src().served != used) continue; /* a refused nonce */
                s.add(c, x, vc::fmt("key %s with entropy %zu", k.str().c_str(), t), std::string(name) + ", signing"); c.state(vc::hash_str(std::string(name) + k.str()) + t); } }
        if (c.next()) { Same s; Pt C(L.cv), M(L.cv); set_pt(C.q, r.mulG(Z(77)), L.cv); set_pt(M.q, r.mulG(Z(99)), L.cv); mpECElgamalCiphertext_t x; mpECP_init(x->C, L.cv); mpECP_init(x->D, L.cv); mpECP_set(x->C, C.q); mpECP_set(x->D, M.q); std::vector<Z> ds(ks); for (auto &k : ds) { Z kk = k.mod(r.n); Fe d(kk, r.n); mpECP_t o; tr::start(); int st = mpECElgamal_init_decrypt(o, d.f, x); Tr y = tr::stop(); if (st) c.fail("%s: decryption fails", name); mpECP_clear(o); s.add(c, y, "key " + kk.str(), std::string(name) + ", decryption"); c.state(vc::hash_str(std::string("d") + name + kk.str())); } mpECElgamal_clear(x); }
        if (c.next()) { Same s; unsigned long used = 0; Pt K(L.cv), M(L.cv); set_pt(K.q, r.mulG(Z(77)), L.cv); set_pt(M.q, r.mulG(Z(99)), L.cv); for (size_t t = 0; t < T.size(); t++) { ent::src().load(T[t]); mpECElgamalCiphertext_t x; tr::start(); int st = mpECElgamal_init_encrypt(x, K.q, M.q); Tr y = tr::stop(); if (st) c.fail("%s: encryption fails", name); mpECElgamal_clear(x); if (!used) used = ent::src().served; if (ent::src().served != used) continue; s.add(c, y, vc::fmt("entropy %zu", t), std::string(name) + ", encryption"); c.state(vc::hash_str(std::string("e") + name) + t); } }
        mpECDSASignatureScheme_clear(ss);
    }
}
static const int SW[] = {0, 1, 2, -1, 256, 1 << 30, (int)0x80000000};
static void exchange(Ctx &c, bool th) {
    tr::open_cswap = true;
    for (Z p : {Z(3), Z(251), prev_prime(Z::pow2(64)), prev_prime(Z::pow2(65)), prev_prime(Z::pow2(256)), prev_prime(Z::pow2(521)), prev_prime(Z::pow2(1024))}) for (Z a : {Z(0), Z(1), p - Z(1), p / Z(2)}) for (Z b : {Z(0), Z(1), p - Z(1), p / Z(3)}) {
        if (!c.next()) continue; Same s; for (int w : SW) { Fe x(a, p), y(b, p); tr::start(); mpFp_cswap(x.f, y.f, w); Tr t = tr::stop(); s.add(c, t, vc::fmt("swap = %d", w), vc::fmt("exchange of field elements modulo %s", p.str().c_str())); if (x.get() != (w ? b : a) || y.get() != (w ? a : b)) c.fail("mpFp_cswap(%s, %s, %d) gives %s, %s", a.str().c_str(), b.str().c_str(), w, x.get().str().c_str(), y.get().str().c_str()); c.state(vc::hash_str(p.str() + a.str() + b.str()) + w); } }
    for (Form f : {WS, ED, MO, TE}) { RefCurve r = nice(f, 13, 3); LibCurve L(r), L2(r); for (size_t i = 0; i < r.pts.size(); i++) for (size_t j = 0; j < r.pts.size(); j++) for (int o = 0; o < 2; o++) { if (!c.next()) continue; Same s; for (int w : SW) { Pt A(r, i, L.cv), B(r, j, o ? L2.cv : L.cv); tr::start(); mpECP_cswap(A.q, B.q, w); Tr t = tr::stop(); s.add(c, t, vc::fmt("swap = %d", w), vc::fmt("exchange of points %zu and %zu of %s", i, j, r.name().c_str())); if (which(r, A.q, A.q->cvp) != (int)(w ? j : i) || which(r, B.q, B.q->cvp) != (int)(w ? i : j)) c.fail("%s: exchanging points %zu and %zu with swap = %d gives %s, %s", r.name().c_str(), i, j, w, raw(A.q).c_str(), raw(B.q).c_str()); c.state(f * 100000 + i * 1000 + j * 10 + o); } } }
    tr::open_cswap = false;
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::unit("exchanges", [=](Ctx &c) { exchange(c, th); });
    for (Form f : {WS, ED, MO, TE}) for (long p : {5l, 7l, 11l, 13l, 17l, 251l}) { if (p == 251 && !th) continue; vc::unit(vc::fmt("%s over F_%ld: every point and scalar", FORM[f], p), [=](Ctx &c) { small(c, f, p, th); }, 60); }
    for (int g = 0; g < NGOLDEN; g++) vc::unit(vc::fmt("built-in curve %s", GOLDEN[g].name), [=](Ctx &c) { named(c, GOLDEN[g].name, th); }, 60);
    return vc::main_(argc, argv);
}
