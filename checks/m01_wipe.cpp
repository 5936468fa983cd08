// M01: with wiping enabled, every block of number storage is all zero when it reaches the allocator's free.
// The library sources are built with the project's own optimisation level (no sanitizer), because what the
// optimiser leaves of the wiping is part of the property.  malloc/free are interposed for the whole process.
#include "vc.hpp"
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
extern "C" {
#include <ecc/safememory.h>
#include <ecc/mpzurandom.h>
}
#include <malloc.h>
using vc::Ctx;
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_realloc(void *, size_t); void *__libc_calloc(size_t, size_t); }
namespace mem {
static const size_t T = 1u << 16; static void *tab[T]; // number blocks, linear probing
static size_t slot(void *p) { size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; while (tab[i] && tab[i] != p) i = (i + 1) & (T - 1); return i; }
static void add(void *p) { tab[slot(p)] = p; }
static bool has(void *p) { return p && tab[slot(p)] == p; }
static void del(void *p) { size_t i = slot(p); if (!tab[i]) return; tab[i] = nullptr; size_t j = i; for (;;) { j = (j + 1) & (T - 1); if (!tab[j]) return; void *q = tab[j]; tab[j] = nullptr; tab[slot(q)] = q; } }
static char bad[400]; static unsigned long released = 0, checked_bytes = 0; static bool fatal = false;
static void release(void *p) { // p goes back to the system
    if (!has(p)) return; del(p); released++;
    size_t n = malloc_usable_size(p); checked_bytes += n; const unsigned char *b = (const unsigned char *)p; size_t nz = 0, first = 0;
    for (size_t i = 0; i < n; i++) if (b[i]) { if (!nz) first = i; nz++; }
    if (nz && !bad[0]) { snprintf(bad, sizeof bad, "a number block of %zu bytes was released with %zu non-zero bytes, the first at offset %zu", n, nz, first); if (fatal) { fprintf(stderr, "%s\n", bad); _exit(9); } }
    memset((void *)p, 0, n);
}
static void fill(void *p, size_t n, size_t from) { size_t u = malloc_usable_size(p); if (n > from) memset((char *)p + from, 0xA5, n - from); if (u > n) memset((char *)p + n, 0, u - n); }
static void *(*ga)(size_t); static void *(*gr)(void *, size_t, size_t); static void (*gf)(void *, size_t);
static void *sa(size_t n) { void *p = ga(n); add(p); return p; }
static void *sr(void *o, size_t a, size_t n) { void *p = gr(o, a, n); add(p); return p; }
static void sf(void *o, size_t n) { gf(o, n); if (has(o)) del(o); }
// what the library installs, seen through GMP's own interface; the shims only note which blocks hold numbers
static void enable() { _enable_gmp_safe_clean(); mp_get_memory_functions(&ga, &gr, &gf); }
static void install() { enable(); mp_set_memory_functions(sa, sr, sf); }
}
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) mem::fill(p, n, 0); return p; }
void free(void *p) { if (p) mem::release(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n); if (!mem::has(p)) return __libc_realloc(p, n);
    size_t o = malloc_usable_size(p); void *q = malloc(n); if (!q) return q; memcpy(q, p, o < n ? o : n); free(p); return q; // a resize may always move
}
}
static void clean(Ctx &c, const std::string &how) { if (mem::bad[0]) { std::string b = mem::bad; mem::bad[0] = 0; c.fail("%s, after: %s", b.c_str(), how.c_str()); } }

// 1. the installed memory functions themselves: every sequence of sizes
static const size_t SZ[] = {8, 16, 24, 40, 64, 104, 128, 1032, 4096, 70000};
static const int NS = sizeof SZ / sizeof *SZ;
static void pattern(unsigned char *p, size_t n, int k) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(0x11 + 7 * i + 31 * k) | 1; }
static void hooks(Ctx &c, int depth, int first, bool two) {
    mem::enable(); std::vector<int> ix(depth, 0); ix[0] = first;
    for (;;) {
        if (c.next()) {
            std::string h = vc::fmt("allocate %zu", SZ[first]);
            size_t n = SZ[first]; unsigned char *p = (unsigned char *)mem::ga(n); mem::add(p); pattern(p, n, 0); unsigned char *q = nullptr; 
            for (int d = 1; d < depth; d++) {
                size_t m = SZ[ix[d]]; h += vc::fmt(", resize to %zu", m);
                if (two) { if (q) { mem::gf(q, 48); } q = (unsigned char *)mem::ga(48); mem::add(q); pattern(q, 48, 77); }
                unsigned char *r = (unsigned char *)mem::gr(p, n, m); mem::add(r); c.trans();
                for (size_t i = 0; i < n && i < m; i++) if (r[i] != ((unsigned char)(0x11 + 7 * i + 31 * (d - 1)) | 1)) c.fail("the contents at offset %zu did not survive: %s", i, h.c_str());
                if (q) for (size_t i = 0; i < 48; i++) if (q[i] != ((unsigned char)(0x11 + 7 * i + 31 * 77) | 1)) c.fail("another block was overwritten: %s", h.c_str());
                if (malloc_usable_size(r) < m) c.fail("the block is too small: %s", h.c_str());
                pattern(r, m, d); p = r; n = m; clean(c, h);
            }
            unsigned long r0 = mem::released; bool num = mem::has(p); mem::gf(p, n); c.trans(); if (!num || mem::released != r0 + 1) c.fail("releasing did not give the block back: %s", h.c_str());
            if (q) mem::gf(q, 48); clean(c, h + ", release");
            uint64_t st = vc::hash_bytes(ix.data(), sizeof(int) * depth, two + 10 * depth); c.state(st); c.outcome(mem::checked_bytes); c.trace();
            if (c.cur % 501 == 7) c.sample("%s, release: all zero at free", h.c_str());
        }
        int d = depth - 1; while (d >= 1 && ++ix[d] == NS) { ix[d] = 0; d--; }
        if (d < 1) break;
    }
}
// 2. the whole library: every sequence of operations over field elements, points, curves, signatures
static const char *CN[] = {"secp112r1", "M-221", "E-222", "secp521r1"};
template <class T> static void zeroed(Ctx &c, T *p, const char *what, const std::string &h) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < sizeof(*p); i++) if (b[i]) c.fail("clearing %s left its structure non-zero at offset %zu, after: %s", what, i, h.c_str()); }
struct Obj {
    mpECurve_t cv[2]; mpECP_t P[2]; mpFp_t f[2]; mpz_t z; Z fp[4];
    mpECDSAHashfunc_t H; 
    Obj() {
        fp[0] = Z(13); fp[1] = Z::pow2(127) - Z(1); fp[2] = Z::pow2(521) - Z(1); fp[3] = prev_prime(Z::pow2(1024));
        for (int i = 0; i < 2; i++) { mpECurve_init(cv[i]); mpECurve_set_named(cv[i], (char *)CN[i]); mpECP_init(P[i], cv[i]); set_gen(P[i], cv[i]); mpFp_init(f[i], fp[i].v); Z v = fp[i] - Z(3); mpFp_set_mpz(f[i], v.v, fp[i].v); }
        mpz_init_set_ui(z, 77); mpECDSAHashfunc_init(H); H->dohash = digest_fn(20); H->hsz = 20;
    }
    static void set_gen(mpECP_ptr P, mpECurve_ptr cv) { mpECP_set_mpz(P, cv->G[0], cv->G[1], cv); Z k(5); mpECP_scalar_mul_mpz(P, P, k.v); }
    void done(Ctx &c, const std::string &h) {
        for (int i = 0; i < 2; i++) { mpFp_clear(f[i]); zeroed(c, &f[i][0], "a field element", h); mpECP_clear(P[i]); zeroed(c, &P[i][0], "a point", h); }
        for (int i = 0; i < 2; i++) { mpECurve_clear(cv[i]); zeroed(c, &cv[i][0], "a curve", h); }
        mpz_clear(z); mpECDSAHashfunc_clear(H);
    }
};
struct Op { const char *n; std::function<void(Obj &, Ctx &, const std::string &)> f; };
static std::vector<Op> alphabet() {
    std::vector<Op> A; auto add = [&](const char *n, std::function<void(Obj &, Ctx &, const std::string &)> f) { A.push_back({n, f}); };
#define OP(name, code) add(name, [](Obj &o, Ctx &c, const std::string &h) { code; })
    OP("element 0 into a 16-word field", { Z v = o.fp[3] - Z(9); mpFp_set_mpz(o.f[0], v.v, o.fp[3].v); });
    OP("element 0 into a 1-word field", mpFp_set_ui(o.f[0], 99, o.fp[0].v));
    OP("element 1 copied from 0", mpFp_set(o.f[1], o.f[0]));
    OP("element 0 squared", mpFp_sqr(o.f[0], o.f[0]));
    OP("element 1 inverted", { Z g; mpz_set_mpFp(g.v, o.f[1]); if (g.sgn()) mpFp_inv(o.f[1], o.f[1]); });
    OP("root of element 0", { mpFp_t r; mpFp_init(r, o.fp[0].v); mpFp_sqrt(r, o.f[0]); mpFp_clear(r); zeroed(c, &r[0], "a field element", h); });
    OP("power of element 1", { Z e = o.fp[1] - Z(3); mpFp_pow_mpz(o.f[1], o.f[1], e.v); });
    OP("elements swapped", { if (o.f[0]->fp == o.f[1]->fp) mpFp_swap(o.f[0], o.f[1]); else mpFp_set(o.f[0], o.f[1]); });
    OP("element 1 random", { mpFp_urandom(o.f[1], o.fp[2].v); });
    OP("element 0 cleared and initialised", { mpFp_clear(o.f[0]); zeroed(c, &o.f[0][0], "a field element", h); mpFp_init(o.f[0], o.fp[1].v); mpFp_set_ui(o.f[0], 5, o.fp[1].v); });
    OP("number from element 0", mpz_set_mpFp(o.z, o.f[0]));
    OP("number grown to 4096 bits", { mpz_setbit(o.z, 4095); });
    OP("number shrunk", { mpz_fdiv_r_2exp(o.z, o.z, 40); mpz_realloc2(o.z, 64); });
    OP("number random", { Z m = Z::pow2(700); mpz_urandom(o.z, m.v); });
    OP("points added", { if (!mpECurve_cmp(o.P[0]->cvp, o.P[1]->cvp)) mpECP_add(o.P[0], o.P[0], o.P[1]); else mpECP_add(o.P[0], o.P[0], o.P[0]); });
    OP("point 1 subtracted from itself", mpECP_sub(o.P[1], o.P[1], o.P[1]));
    OP("point 0 multiplied", { Z k = Z::pow2(100) + Z(3); mpECP_scalar_mul_mpz(o.P[0], o.P[0], k.v); });
    OP("point 1 table", mpECP_scalar_base_mul_setup(o.P[1]));
    OP("point 0 table", mpECP_scalar_base_mul_setup(o.P[0]));
    OP("point 0 := base multiple of 1", { Z k = Z::pow2(90) + Z(1); mpECP_scalar_base_mul_mpz(o.P[0], o.P[1], k.v); });
    OP("point 1 := point 0", mpECP_set(o.P[1], o.P[0]));
    OP("point 0 := point 1", mpECP_set(o.P[0], o.P[1]));
    OP("points swapped", { if (!mpECurve_cmp(o.P[0]->cvp, o.P[1]->cvp)) mpECP_swap(o.P[0], o.P[1]); else mpECP_set(o.P[1], o.P[0]); });
    OP("point 0 read", { Z x; mpz_set_mpECP_affine_x(x.v, o.P[0]); });
    OP("point 1 random on the other curve", mpECP_urandom(o.P[1], o.cv[0]));
    OP("point 0 := generator of curve 1", { Obj::set_gen(o.P[0], o.cv[1]); });
    OP("point 0 to text and back into point 1", { mpECP_ptr k = o.P[0]; std::vector<char> s(mpECP_out_strlen(k, 1) + 2); mpECP_out_str(s.data(), k, 1); if (mpECP_set_str(o.P[1], s.data(), k->cvp)) mpECP_set(o.P[1], k); });
    OP("point 1 from garbage text", { char t[] = "02zz"; mpECP_t q; mpECP_init(q, o.cv[1]); mpECP_set_str(q, t, o.cv[1]); mpECP_clear(q); zeroed(c, &q[0], "a point", h); });
    OP("point 1 cleared and initialised", { mpECP_clear(o.P[1]); zeroed(c, &o.P[1][0], "a point", h); mpECP_init(o.P[1], o.cv[0]); mpECP_set_neutral(o.P[1], o.cv[0]); });
    OP("a spare curve E-222, then secp521r1, cleared", { mpECurve_t v; mpECurve_init(v); mpECurve_set_named(v, (char *)CN[2]); mpECurve_set_named(v, (char *)CN[3]); mpECurve_set(v, o.cv[1]); mpECurve_clear(v); zeroed(c, &v[0], "a curve", h); });
    OP("a key signs and verifies", {
        mpECDSASignatureScheme_t ss; if (mpECDSASignatureScheme_init(ss, o.cv[1], o.H)) c.fail("scheme refused");
        mpFp_t d; mpFp_init(d, o.cv[1]->n); mpFp_set_ui(d, 123457, o.cv[1]->n); unsigned char m[20]; memset(m, 0x5C, 20); mpECDSASignature_t sg; if (mpECDSASignature_init_Sign(sg, ss, d, m, 20)) c.fail("signing failed");
        mpECP_t Q; mpECP_init(Q, o.cv[1]); mpECP_set_mpz(Q, o.cv[1]->G[0], o.cv[1]->G[1], o.cv[1]); mpECP_scalar_mul(Q, Q, d); if (mpECDSASignature_verify_cmp(sg, Q, m, 20)) c.fail("verification failed, after: %s", h.c_str());
        char *t = mpECDSASignature_export_str(sg); mpECDSASignature_t s2; if (mpECDSASignature_init_import_str(s2, ss, t)) c.fail("import failed"); free(t); t = strdup("0011"); mpECDSASignature_t s3; if (!mpECDSASignature_init_import_str(s3, ss, t)) c.fail("bad import accepted"); free(t);
        mpECDSASignature_clear(sg); mpECDSASignature_clear(s2); mpECP_clear(Q); mpFp_clear(d); mpECDSASignatureScheme_clear(ss); });
    OP("encryption and decryption", {
        mpFp_t d; mpFp_init(d, o.cv[0]->n); mpFp_set_ui(d, 7654321, o.cv[0]->n); mpECP_t Q; mpECP_init(Q, o.cv[0]); mpECP_set_mpz(Q, o.cv[0]->G[0], o.cv[0]->G[1], o.cv[0]); mpECP_t M; mpECP_init(M, o.cv[0]); mpECP_double(M, Q); mpECP_scalar_mul(Q, Q, d);
        mpECElgamalCiphertext_t ct; if (mpECElgamal_init_encrypt(ct, Q, M)) c.fail("encryption failed"); mpECP_t R; if (mpECElgamal_init_decrypt(R, d, ct)) c.fail("decryption failed"); if (mpECP_cmp(R, M)) c.fail("decryption is wrong");
        mpECP_clear(R); mpECElgamal_clear(ct); mpECP_clear(M); mpECP_clear(Q); mpFp_clear(d); });
    OP("a second enable", { mem::enable(); mem::install(); });
    return A;
}
static void library(Ctx &c, const std::vector<Op> &A, int depth, size_t first) {
    if (first >= A.size()) return; mem::install(); ent::src().load({}); { Obj o; o.done(c, "warm up"); } clean(c, "warm up");
    std::vector<size_t> ix(depth, 0); ix[0] = first;
    for (;;) {
        if (c.next()) {
            std::string h; unsigned long r0 = mem::released; ent::src().load({});
            { Obj o; for (int d = 0; d < depth; d++) { h += std::string(d ? "; " : "") + A[ix[d]].n; A[ix[d]].f(o, c, h); c.trans(); clean(c, h); c.state(vc::hash_bytes(ix.data(), sizeof(size_t) * (d + 1), d)); } o.done(c, h); }
            clean(c, h + "; clear everything"); if (mem::released == r0) c.fail("no number block was ever released (the observation point is gone)");
            c.outcome((mem::released - r0) * 64 + depth); c.trace(); if (c.cur % 301 == 5) c.sample("%s: %lu blocks released, all zero", h.c_str(), mem::released - r0);
        }
        int d = depth - 1; while (d >= 1 && ++ix[d] == A.size()) { ix[d] = 0; d--; }
        if (d < 1) break;
    }
}
// 3. blocks alive when wiping is switched on, and everything the library still holds at exit
static void lifecycle(Ctx &c, const std::vector<Op> &A) {
    for (size_t a = 0; a < A.size(); a++) for (int when = 0; when < 3; when++) {
        if (!c.next()) continue;
        vc::forked(c, [&]() {
            void *(*da)(size_t); void *(*dr)(void *, size_t, size_t); void (*df)(void *, size_t); ent::src().load({});
            if (when == 0) mem::install();
            else { mp_get_memory_functions(&mem::ga, &mem::gr, &mem::gf); mp_set_memory_functions(mem::sa, mem::gr, mem::gf); }
            Obj *o = new Obj(); // before switching on: nothing is promised
            if (when == 1) { mem::bad[0] = 0; mem::install(); A[a].f(*o, c, A[a].n); }
            if (when == 2) { A[a].f(*o, c, A[a].n); mem::bad[0] = 0; mem::install(); }
            if (when == 0) A[a].f(*o, c, A[a].n);
            clean(c, A[a].n); o->done(c, A[a].n); delete o; clean(c, A[a].n); mem::fatal = true; exit(0);
        }, A[a].n);
        c.trans(3); c.state(a * 3 + when + 1000000); c.trace();
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    for (int f = 0; f < NS; f++) for (int two = 0; two < 2; two++) for (int d = 2; d <= 4 + th; d++) vc::unit(vc::fmt("memory functions: %d steps from %zu bytes%s", d, SZ[f], two ? ", another block alive" : ""), [=](Ctx &c) { hooks(c, d, f, two); });
    static auto A = alphabet();
    for (size_t f = 0; f < A.size(); f++) vc::unit(vc::fmt("library: first %s, depth %d", A[f].n, 2 + th), [=](Ctx &c) { library(c, A, 2 + th, f); });
    vc::unit("switching on and exit", [](Ctx &c) { lifecycle(c, A); });
    return vc::main_(argc, argv);
}
