// F03: every operation sequence over a few element slots that move between fields of different widths.
#include "vc.hpp"
#include "guard.hpp"
#include "num.hpp"
using vc::Ctx;

struct Slot { mpFp_t f; Z v; int fld; };
struct Op { int kind, i, j, k, arg; const char *n; };
enum { SETUI, SETMPZ, REINIT, COPY, NEG, SQR, INV, POW, SQRT, ADD, SUB, MUL, ADDUI, SUBUI, MULUI, SWAP, CSWAP, POWZ, SETFP };

struct World {
    std::vector<Z> F; std::vector<Slot> s;
    World(const std::vector<Z> &f, int n) : F(f), s(n) {
        for (int i = 0; i < n; i++) { int fi = i % F.size(); mpFp_init(s[i].f, F[fi].v); s[i].fld = fi; s[i].v = F[fi] - Z(2 + i); mpFp_set_mpz(s[i].f, s[i].v.v, F[fi].v); }
    }
    ~World() { for (auto &x : s) mpFp_clear(x.f); }
    bool enabled(const Op &o) {
        switch (o.kind) {
            case ADD: case SUB: case MUL: return s[o.j].fld == s[o.k].fld;
            case SWAP: case CSWAP: return s[o.i].fld == s[o.j].fld;
            case INV: return s[o.j].v.sgn() != 0;
            case SQRT: { const Z &p = F[s[o.j].fld]; return s[o.j].v.sgn() == 0 || powm(s[o.j].v, (p - Z(1)) / Z(2), p) == Z(1); }
        }
        return true;
    }
    void apply(Ctx &c, const Op &o) {
        Slot &a = s[o.i], &b = s[o.j < 0 ? o.i : o.j], &d = s[o.k < 0 ? o.i : o.k]; const Z p = F[o.kind == SETUI || o.kind == SETMPZ || o.kind == REINIT || o.kind == SETFP ? o.arg : b.fld];
        unsigned long u = 0xFFFFFFFFFFFFFFC5ul; int nf = b.fld; Z nv;
        switch (o.kind) {
            case SETUI: mpFp_set_ui(a.f, u, (mpz_ptr)p.v); nv = Z::ui(u).mod(p); nf = o.arg; break;
            case SETMPZ: { Z t = Z(0) - p - Z(3); mpFp_set_mpz(a.f, t.v, (mpz_ptr)p.v); nv = t.mod(p); nf = o.arg; break; }
            case SETFP: { Z t = (p - Z(1)) / Z(2); mpFp_field_ptr fp = _mpFp_field_lookup((mpz_ptr)p.v); if (!fp || mpz_cmp(fp->p, p.v)) c.fail("field lookup returned the wrong modulus"); mpFp_set_mpz_fp(a.f, t.v, fp); nv = t; nf = o.arg; break; }
            case REINIT: mpFp_clear(a.f); mpFp_init(a.f, (mpz_ptr)p.v); mpFp_set_ui(a.f, 7, (mpz_ptr)p.v); nv = Z(7).mod(p); nf = o.arg; break;
            case COPY: mpFp_set(a.f, b.f); nv = b.v; break;
            case NEG: mpFp_neg(a.f, b.f); nv = (Z(0) - b.v).mod(p); break;
            case SQR: mpFp_sqr(a.f, b.f); nv = (b.v * b.v).mod(p); break;
            case INV: if (mpFp_inv(a.f, b.f)) c.fail("inverse of a non-zero element fails"); nv = invm(b.v, p); break;
            case POW: mpFp_pow_ui(a.f, b.f, 5); nv = powm(b.v, Z(5), p); break;
            case POWZ: { Z e = p - Z(3); mpFp_pow_mpz(a.f, b.f, e.v); nv = powm(b.v, e, p); break; }
            case SQRT: { Z bv = b.v; if (mpFp_sqrt(a.f, b.f)) c.fail("square root of a square fails"); Z g; mpz_set_mpFp(g.v, a.f); if ((g * g).mod(p) != bv) c.fail("square root wrong"); nv = g; break; }
            case ADD: mpFp_add(a.f, b.f, d.f); nv = (b.v + d.v).mod(p); break;
            case SUB: mpFp_sub(a.f, b.f, d.f); nv = (b.v - d.v).mod(p); break;
            case MUL: mpFp_mul(a.f, b.f, d.f); nv = (b.v * d.v).mod(p); break;
            case ADDUI: mpFp_add_ui(a.f, b.f, u); nv = (b.v + Z::ui(u)).mod(p); break;
            case SUBUI: mpFp_sub_ui(a.f, b.f, u); nv = (b.v - Z::ui(u)).mod(p); break;
            case MULUI: mpFp_mul_ui(a.f, b.f, u); nv = (b.v * Z::ui(u)).mod(p); break;
            case SWAP: mpFp_swap(a.f, b.f); { Z t = a.v; a.v = b.v; b.v = t; } c.trans(); return;
            case CSWAP: mpFp_cswap(a.f, b.f, o.arg); if (o.arg) { Z t = a.v; a.v = b.v; b.v = t; } c.trans(); return;
        }
        a.v = nv; a.fld = nf; c.trans();
    }
    void check(Ctx &c, const std::vector<const Op *> &h) {
        for (size_t i = 0; i < s.size(); i++) {
            Z g; mpz_set_mpFp(g.v, s[i].f);
            bool bad = g != s[i].v || mpFp_cmp_mpz(s[i].f, s[i].v.v) != 0 || mpz_cmp(s[i].f->fp->p, F[s[i].fld].v) != 0;
            if (bad) { std::string t; for (auto o : h) t += vc::fmt("%s(slot %d <- %d,%d arg %d); ", o->n, o->i, o->j, o->k, o->arg); c.fail("slot %zu holds 0x%s (mod 0x%s), expected 0x%s (mod 0x%s) after: %s", i, g.str().c_str(), Z::from(s[i].f->fp->p).str().c_str(), s[i].v.str().c_str(), F[s[i].fld].str().c_str(), t.c_str()); }
        }
    }
    uint64_t hash() { std::string t; for (auto &x : s) t += std::to_string(x.fld) + ":" + x.v.str() + ":" + std::to_string(x.f->i->_mp_alloc) + ";"; return vc::hash_str(t); }
};
static std::vector<Op> alphabet(int n, int nf, bool small) {
    std::vector<Op> A;
    for (int i = 0; i < n; i++) {
        for (int f = 0; f < nf; f++) { A.push_back({SETUI, i, -1, -1, f, "set word"}); A.push_back({SETMPZ, i, -1, -1, f, "set integer"}); A.push_back({REINIT, i, -1, -1, f, "clear, init, set 7"}); if (!small) A.push_back({SETFP, i, -1, -1, f, "set integer by handle"}); }
        for (int j = 0; j < n; j++) {
            A.push_back({COPY, i, j, -1, 0, "copy"});
            A.push_back({NEG, i, j, -1, 0, "neg"}); A.push_back({SQR, i, j, -1, 0, "sqr"}); A.push_back({INV, i, j, -1, 0, "inv"});
            A.push_back({ADDUI, i, j, -1, 0, "add word"}); if (!small) { A.push_back({SUBUI, i, j, -1, 0, "sub word"}); A.push_back({POWZ, i, j, -1, 0, "pow int"}); } A.push_back({MULUI, i, j, -1, 0, "mul word"});
            A.push_back({POW, i, j, -1, 0, "pow"}); if (!small) A.push_back({SQRT, i, j, -1, 0, "sqrt"});
            for (int k = 0; k < n; k++) { A.push_back({ADD, i, j, k, 0, "add"}); A.push_back({MUL, i, j, k, 0, "mul"}); if (!small) A.push_back({SUB, i, j, k, 0, "sub"}); }
            if (i < j) { A.push_back({SWAP, i, j, -1, 0, "swap"}); A.push_back({CSWAP, i, j, -1, 1, "cswap"}); }
        }
    }
    return A;
}
static std::vector<Z> fields(int set) {
    std::vector<Z> F;
    if (set == 0) { F = {Z(13), Z::pow2(127) - Z(1), Z::pow2(521) - Z(1)}; }
    else if (set == 1) { F = {Z::pow2(64) - Z(59), prev_prime(Z::pow2(1024)), Z::pow2(89) - Z(1)}; }
    else { F = {Z::pow2(255) - Z(19), Z(3), prev_prime(Z::pow2(192))}; }
    return F;
}
// all sequences of exactly depth steps whose first operation is `first`
static void sequences(Ctx &c, int set, int nslots, int depth, size_t first, bool small) {
    vc::heap_count_on();
    auto F = fields(set); for (auto &p : F) { Fe e(Z(1), p); }
    auto A = alphabet(nslots, F.size(), small);
    if (first >= A.size()) return;
    std::vector<size_t> ix(depth, 0); ix[0] = first;
    for (;;) {
        if (c.next()) {
            std::vector<const Op *> h; h.reserve(8);
            long g0 = guard::live, h0 = vc::heap_live;
            { World w(F, nslots); bool ok = true;
              for (int d = 0; d < depth && ok; d++) { const Op &o = A[ix[d]]; if (!w.enabled(o)) { ok = false; 
                      // skip everything below this prefix
                      for (int e = d + 1; e < depth; e++) ix[e] = A.size() - 1; break; }
                  w.apply(c, o); h.push_back(&o); w.check(c, h); }
              c.state(w.hash()); if (ok) c.trace();
              if (c.cur % 4099 == 7 && c.want_sample()) { std::string t; for (auto o : h) t += vc::fmt("%s(%d<-%d,%d,%d) ", o->n, o->i, o->j, o->k, o->arg); c.sample("%s-> slot0=0x%s", t.c_str(), w.s[0].v.str().c_str()); }
            }
            if (guard::live != g0 || vc::heap_live != h0) { std::string t; for (auto o : h) t += vc::fmt("%s(slot %d <- %d,%d arg %d); ", o->n, o->i, o->j, o->k, o->arg); c.fail("memory is not balanced after clearing everything (%ld number blocks, %ld heap blocks): %s", guard::live - g0, vc::heap_live - h0, t.c_str()); }
        }
        int d = depth - 1; while (d >= 1 && ++ix[d] == A.size()) { ix[d] = 0; d--; }
        if (d < 1) break;
    }
}
// the registry of fields: many moduli that agree in size, low and high words, in every order of first use
static std::vector<Z> lookalikes() {
    std::vector<Z> v;
    for (int fam = 0; fam < 3; fam++) { // same low and high word, different middle; then low two words equal; then high two equal
        Z lo = Z::s("0x9E3779B97F4A7C15"), hi = Z::s("0xC2B2AE3D27D4EB4F"); int got = 0;
        for (long m = 1; got < 3; m += 1) { Z p = fam == 0 ? hi * Z::pow2(128) + Z(m) * Z::pow2(64) + lo : fam == 1 ? (hi + Z(m)) * Z::pow2(128) + Z::pow2(64) * lo + lo : hi * Z::pow2(128) + lo * Z::pow2(64) + Z(2 * m + 1); if (mpz_probab_prime_p(p.v, 20)) { v.push_back(p); got++; } }
    }
    { int got = 0; for (long m = 1; got < 2; m++) { Z p = Z(m) * Z::pow2(64) + Z(13); if (mpz_probab_prime_p(p.v, 20)) { v.push_back(p); got++; } } v.push_back(Z(13)); v.push_back(Z(17)); }
    return v;
}
static void touch(Ctx &c, const Z &p, int how) {
    Z a = p - Z(2), b = (p - Z(1)) / Z(2), want = (a * b).mod(p); mpFp_t x, y; Z one(1);
    switch (how) {
        case 0: mpFp_init(x, (mpz_ptr)p.v); mpFp_init(y, (mpz_ptr)p.v); break;
        case 1: mpFp_init_fp(x, _mpFp_field_lookup((mpz_ptr)p.v)); mpFp_init(y, (mpz_ptr)p.v); break;
        default: { Z t(7); mpFp_init(x, t.v); mpFp_init(y, t.v); }
    }
    mpFp_set_mpz(x, a.v, (mpz_ptr)p.v); mpFp_set_mpz(y, b.v, (mpz_ptr)p.v);
    if (how == 3) { mpFp_set_ui(x, 0, (mpz_ptr)p.v); mpFp_sub_ui(x, x, 2); }
    mpFp_mul(x, x, y); Z g; mpz_set_mpFp(g.v, x);
    if (g != want || mpz_cmp(x->fp->p, p.v) != 0) c.fail("product in the field of 0x%s is 0x%s, expected 0x%s", p.str().c_str(), g.str().c_str(), want.str().c_str());
    mpFp_clear(x); mpFp_clear(y); c.trans(4);
}
static void registry(Ctx &c, int how) {
    auto L = lookalikes(); size_t n = L.size();
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (size_t d = 0; d < n; d++) {
        if (a == b || b == d || a == d) continue; if (!c.next()) continue;
        vc::forked(c, [&]() { size_t o[] = {a, b, d, b, a, d, d, a}; for (size_t i : o) touch(c, L[i], how); for (size_t i = 0; i < n; i++) touch(c, L[i], how); for (size_t i = n; i-- > 0;) touch(c, L[i], (how + 1) % 4); exit(0); }, "cold field registry");
        c.state(a * 10000 + b * 100 + d + how * 1000000); c.trace();
    }
}
static void many_fields(Ctx &c) {
    if (!c.next()) return;
    std::vector<Z> P; for (unsigned long q : odd_primes(3000)) P.push_back(Z(q)); for (unsigned k = 1; k <= 16; k++) for (auto &p : boundary_primes(k, true)) P.push_back(p);
    for (int r = 0; r < 3; r++) for (size_t i = 0; i < P.size(); i++) { touch(c, P[i], r); c.state(vc::hash_str(P[i].str())); }
    for (size_t i = P.size(); i-- > 0;) touch(c, P[i], 3); c.trace();
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    size_t na = alphabet(2, 3, false).size(), ns = alphabet(2, 3, true).size(), n3 = alphabet(3, 3, true).size();
    for (int set = 0; set < 3; set++) for (size_t f = 0; f < na; f++) vc::unit(vc::fmt("2 slots, fields %d, first op %zu, depth 3", set, f), [=](Ctx &c) { sequences(c, set, 2, 3, f, false); });
    for (size_t f = 0; f < n3; f++) vc::unit(vc::fmt("3 slots, fields 0, first op %zu, depth %d", f, 2 + th), [=](Ctx &c) { sequences(c, 0, 3, 2 + th, f, true); });
    if (th) for (int set = 0; set < 3; set++) for (size_t f = 0; f < ns; f++) vc::unit(vc::fmt("2 slots, fields %d, first op %zu, depth 4", set, f), [=](Ctx &c) { sequences(c, set, 2, 4, f, true); });
    for (int how = 0; how < 4; how++) vc::unit(vc::fmt("cold field registry, first use %d", how), [how](Ctx &c) { registry(c, how); });
    vc::unit("many fields", many_fields);
    return vc::main_(argc, argv);
}
