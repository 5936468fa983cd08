// C02: every entry of the catalogue, and every near-miss of every name.
#include "guard.hpp"
#include "enc.hpp"
using vc::Ctx;

static BigRef read(mpECurve_ptr cv, const char *name) { // parameters as the object shows them
    BigRef r; r.name = name; r.p = Z::from(cv->fp->p); r.n = Z::from(cv->n); r.h = Z::from(cv->h); r.G.x = Z::from(cv->G[0]); r.G.y = Z::from(cv->G[1]); r.bits = cv->bits;
    switch (cv->type) { case EQTypeShortWeierstrass: r.f = WS; mpz_set_mpFp(r.a.v, cv->coeff.ws.a); mpz_set_mpFp(r.b.v, cv->coeff.ws.b); break; case EQTypeEdwards: r.f = ED; mpz_set_mpFp(r.a.v, cv->coeff.ed.c); mpz_set_mpFp(r.b.v, cv->coeff.ed.d); break; case EQTypeMontgomery: r.f = MO; mpz_set_mpFp(r.a.v, cv->coeff.mo.B); mpz_set_mpFp(r.b.v, cv->coeff.mo.A); break; default: r.f = TE; mpz_set_mpFp(r.a.v, cv->coeff.te.a); mpz_set_mpFp(r.b.v, cv->coeff.te.d); }
    return r;
}
static void entry(Ctx &c, const char *name, bool th) {
    NamedCurve L(name); BigRef r = read(L.cv, name); Z p = r.p; auto must = [&](bool ok, const char *what) { c.trans(); if (!ok) c.fail("%s: %s", name, what); };
    if (c.next()) {
        c.state(vc::hash_str(name)); c.outcome(vc::hash_str(r.n.str())); c.sample("%s: p=0x%s n=0x%s h=%s", name, p.str().c_str(), r.n.str().c_str(), r.h.str().c_str());
        must(mpz_probab_prime_p(p.v, 60), "the field modulus is not prime"); must(mpz_probab_prime_p(r.n.v, 60), "the declared order is not prime"); must(mpz_odd_p(p.v) && p > Z(3), "the modulus is too small");
        must(r.bits == p.bits(), "the bit size does not match the modulus");
        Z a = r.a, b = r.b; switch (r.f) { case WS: must(r.m(Z(4) * a * a * a + Z(27) * b * b).sgn() != 0, "singular coefficients"); break; case ED: must(r.m(a).sgn() && r.m(b).sgn() && r.m(Z(1) - b * powm(a, Z(4), p)).sgn(), "singular coefficients"); must(mpz_legendre(r.m(b).v, p.v) == -1, "d is a square: the addition law is not complete"); break; case MO: must(r.m(a).sgn() && r.m(b * b - Z(4)).sgn(), "singular coefficients"); break; default: must(r.m(a).sgn() && r.m(b).sgn() && r.m(a - b).sgn(), "singular coefficients"); must(mpz_legendre(r.m(a).v, p.v) == 1 && mpz_legendre(r.m(b).v, p.v) == -1, "the addition law is not complete"); }
        must(r.G.x < p && r.G.y < p && r.G.x.sgn() >= 0 && r.G.y.sgn() >= 0, "the generator is not reduced"); must(r.on(r.G.x, r.G.y), "the generator is not on the curve");
        must(r.h > Z(0) && r.n > Z(1), "non-positive order or cofactor"); Z e = p + Z(1) - r.n * r.h; must(e * e <= Z(4) * p, "order times cofactor is outside the Hasse bound"); must(r.n * r.n > Z(4) * p, "the order does not determine the group");
        BP z = r.zero(); must(!(r.G == z), "the generator is the identity"); must(r.mul(r.n, r.G) == z, "the declared order does not kill the generator"); must(r.mul(r.n - Z(1), r.G) == r.neg(r.G), "(n-1)G is not -G");
        { Pt P(L.cv), Q(L.cv); set_pt(P.q, r.G, L.cv); Z k = r.n - Z(1); mpECP_scalar_mul_mpz(Q.q, P.q, k.v); must(same_pt(Q.q, r.neg(r.G), L.cv), "the library computes (n-1)G other than -G"); mpECP_add(Q.q, Q.q, P.q); must(same_pt(Q.q, z, L.cv), "the library computes nG other than the identity"); }
        for (int g = 0; g < NGOLDEN; g++) if (!strcmp(GOLDEN[g].name, name)) { BigRef q(GOLDEN[g]); must(q.f == r.f, "another form than published"); must(q.p == p, "another modulus than published"); must(q.a.mod(p) == r.a && q.b.mod(p) == r.b, "other coefficients than published"); must(q.n == r.n && q.h == r.h, "another order or cofactor than published"); must(q.G == r.G, "another generator than published"); must(q.bits == r.bits, "another bit size than published"); mpECurve_t w; mpECurve_init(w); q.define(w); must(mpECurve_cmp(w, L.cv) == 0 && mpECurve_cmp(L.cv, w) == 0, "the object differs from an explicit definition"); mpECurve_clear(w); }
        c.trace();
    }
    // order times cofactor kills every point: the first points by x coordinate
    Z nh = r.n * r.h; int got = 0;
    for (long x = 0; got < (th ? 60 : 8); x++) {
        bool ok; Z y2 = rhs_y2(r, Z(x), ok); if (!ok || (y2.sgn() && mpz_legendre(y2.v, p.v) != 1)) continue; got++; if (!c.next()) continue;
        Bytes b(1, 2), t = be(Z(x), (r.bits + 7) / 8); b.insert(b.end(), t.begin(), t.end()); Pt P(L.cv); if (mpECP_set_bytes(P.q, b.data(), b.size(), L.cv)) c.fail("%s: x=%ld does not decode", name, x);
        BP Q; mpz_set_mpECP_affine_x(Q.x.v, P.q); mpz_set_mpECP_affine_y(Q.y.v, P.q); if (!r.on(Q.x, Q.y)) c.fail("%s: x=%ld decodes off the curve", name, x);
        must(r.mul(nh, Q) == r.zero(), vc::fmt("order times cofactor does not kill the point with x=%ld", x).c_str()); c.state(vc::hash_str(std::string(name) + Q.x.str())); c.trace();
    }
}
static std::vector<std::string> names(Ctx &c) { char **l = _mpECurve_list_standard_curves(); std::vector<std::string> v; for (int i = 0; l[i]; i++) { v.push_back(l[i]); free(l[i]); if (i > 10000) c.fail("the list of names is not terminated"); } free(l); return v; }
static void list(Ctx &c) {
    if (!c.next()) return; vc::heap_count_on(); names(c); long h0 = vc::heap_live; { auto v = names(c); } if (vc::heap_live != h0) c.fail("listing the names leaves %ld blocks", vc::heap_live - h0);
    auto v = names(c); std::set<std::string> s(v.begin(), v.end()); if (s.size() != v.size()) c.fail("a name is listed twice"); c.trans(v.size());
    for (int g = 0; g < NGOLDEN; g++) if (!s.count(GOLDEN[g].name)) c.fail("%s is no longer listed", GOLDEN[g].name);
    for (auto &n : v) { mpECurve_t w; mpECurve_init(w); if (mpECurve_set_named(w, (char *)n.c_str())) c.fail("the listed name %s is rejected", n.c_str()); mpECurve_clear(w); c.state(vc::hash_str(n)); } c.trace();
}
static void nearmiss(Ctx &c, const char *name) {
    auto v = names(c); std::set<std::string> S(v.begin(), v.end()); std::string n = name; std::vector<std::string> E; 
    for (size_t i = 0; i < n.size(); i++) { for (int ch = 1; ch < 256; ch++) { std::string m = n; m[i] = ch; E.push_back(m); } std::string m = n; m.erase(i, 1); E.push_back(m); m = n; m[i] ^= 0x20; E.push_back(m); E.push_back(n.substr(0, i)); E.push_back(n.substr(i)); if (i + 1 < n.size()) { m = n; std::swap(m[i], m[i + 1]); E.push_back(m); } for (char ch : {' ', '0', '1', 'a', '-', '_'}) { m = n; m.insert(i, 1, ch); E.push_back(m); } }
    for (const char *t : {" ", "\n", "x", "0", "1", "_", "r1"}) { E.push_back(n + t); E.push_back(t + n); } { std::string m = n; for (auto &ch : m) ch = toupper(ch); E.push_back(m); m = n; for (auto &ch : m) ch = tolower(ch); E.push_back(m); } E.push_back(""); E.push_back(n + n); E.push_back(std::string(5000, 'a'));
    mpECurve_t fresh, old; BigRef o(GOLDEN[(n.size() * 7) % NGOLDEN]); mpECurve_init(fresh); mpECurve_init(old); if (o.define(old)) abort(); mpECurve_t keep; mpECurve_init(keep); o.define(keep);
    for (auto &m : E) { if (!c.next()) continue; bool known = S.count(m); c.state(vc::hash_str(n + "/" + m)); c.outcome(known); c.trans(); 
        char *t = strdup(m.c_str()); if (known) { mpECurve_t w; mpECurve_init(w); int e = mpECurve_set_named(w, t); free(t); if (e) c.fail("the name %s is rejected", m.c_str()); const BigRef *g = golden(m.c_str()); if (g && (mpz_cmp(w->n, g->n.v) || mpz_cmp(w->fp->p, g->p.v) || mpz_cmp(w->G[0], g->G.x.v))) c.fail("%s selects another curve", m.c_str()); mpECurve_clear(w); c.trace(); continue; }
        int e = mpECurve_set_named(fresh, t), e2 = mpECurve_set_named(old, t); free(t);
        if (!e || !e2) c.fail("the unknown name \"%s\" is accepted", m.c_str());
        if (fresh->type != EQTypeUninitialized) c.fail("the unknown name \"%s\" leaves a curve in the object", m.c_str());
        if (old->type != EQTypeUninitialized && mpECurve_cmp(old, keep) != 0) c.fail("the unknown name \"%s\" changed the curve in the object", m.c_str());
        c.trace(); }
    mpECurve_clear(fresh); mpECurve_clear(old); mpECurve_clear(keep);
}
static void pairs(Ctx &c, int i) { // one object re-used for two names
    for (int j = 0; j < NGOLDEN; j++) { if (!c.next()) continue; mpECurve_t w, f; mpECurve_init(w); mpECurve_init(f); int e = mpECurve_set_named(w, (char *)GOLDEN[i].name) | mpECurve_set_named(w, (char *)GOLDEN[j].name); BigRef(GOLDEN[j]).define(f); if (e || mpECurve_cmp(w, f) || w->bits != GOLDEN[j].bits) c.fail("%s after %s is not the curve of that name", GOLDEN[j].name, GOLDEN[i].name); mpECurve_clear(w); mpECurve_clear(f); c.state(i * 100 + j + 1000000); c.trans(2); c.trace(); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    std::vector<std::string> all; { char **l = _mpECurve_list_standard_curves(); for (int i = 0; l[i]; i++) { all.push_back(l[i]); free(l[i]); } free(l); }
    vc::unit("list of names", list);
    for (auto &n : all) { static std::vector<std::string *> keep; keep.push_back(new std::string(n)); const char *s = keep.back()->c_str(); vc::unit("entry " + n, [=](Ctx &c) { entry(c, s, th); }); vc::unit("near misses of " + n, [=](Ctx &c) { nearmiss(c, s); }); }
    for (int i = 0; i < NGOLDEN; i++) vc::unit(vc::fmt("re-use after %s", GOLDEN[i].name), [i](Ctx &c) { pairs(c, i); });
    return vc::main_(argc, argv);
}
