// G04: encoding of every point, every format, and decoding of what was encoded.
#include "guard.hpp"
#include "enc.hpp"
using vc::Ctx;

static void one(Ctx &c, const BigRef &r, mpECurve_ptr cv, mpECP_ptr src, const BP &P, const std::string &tag) {
    for (int comp : {0, 1, 2, -1}) {
        Bytes want = encode(r, P, comp != 0); Pt Q(cv); mpECP_set(Q.q, src); mpECP_ptr q = comp == 1 ? src : (mpECP_ptr)Q.q; // also straight from the computed object
        int n = mpECP_out_bytelen(q, comp), m = mpECP_out_strlen(q, comp);
        if (n != (int)want.size()) c.fail("%s %s: announced length %d, expected %zu (compress=%d)", r.name.c_str(), tag.c_str(), n, want.size(), comp);
        if (m != 2 * n) c.fail("%s %s: announced text length %d, expected %d (compress=%d)", r.name.c_str(), tag.c_str(), m, 2 * n, comp);
        unsigned char *b = (unsigned char *)malloc(n); memset(b, 0xEE, n); mpECP_out_bytes(b, q, comp); c.trans();
        if (memcmp(b, want.data(), n)) c.fail("%s %s: encoded as %s, expected %s (compress=%d)", r.name.c_str(), tag.c_str(), vc::hex(b, n).c_str(), vc::hex(want.data(), n).c_str(), comp);
        char *s = (char *)malloc(m + 1); memset(s, 0x7E, m + 1); mpECP_out_str(s, q, comp); c.trans();
        if (s[m] != 0 || up(want) != s) { s[m] = 0; c.fail("%s %s: encoded as text %s, expected %s (compress=%d)", r.name.c_str(), tag.c_str(), s, up(want).c_str(), comp); }
        if (!same_pt(q, P, cv)) c.fail("%s %s: encoding changed the point", r.name.c_str(), tag.c_str());
        if (comp >= 0 && comp < 2) {
            Pt D(cv); if (comp) set_pt(D.q, r.G, cv);
            int e = mpECP_set_bytes(D.q, b, n, cv); if (e || !same_pt(D.q, P, cv) || mpECP_cmp(D.q, src) != 0) c.fail("%s %s: %s decodes to %s (status %d)", r.name.c_str(), tag.c_str(), vc::hex(b, n).c_str(), e ? "an error" : raw(D.q).c_str(), e);
            Pt E(cv); if (!comp) { set_pt(E.q, r.G, cv); }
            e = mpECP_set_str(E.q, s, cv); if (e || !same_pt(E.q, P, cv)) c.fail("%s %s: text %s decodes to %s (status %d)", r.name.c_str(), tag.c_str(), s, e ? "an error" : raw(E.q).c_str(), e);
            c.trans(2);
        }
        free(b); free(s);
    }
    c.trace(); c.outcome(vc::hash_str(up(encode(r, P, false)) + r.name));
}
static void curve(Ctx &c, Form f, long p, long a, long b, bool scaled) {
    RefCurve r{f, p, a, b}; if (!r.build()) return; BigRef R(r); LibCurve L(r); mpECurve_ptr cv = L.cv; int N = r.pts.size();
    for (int i = 0; i < N; i++) for (int rep = 0; rep < (scaled ? 4 : 2); rep++) {
        if (!c.next()) continue; uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)a, (uint64_t)b, (uint64_t)i}; c.state(vc::hash_bytes(hh, sizeof hh));
        BP P; P.inf = r.pts[i].inf; P.x = Z(r.pts[i].x); P.y = Z(r.pts[i].y);
        Pt q(r, i, cv); if (rep) { int k = (rep * 5 + i) % N; Pt d(r, r.tab[i][r.neg[k]], cv), e(r, k, cv); mpECP_add(q.q, d.q, e.q); if (rep > 2) { mpECP_neg(q.q, q.q); mpECP_neg(q.q, q.q); } }
        if (c.cur % 997 == 5) c.sample("%s: %s -> %s", R.name.c_str(), R.show(P).c_str(), up(encode(R, P, true)).c_str());
        one(c, R, cv, q.q, P, vc::fmt("point %s scaling %d", R.show(P).c_str(), rep));
    }
}
static void named(Ctx &c, const char *name, bool th) {
    BigRef r = *golden(name); NamedCurve L(name); mpECurve_ptr cv = L.cv; std::vector<std::pair<Z, BP>> S; BP q = r.G; size_t Lb = (r.bits + 7) / 8;
    S.push_back({Z(0), r.zero()}); int lim = th ? 3000 : 700;
    for (int k = 1; k <= lim; k++) { bool shortx = q.x.bits() <= 8 * (Lb - 1), shorty = q.y.bits() <= 8 * (Lb - 1); if (k <= 12 || shortx || shorty || (th && k % 20 == 0)) { S.push_back({Z(k), q}); if (shortx || shorty) S.push_back({Z(-k), r.neg(q)}); } q = r.add(q, r.G); }
    for (long k = 1; k < 5; k++) S.push_back({Z(-k), r.neg(r.mul(Z(k), r.G))});
    { BP t; if (r.f == MO) { t.x = Z(0); t.y = Z(0); S.push_back({Z(0), t}); } if (r.f == ED) { t.y = r.p - r.a; S.push_back({Z(0), t}); t.x = r.a; t.y = Z(0); S.push_back({Z(0), t}); } if (r.f == TE) { t.y = r.p - Z(1); S.push_back({Z(0), t}); } }
    for (auto &s : S) for (int rep = 0; rep < 2; rep++) {
        if (!c.next()) continue; c.state(vc::hash_str(r.name + r.show(s.second))); Pt P(cv); set_pt(P.q, s.second, cv);
        if (rep) { Pt g(cv); set_pt(g.q, r.mul(Z(17), r.G), cv); mpECP_add(P.q, P.q, g.q); mpECP_sub(P.q, P.q, g.q); }
        if (c.cur == 21) c.sample("%s: %s -> %s", name, r.show(s.second).c_str(), up(encode(r, s.second, true)).c_str());
        one(c, r, cv, P.q, s.second, "point " + r.show(s.second));
    }
}
// a Montgomery curve with B other than 1 over a large field, and an Edwards curve with c other than 1: images of built-in curves
static void scaledcurve(Ctx &c, const char *name, long u) {
    BigRef r = *golden(name); // B y^2 -> B u^2 (y/u)^2 ; Edwards (x, y) -> (ux, uy), c -> cu, d -> d/u^4
    Z U(u); if (r.f == MO) { r.a = r.m(r.a * U * U); r.G.y = r.m(r.G.y * r.inv(U)); } else if (r.f == ED) { r.a = r.m(r.a * U); r.b = r.m(r.b * r.inv(U * U * U * U)); r.G.x = r.m(r.G.x * U); r.G.y = r.m(r.G.y * U); } else { r.a = r.m(r.a * r.inv(U * U)); r.b = r.m(r.b * r.inv(U * U)); r.G.x = r.m(r.G.x * U); }
    r.name += vc::fmt(" scaled by %ld", u); if (!r.on(r.G.x, r.G.y)) abort();
    mpECurve_t cv; mpECurve_init(cv); if (r.define(cv)) c.fail("%s is refused", r.name.c_str()); BP q = r.G;
    for (int k = 1; k <= 40; k++, q = r.add(q, r.G)) { if (!c.next()) continue; c.state(vc::hash_str(r.name + r.show(q))); Pt P(cv); set_pt(P.q, r.G, cv); Z kk(k); mpECP_scalar_mul_mpz(P.q, P.q, kk.v); one(c, r, cv, P.q, q, vc::fmt("%d times the generator", k)); }
    mpECurve_clear(cv);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    for (int f = 0; f < 4; f++) {
        for (long p : th ? std::vector<long>{5, 7, 11, 13, 17, 19, 23} : std::vector<long>{5, 7, 11, 13}) for (int part = 0; part < 2; part++) vc::unit(vc::fmt("%s: all curves over F_%ld, part %d", FORM[f], p, part), [=](Ctx &c) { auto v = coeff_pairs((Form)f, p); for (size_t i = part; i < v.size(); i += 2) curve(c, (Form)f, p, v[i].first, v[i].second, true); });
        for (long p : {127l, 131l, 251l, 257l, 263l, 521l}) vc::unit(vc::fmt("%s: curves over F_%ld", FORM[f], p), [=](Ctx &c) {
            int got = 0; for (long a = 1; a < p && got < (th ? 8 : 3); a += 5) for (long b = 1; b < p && got < (th ? 8 : 3); b += 3) { RefCurve r{(Form)f, p, a, b}; if (!r.valid()) continue; got++; curve(c, (Form)f, p, a, b, false); } });
    }
    for (int g = 0; g < NGOLDEN; g++) { vc::unit(vc::fmt("built-in curve %s", GOLDEN[g].name), [=](Ctx &c) { named(c, GOLDEN[g].name, th); });
        if (GOLDEN[g].form != WS) for (long u : {2l, 5l, -3l}) vc::unit(vc::fmt("%s scaled by %ld", GOLDEN[g].name, u), [=](Ctx &c) { scaledcurve(c, GOLDEN[g].name, u); }); }
    return vc::main_(argc, argv);
}
