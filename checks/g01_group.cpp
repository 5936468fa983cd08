// G01: the group law on all pairs of points of all small curves, against brute force.
#include "guard.hpp"
#include "bigref.hpp"
using vc::Ctx;

// rep 0: affine; rep r: (P - Q_r) + Q_r, i.e. another internal scaling of the same point
static void make(const RefCurve &r, mpECurve_ptr cv, Pt &t, int P, int rep) {
    t.set(r, P, cv); if (!rep) return;
    int Q = (rep * 7 + P * 3 + 1) % r.pts.size(), D = r.tab[P][r.neg[Q]];
    Pt d(r, D, cv), q(r, Q, cv); mpECP_add(t.q, d.q, q.q);
    if (rep > 3) { mpECP_double(d.q, t.q); mpECP_sub(t.q, d.q, t.q); }
}
static void curve(Ctx &c, Form f, long p, long a, long b, int reps, bool assoc) {
    RefCurve r{f, p, a, b}; if (!r.build()) return;
    if (!r.group_ok(assoc)) { fprintf(stderr, "reference is not a group\n"); abort(); }
    LibCurve L(r); mpECurve_ptr cv = L.cv; int N = r.pts.size();
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int ra = 0; ra < reps; ra++) for (int rb = 0; rb < reps; rb++) {
        if (!c.next()) continue;
        int sum = r.tab[i][j], dif = r.tab[i][r.neg[j]], dbl = r.tab[i][i];
        uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)a, (uint64_t)b, (uint64_t)i, (uint64_t)j}; c.state(vc::hash_bytes(hh, sizeof hh)); c.outcome(sum * 64 + f);
        std::string tag = vc::fmt("P=%s Q=%s (scalings %d,%d)", show(r, i).c_str(), show(r, j).c_str(), ra, rb);
        auto w = [&](const char *s) { return s + (" " + tag); };
        if (c.cur % 3001 == 11 && c.want_sample()) c.sample("%s: %s -> P+Q=%s", r.name().c_str(), tag.c_str(), show(r, sum).c_str());
        Pt P(cv), Q(cv), R(cv); make(r, cv, P, i, ra); make(r, cv, Q, j, rb);
        int e = mpECP_cmp(P.q, Q.q); if ((e == 0) != (i == j)) c.fail("%s: comparison gives %d on %s", tag.c_str(), e, r.name().c_str()); c.trans();
        mpECP_add(R.q, P.q, Q.q); expect_pt(c, r, R.q, cv, sum, w("P+Q").c_str());
        { Pt S(cv); mpECP_sub(S.q, P.q, Q.q); expect_pt(c, r, S.q, cv, dif, w("P-Q").c_str()); }
        // result shares storage with an operand
        { Pt S(cv); mpECP_set(S.q, P.q); mpECP_add(S.q, S.q, Q.q); expect_pt(c, r, S.q, cv, sum, w("P+=Q").c_str()); }
        { Pt S(cv); mpECP_set(S.q, Q.q); mpECP_add(S.q, P.q, S.q); expect_pt(c, r, S.q, cv, sum, w("Q=P+Q").c_str()); }
        { Pt S(cv); mpECP_set(S.q, P.q); mpECP_sub(S.q, S.q, Q.q); expect_pt(c, r, S.q, cv, dif, w("P-=Q").c_str()); }
        { Pt S(cv); mpECP_set(S.q, Q.q); mpECP_sub(S.q, P.q, S.q); expect_pt(c, r, S.q, cv, dif, w("Q=P-Q").c_str()); }
        if (i == j) {
            Pt S(cv); mpECP_double(S.q, P.q); expect_pt(c, r, S.q, cv, dbl, w("2P").c_str());
            mpECP_set(S.q, P.q); mpECP_double(S.q, S.q); expect_pt(c, r, S.q, cv, dbl, w("P=2P").c_str());
            mpECP_set(S.q, P.q); mpECP_add(S.q, S.q, S.q); expect_pt(c, r, S.q, cv, dbl, w("P=P+P").c_str());
            mpECP_set(S.q, P.q); mpECP_sub(S.q, S.q, S.q); expect_pt(c, r, S.q, cv, r.zero, w("P=P-P").c_str());
            mpECP_neg(S.q, P.q); expect_pt(c, r, S.q, cv, r.neg[i], w("-P").c_str());
            mpECP_set(S.q, P.q); mpECP_neg(S.q, S.q); expect_pt(c, r, S.q, cv, r.neg[i], w("P=-P").c_str());
            mpECP_add(S.q, P.q, P.q); expect_pt(c, r, S.q, cv, dbl, w("P+P").c_str());
            // a sum fed back un-normalised
            mpECP_double(S.q, P.q); mpECP_add(S.q, S.q, P.q); mpECP_double(S.q, S.q); expect_pt(c, r, S.q, cv, r.mul(6, i), w("2(2P+P)").c_str());
            // element constructors
            if (!r.pts[i].inf) { Z x(r.pts[i].x), y(r.pts[i].y), pp(p); Fe fx(x, pp), fy(y, pp); mpECP_set_mpFp(S.q, fx.f, fy.f, cv); expect_pt(c, r, S.q, cv, i, w("point from field elements").c_str());
                Fe gx(pp), gy(pp); mpFp_set_mpECP_affine_x(gx.f, P.q); mpFp_set_mpECP_affine_y(gy.f, P.q); if (gx.get() != x || gy.get() != y) c.fail("%s: affine coordinates as field elements are (0x%s,0x%s)", tag.c_str(), gx.get().str().c_str(), gy.get().str().c_str());
                Z u = x + Z(p) * Z(3), v = y - Z(p); mpECP_set_mpz(S.q, u.v, v.v, cv); expect_pt(c, r, S.q, cv, i, w("point from unreduced integers").c_str()); }
        }
        // operands unchanged
        expect_pt(c, r, P.q, cv, i, w("first operand afterwards").c_str()); expect_pt(c, r, Q.q, cv, j, w("second operand afterwards").c_str());
        c.trace();
    }
}
// boundary multiples of the generator (and low-order points of Montgomery/Edwards forms) on a built-in curve
static void named(Ctx &c, const char *name, bool th) {
    BigRef r = *golden(name); NamedCurve L(name); mpECurve_ptr cv = L.cv;
    std::vector<std::pair<std::string, BP>> S; auto put = [&](const std::string &n, const BP &p) { for (auto &x : S) if (x.second == p) return; S.push_back({n, p}); };
    put("O", r.zero()); for (long k : {1, 2, 3, 4, 5, 7, 8}) put(vc::fmt("%ldG", k), r.mul(Z(k), r.G));
    for (long k : {1, 2, 3, 8}) put(vc::fmt("-%ldG", k), r.mul(Z(-k), r.G));
    put("(n/2)G", r.mul(r.n / Z(2), r.G)); put("(n/2+1)G", r.mul(r.n / Z(2) + Z(1), r.G)); put("(2^64)G", r.mul(Z::pow2(64), r.G));
    { BP t; bool have = true; if (r.f == MO) { t.x = Z(0); t.y = Z(0); } else if (r.f == ED) { t.x = Z(0); t.y = r.p - r.a; } else if (r.f == TE) { t.x = Z(0); t.y = r.p - Z(1); } else have = false;
      if (have) { put("T", t); put("G+T", r.add(r.G, t)); put("2G+T", r.add(r.mul(Z(2), r.G), t)); put("-G+T", r.add(r.neg(r.G), t)); }
      if (r.f == ED) { BP u; u.x = r.a; u.y = Z(0); put("U", u); put("G+U", r.add(r.G, u)); put("-U", r.neg(u)); } }
    // points whose coordinates are small: multiples with a short x or y
    int N = S.size();
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int rep = 0; rep < 3; rep++) {
        if (!c.next()) continue; const BP &P0 = S[i].second, &Q0 = S[j].second;
        BP sum = r.add(P0, Q0), dif = r.add(P0, r.neg(Q0)); c.state(vc::hash_str(r.name + S[i].first + "|" + S[j].first)); c.outcome(vc::hash_str(r.show(sum)));
        std::string tag = vc::fmt("P=%s Q=%s scaling %d", S[i].first.c_str(), S[j].first.c_str(), rep);
        Pt P(cv), Q(cv), R(cv); set_pt(P.q, P0, cv); set_pt(Q.q, Q0, cv);
        if (rep) { Pt g(cv), h(cv); set_pt(g.q, r.mul(Z(11), r.G), cv); mpECP_add(h.q, P.q, g.q); mpECP_sub(P.q, h.q, g.q); if (rep > 1) { mpECP_sub(h.q, Q.q, g.q); mpECP_add(Q.q, h.q, g.q); } }
        if ((mpECP_cmp(P.q, Q.q) == 0) != (P0 == Q0)) c.fail("%s on %s: comparison is wrong", tag.c_str(), name);
        mpECP_add(R.q, P.q, Q.q); expect_bp(c, r, R.q, cv, sum, ("P+Q " + tag).c_str());
        mpECP_sub(R.q, P.q, Q.q); expect_bp(c, r, R.q, cv, dif, ("P-Q " + tag).c_str());
        mpECP_set(R.q, P.q); mpECP_add(R.q, R.q, Q.q); expect_bp(c, r, R.q, cv, sum, ("P+=Q " + tag).c_str());
        mpECP_set(R.q, Q.q); mpECP_sub(R.q, P.q, R.q); expect_bp(c, r, R.q, cv, dif, ("Q=P-Q " + tag).c_str());
        if (i == j) { mpECP_double(R.q, P.q); expect_bp(c, r, R.q, cv, sum, ("2P " + tag).c_str()); mpECP_set(R.q, P.q); mpECP_double(R.q, R.q); expect_bp(c, r, R.q, cv, sum, ("P=2P " + tag).c_str()); mpECP_neg(R.q, P.q); expect_bp(c, r, R.q, cv, r.neg(P0), ("-P " + tag).c_str()); mpECP_neg(R.q, R.q); expect_bp(c, r, R.q, cv, P0, ("-(-P) " + tag).c_str()); }
        expect_bp(c, r, P.q, cv, P0, ("first operand afterwards " + tag).c_str()); expect_bp(c, r, Q.q, cv, Q0, ("second operand afterwards " + tag).c_str()); c.trace();
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    std::vector<long> full = {5, 7, 11}, some = {13, 17, 19, 23}; if (th) { full = {5, 7, 11, 13, 17}; some = {19, 23, 29, 31, 37, 61}; }
    for (int f = 0; f < 4; f++) {
        for (long p : full) for (int part = 0; part < 8; part++) vc::unit(vc::fmt("%s: all curves over F_%ld, part %d", FORM[f], p, part), [=](Ctx &c) {
            auto v = coeff_pairs((Form)f, p); for (size_t i = part; i < v.size(); i += 8) curve(c, (Form)f, p, v[i].first, v[i].second, p <= 7 ? 6 : th ? 6 : 3, true); });
        for (long p : some) for (int part = 0; part < 8; part++) vc::unit(vc::fmt("%s: curves over F_%ld, part %d", FORM[f], p, part), [=](Ctx &c) {
            auto v = coeff_pairs((Form)f, p); size_t want = th ? 64 : 16, step = std::max<size_t>(1, v.size() / want); for (size_t i = part * step; i < v.size(); i += 8 * step) curve(c, (Form)f, p, v[i].first, v[i].second, 2, false); });
    }
    for (int g = 0; g < NGOLDEN; g++) vc::unit(vc::fmt("built-in curve %s", GOLDEN[g].name), [=](Ctx &c) { named(c, GOLDEN[g].name, th); });
    return vc::main_(argc, argv);
}
