// G02: scalar multiplication, general and fixed-base, against repeated addition.
#include "pthist.hpp"
using vc::Ctx;

// every point, every scalar of [-2n-2, 2n+2] and some beyond one word; generator of prime order
static void small(Ctx &c, Form f, long p, long a, long b, bool allpts) {
    RefCurve r{f, p, a, b}; if (!r.build()) return;
    long best = 0; for (size_t i = 0; i < r.pts.size(); i++) { long o = r.order[i]; bool pr = o > 2; for (long d = 2; d * d <= o; d++) if (o % d == 0) pr = false; if (pr && o > best) best = o; }
    if (!best || !r.pick(best)) return;
    LibCurve L(r); mpECurve_ptr cv = L.cv; long n = r.n; Z pn(n);
    for (size_t i = 0; i < r.pts.size(); i++) {
        if (!allpts && (int)i != r.gen && i > 3) continue;
        Pt T(r, i, cv); mpECP_scalar_base_mul_setup(T.q);
        std::vector<Z> K; for (long k = -2 * n - 2; k <= 2 * n + 2; k++) K.push_back(Z(k)); for (long k = 0; k < n; k++) { K.push_back(Z::pow2(64) * pn + Z(k)); K.push_back(Z(k) - Z::pow2(70) * pn); } K.push_back(Z::pow2(200)); K.push_back(Z(0) - Z::pow2(64));
        for (size_t q = 0; q < K.size(); q++) {
            if (!c.next()) continue;
            int want = r.mul(K[q].mod(pn).ul(), i); std::string tag = vc::fmt("%s times %s", K[q].str().c_str(), show(r, i).c_str());
            uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)a, (uint64_t)b, i, K[q].mod(pn).ul()}; c.state(vc::hash_bytes(hh, sizeof hh)); c.outcome(want * 8 + f);
            if (c.cur % 4001 == 11 && c.want_sample()) c.sample("%s: %s (order %ld) = %s", r.name().c_str(), tag.c_str(), n, show(r, want).c_str());
            Pt P(r, i, cv), R(cv); Z k = K[q];
            mpECP_scalar_mul_mpz(R.q, P.q, k.v); expect_pt(c, r, R.q, cv, want, tag.c_str()); if (k != K[q]) c.fail("%s: the scalar argument was changed", tag.c_str());
            expect_pt(c, r, P.q, cv, i, ("operand after " + tag).c_str());
            mpECP_scalar_base_mul_mpz(R.q, T.q, k.v); expect_pt(c, r, R.q, cv, want, ("fixed base: " + tag).c_str()); if (k != K[q]) c.fail("%s: the scalar argument was changed", tag.c_str());
            if (q % 7 == 0 || q < 6) {
                Fe s(k, pn); Pt S(cv); mpECP_scalar_mul(S.q, P.q, s.f); expect_pt(c, r, S.q, cv, want, ("field-element scalar: " + tag).c_str());
                mpECP_scalar_base_mul(S.q, T.q, s.f); expect_pt(c, r, S.q, cv, want, ("field-element scalar, fixed base: " + tag).c_str());
                if (s.get() != k.mod(pn)) c.fail("%s: the scalar argument was changed", tag.c_str());
                mpECP_scalar_mul_mpz(P.q, P.q, k.v); expect_pt(c, r, P.q, cv, want, ("in place: " + tag).c_str());
                if (q % 21 == 0) { Pt U(r, i, cv); mpECP_scalar_base_mul_mpz(U.q, U.q, k.v); expect_pt(c, r, U.q, cv, want, ("fixed base in place: " + tag).c_str()); mpECP_scalar_base_mul_mpz(U.q, U.q, k.v); expect_pt(c, r, U.q, cv, r.mul(K[q].mod(pn).ul(), want), ("fixed base in place twice: " + tag).c_str()); }
            }
            c.trace();
        }
        expect_pt(c, r, T.q, cv, i, "base point after all multiplications");
    }
}
static void named(Ctx &c, const char *name, int part, int parts, bool th) {
    BigRef r = *golden(name); NamedCurve L(name); mpECurve_ptr cv = L.cv; Z n = r.n; unsigned B = std::max<unsigned>(n.bits(), r.bits);
    std::vector<BP> P2(B + 1); P2[0] = r.G; for (unsigned i = 1; i <= B; i++) P2[i] = r.add(P2[i - 1], P2[i - 1]);
    struct S { Z k; BP v; }; std::vector<S> K;
    auto fromG = [&](const Z &k) { K.push_back({k, r.mul(k.mod(n), r.G)}); };
    for (unsigned i = 0; i <= B; i++) { K.push_back({Z::pow2(i), P2[i]}); if (th || i % 4 == 3 || i + 10 > B) K.push_back({Z::pow2(i) - Z(1), r.add(P2[i], r.neg(r.G))}); if (th || i % 16 == 0) { K.push_back({Z::pow2(i) + Z(1), r.add(P2[i], r.G)}); K.push_back({n - Z::pow2(i), r.neg(P2[i])}); } }
    for (unsigned j = 0; j * 8 < B; j++) { fromG(Z(255) * Z::pow2(8 * j)); if (th || j % 4 == 0) { fromG(Z(254) * Z::pow2(8 * j)); fromG(Z(129) * Z::pow2(8 * j)); } }
    for (long d = -3; d <= 3; d++) { fromG(Z(d)); fromG(n + Z(d)); fromG(Z(0) - n + Z(d)); fromG(n * Z(2) + Z(d)); fromG(n / Z(2) + Z(d)); fromG(n * Z::pow2(130) + Z(d)); }
    { Z a; for (unsigned i = 0; i < B; i += 8) a = a * Z(256) + Z(0xAA); fromG(a); fromG(a / Z(2)); fromG(Z::pow2(B) - Z(1)); fromG((Z::pow2(B) - Z(1)).mod(n)); Z h = Z::pow2(n.bits() - 1); fromG(h + h / Z(2)); fromG(n - Z::pow2(n.bits() - 2)); }
    Pt T(cv); set_pt(T.q, r.G, cv); mpECP_scalar_base_mul_setup(T.q);
    for (size_t q = part; q < K.size(); q += parts) {
        if (!c.next()) continue;
        std::string tag = K[q].k.str() + " times the generator"; c.state(vc::hash_str(r.name + tag)); c.outcome(vc::hash_str(r.show(K[q].v)));
        if (c.cur == 5) c.sample("%s: %s = %s", name, tag.c_str(), r.show(K[q].v).c_str());
        Pt P(cv), R(cv); set_pt(P.q, r.G, cv); Z k = K[q].k;
        mpECP_scalar_mul_mpz(R.q, P.q, k.v); expect_bp(c, r, R.q, cv, K[q].v, tag.c_str());
        mpECP_scalar_base_mul_mpz(R.q, T.q, k.v); expect_bp(c, r, R.q, cv, K[q].v, ("fixed base: " + tag).c_str());
        if (k != K[q].k) c.fail("%s: the scalar argument was changed", tag.c_str());
        c.trace();
    }
    if (part) return;
    // other points: the identity, a non-generator multiple, the negative, low-order points; projective operands
    std::vector<BP> X = {r.zero(), r.mul(Z(5), r.G), r.neg(r.G), r.mul(n / Z(2), r.G)};
    { BP t; if (r.f == MO) { t.x = Z(0); t.y = Z(0); X.push_back(t); } if (r.f == ED) { t.y = r.p - r.a; X.push_back(t); t.x = r.a; t.y = Z(0); X.push_back(t); X.push_back(r.add(t, r.G)); } if (r.f == TE) { t.y = r.p - Z(1); X.push_back(t); X.push_back(r.add(t, r.G)); } }
    for (size_t x = 0; x < X.size(); x++) for (Z k : {Z(0), Z(1), Z(2), Z(3), n - Z(1), n, Z(-1), Z::pow2(n.bits() - 1), (Z::pow2(B) - Z(1)).mod(n), n / Z(3)}) {
        if (!c.next()) continue; std::string tag = k.str() + " times " + r.show(X[x]); BP w = r.mul(k.mod(n), X[x]); c.state(vc::hash_str(r.name + tag));
        Pt P(cv), Q(cv), R(cv); set_pt(P.q, X[x], cv); set_pt(Q.q, r.G, cv); mpECP_add(R.q, P.q, Q.q); mpECP_sub(P.q, R.q, Q.q);
        mpECP_scalar_mul_mpz(R.q, P.q, k.v); expect_bp(c, r, R.q, cv, w, tag.c_str());
        if (x != 2) { mpECP_scalar_base_mul_mpz(R.q, P.q, k.v); expect_bp(c, r, R.q, cv, w, ("fixed base: " + tag).c_str()); }
        expect_bp(c, r, P.q, cv, X[x], ("operand after " + tag).c_str()); c.trace();
    }
}
static ph::Cv cvof(Form f, long p, int cls) { RefCurve r = nice(f, p, 3); ph::Cv v; v.r = BigRef(r); v.cls = cls; BP g = v.r.G; v.sample = {g, v.r.add(g, g), v.r.neg(g)}; return v; }
static void hist(Ctx &c, int which, int depth, size_t first) {
    using namespace ph;
    std::vector<Cv> C; C.push_back(which == 0 ? cvof(WS, 11, 0) : which == 1 ? cvof(ED, 13, 0) : which == 2 ? cvof(MO, 13, 0) : cvof(TE, 13, 0));
    std::vector<Op> A; long n = C[0].r.n.ul();
    for (int i = 0; i < 2; i++) {
        A.push_back({SETUP, i, -1, -1, 0}); A.push_back({SETPT, i, -1, 0, 1}); A.push_back({NEUTRAL, i, -1, 0, 0}); A.push_back({READ, i, -1, -1, 0}); A.push_back({DECODE, i, -1, 0, 2}); A.push_back({SETFE, i, -1, 0, 1});
        for (int j = 0; j < 2; j++) { if (i != j) A.push_back({COPY, i, j, -1, 0}); A.push_back({DBL, i, j, -1, 0}); A.push_back({NEG, i, j, -1, 0}); A.push_back({MUL, i, j, -1, n - 2}); A.push_back({BASE, i, j, -1, 3}); A.push_back({ADD, i, j, 0, 0}); A.push_back({ADD, i, j, 1, 0}); }
    }
    A.push_back({SWAP, 0, 1, -1, 0});
    for (int d = 1; d <= depth; d++)
        sequences(c, A, d, first, [&]() { return new World(C, 2); }, [&](World &w, const std::vector<const Op *> &h) {
            for (auto &s : w.s) for (long k : {2l, n - 1}) { Z kk(k); mpECurve_ptr cv = w.obj[0].cv; Pt R(cv); BP want = C[0].r.mul(kk, s.v);
                mpECP_scalar_base_mul_mpz(R.q, s.q, kk.v); if (!same_pt(R.q, want, cv)) { std::string t; for (auto o : h) t += show(*o) + "; "; c.fail("after %sfixed-base multiplication of %s by %ld gives %s, expected %s", t.c_str(), C[0].r.show(s.v).c_str(), k, raw(R.q).c_str(), C[0].r.show(want).c_str()); }
                mpECP_scalar_mul_mpz(R.q, s.q, kk.v); if (!same_pt(R.q, want, cv)) { std::string t; for (auto o : h) t += show(*o) + "; "; c.fail("after %smultiplication of %s by %ld gives %s, expected %s", t.c_str(), C[0].r.show(s.v).c_str(), k, raw(R.q).c_str(), C[0].r.show(want).c_str()); } }
        });
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    for (int f = 0; f < 4; f++) {
        for (long p : th ? std::vector<long>{5, 7, 11, 13, 17, 19} : std::vector<long>{5, 7, 11, 13}) for (int part = 0; part < 4; part++) vc::unit(vc::fmt("%s: curves over F_%ld, part %d", FORM[f], p, part), [=](Ctx &c) {
            auto v = coeff_pairs((Form)f, p); size_t step = th || p <= 7 ? 1 : std::max<size_t>(1, v.size() / 24); for (size_t i = part * step; i < v.size(); i += 4 * step) small(c, (Form)f, p, v[i].first, v[i].second, true); });
        // orders that need more than one 8-bit window, some wider than the field
        for (long p : {241l, 251l, 257l}) vc::unit(vc::fmt("%s: curves over F_%ld", FORM[f], p), [=](Ctx &c) {
            int got = 0; for (long a = 1; a < p && got < (th ? 4 : 1); a += 5) for (long b = 1; b < p && got < (th ? 4 : 1); b += 3) { RefCurve r{(Form)f, p, a, b}; if (!r.valid()) continue; got++; small(c, (Form)f, p, a, b, false); } });
    }
    // the order is wider than the field
    for (long p : {7l, 13l, 31l, 61l, 127l, 251l}) vc::unit(vc::fmt("ws: orders beyond 2^bits over F_%ld", p), [=](Ctx &c) {
        int got = 0; for (long a = 0; a < p && got < (th ? 6 : 2); a++) for (long b = 1; b < p && got < (th ? 6 : 2); b++) { RefCurve r{WS, p, a, b}; if (!r.valid()) continue; long N = 1; std::vector<int> sqr(p, 0); for (long y = 0; y < p; y++) sqr[y * y % p]++; for (long x = 0; x < p; x++) N += sqr[r.m(r.m(x * x) * x + a * x + b)]; bool pr = true; for (long d = 2; d * d <= N; d++) if (N % d == 0) pr = false; if (!pr || N < (1l << r.bits())) continue; got++; small(c, WS, p, a, b, p < 20); } });
    int parts = th ? 8 : 3;
    for (int g = 0; g < NGOLDEN; g++) for (int part = 0; part < parts; part++) vc::unit(vc::fmt("built-in curve %s, part %d", GOLDEN[g].name, part), [=](Ctx &c) { named(c, GOLDEN[g].name, part, parts, th); });
    for (int w = 0; w < 4; w++) for (size_t f = 0; f < 41; f++) vc::unit(vc::fmt("table histories, form %d, first op %zu", w, f), [=](Ctx &c) { hist(c, w, w == 0 || th ? 3 : 2, f); });
    return vc::main_(argc, argv);
}
