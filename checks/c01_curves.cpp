// C01: comparison, copy and re-definition of curve objects.
#include "guard.hpp"
#include "enc.hpp"
using vc::Ctx;

struct Def { int form; Z p, a, b, n, h, gx, gy; unsigned bits; std::string tag;
    bool same(const Def &o) const { return form == o.form && p == o.p && a.mod(p) == o.a.mod(o.p) && b.mod(p) == o.b.mod(o.p) && n == o.n && h == o.h && gx == o.gx && gy == o.gy; }
    BigRef ref() const { BigRef r; r.f = (Form)form; r.name = tag; r.p = p; r.a = a.mod(p); r.b = b.mod(p); r.n = n; r.h = h; r.G.x = gx; r.G.y = gy; r.bits = bits; return r; }
    int mpz(mpECurve_ptr cv) const { Z P = p, A = a, B = b, N = n, H = h, X = gx, Y = gy; int e = LibCurve::define(cv, (Form)form, P, A, B, N, H, X, Y, bits); if (P != p || A != a || B != b || N != n || H != h || X != gx || Y != gy) { fprintf(stderr, "a definition changed its arguments\n"); abort(); } return e; }
    int str(mpECurve_ptr cv, bool hex) const {
        auto t = [&](const Z &z) { if (hex) return (z.sgn() < 0 ? "-0x" + (Z(0) - z).str() : "0x" + z.str()); char b[2048]; mpz_get_str(b, 10, z.v); return std::string(b); };
        std::string s[7] = {t(p), t(a), t(b), t(n), t(h), t(gx), t(gy)}; char *q[7]; for (int i = 0; i < 7; i++) q[i] = &s[i][0];
        switch (form) { case WS: return mpECurve_set_str_ws(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); case ED: return mpECurve_set_str_ed(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); case MO: return mpECurve_set_str_mo(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); default: return mpECurve_set_str_te(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); }
    }
};
static Def def(const BigRef &r, const std::string &t) { return Def{(int)r.f, r.p, r.a, r.b, r.n, r.h, r.G.x, r.G.y, r.bits, t}; }
// curves that differ from one another in exactly one parameter (the generator may be off the curve; comparison does not care)
static std::vector<Def> variants(const Def &d) {
    std::vector<Def> v; auto put = [&](Def x, const char *t) { x.tag = d.tag + " with another " + t; if (x.p.bits() > x.bits) x.bits = x.p.bits(); for (auto &o : v) if (o.same(x)) return; v.push_back(x); };
    v.push_back(d); Def x = d;
    x = d; x.a = d.a + Z(1); put(x, "first coefficient"); x = d; x.b = d.b + Z(1); put(x, "second coefficient"); x = d; x.n = d.n + Z(2); put(x, "order"); x = d; x.h = d.h + Z(1); put(x, "cofactor");
    x = d; x.gy = (Z(0) - d.gy).mod(d.p); put(x, "generator y"); x = d; x.gx = (Z(0) - d.gx).mod(d.p); put(x, "generator x"); x = d; x.gx = d.gx + Z(1); put(x, "generator x (next)"); x = d; x.gy = d.gy - Z(1); put(x, "generator y (previous)");
    x = d; x.a = d.a - Z(1); put(x, "first coefficient (previous)"); x = d; x.b = (Z(0) - d.b).mod(d.p); put(x, "sign of the second coefficient"); x = d; x.a = (Z(0) - d.a).mod(d.p); put(x, "sign of the first coefficient");
    x = d; x.gy = Z(0) - d.gy; put(x, "sign of generator y"); x = d; x.gx = Z(0) - d.gx; put(x, "sign of generator x"); x = d; x.h = Z(0) - d.h; put(x, "sign of the cofactor"); x = d; x.gx = d.gx + Z::pow2(64); put(x, "generator x (second word)"); x = d; x.gy = d.gy + Z::pow2(64); put(x, "generator y (second word)"); x = d; x.h = d.h + Z::pow2(64); put(x, "cofactor (second word)");
    for (int k = -1; k < 2; k += 2) { x = d; x.a = d.a + Z(k) * d.p; x.tag = d.tag + " with the first coefficient a multiple of p away"; v.push_back(x); x = d; x.b = d.b + Z(k) * d.p; x.tag = d.tag + " with the second coefficient a multiple of p away"; v.push_back(x); }
    x = d; std::swap(x.a, x.b); put(x, "order of coefficients"); x = d; x.n = d.n * Z(2); put(x, "order (doubled)"); x = d; x.n = d.n + Z::pow2(64); put(x, "order (second word)");
    x = d; x.p = next_prime(d.p); put(x, "field (next prime)"); x = d; x.p = next_prime(d.p + Z::pow2(64)); put(x, "field (longer)"); if (d.p > Z(11)) { x = d; x.p = prev_prime(d.p); put(x, "field (previous prime)"); }
    if (d.p.bits() > 64) { for (int k = 1; k < 400; k++) { x = d; x.p = d.p + Z(k) * Z::pow2(64); if (mpz_probab_prime_p(x.p.v, 15)) { put(x, "field (same low word)"); break; } } }
    for (int f = 0; f < 4; f++) { x = d; x.form = f; put(x, "form"); }
    return v;
}
static bool invertible(const Def &d) { return d.form != MO || d.a.mod(d.p).sgn() != 0; }
static void compare(Ctx &c, const std::vector<Def> &V) {
    std::vector<Def> U; for (auto &d : V) if (invertible(d)) U.push_back(d); size_t n = U.size(); std::vector<mpECurve_ptr> A(n), B(n);
    for (size_t i = 0; i < n; i++) { A[i] = (mpECurve_ptr)malloc(sizeof(mpECurve_t)); B[i] = (mpECurve_ptr)malloc(sizeof(mpECurve_t)); mpECurve_init(A[i]); mpECurve_init(B[i]); int ea = U[i].mpz(A[i]), eb = U[i].str(B[i], i & 1); bool on = U[i].ref().on(U[i].gx, U[i].gy);
        if ((ea == 0) != on) c.fail("defining %s from integers gives status %d, its generator is %son the curve", U[i].tag.c_str(), ea, on ? "" : "not "); if ((eb == 0) != on) c.fail("defining %s from text gives status %d, its generator is %son the curve", U[i].tag.c_str(), eb, on ? "" : "not "); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (int k = 0; k < 2; k++) {
        if (!c.next()) continue; bool same = U[i].same(U[j]); int e = mpECurve_cmp(A[i], k ? A[j] : B[j]); c.trans(); c.trace(); c.state(vc::hash_str(U[i].tag + "|" + U[j].tag)); c.outcome((e == 0) * 2 + same + 4 * (U[i].form == U[j].form) + 8 * (U[i].p == U[j].p));
        if (c.cur == 40) c.sample("%s vs %s: %s", U[i].tag.c_str(), U[j].tag.c_str(), same ? "equal" : "different");
        if ((e == 0) != same) c.fail("comparing [%s] with [%s] gives %d, they are %s", U[i].tag.c_str(), U[j].tag.c_str(), e, same ? "equal" : "different");
    }
    for (size_t i = 0; i < n; i++) { mpECurve_clear(A[i]); mpECurve_clear(B[i]); free(A[i]); free(B[i]); }
}
// histories
struct Op { int k, i, j, d; }; enum { DEFM, DEFS, DEFD, NAMED, COPY, RENEW, BADGEN, NONAME, USE };
static std::string show(const Op &o) { static const char *n[] = {"define from integers", "define from hex text", "define from decimal text", "define by name", "copy", "clear+init", "define with a wrong generator", "define by unknown name", "use"}; return vc::fmt("%s(slot %d <- %d; %d); ", n[o.k], o.i, o.j, o.d); }
struct Slot { mpECurve_t cv; int d; }; // d: index of definition, -1 nothing usable
struct World {
    const std::vector<Def> &D; const std::vector<const char *> &N; const std::vector<Def> &ND; std::vector<Slot> s;
    World(const std::vector<Def> &d, const std::vector<const char *> &n, const std::vector<Def> &nd, int k) : D(d), N(n), ND(nd), s(k) { for (auto &x : s) { mpECurve_init(x.cv); x.d = -1; } }
    ~World() { for (auto &x : s) mpECurve_clear(x.cv); }
    const Def &at(int d) { return d < (int)D.size() ? D[d] : ND[d - D.size()]; }
    bool enabled(const Op &o) { if (o.k == COPY) return s[o.j].d >= 0; if (o.k == USE) return s[o.i].d >= 0; return true; }
    void apply(Ctx &c, const Op &o) {
        Slot &a = s[o.i]; int e = 0, want = 0; c.trans();
        switch (o.k) {
            case DEFM: e = D[o.d].mpz(a.cv); a.d = o.d; break; case DEFS: e = D[o.d].str(a.cv, true); a.d = o.d; break; case DEFD: e = D[o.d].str(a.cv, false); a.d = o.d; break;
            case NAMED: e = mpECurve_set_named(a.cv, (char *)N[o.d]); a.d = D.size() + o.d; break;
            case COPY: mpECurve_set(a.cv, s[o.j].cv); a.d = s[o.j].d; break;
            case RENEW: mpECurve_clear(a.cv); mpECurve_init(a.cv); a.d = -1; break;
            case BADGEN: { Def x = D[o.d]; x.gx = x.gx + Z(1); while (x.ref().on(x.gx, x.gy)) x.gx = x.gx + Z(1); e = x.mpz(a.cv); want = 1; a.d = -1; break; }
            case NONAME: { int keep = a.d; e = mpECurve_set_named(a.cv, (char *)"secp256k2"); want = 1; a.d = keep; break; }
            case USE: use(c, a, false); return;
        }
        if ((e != 0) != (want != 0)) c.fail("%sreturned %d", show(o).c_str(), e);
    }
    void use(Ctx &c, Slot &a, bool deep) {
        const Def &d = at(a.d); BigRef r = d.ref(); mpECurve_ptr cv = a.cv; static const int T[] = {EQTypeShortWeierstrass, EQTypeEdwards, EQTypeMontgomery, EQTypeTwistedEdwards};
        if (cv->type != T[d.form] || mpz_cmp(cv->fp->p, d.p.v) || mpz_cmp(cv->n, d.n.v) || mpz_cmp(cv->h, d.h.v) || mpz_cmp(cv->G[0], d.gx.v) || mpz_cmp(cv->G[1], d.gy.v) || cv->bits != d.bits) c.fail("the parameters read from the object are not those of %s", d.tag.c_str());
        BP g2 = r.add(r.G, r.G), g3 = r.add(g2, r.G);
        for (auto &p : {r.G, g2, r.neg(r.G)}) if (!p.inf && !mpECurve_point_check(cv, (mpz_ptr)p.x.v, (mpz_ptr)p.y.v)) c.fail("%s is not accepted as a point of %s", r.show(p).c_str(), d.tag.c_str());
        Z bx = d.gx + Z(1); if (mpECurve_point_check(cv, bx.v, (mpz_ptr)d.gy.v) != r.on(bx, d.gy)) c.fail("membership of (Gx+1, Gy) on %s is wrong", d.tag.c_str());
        if (!deep) return;
        Pt P(cv), Q(cv); set_pt(P.q, r.G, cv); mpECP_add(Q.q, P.q, P.q); if (!same_pt(Q.q, g2, cv)) c.fail("2G on a re-used curve object %s is %s, expected %s", d.tag.c_str(), raw(Q.q).c_str(), r.show(g2).c_str());
        mpECP_add(Q.q, Q.q, P.q); Bytes w = encode(r, g3, true); Bytes b(w.size() + 8); if (mpECP_out_bytelen(Q.q, 1) != (int)w.size()) c.fail("encoding length on a re-used curve object %s is %d", d.tag.c_str(), mpECP_out_bytelen(Q.q, 1)); mpECP_out_bytes(b.data(), Q.q, 1); if (memcmp(b.data(), w.data(), w.size())) c.fail("3G on a re-used curve object %s encodes as %s", d.tag.c_str(), vc::hex(b.data(), w.size()).c_str());
        Pt R(cv); if (mpECP_set_bytes(R.q, w.data(), w.size(), cv) || mpECP_cmp(R.q, Q.q)) c.fail("3G does not decode on a re-used curve object %s", d.tag.c_str());
    }
    void check(Ctx &c) {
        for (auto &x : s) if (x.d >= 0) { use(c, x, true); mpECurve_t f; mpECurve_init(f); at(x.d).mpz(f); int e = mpECurve_cmp(f, x.cv), g = mpECurve_cmp(x.cv, f); mpECurve_clear(f); if (e || g) c.fail("a curve object differs from a fresh definition of %s (%d,%d)", at(x.d).tag.c_str(), e, g); }
        for (auto &x : s) for (auto &y : s) if (x.d >= 0 && y.d >= 0) { int e = mpECurve_cmp(x.cv, y.cv); if ((e == 0) != at(x.d).same(at(y.d))) c.fail("comparing objects defined as %s and %s gives %d", at(x.d).tag.c_str(), at(y.d).tag.c_str(), e); }
    }
    uint64_t hash() { uint64_t h = 1; for (auto &x : s) h = h * 97 + x.d + 2; return h; }
};
static void hist(Ctx &c, const std::vector<Def> &D, const std::vector<const char *> &N, int slots, int depth, size_t first, bool small) {
    std::vector<Def> ND; for (auto n : N) ND.push_back(def(*golden(n), n));
    std::vector<Op> A; for (int i = 0; i < slots; i++) { for (size_t d = 0; d < D.size(); d++) { A.push_back({DEFM, i, -1, (int)d}); if (!small) { A.push_back({DEFS, i, -1, (int)d}); } if (!small || d == 0) A.push_back({BADGEN, i, -1, (int)d}); } if (!small) A.push_back({DEFD, i, -1, 0}); for (size_t d = 0; d < N.size(); d++) A.push_back({NAMED, i, -1, (int)d}); for (int j = 0; j < slots; j++) A.push_back({COPY, i, j, 0}); A.push_back({RENEW, i, -1, 0}); A.push_back({NONAME, i, -1, 0}); A.push_back({USE, i, -1, 0}); }
    if (first >= A.size()) return; vc::heap_count_on();
    { World w(D, N, ND, slots); for (int r = 0; r < 2; r++) for (auto &o : A) if (w.enabled(o)) w.apply(c, o); for (auto &d : D) { mpECurve_t f; mpECurve_init(f); d.mpz(f); mpECurve_clear(f); } w.check(c); for (size_t d = 0; d < N.size(); d++) { Op o{NAMED, 0, -1, (int)d}; w.apply(c, o); w.check(c); } }
    for (int dep = 1; dep <= depth; dep++) { std::vector<size_t> ix(dep, 0); ix[0] = first;
        for (;;) {
            if (c.next()) { std::string path; path.reserve(1000); long g0 = guard::live, h0 = vc::heap_live; bool bad = false; { World w(D, N, ND, slots); bool ok = true;
                for (int d = 0; d < dep; d++) { const Op &o = A[ix[d]]; if (!w.enabled(o)) { ok = false; for (int e = d + 1; e < dep; e++) ix[e] = A.size() - 1; break; } snprintf(c.sh->msg, sizeof c.sh->msg, "%s", ""); w.apply(c, o); }
                if (ok) { try { w.check(c); } catch (vc::Violation &) { for (int d = 0; d < dep; d++) path += show(A[ix[d]]); std::string m = std::string(c.sh->msg); c.fail("after %s%s", path.c_str(), m.c_str()); } c.trace(); } c.state(w.hash() * 8 + dep); c.outcome(w.hash()); if (ok && c.cur % 2003 == 9 && c.want_sample()) { std::string t; for (int d = 0; d < dep; d++) t += show(A[ix[d]]); c.sample("%s", t.c_str()); } }
                if (guard::live != g0 || vc::heap_live - (path.capacity() > 4000) != h0) { std::string t; for (int d = 0; d < dep; d++) t += show(A[ix[d]]); c.fail("memory is not balanced (%ld number blocks, %ld heap blocks) after %s", guard::live - g0, vc::heap_live - h0, t.c_str()); } }
            int d = dep - 1; while (d >= 1 && ++ix[d] == A.size()) { ix[d] = 0; d--; } if (d < 1) break; } }
}
// definitions that have to be refused: text that is no number in one or several places, a modulus the field cannot have, an order that is none, a size the modulus does not fit
static void refused(Ctx &c, const Def &d, const Def &other) {
    auto dec = [](const Z &z) { char b[2048]; mpz_get_str(b, 10, z.v); return std::string(b); };
    auto raw = [](mpECurve_ptr cv, int f, std::string *s, unsigned bits) { char *q[7]; for (int i = 0; i < 7; i++) q[i] = &s[i][0]; switch (f) { case WS: return mpECurve_set_str_ws(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); case ED: return mpECurve_set_str_ed(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); case MO: return mpECurve_set_str_mo(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); default: return mpECurve_set_str_te(cv, q[0], q[1], q[2], q[3], q[4], q[5], q[6], bits); } };
    static const char *PAR[] = {"modulus", "first coefficient", "second coefficient", "order", "cofactor", "generator x", "generator y"};
    struct Bad { std::string what; std::function<int(mpECurve_ptr)> go; }; std::vector<Bad> B; const std::string good[7] = {dec(d.p), dec(d.a), dec(d.b), dec(d.n), dec(d.h), dec(d.gx), dec(d.gy)};
    static const char *JUNK[] = {"", " ", "-", "+1x", "xyz", "0x", "0xG1", "0b2", "09", "--5", "1e3", "5;", "3.0", "0x-1", "1,000", "-0x"}; bool hexd = d.p.bits() > 64;
    auto malformed = [&](const std::string &t) { Z z; return mpz_set_str(z.v, t.c_str(), 0) != 0; }; // the reader of numbers itself is not the subject
    for (int i = 0; i < 7; i++) { std::vector<std::string> T(JUNK, JUNK + sizeof JUNK / sizeof *JUNK); T.push_back(good[i] + "z"); T.push_back("q" + good[i]); T.push_back("-" + good[i] + "-"); if (hexd) T.push_back(good[i].substr(0, good[i].size() / 2) + "_" + good[i].substr(good[i].size() / 2));
        for (auto &t : T) if (malformed(t)) B.push_back({vc::fmt("%s written \"%s\"", PAR[i], t.c_str()), [=](mpECurve_ptr cv) { std::string s[7]; for (int k = 0; k < 7; k++) s[k] = good[k]; s[i] = t; return raw(cv, d.form, s, d.bits); }}); }
    for (int i = 0; i < 7; i++) for (int j = i + 1; j < 7; j++) B.push_back({vc::fmt("%s and %s written \"zz\"", PAR[i], PAR[j]), [=](mpECurve_ptr cv) { std::string s[7]; for (int k = 0; k < 7; k++) s[k] = k == i || k == j ? "zz" : good[k]; return raw(cv, d.form, s, d.bits); }});
    B.push_back({"every parameter written \"zz\"", [=](mpECurve_ptr cv) { std::string s[7]; for (auto &x : s) x = "zz"; return raw(cv, d.form, s, d.bits); }});
    std::vector<std::pair<std::string, Def>> P; auto put = [&](std::string w, Def x) { P.push_back({w, x}); }; Def x = d; Z big = next_prime(Z::pow2(1100));
    std::vector<Z> mods; for (long v : {-7l, -1l, 0l, 1l, 2l, 3l, 4l, 9l, 15l, 21l, 25l, 35l, 49l, 77l, 121l, 169l, 221l, 341l, 561l, 1105l, 2047l}) mods.push_back(Z(v)); mods.push_back(d.p * Z(2)); mods.push_back(d.p * d.p); mods.push_back(Z(0) - d.p); mods.push_back(d.p * Z(3)); mods.push_back(d.p * next_prime(d.p)); mods.push_back(d.p + Z(1)); mods.push_back(Z::pow2(64)); mods.push_back(Z::pow2(1023)); mods.push_back(big); mods.push_back(next_prime(Z::pow2(4096)));
    for (auto &m : mods) for (int w = 0; w < 2; w++) { x = d; x.p = m; x.bits = w ? m.bits() : std::max<size_t>(d.bits, m.bits()); put(vc::fmt("modulus 0x%s, %u bits", m.bits() > 200 ? "(long)" : m.str().c_str(), x.bits), x); }
    for (long v : {0l, -1l, -5l}) { x = d; x.n = Z(v); put(vc::fmt("order %ld", v), x); } x = d; x.n = Z(0) - d.n; put("order negated", x);
    for (unsigned b : {0u, 1u, (unsigned)d.p.bits() - 1}) if (b < d.p.bits()) { x = d; x.bits = b; put(vc::fmt("%u bits", b), x); }
    for (auto &q : P) { Def y = q.second; B.push_back({q.first + " as integers", [=](mpECurve_ptr cv) { return y.mpz(cv); }}); B.push_back({q.first + " as text", [=](mpECurve_ptr cv) { return y.str(cv, false); }}); }
    // before: nothing, this curve, a curve of another form; afterwards: this, the other, one after another refusal
    static const std::vector<const char *> N; static const std::vector<Def> ND; std::vector<Def> D = {d, other}; vc::heap_count_on(); { mpECurve_t f; mpECurve_init(f); for (auto &v : D) { v.mpz(f); v.str(f, true); } mpECurve_clear(f); }
    for (size_t i = 0; i < B.size(); i++) for (int before = -1; before < 2; before++) for (int after = 0; after < 4; after++) {
        if (!c.next()) continue; auto &b = B[i]; long h0 = vc::heap_live;
        for (int round = 0; round < 2; round++) { long g0 = guard::live; h0 = vc::heap_live;
            { World w(D, N, ND, 1); c.trans(); if (before >= 0) w.apply(c, {DEFM, 0, -1, before}); int e = b.go(w.s[0].cv); if (!e) c.fail("a definition of %s with %s is accepted", d.tag.c_str(), b.what.c_str());
              w.s[0].d = -1; if (after == 3) { if (!B[(i * 7 + 3) % B.size()].go(w.s[0].cv)) c.fail("a definition of %s with %s is accepted after another was refused", d.tag.c_str(), B[(i * 7 + 3) % B.size()].what.c_str()); }
              if (after == 1 || after == 3) w.apply(c, {DEFM, 0, -1, 0}); else if (after == 2) w.apply(c, {DEFS, 0, -1, 1});
              try { w.check(c); } catch (vc::Violation &) { std::string m = c.sh->msg; c.fail("after refusing %s with %s: %s", d.tag.c_str(), b.what.c_str(), m.c_str()); } }
            if (round && (guard::live != g0 || vc::heap_live > h0 + 1)) c.fail("memory is not balanced (%ld number blocks, %ld heap blocks) after refusing %s with %s", guard::live - g0, vc::heap_live - h0, d.tag.c_str(), b.what.c_str()); }
        c.trace(); c.state(vc::hash_str(b.what) * 16 + before * 4 + after); c.outcome(i); if (c.cur % 301 == 5) c.sample("%s with %s is refused", d.tag.c_str(), b.what.c_str());
    }
}
// valid curves over F_p with a parameter that is zero: text that is no number must not pass for zero
static std::vector<Def> zeros(int f, long p) {
    std::vector<Def> D; for (int k = 0; k < 5; k++) { bool found = false;
        for (long a = 0; a < p && !found; a++) for (long b = 0; b < p && !found; b++) { RefCurve r{(Form)f, p, a, b}; if (!r.valid()) continue;
            for (long x = 0; x < p && !found; x++) for (long y = 0; y < p && !found; y++) { if (!r.on(x, y)) continue; if (f == ED && x == 0 && y == a) continue; if (f == TE && x == 0 && y == 1) continue;
                if (k == 0 ? a : k == 1 ? b : k == 2 ? x : k == 3 ? y : x || y) continue; found = true; D.push_back(Def{f, Z(p), Z(a), Z(b), Z(5), Z(0), Z(x), Z(y), Z(p).bits(), vc::fmt("%s (%ld,%ld) with generator (%ld,%ld), F_%ld", FORM[f], a, b, x, y, p)}); } } }
    return D;
}
// every ordered pair of curves of one form over one field: the object is the first curve, then becomes the second, then the first again
static std::vector<Def> all_curves(int f, long p, int gens) {
    std::vector<Def> D; auto sq = [&](long v) { for (long i = 1; i < p; i++) if (i * i % p == v % p) return true; return false; };
    for (long a = 0; a < p; a++) for (long b = 0; b < p; b++) {
        bool ok = f == WS ? (4 * a * a * a + 27 * b * b) % p != 0 : f == ED ? a && b && !sq(b) && b * a % p * a % p * a % p * a % p != 1 : f == MO ? a && (b * b) % p != 4 : a && b && a != b && sq(a) && !sq(b); if (!ok) continue; int g = 0;
        Def d{f, Z(p), Z(a), Z(b), Z(5), Z(1), Z(0), Z(0), Z(p).bits(), vc::fmt("%s (%ld,%ld) F_%ld", FORM[f], a, b, p)}; BigRef r = d.ref();
        for (long y = p - 1; y > 0 && g < gens; y--) for (long x = p - 1; x > 0 && g < gens; x--) if (r.on(Z(x), Z(y))) { d.gx = Z(x); d.gy = Z(y); g++; D.push_back(d); }
    }
    return D;
}
static void pairs(Ctx &c, const std::vector<Def> &D, size_t part, size_t parts) {
    static const std::vector<const char *> N; static const std::vector<Def> ND; vc::heap_count_on(); for (auto &d : D) { mpECurve_t f; mpECurve_init(f); d.mpz(f); d.str(f, true); mpECurve_clear(f); }
    for (size_t i = part; i < D.size(); i += parts) for (size_t j = 0; j < D.size(); j++) for (int way = 0; way < 3; way++) {
        if (!c.next()) continue; long g0 = guard::live, h0 = vc::heap_live;
        { World w(D, N, ND, 2); static const char *W[] = {"defined from integers", "defined from text", "copied"}; std::string what = D[i].tag + vc::fmt(", then %s as ", W[way]) + D[j].tag;
          w.apply(c, {DEFM, 0, -1, (int)i}); if (way == 2) w.apply(c, {DEFM, 1, -1, (int)j}); w.apply(c, way == 0 ? Op{DEFM, 0, -1, (int)j} : way == 1 ? Op{DEFS, 0, -1, (int)j} : Op{COPY, 0, 1, 0});
          try { w.check(c); if (way == 0) w.apply(c, {DEFM, 0, -1, (int)i}); w.check(c); } catch (vc::Violation &) { std::string m = c.sh->msg; c.fail("%s: %s", what.c_str(), m.c_str()); } c.trace(); c.state(vc::hash_str(what)); c.outcome(w.hash()); if (c.cur % 4001 == 5) c.sample("%s", what.c_str()); }
        if (guard::live != g0 || vc::heap_live > h0 + 1) c.fail("memory is not balanced after %s, then %s", D[i].tag.c_str(), D[j].tag.c_str());
    }
}
// curves over a large field that share coefficients: Montgomery B*k^2 and the twist by -1
static std::vector<Def> scaled(const char *n) {
    std::vector<Def> D; Def d = def(*golden(n), n); for (int k = 1; k < 5; k++) { Def x = d; Z K(k); if (d.form == MO) { x.a = (d.a * K * K).mod(d.p); x.gy = (d.gy * invm(K, d.p)).mod(d.p); } else if (d.form == WS) { x.a = (d.a * K * K * K * K).mod(d.p); x.b = (d.b * K * K * K * K * K * K).mod(d.p); x.gx = (d.gx * K * K).mod(d.p); x.gy = (d.gy * K * K * K).mod(d.p); } else if (d.form == ED) { Z k4 = invm(K * K * K * K, d.p); x.a = (d.a * K).mod(d.p); x.b = (d.b * k4).mod(d.p); x.gx = (d.gx * K).mod(d.p); x.gy = (d.gy * K).mod(d.p); } else { Z k2 = invm(K * K, d.p); x.a = (d.a * k2).mod(d.p); x.b = (d.b * k2).mod(d.p); x.gx = (d.gx * K).mod(d.p); } x.tag = vc::fmt("%s scaled by %d", n, k); D.push_back(x);
        if (d.form == MO) { Def y = x; y.a = (Z(0) - x.a).mod(d.p); y.b = (Z(0) - x.b).mod(d.p); y.gx = (Z(0) - x.gx).mod(d.p); y.tag += ", x negated"; D.push_back(y); } Def z = x; z.gy = (Z(0) - x.gy).mod(d.p); z.tag += ", y negated"; D.push_back(z); z.h = z.h * Z(2); z.tag += ", other cofactor"; D.push_back(z); }
    return D;
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    for (int f = 0; f < 4; f++) for (long p : {13l, 23l, 61l}) vc::unit(vc::fmt("compare %s variants, F_%ld", FORM[f], p), [=](Ctx &c) { auto V = variants(def(BigRef(nice((Form)f, p, 3)), vc::fmt("%s F_%ld", FORM[f], p))); auto W = variants(def(BigRef(nice((Form)((f + 1) % 4), p, 3)), "other form")); V.insert(V.end(), W.begin(), W.end()); compare(c, V); });
    for (const char *n : {"secp112r1", "secp256k1", "E-521", "M-511", "Ed25519", "secp384r1", "E-222"}) vc::unit(vc::fmt("compare %s variants", n), [=](Ctx &c) { auto V = variants(def(*golden(n), n)); compare(c, V); });
    for (int f = 0; f < 4; f++) for (long p : {7l, 11l, 13l}) { if (p == 13 && !th) continue; for (size_t part = 0; part < 8; part++) vc::unit(vc::fmt("every pair of %s curves over F_%ld, part %zu", FORM[f], p, part), [=](Ctx &c) { auto D = all_curves(f, p, p == 7 || (th && p == 11) ? 2 : 1); pairs(c, D, part, 8); }); }
    for (const char *n : {"secp112r1", "secp256r1", "Curve25519", "M-511", "E-222", "E-521", "Ed25519"}) vc::unit(vc::fmt("rescaled %s", n), [=](Ctx &c) { pairs(c, scaled(n), 0, 1); });
    for (int f = 0; f < 4; f++) { vc::unit(vc::fmt("refused %s definitions over F_13", FORM[f]), [=](Ctx &c) { refused(c, def(BigRef(nice((Form)f, 13, 3)), FORM[f]), def(BigRef(nice((Form)((f + 1) % 4), 17, 3)), FORM[(f + 1) % 4])); });
        vc::unit(vc::fmt("refused %s definitions with a zero parameter", FORM[f]), [=](Ctx &c) { for (auto &d : zeros(f, 13)) refused(c, d, def(BigRef(nice((Form)((f + 1) % 4), 17, 3)), FORM[(f + 1) % 4])); }); }
    for (const char *n : {"secp256k1", "E-521", "Curve25519", "Ed25519"}) vc::unit(vc::fmt("refused definitions like %s", n), [=](Ctx &c) { refused(c, def(*golden(n), n), def(BigRef(nice(golden(n)->f == WS ? MO : WS, 13, 3)), "other")); });
    vc::unit("compare all built-in curves", [](Ctx &c) { std::vector<Def> V; for (int g = 0; g < NGOLDEN; g++) V.push_back(def(*golden(GOLDEN[g].name), GOLDEN[g].name)); compare(c, V);
        for (int i = 0; i < NGOLDEN; i++) for (int j = 0; j < NGOLDEN; j++) { if (!c.next()) continue; NamedCurve a(GOLDEN[i].name), b(GOLDEN[j].name); int e = mpECurve_cmp(a.cv, b.cv); c.trans(); c.trace(); if ((e == 0) != V[i].same(V[j])) c.fail("comparing built-in %s with %s gives %d", GOLDEN[i].name, GOLDEN[j].name, e); } });
    auto fam = [](int s) { std::vector<Def> D; if (s == 0) { for (int f = 0; f < 4; f++) D.push_back(def(BigRef(nice((Form)f, 13 + (f & 1) * 4, 3)), FORM[f])); } else if (s == 1) { for (int f = 0; f < 4; f++) D.push_back(def(BigRef(nice((Form)f, 13, 3, f)), FORM[f])); D.push_back(D[0]); D.back().h = D[0].h + Z(1); D.back().tag = "ws, other cofactor"; } else { D.push_back(def(*golden("E-222"), "E-222")); D.push_back(def(*golden("secp112r1"), "secp112r1")); D.push_back(def(BigRef(nice(MO, 13, 3)), "mo")); D.push_back(def(BigRef(nice(TE, 17, 3)), "te")); } return D; };
    std::vector<const char *> N0 = {"Curve25519"}, N1 = {"secp160r1", "Ed25519", "E-521"};
    for (int s = 0; s < 3; s++) { for (size_t f = 0; f < 44; f++) vc::unit(vc::fmt("2 curve slots, family %d, first op %zu", s, f), [=](Ctx &c) { hist(c, fam(s), s == 2 ? N1 : N0, 2, th ? 5 : 4, f, true); });
        for (size_t f = 0; f < 80; f++) vc::unit(vc::fmt("3 curve slots, family %d, first op %zu", s, f), [=](Ctx &c) { hist(c, fam(s), N0, 3, th ? 3 : 2, f, false); }); }
    return vc::main_(argc, argv);
}
