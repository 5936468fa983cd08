// Reference group law over large fields (affine, plain integers), independent of the library.
#pragma once
#include "curves.hpp"
#include "golden.hpp"
struct BP { Z x, y; bool inf = false; bool operator==(const BP &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
struct BigRef {
    Form f; std::string name; Z p, a, b, n, h; BP G; unsigned bits = 0;
    BigRef() {}
    BigRef(const Golden &g) : f((Form)g.form), name(g.name), p(Z::s(g.p)), a(Z::s(g.a)), b(Z::s(g.b)), n(Z::s(g.n)), h(Z::s(g.h)), bits(g.bits) { G.x = Z::s(g.gx); G.y = Z::s(g.gy); }
    BigRef(const RefCurve &r) : f(r.form), name(r.name()), p(r.p), a(r.a), b(r.b), n(r.n), h(r.h), bits(r.bits()) { G.x = Z(r.pts[r.gen].x); G.y = Z(r.pts[r.gen].y); }
    Z m(const Z &v) const { return v.mod(p); }
    Z inv(const Z &v) const { return invm(m(v), p); }
    bool on(const Z &x, const Z &y) const {
        Z x2 = m(x * x), y2 = m(y * y);
        switch (f) {
            case WS: return m(y2 - x2 * x - a * x - b).sgn() == 0;
            case ED: return m(x2 + y2 - a * a * (Z(1) + b * m(x2 * y2))).sgn() == 0;
            case MO: return m(a * y2 - x2 * x - b * x2 - x).sgn() == 0;
            default: return m(a * x2 + y2 - Z(1) - b * m(x2 * y2)).sgn() == 0;
        }
    }
    BP zero() const { BP r; switch (f) { case ED: r.y = a.mod(p); break; case TE: r.y = Z(1); break; default: r.inf = true; } return r; }
    BP neg(const BP &P) const { BP r = P; if (P.inf) return r; if (f == WS || f == MO) r.y = m(Z(0) - P.y); else r.x = m(Z(0) - P.x); return r; }
    BP add(const BP &P, const BP &Q) const {
        if (f == WS || f == MO) {
            if (P.inf) return Q; if (Q.inf) return P;
            Z A = f == MO ? b : Z(0), B = f == MO ? a : Z(1), l;
            if (P.x == Q.x) {
                if (m(P.y + Q.y).sgn() == 0) { BP r; r.inf = true; return r; }
                l = f == WS ? m((Z(3) * P.x * P.x + a) * inv(Z(2) * P.y)) : m((Z(3) * P.x * P.x + Z(2) * A * P.x + Z(1)) * inv(Z(2) * B * P.y));
            } else l = m((Q.y - P.y) * inv(Q.x - P.x));
            BP r; r.x = m(B * l * l - A - P.x - Q.x); r.y = m(l * (P.x - r.x) - P.y); return r;
        }
        Z t = m(b * m(m(P.x * Q.x) * m(P.y * Q.y))); BP r; Z c = f == ED ? a : Z(1), aa = f == ED ? Z(1) : a;
        r.x = m((P.x * Q.y + P.y * Q.x) * inv(c * (Z(1) + t))); r.y = m((P.y * Q.y - aa * P.x * Q.x) * inv(c * (Z(1) - t))); return r;
    }
    BP mul(Z k, const BP &P) const { BP q = P; if (k.sgn() < 0) { k = Z(0) - k; q = neg(P); } BP r = zero(); for (long i = (long)k.bits() - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.v, i)) r = add(r, q); } return r; }
    // multiples of the generator by a table of k*16^i*G (same additions, fewer of them)
    mutable std::vector<std::vector<BP>> comb;
    BP mulG(Z k) const {
        k = k.mod(n); size_t W = (n.bits() + 3) / 4;
        if (comb.empty()) { BP b = G; for (size_t i = 0; i < W; i++) { std::vector<BP> row(1, zero()); for (int j = 1; j < 16; j++) row.push_back(add(row.back(), b)); b = add(row[15], b); comb.push_back(row); } }
        BP r = zero(); for (size_t i = 0; i < W; i++) { int d = 0; for (int j = 0; j < 4; j++) d |= mpz_tstbit(k.v, 4 * i + j) << j; if (d) r = add(r, comb[i][d]); } return r;
    }
    std::string show(const BP &P) const { return P.inf ? "O" : "(0x" + P.x.str() + ",0x" + P.y.str() + ")"; }
    int define(mpECurve_ptr cv) const { return LibCurve::define(cv, f, p, a, b, n, h, G.x, G.y, bits); }
};
inline const BigRef *golden(const char *name) { for (int i = 0; i < NGOLDEN; i++) if (!strcmp(GOLDEN[i].name, name)) { static std::map<std::string, BigRef *> *c = new std::map<std::string, BigRef *>; auto &r = (*c)[name]; if (!r) r = new BigRef(GOLDEN[i]); return r; } return nullptr; }
inline void set_pt(mpECP_ptr q, const BP &P, mpECurve_ptr cv) { if (P.inf) mpECP_set_neutral(q, cv); else mpECP_set_mpz(q, (mpz_ptr)P.x.v, (mpz_ptr)P.y.v, cv); }
inline bool same_pt(mpECP_ptr q, const BP &W, mpECurve_ptr cv) {
    Pt w(cv); set_pt(w.q, W, cv);
    if (mpECP_cmp(q, w.q) != 0 || mpECP_cmp(w.q, q) != 0) return false;
    if (W.inf) return true;
    Pt k(cv); mpECP_set(k.q, q); Z x, y; mpz_set_mpECP_affine_x(x.v, k.q); mpz_set_mpECP_affine_y(y.v, k.q);
    return x == W.x && y == W.y;
}
inline void expect_bp(vc::Ctx &c, const BigRef &r, mpECP_ptr q, mpECurve_ptr cv, const BP &W, const char *what) {
    c.trans();
    if (!same_pt(q, W, cv)) c.fail("%s on %s: expected %s, got %s", what, r.name.c_str(), r.show(W).c_str(), raw(q).c_str());
}
struct NamedCurve { mpECurve_t cv; NamedCurve(const char *n) { mpECurve_init(cv); int e = mpECurve_set_named(cv, (char *)n); if (e) { fprintf(stderr, "built-in curve %s is not available\n", n); abort(); } } NamedCurve(const NamedCurve &) = delete; ~NamedCurve() { mpECurve_clear(cv); } };
