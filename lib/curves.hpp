// Small curves with a brute-force reference group, and bridges to the library.
#pragma once
#include "num.hpp"
#include "vc.hpp"
extern "C" {
#include <ecc/ecurve.h>
#include <ecc/ecpoint.h>
}
enum Form { WS = 0, ED = 1, MO = 2, TE = 3 };
static const char *FORM[] = {"ws", "ed", "mo", "te"};

struct RP { long x, y; bool inf; bool operator==(const RP &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };

// Affine textbook group law over F_p, written without any shared code.
struct RefCurve {
    Form form; long p, a, b; // ws: a,b  ed: c=a,d=b  mo: B=a,A=b  te: a,d=b
    std::vector<RP> pts; std::vector<std::vector<int>> tab; std::vector<int> neg, order; int zero = -1; int gen = -1; long n = 0, h = 0;
    long m(long v) const { v %= p; return v < 0 ? v + p : v; }
    long pw(long v, long e) const { long r = 1; v = m(v); while (e) { if (e & 1) r = r * v % p; v = v * v % p; e >>= 1; } return r; }
    long inv(long v) const { return pw(v, p - 2); }
    bool sq(long v) const { v = m(v); return v == 0 || pw(v, (p - 1) / 2) == 1; }
    bool on(long x, long y) const {
        switch (form) {
            case WS: return m(y * y) == m(m(x * x) * x + a * x + b);
            case ED: return m(x * x + y * y) == m(m(a * a) * m(1 + b * m(m(x * x) * m(y * y))));
            case MO: return m(a * m(y * y)) == m(m(x * x) * x + b * m(x * x) + x);
            default: return m(a * m(x * x) + y * y) == m(1 + b * m(m(x * x) * m(y * y)));
        }
    }
    bool valid() const { // non-singular, with a complete group law on the rational points
        switch (form) {
            case WS: return m(4 * m(m(a * a) * a) + 27 * m(b * b)) != 0;
            case ED: return m(a) != 0 && m(b) != 0 && m(1 - b * pw(a, 4)) != 0 && !sq(b);
            case MO: return m(a) != 0 && m(b * b - 4) != 0;
            default: return m(a) != 0 && m(b) != 0 && m(a - b) != 0 && sq(a) && !sq(b);
        }
    }
    RP addp(const RP &P, const RP &Q) const {
        switch (form) {
            case WS: case MO: {
                if (P.inf) return Q; if (Q.inf) return P;
                long A = form == MO ? b : 0, B = form == MO ? a : 1, lam;
                if (P.x == Q.x) {
                    if (m(P.y + Q.y) == 0) return {0, 0, true};
                    lam = form == WS ? m(3 * m(P.x * P.x) + a) * inv(2 * P.y) : m(3 * m(P.x * P.x) + 2 * m(A * P.x) + 1) * inv(m(2 * B) * P.y);
                } else lam = m(Q.y - P.y) * inv(Q.x - P.x);
                lam = m(lam); long x = m(B * m(lam * lam) - A - P.x - Q.x), y = m(lam * m(P.x - x) - P.y);
                return {x, y, false};
            }
            case ED: {
                long t = m(b * m(m(P.x * Q.x) * m(P.y * Q.y)));
                return {m(m(P.x * Q.y + P.y * Q.x) * inv(m(a * m(1 + t)))), m(m(P.y * Q.y - P.x * Q.x) * inv(m(a * m(1 - t)))), false};
            }
            default: {
                long t = m(b * m(m(P.x * Q.x) * m(P.y * Q.y)));
                return {m(m(P.x * Q.y + P.y * Q.x) * inv(m(1 + t))), m(m(P.y * Q.y - m(a * m(P.x * Q.x))) * inv(m(1 - t))), false};
            }
        }
    }
    int find(const RP &r) const { for (size_t i = 0; i < pts.size(); i++) if (pts[i] == r) return i; return -1; }
    bool build() { // false: not usable
        if (!valid()) return false;
        if (form == WS || form == MO) pts.push_back({0, 0, true});
        for (long x = 0; x < p; x++) for (long y = 0; y < p; y++) if (on(x, y)) pts.push_back({x, y, false});
        RP z = form == ED ? RP{0, m(a), false} : form == TE ? RP{0, 1, false} : RP{0, 0, true};
        zero = find(z); size_t N = pts.size(); if (zero < 0 || N < 2) return false;
        std::map<long, int> ix; for (size_t i = 0; i < N; i++) ix[pts[i].inf ? -1 : pts[i].x * p + pts[i].y] = i;
        tab.assign(N, std::vector<int>(N)); neg.assign(N, -1);
        for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { RP r = addp(pts[i], pts[j]); auto it = ix.find(r.inf ? -1 : r.x * p + r.y); if (it == ix.end()) { fprintf(stderr, "reference law left the curve\n"); abort(); } tab[i][j] = it->second; if (it->second == zero) neg[i] = j; }
        order.assign(N, 0); for (size_t i = 0; i < N; i++) { int k = 1; int q = i; while (q != zero) { q = tab[q][i]; k++; } order[i] = k; }
        for (size_t i = 0; i < N; i++) if (gen < 0 || order[i] > order[gen]) gen = i;
        if (pts[gen].inf) return false;
        n = order[gen]; h = N / n; return true;
    }
    // the oracle itself is checked: identity, inverses, commutativity, associativity
    bool group_ok(bool assoc) const {
        size_t N = pts.size();
        for (size_t i = 0; i < N; i++) { if (tab[i][zero] != (int)i || neg[i] < 0) return false; for (size_t j = 0; j < N; j++) if (tab[i][j] != tab[j][i]) return false; }
        if (assoc) for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < N; k++) if (tab[tab[i][j]][k] != tab[i][tab[j][k]]) return false;
        return true;
    }
    int mul(long k, int P) const { k %= order[P]; if (k < 0) k += order[P]; int r = zero; for (long i = 0; i < k; i++) r = tab[r][P]; return r; }
    // use the first point of exactly this order as generator
    bool pick(long ord) { for (size_t i = 0; i < pts.size(); i++) if (order[i] == ord && !pts[i].inf) { gen = i; n = ord; h = pts.size() / n; return true; } return false; }
    std::string name() const { return vc::fmt("%s(p=%ld,%ld,%ld) order %zu", FORM[form], p, a, b, pts.size()); }
    unsigned bits() const { unsigned k = 0; while ((1l << k) <= p) k++; return k; }
};
// the library's curve object for it
struct LibCurve {
    mpECurve_t cv; int status;
    static int define(mpECurve_ptr cv, Form f, const Z &p, const Z &a, const Z &b, const Z &n, const Z &h, const Z &gx, const Z &gy, unsigned bits) {
#define A_(z) ((mpz_ptr)(z).v)
        switch (f) {
            case WS: return mpECurve_set_mpz_ws(cv, A_(p), A_(a), A_(b), A_(n), A_(h), A_(gx), A_(gy), bits);
            case ED: return mpECurve_set_mpz_ed(cv, A_(p), A_(a), A_(b), A_(n), A_(h), A_(gx), A_(gy), bits);
            case MO: return mpECurve_set_mpz_mo(cv, A_(p), A_(a), A_(b), A_(n), A_(h), A_(gx), A_(gy), bits);
            default: return mpECurve_set_mpz_te(cv, A_(p), A_(a), A_(b), A_(n), A_(h), A_(gx), A_(gy), bits);
        }
    }
    void set(const RefCurve &r) { status = define(cv, r.form, Z(r.p), Z(r.a), Z(r.b), Z(r.n), Z(r.h), Z(r.pts[r.gen].x), Z(r.pts[r.gen].y), r.bits()); }
    LibCurve(const RefCurve &r) { mpECurve_init(cv); set(r); if (status) { fprintf(stderr, "library refuses the valid curve %s\n", r.name().c_str()); abort(); } }
    LibCurve(const LibCurve &) = delete;
    ~LibCurve() { mpECurve_clear(cv); }
};
struct Pt {
    mpECP_t q;
    Pt(mpECurve_ptr cv) { mpECP_init(q, cv); }
    Pt(const RefCurve &r, int i, mpECurve_ptr cv) { mpECP_init(q, cv); set(r, i, cv); }
    Pt(const Pt &) = delete;
    ~Pt() { mpECP_clear(q); }
    void set(const RefCurve &r, int i, mpECurve_ptr cv) {
        if (r.pts[i].inf) mpECP_set_neutral(q, cv); else { Z x(r.pts[i].x), y(r.pts[i].y); mpECP_set_mpz(q, x.v, y.v, cv); }
    }
};
// Which reference point is this? -1: none of them. Reads through the public interface only.
inline int which(const RefCurve &r, mpECP_ptr q, mpECurve_ptr cv) {
    if (r.form == WS || r.form == MO) { Pt o(cv); mpECP_set_neutral(o.q, cv); bool e = mpECP_cmp(q, o.q) == 0; if (e != (mpECP_cmp(o.q, q) == 0)) return -2; if (e) return r.zero; }
    Z x, y; mpz_set_mpECP_affine_x(x.v, q); mpz_set_mpECP_affine_y(y.v, q);
    if (!x.fits() || !y.fits()) return -3;
    for (size_t i = 0; i < r.pts.size(); i++) if (!r.pts[i].inf && (unsigned long)r.pts[i].x == x.ul() && (unsigned long)r.pts[i].y == y.ul()) return i;
    return -1;
}
inline std::string show(const RefCurve &r, int i) { return i < 0 ? "(not a point)" : r.pts[i].inf ? "O" : vc::fmt("(%ld,%ld)", r.pts[i].x, r.pts[i].y); }
inline std::string raw(mpECP_ptr q) { Z x, y; mpz_set_mpECP_affine_x(x.v, q); mpz_set_mpECP_affine_y(y.v, q); return "affine read-back x=0x" + x.str() + " y=0x" + y.str(); }
inline void expect_pt(vc::Ctx &c, const RefCurve &r, mpECP_ptr q, mpECurve_ptr cv, int want, const char *what) {
    c.trans();
    Pt w(r, want, cv);
    if (mpECP_cmp(q, w.q) != 0 || mpECP_cmp(w.q, q) != 0) { int g = which(r, q, cv); c.fail("%s on %s: expected %s, got %s (%s)", what, r.name().c_str(), show(r, want).c_str(), show(r, g).c_str(), raw(q).c_str()); }
    int g = which(r, q, cv);
    if (g != want) c.fail("%s on %s: expected %s, got %s (%s)", what, r.name().c_str(), show(r, want).c_str(), show(r, g).c_str(), raw(q).c_str());
}
// All small curves of a form over F_p (deduplicated list of coefficient pairs), every `step`-th one.
inline std::vector<std::pair<long, long>> coeff_pairs(Form f, long p) {
    std::vector<std::pair<long, long>> v;
    for (long a = 0; a < p; a++) for (long b = 0; b < p; b++) { RefCurve r{f, p, a, b}; if (r.valid()) v.push_back({a, b}); }
    return v;
}
inline long largest_prime_order(const RefCurve &r) { long best = 0; for (size_t i = 0; i < r.pts.size(); i++) { long o = r.order[i]; bool pr = o > 2; for (long d = 2; d * d <= o; d++) if (o % d == 0) pr = false; if (pr && o > best) best = o; } return best; }
// the (skip+1)-th curve of this form over F_p whose largest odd prime subgroup has at least `lo` points; its generator generates that subgroup
inline RefCurve nice(Form f, long p, long lo, int skip = 0) {
    for (auto &ab : coeff_pairs(f, p)) { RefCurve r{f, p, ab.first, ab.second}; if (f == MO && ab.first == 1) continue; if (!r.build()) continue; long b = largest_prime_order(r); if (b < lo) continue; if (skip--) continue; r.pick(b); return r; }
    fprintf(stderr, "no suitable %s curve over F_%ld\n", FORM[f], p); abort();
}
