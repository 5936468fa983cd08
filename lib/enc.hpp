// Reference point encoding: prefix, fixed-width big-endian coordinates, all zero for the identity of the forms without one.
#pragma once
#include "bigref.hpp"
typedef std::vector<unsigned char> Bytes;
inline Bytes be(const Z &v, size_t L) { Bytes b(L, 0); size_t n = 0; unsigned char w[512]; mpz_export(w, &n, 1, 1, 1, 0, v.v); if (n > L) abort(); if (n) memcpy(&b[L - n], w, n); return b; }
inline Z unbe(const unsigned char *b, size_t n) { Z r; mpz_import(r.v, n, 1, 1, 1, 0, b); return r; }
inline std::string up(const Bytes &b) { std::string s; for (auto c : b) s += vc::fmt("%02X", c); return s; }
inline std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
inline Bytes encode(const BigRef &r, const BP &P, bool compress) {
    size_t L = (r.bits + 7) / 8; if (P.inf) return Bytes(1 + (compress ? 1 : 2) * L, 0);
    Bytes b(1, compress ? 2 + mpz_odd_p(P.y.v) : 4), x = be(P.x, L), y = be(P.y, L); b.insert(b.end(), x.begin(), x.end()); if (!compress) b.insert(b.end(), y.begin(), y.end()); return b;
}
// all verdicts about a byte string: is it the encoding of a point? (alt: identity spelled with zeros on forms whose identity has coordinates; either answer is fine)
enum Verdict { BAD, GOOD, EITHER };
inline Z rhs_y2(const BigRef &r, const Z &x, bool &ok) { // y^2 as a function of x; ok=false if no such value
    Z x2 = r.m(x * x); ok = true;
    switch (r.f) {
        case WS: return r.m(x2 * x + r.a * x + r.b);
        case MO: return r.m((x2 * x + r.b * x2 + x) * r.inv(r.a));
        case ED: { Z d = r.m(Z(1) - r.a * r.a * r.b * x2); if (!d.sgn()) { ok = false; return Z(0); } return r.m((r.a * r.a - x2) * r.inv(d)); }
        default: { Z d = r.m(Z(1) - r.b * x2); if (!d.sgn()) { ok = false; return Z(0); } return r.m((Z(1) - r.a * x2) * r.inv(d)); }
    }
}
inline Verdict judge_bytes(const BigRef &r, const unsigned char *b, size_t n, BP &want, bool &xonly) {
    size_t L = (r.bits + 7) / 8; xonly = false; want = BP();
    if (n != 1 + L && n != 1 + 2 * L) return BAD;
    if (b[0] == 0) { for (size_t i = 1; i < n; i++) if (b[i]) return BAD; want = r.zero(); return want.inf ? GOOD : EITHER; }
    if (b[0] == 4) { if (n != 1 + 2 * L) return BAD; want.x = unbe(b + 1, L); want.y = unbe(b + 1 + L, L); if (want.x >= r.p || want.y >= r.p || !r.on(want.x, want.y)) return BAD; return GOOD; }
    if ((b[0] == 2 || b[0] == 3)) {
        if (n != 1 + L) return BAD; want.x = unbe(b + 1, L); if (want.x >= r.p) return BAD;
        bool ok; Z y2 = rhs_y2(r, want.x, ok); if (!ok) return BAD; if (y2.sgn() == 0) { want.y = Z(0); return b[0] == 2 ? GOOD : BAD; }
        if (mpz_legendre(y2.v, r.p.v) != 1) return BAD; xonly = true; return GOOD;
    }
    return BAD;
}
// decodes b with the library and compares with the verdict
inline void check_decode(vc::Ctx &c, const BigRef &r, mpECurve_ptr cv, mpECP_ptr q, const unsigned char *b, size_t n, bool text, const char *txt, bool textok) {
    BP want; bool xonly; Verdict v = text && !textok ? BAD : judge_bytes(r, b, n, want, xonly); int e;
    std::string what = text ? "text \"" + std::string(txt) + "\"" : "bytes " + vc::hex(b, n);
    if (text) { size_t l = strlen(txt) + 1; char *t = (char *)malloc(l); memcpy(t, txt, l); e = mpECP_set_str(q, t, cv); bool same = !memcmp(t, txt, l); free(t); if (!same) c.fail("decoding %s changed its input", what.c_str()); }
    else { unsigned char *t = (unsigned char *)malloc(n ? n : 1); if (n) memcpy(t, b, n); unsigned char *p = n ? t : t + 1; e = mpECP_set_bytes(q, p, n, cv); bool same = !n || !memcmp(t, b, n); free(t); if (!same) c.fail("decoding %s changed its input", what.c_str()); }
    c.trans();
    if (v == BAD && e == 0) c.fail("%s: accepts %s, which encodes no point", r.name.c_str(), what.c_str());
    if (v == GOOD && e != 0) c.fail("%s: refuses %s, a valid encoding", r.name.c_str(), what.c_str());
    if (e == 0) {
        if (xonly) { Z x, y; mpz_set_mpECP_affine_x(x.v, q); mpz_set_mpECP_affine_y(y.v, q); if (x != want.x || !r.on(x, y) || y >= r.p || (mpz_odd_p(y.v) != 0) != (b[0] == 3)) c.fail("%s: %s decodes to %s", r.name.c_str(), what.c_str(), raw(q).c_str()); want.y = y; }
        if (!same_pt(q, want, cv)) c.fail("%s: %s decodes to %s, expected %s", r.name.c_str(), what.c_str(), raw(q).c_str(), r.show(want).c_str());
    }
    c.outcome(v * 4 + (e == 0) * 2 + (n & 1) + (n ? b[0] : 0) * 16ull + r.f * 4096);
}
