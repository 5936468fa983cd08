// L01: every bounded history over signature schemes, signatures, keys, ciphertexts and decrypted points of several
// curves.  All operands of an operation other than the scheme, curve and key objects it is bound to are temporary: they are
// overwritten and released right after it.  After every operation every live object is compared with the model.
#include "guard.hpp"
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
using vc::Ctx;
// three digest functions of 1, 3 and 20 bytes; the last one used in a released hash object must never run
static unsigned long hcalls; template <int N> static void hash(unsigned char *h, unsigned char *m, size_t z) { hcalls++; uint64_t x = 0x9E3779B97F4A7C15ull * (z + N); for (size_t i = 0; i < z; i++) x = (x ^ m[i]) * 0x100000001B3ull; for (int i = 0; i < N; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; h[i] = x >> 56; } }
static void gone_hash(unsigned char *, unsigned char *, size_t) { fprintf(stderr, "a digest function which has been replaced is called\n"); abort(); }
static const int HS[3] = {1, 20, 3}; typedef void (*hf)(unsigned char *, unsigned char *, size_t); static const hf HF[3] = {hash<1>, hash<20>, hash<3>};
static Bytes digest(int h, const Bytes &m) { Bytes d(HS[h]), t = m; HF[h](d.data(), t.data(), t.size()); return d; }
static RefCurve find(Form f, long p0, long lo, long hi, bool prime) { for (long p = p0; p < p0 + 400; p += 2) { bool pr = p > 2; for (long d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (!pr) continue; int tries = 0; for (auto &ab : coeff_pairs(f, p)) { if (ab.first * ab.second < 2) continue; if (tries++ > 40) break; RefCurve q{f, p, ab.first, ab.second}; if (!q.build()) continue; long n = largest_prime_order(q); if (n < lo || n > hi || (prime && n != (long)q.pts.size())) continue; q.pick(n); return q; } } fprintf(stderr, "no such curve\n"); abort(); }
struct Curve { BigRef r; Z d; BP P, Q; size_t L; };
static const std::vector<Curve> &curves(int set) {
    static std::vector<Curve> C[4]; auto &v = C[set]; if (!v.empty()) return v; std::vector<BigRef> R;
    auto ref = [](const RefCurve &r) { BigRef b(r); b.bits = r.bits(); return b; };
    switch (set) {
        case 0: R = {ref(find(WS, 23, 17, 40, true)), ref(find(TE, 101, 17, 40, false)), ref(find(WS, 283, 257, 330, true)), ref(find(WS, 31, 17, 40, true))}; break;
        case 1: R = {ref(find(MO, 101, 17, 40, false)), ref(find(WS, 283, 257, 330, true)), ref(find(WS, 23, 17, 40, true)), ref(find(ED, 101, 17, 40, false))}; break;    // one and two bytes
        case 2: R = {ref(find(ED, 101, 17, 40, false)), *golden("secp112r1"), *golden("Curve25519"), ref(find(TE, 101, 17, 40, false))}; break;
        default: R = {*golden("Ed25519"), *golden("E-521"), *golden("secp160r1"), *golden("M-221")};
    }
    for (auto &r : R) { Curve k; k.r = r; k.d = r.n > Z(100) ? r.n / Z(3) : Z(3); k.P = r.mul(k.d, r.G); k.Q = r.mul(Z(2), r.G); k.L = (r.n.bits() + 7) / 8; v.push_back(k); }
    return v;
}
enum Kind { SINIT, SCLR, SIGN, SIGNBAD, IMP, IMPBAD, EXP, VER, GCLR, ENC, ENCBAD, DEC, DECBAD, XCLR, MCLR, XCOPY, NEWKEY, REDEF };
struct Op { Kind k; int i, j, a; };
static std::string show(const Op &o) {
    static const char *n[] = {"init scheme", "clear scheme", "sign", "sign (refused)", "import signature", "import (refused)", "export", "verify", "clear signature", "encrypt", "encrypt (refused)", "decrypt", "decrypt (refused)", "clear ciphertext", "clear point", "rebuild ciphertext", "new keys for", "another curve in"};
    return vc::fmt("%s(%d,%d;%d)", n[o.k], o.i, o.j, o.a);
}
static const ent::Tape TAPE = [] { ent::Tape t(600); for (size_t i = 0; i < t.size(); i++) t[i] = (i * 73 + 19) ^ (i >> 3); return t; }();
// an operand of an operation: on the heap, or always in the same place
struct Msg { unsigned char *p; size_t n; Bytes keep; bool fix; Msg(const Bytes &b, bool f) : n(b.size()), keep(b), fix(f) { static unsigned char pool[64]; if (n > sizeof pool) abort(); p = fix ? pool : (unsigned char *)malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); } ~Msg() { if (!fix) free(p); } bool same() const { return !n || !memcmp(p, keep.data(), n); } Msg(const Msg &) = delete; };
struct World {
    const std::vector<Curve> &C; int nc, m_[2] = {0, 1}; const Curve &at(int k) const { return C[m_[k]]; } mpECurve_t cv[3]; mpFp_t sk[3]; mpECP_t pk[3]; Z d[3]; BP P[3];
    struct Sch { bool live = false; int c, h; mpECDSASignatureScheme_t s; } S[2];
    struct Sig { bool live = false; int i, c, h; Z r, s; mpECDSASignature_t g; } G[2];
    struct Ct { bool live = false; int c; BP c1, c2; mpECElgamalCiphertext_t x; } X[2];
    struct Mp { bool live = false; int c; BP v; mpECP_t q; } M;
    World(const std::vector<Curve> &c) : C(c), nc(2) {
        for (int i = 0; i < nc; i++) define(i);
        for (auto &s : S) memset((void *)s.s, 0x6B, sizeof s.s); for (auto &s : G) memset((void *)s.g, 0x6B, sizeof s.g); for (auto &s : X) memset((void *)s.x, 0x6B, sizeof s.x); memset((void *)M.q, 0x6B, sizeof M.q);
    }
    void define(int i) { mpECurve_init(cv[i]); if (at(i).r.define(cv[i])) { fprintf(stderr, "curve refused\n"); abort(); } d[i] = at(i).d; P[i] = at(i).P; mpFp_init(sk[i], (mpz_ptr)at(i).r.n.v); mpFp_set_mpz(sk[i], d[i].v, (mpz_ptr)at(i).r.n.v); mpECP_init(pk[i], cv[i]); set_pt(pk[i], P[i], cv[i]); if (i == 0) mpECP_scalar_base_mul_setup(pk[i]); else { Pt t(cv[i]); mpECP_add(t.q, pk[i], pk[i]); mpECP_sub(pk[i], t.q, pk[i]); } }
    bool sigs_on(int i) { for (auto &g : G) if (g.live && g.i == i) return true; return false; }
    bool refverify(int c, const BP &Q, int h, const Bytes &m, const Z &r, const Z &s) { const BigRef &R = at(c).r; Z e = digest_int(digest(h, m), R.n).mod(R.n), w = invm(s, R.n); BP p = R.add(R.mul((e * w).mod(R.n), R.G), R.mul((r * w).mod(R.n), Q)); BP z = R.zero(); if (p == z) return false; return p.x.mod(R.n) == r; }
    static Bytes msg(int k) { Bytes b(5); for (size_t i = 0; i < b.size(); i++) b[i] = 7 * i + k + 1; return b; }
    template <class T> void wipe(T &m) { memset(m.p, 0xEE, m.n); }
    void apply(Ctx &c, const Op &o) {
        c.trans(); ent::src().load(TAPE);
        switch (o.k) {
            case SINIT: { mpECDSAHashfunc_t H; mpECDSAHashfunc_init(H); H->dohash = HF[o.a]; H->hsz = HS[o.a]; if (mpECDSASignatureScheme_init(S[o.i].s, cv[o.j], H)) c.fail("a scheme is refused"); if (H->dohash != HF[o.a] || H->hsz != (size_t)HS[o.a]) c.fail("initialising a scheme changed the hash object"); H->dohash = gone_hash; H->hsz = 200; mpECDSAHashfunc_clear(H); memset((void *)H, 0xEE, sizeof H); S[o.i].live = true; S[o.i].c = o.j; S[o.i].h = o.a; break; }
            case SCLR: mpECDSASignatureScheme_clear(S[o.i].s); S[o.i].live = false; memset((void *)S[o.i].s, 0x6B, sizeof S[o.i].s); break;
            case SIGN: { Sch &s = S[o.j]; Sig &g = G[o.i]; const BigRef &R = at(s.c).r; Msg m(msg(o.a), o.i == 0); mpFp_t k; mpFp_init(k, (mpz_ptr)R.n.v); mpFp_set(k, sk[s.c]); int st = mpECDSASignature_init_Sign(g.g, s.s, k, m.p, m.n); if (st) c.fail("signing fails with %d", st); if (!m.same()) c.fail("signing changed the message"); if (mpFp_cmp(k, sk[s.c])) c.fail("signing changed the key"); wipe(m); mpFp_set_ui(k, 0, (mpz_ptr)R.n.v); mpFp_clear(k);
                Z r, t; mpz_set_mpFp(r.v, g.g->r); mpz_set_mpFp(t.v, g.g->s); if (r.sgn() <= 0 || t.sgn() <= 0 || !(r < R.n) || !(t < R.n)) c.fail("a signature is (%s,%s)", r.str().c_str(), t.str().c_str()); if (!refverify(s.c, P[s.c], s.h, msg(o.a), r, t)) c.fail("the signature (%s,%s) is not one of the message with the key", r.str().c_str(), t.str().c_str());
                g.live = true; g.i = o.j; g.c = s.c; g.h = s.h; g.r = r; g.s = t; break; }
            case SIGNBAD: { Sch &s = S[o.j]; Sig &g = G[o.i]; MsgBuf m(msg(0)); int st; if (o.a == 0) st = mpECDSASignature_init_Sign(g.g, s.s, sk[s.c], m.p, 0); else if (o.a == 1) st = mpECDSASignature_init_Sign(g.g, s.s, sk[(s.c + 1) % nc], m.p, m.n); else st = mpECDSASignature_init_Sign(g.g, nullptr, sk[0], m.p, m.n); if (st == 0) c.fail("signing with an empty message, a key of another group or no scheme is not refused"); break; }
            case IMP: { Sch &s = S[o.j]; Sig &g = G[o.i]; const BigRef &R = at(s.c).r; Z r = o.a & 2 ? R.n - Z(1) : Z(1), t = o.a & 2 ? Z(2) : R.n - Z(2); Bytes b = be(r, at(s.c).L), b2 = be(t, at(s.c).L); b.insert(b.end(), b2.begin(), b2.end()); int st; if (o.a & 1) { std::string x = o.a & 2 ? lower(up(b)) : up(b); Bytes xb(x.begin(), x.end()); xb.push_back(0); MsgBuf m(xb); st = mpECDSASignature_init_import_str(g.g, s.s, (char *)m.p); if (!m.same()) c.fail("importing changed the text"); wipe(m); } else { MsgBuf m(b); st = mpECDSASignature_init_import_bytes(g.g, s.s, m.p, m.n); if (!m.same()) c.fail("importing changed the bytes"); wipe(m); }
                if (st) c.fail("importing (%s,%s) fails with %d", r.str().c_str(), t.str().c_str(), st); g.live = true; g.i = o.j; g.c = s.c; g.h = s.h; g.r = r; g.s = t; break; }
            case IMPBAD: { Sch &s = S[o.j]; Sig &g = G[o.i]; const BigRef &R = at(s.c).r; Z r(1), t(1); size_t L = at(s.c).L; if (o.a == 0) r = Z(0); if (o.a == 1) t = Z(0); if (o.a == 2) t = R.n; Bytes b = be(r, L), b2 = be(t, L); b.insert(b.end(), b2.begin(), b2.end()); int st; if (o.a == 3) b.pop_back(); if (o.a == 4) b.push_back(1); if (o.a >= 5) { std::string x = up(o.a == 5 ? b : Bytes(2 * L, 0)); if (o.a == 5) x[x.size() - 1] = 'G'; if (o.a == 7) x += "0"; Bytes xb(x.begin(), x.end()); xb.push_back(0); MsgBuf m(xb); st = mpECDSASignature_init_import_str(g.g, s.s, (char *)m.p); } else { MsgBuf m(b); st = mpECDSASignature_init_import_bytes(g.g, s.s, m.p, m.n); }
                if (st == 0) c.fail("a malformed signature (case %d) is accepted", o.a); break; }
            case EXP: { Sig &g = G[o.i]; size_t L = at(g.c).L; Bytes b = be(g.r, L), b2 = be(g.s, L); b.insert(b.end(), b2.begin(), b2.end()); if (o.a) { char *t = mpECDSASignature_export_str(g.g); if (!t || strcasecmp(t, up(b).c_str())) c.fail("signature %d exports as text %s, it is (%s,%s)", o.i, t ? t : "(none)", g.r.str().c_str(), g.s.str().c_str()); if (t) memset(t, 'E', strlen(t)); free(t); } else { size_t n = 12345; unsigned char *u = mpECDSASignature_export_bytes(g.g, &n); if (!u || n != b.size() || memcmp(u, b.data(), n)) c.fail("signature %d exports as %s, it is (%s,%s)", o.i, u ? vc::hex(u, n).c_str() : "(none)", g.r.str().c_str(), g.s.str().c_str()); memset(u, 0xEE, n); free(u); } break; }
            case VER: { Sig &g = G[o.i]; Msg m(msg(o.a & 1), o.i == 0); bool want; int st; int q = o.a >> 1; // 0: own key, 1: the same on another curve object, 2: another key, 3: key of another curve, 4: the neutral element
                if (q == 0) { st = mpECDSASignature_verify_cmp(g.g, pk[g.c], m.p, m.n); want = refverify(g.c, P[g.c], g.h, m.keep, g.r, g.s); }
                else if (q == 3) { st = mpECDSASignature_verify_cmp(g.g, pk[(g.c + 1) % nc], m.p, m.n); want = false; }
                else { mpECurve_t t; mpECurve_init(t); mpECurve_set(t, cv[g.c]); mpECP_t k; mpECP_init(k, q == 1 ? t : cv[g.c]); BP v = q == 1 ? P[g.c] : q == 2 ? at(g.c).Q : at(g.c).r.zero(); set_pt(k, v, q == 1 ? t : cv[g.c]); if (q == 2) mpECP_scalar_base_mul_setup(k); st = mpECDSASignature_verify_cmp(g.g, k, m.p, m.n); if (!same_pt(k, v, q == 1 ? t : cv[g.c])) c.fail("verification changed the key"); mpECP_clear(k); mpECurve_clear(t); memset((void *)t, 0xEE, sizeof t); want = refverify(g.c, v, g.h, m.keep, g.r, g.s); }
                if (!m.same()) c.fail("verification changed the message"); if ((st == 0) != want) c.fail("verifying signature %d (%s,%s) on %s gives %d, expected %s", o.i, g.r.str().c_str(), g.s.str().c_str(), at(g.c).r.name.c_str(), st, want ? "0" : "a mismatch"); break; }
            case GCLR: mpECDSASignature_clear(G[o.i].g); G[o.i].live = false; memset((void *)G[o.i].g, 0x6B, sizeof G[o.i].g); break;
            case ENC: { Ct &x = X[o.i]; int k = o.j; const BigRef &R = at(k).r; mpECurve_t t; mpECurve_init(t); mpECurve_set(t, cv[k]); mpECurve_ptr on = o.a & 1 ? t : cv[k]; mpECP_t m; mpECP_init(m, on); BP v = o.a & 2 ? R.zero() : at(k).Q; set_pt(m, v, on); if (!(o.a & 2)) mpECP_scalar_base_mul_setup(m); int st = mpECElgamal_init_encrypt(x.x, pk[k], m); if (st) c.fail("encryption fails with %d", st); if (!same_pt(m, v, on)) c.fail("encryption changed the plaintext"); set_pt(m, R.G, on); mpECP_clear(m); mpECurve_clear(t); memset((void *)t, 0xEE, sizeof t);
                x.live = true; x.c = k; x.c1 = read(x.x->C, k); x.c2 = read(x.x->D, k); BP back = R.add(x.c2, R.neg(R.mul(d[k], x.c1))); if (!(back == v)) c.fail("the ciphertext (%s,%s) decrypts to %s, encrypted was %s", R.show(x.c1).c_str(), R.show(x.c2).c_str(), R.show(back).c_str(), R.show(v).c_str()); break; }
            case ENCBAD: { int st = mpECElgamal_init_encrypt(X[o.i].x, pk[o.j], pk[(o.j + 1) % nc]); if (st == 0) c.fail("encrypting a point of another curve is not refused"); break; }
            case DEC: { Ct &x = X[o.i]; const BigRef &R = at(x.c).r; mpFp_t k; mpFp_init(k, (mpz_ptr)R.n.v); Z dd = o.a ? (d[x.c] + Z(1)).mod(R.n) : d[x.c]; mpFp_set_mpz(k, dd.v, (mpz_ptr)R.n.v); int st = mpECElgamal_init_decrypt(M.q, k, x.x); if (st) c.fail("decryption fails with %d", st); mpFp_set_ui(k, 1, (mpz_ptr)R.n.v); mpFp_clear(k); M.live = true; M.c = x.c; M.v = R.add(x.c2, R.neg(R.mul(dd, x.c1))); break; }
            case DECBAD: { Ct &x = X[o.i]; int st; if (o.a == 0) st = mpECElgamal_init_decrypt(M.q, sk[(x.c + 1) % nc], x.x); else { int k = (x.c + 1) % nc; mpECElgamalCiphertext_t y; mpECP_init(y->C, cv[x.c]); mpECP_set(y->C, x.x->C); mpECP_init(y->D, cv[k]); set_pt(y->D, at(k).Q, cv[k]); st = mpECElgamal_init_decrypt(M.q, sk[x.c], y); if (!same_pt(y->D, at(k).Q, cv[k]) || !same_pt(y->C, x.c1, cv[x.c])) c.fail("refused decryption changed the ciphertext"); mpECElgamal_clear(y); } if (st == 0) c.fail("decrypting with a key of another group, or parts of different curves, is not refused"); break; }
            case XCLR: mpECElgamal_clear(X[o.i].x); X[o.i].live = false; memset((void *)X[o.i].x, 0x6B, sizeof X[o.i].x); break;
            case MCLR: mpECP_clear(M.q); M.live = false; memset((void *)M.q, 0x6B, sizeof M.q); break;
            case XCOPY: { Ct &x = X[o.i]; mpECElgamalCiphertext_t y; mpECP_init(y->C, cv[x.c]); mpECP_init(y->D, cv[x.c]); mpECP_set(y->C, x.x->D); mpECP_set(y->D, x.x->C); mpECElgamal_clear(x.x); mpECP_init(x.x->C, cv[x.c]); mpECP_init(x.x->D, cv[x.c]); mpECP_set(x.x->C, y->C); mpECP_set(x.x->D, y->D); mpECElgamal_clear(y); std::swap(x.c1, x.c2); break; } // parts exchanged
            case REDEF: { int k = o.i; mpFp_clear(sk[k]); mpECP_clear(pk[k]); mpECurve_clear(cv[k]); memset((void *)cv[k], 0x6B, sizeof cv[k]); m_[k] ^= 2; define(k); break; }
            case NEWKEY: { int k = o.i; const BigRef &R = at(k).r; d[k] = (d[k] * Z(2)).mod(R.n); P[k] = R.mul(d[k], R.G); mpFp_add(sk[k], sk[k], sk[k]); mpECP_double(pk[k], pk[k]); if (o.a) mpECP_scalar_base_mul_setup(pk[k]); break; }
        }
    }
    BP read(mpECP_ptr q, int k) { BP r; Pt z(cv[k]); mpECP_set_neutral(z.q, cv[k]); if (mpECP_cmp(q, z.q) == 0) return at(k).r.zero(); Pt t(cv[k]); mpECP_set(t.q, q); mpz_set_mpECP_affine_x(r.x.v, t.q); mpz_set_mpECP_affine_y(r.y.v, t.q); return r; }
    void check(Ctx &c) {
        for (int i = 0; i < nc; i++) { Z t; mpz_set_mpFp(t.v, sk[i]); if (t != d[i]) c.fail("secret key %d has become %s", i, t.str().c_str()); if (!same_pt(pk[i], P[i], cv[i])) c.fail("public key %d has become %s", i, raw(pk[i]).c_str()); }
        for (int i = 0; i < 2; i++) if (S[i].live) { if (S[i].s->cvp != cv[S[i].c] || S[i].s->nsz != at(S[i].c).L || S[i].s->H->dohash != HF[S[i].h] || S[i].s->H->hsz != (size_t)HS[S[i].h] || !same_pt(S[i].s->cv_G, at(S[i].c).r.G, cv[S[i].c])) c.fail("scheme %d is no longer that of %s with a digest of %d bytes", i, at(S[i].c).r.name.c_str(), HS[S[i].h]); }
        for (int i = 0; i < 2; i++) if (G[i].live) { Z r, s; mpz_set_mpFp(r.v, G[i].g->r); mpz_set_mpFp(s.v, G[i].g->s); if (r != G[i].r || s != G[i].s || G[i].g->sscheme != S[G[i].i].s || mpz_cmp(G[i].g->r->fp->p, at(G[i].c).r.n.v) || mpz_cmp(G[i].g->s->fp->p, at(G[i].c).r.n.v)) c.fail("signature %d is (%s,%s), it was (%s,%s)", i, r.str().c_str(), s.str().c_str(), G[i].r.str().c_str(), G[i].s.str().c_str()); }
        for (int i = 0; i < 2; i++) if (X[i].live) { if (!same_pt(X[i].x->C, X[i].c1, cv[X[i].c]) || !same_pt(X[i].x->D, X[i].c2, cv[X[i].c])) c.fail("ciphertext %d is (%s,%s), it was (%s,%s)", i, raw(X[i].x->C).c_str(), raw(X[i].x->D).c_str(), at(X[i].c).r.show(X[i].c1).c_str(), at(X[i].c).r.show(X[i].c2).c_str()); }
        if (M.live && !same_pt(M.q, M.v, cv[M.c])) c.fail("the decrypted point is %s, expected %s", raw(M.q).c_str(), at(M.c).r.show(M.v).c_str());
    }
    // releases everything; signatures go before their scheme, everything before its curve
    void clear(int order) {
        auto sg = [&](int i) { if (G[i].live) mpECDSASignature_clear(G[i].g); G[i].live = false; }; auto sc = [&](int i) { if (S[i].live) mpECDSASignatureScheme_clear(S[i].s); S[i].live = false; }; auto ct = [&](int i) { if (X[i].live) mpECElgamal_clear(X[i].x); X[i].live = false; };
        auto keys = [&] { for (int i = 0; i < nc; i++) { mpFp_clear(sk[i]); mpECP_clear(pk[i]); } };
        if (order & 1) keys(); for (int k = 0; k < 2; k++) { int i = order & 2 ? 1 - k : k; if (order & 4) { ct(i); sg(i); } else { sg(i); ct(i); } }
        if (M.live) mpECP_clear(M.q); M.live = false; for (int k = 0; k < 2; k++) sc(order & 2 ? k : 1 - k); if (!(order & 1)) keys(); for (int i = 0; i < nc; i++) mpECurve_clear(cv[order & 2 ? i : nc - 1 - i]); nc = 0;
    }
};
static std::vector<Op> alphabet(int ns, int ng) {
    std::vector<Op> A; for (int i = 0; i < ns; i++) { for (int k = 0; k < 2; k++) A.push_back({SINIT, i, k, (i + k) % 3}); A.push_back({SINIT, i, i, 2}); A.push_back({SCLR, i, 0, 0}); }
    for (int g = 0; g < ng; g++) { for (int i = 0; i < ns; i++) { for (int a = 0; a < 2; a++) A.push_back({SIGN, g, i, a}); for (int a = 0; a < 2; a++) A.push_back({SIGNBAD, g, i, a}); for (int a = 0; a < 4; a++) if (a % 2 == g || a < 2) A.push_back({IMP, g, i, a}); for (int a = 0; a < 8; a++) if (a % 2 == (g + i) % 2 || a == 5) A.push_back({IMPBAD, g, i, a}); }
        A.push_back({SIGNBAD, g, 0, 2}); for (int a = 0; a < 2; a++) A.push_back({EXP, g, 0, a}); for (int a : {0, 1, 2, 5, 6, 8}) A.push_back({VER, g, 0, a}); A.push_back({GCLR, g, 0, 0}); }
    for (int x = 0; x < ng; x++) { for (int k = 0; k < 2; k++) { for (int a = 0; a < 4; a++) if (a % 2 == x || a == 1) A.push_back({ENC, x, k, a}); A.push_back({ENCBAD, x, k, 0}); } for (int a = 0; a < 2; a++) { A.push_back({DEC, x, 0, a}); A.push_back({DECBAD, x, 0, a}); } A.push_back({XCLR, x, 0, 0}); A.push_back({XCOPY, x, 0, 0}); }
    A.push_back({MCLR, 0, 0, 0}); for (int k = 0; k < 2; k++) { A.push_back({NEWKEY, k, 0, k}); A.push_back({REDEF, k, 0, 0}); } return A;
}
static const std::vector<std::vector<Op>> PRE = {
    {}, {{SINIT, 0, 0, 0}, {SINIT, 1, 1, 1}}, {{SINIT, 0, 0, 0}, {SINIT, 1, 1, 1}, {SIGN, 0, 0, 1}, {SIGN, 1, 1, 1}, {ENC, 0, 0, 1}, {ENC, 1, 1, 0}}, {{SINIT, 0, 0, 1}, {SINIT, 1, 0, 2}, {IMP, 0, 0, 0}, {SIGN, 1, 1, 0}, {ENC, 0, 1, 1}, {DEC, 0, 0, 0}},
    {{SINIT, 0, 0, 0}, {SIGN, 0, 0, 0}, {VER, 0, 0, 0}, {EXP, 0, 0, 1}, {ENC, 0, 0, 2}, {DEC, 0, 0, 0}, {GCLR, 0, 0, 0}, {SCLR, 0, 0, 0}, {XCLR, 0, 0, 0}, {MCLR, 0, 0, 0}}}; // all used and released again
static long run(Ctx &c, const std::vector<Curve> &C, const std::vector<Op> &pre, const std::vector<const Op *> &h, int order) {
    auto text = [&](size_t upto) { std::string s; for (auto &o : pre) s += show(o) + " "; for (size_t i = 0; i <= upto && i < h.size(); i++) s += show(*h[i]) + " "; return s; };
    long b0 = vc::heap_live; { World w(C); size_t i = 0; auto guarded = [&](const Op &o, bool last) { try { w.apply(c, o); if (last) w.check(c); } catch (vc::Violation &) { char m[900]; snprintf(m, sizeof m, "%s", c.sh->msg); c.fail("%s, %s: %s: %s", C[0].r.name.c_str(), C[1].r.name.c_str(), text(i).c_str(), m); } };
      for (auto &o : pre) guarded(o, false); for (; i < h.size(); i++) guarded(*h[i], i + 1 >= h.size()); if (h.empty()) w.check(c); w.clear(order); }
    return vc::heap_live - b0;
}
static bool feasible(const std::vector<Op> &pre, const std::vector<const Op *> &h) { // which objects are live decides
    bool S[2] = {}, G[2] = {}, X[2] = {}, M = false; int gs[2] = {}, sc[2] = {}, xc[2] = {}, mc = 0;
    auto step = [&](const Op &o) -> bool { switch (o.k) {
        case SINIT: if (S[o.i]) return false; S[o.i] = true; sc[o.i] = o.j; return true; case SCLR: if (!S[o.i] || (G[0] && gs[0] == o.i) || (G[1] && gs[1] == o.i)) return false; S[o.i] = false; return true;
        case SIGN: case IMP: if (G[o.i] || !S[o.j]) return false; G[o.i] = true; gs[o.i] = o.j; return true; case IMPBAD: return !G[o.i] && S[o.j]; case SIGNBAD: return !G[o.i] && (S[o.j] || o.a == 2);
        case EXP: case VER: return G[o.i]; case GCLR: if (!G[o.i]) return false; G[o.i] = false; return true; case ENC: if (X[o.i]) return false; X[o.i] = true; xc[o.i] = o.j; return true; case ENCBAD: return !X[o.i]; case XCLR: if (!X[o.i]) return false; X[o.i] = false; return true; case XCOPY: return X[o.i];
        case DEC: if (!X[o.i] || M) return false; M = true; mc = xc[o.i]; return true; case DECBAD: return X[o.i] && !M; case MCLR: if (!M) return false; M = false; return true; case NEWKEY: return true; case REDEF: return !(M && mc == o.i) && !(S[0] && sc[0] == o.i) && !(S[1] && sc[1] == o.i) && !(X[0] && xc[0] == o.i) && !(X[1] && xc[1] == o.i); } return true; };
    for (auto &o : pre) if (!step(o)) abort(); for (auto o : h) if (!step(*o)) return false; return true;
}
static void histories(Ctx &c, int set, int pre, int depth, size_t part, size_t parts) {
    const auto &C = curves(set); auto A = alphabet(2, 2); vc::heap_count_on(); ent::src(); for (auto &p : PRE) run(c, C, p, {}, 0); for (auto &o : A) { std::vector<const Op *> h = {&o}; for (auto &p : PRE) if (feasible(p, h)) { run(c, C, p, h, 0); break; } }
    for (int d = 1; d <= depth; d++) { std::vector<size_t> ix(d, 0); size_t n = A.size();
        std::function<void(int, std::vector<const Op *> &)> rec = [&](int k, std::vector<const Op *> &h) {
            if (k == d) { if (!c.next()) return; int order = c.cur % 8; std::string s; uint64_t v[8] = {(uint64_t)set, (uint64_t)pre}; for (int i = 0; i < d; i++) v[2 + i] = h[i] - A.data(); c.state(vc::hash_bytes(v, (2 + d) * 8)); c.outcome((h.back() - A.data()) * 8 + order); long left = run(c, C, PRE[pre], h, order);
                if (left) { std::string t; for (auto o : h) t += show(*o) + " "; c.fail("%s, %s: start %d: %s: %ld blocks are left after everything was released", C[0].r.name.c_str(), C[1].r.name.c_str(), pre, t.c_str(), left); } c.trace(); return; }
            for (size_t i = 0; i < n; i++) { if (k == 0 && i % parts != part) continue; h.push_back(&A[i]); if (feasible(PRE[pre], h)) rec(k + 1, h); h.pop_back(); } };
        std::vector<const Op *> h; rec(0, h); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    // depth by pair of curves and start state
    static const int D[4][5] = {{3, 2, 2, 2, 3}, {2, 2, 2, 2, 2}, {1, 1, 2, 1, 2}, {1, 1, 1, 1, 1}};
    for (int set = 0; set < 4; set++) for (size_t p = 0; p < PRE.size(); p++) { int depth = D[set][p] + (th && (set < 2 || p != 2)); size_t parts = depth >= 3 ? 16 : depth == 2 ? 4 : 1; for (size_t k = 0; k < parts; k++) vc::unit(vc::fmt("curves %d, start %zu, depth %d, part %zu", set, p, depth, k), [=](Ctx &c) { histories(c, set, (int)p, depth, k, parts); }, 60); }
    return vc::main_(argc, argv);
}
