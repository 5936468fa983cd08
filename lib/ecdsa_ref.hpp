// Reference ECDSA over small curves and over plain integers; a digest function under the explorer's control.
#pragma once
#include "bigref.hpp"
#include "enc.hpp"
extern "C" {
#include <ecc/ecdsa.h>
#include <ecc/ecelgamal.h>
}
// "hash": the message is the digest; sizes from 1 to 64
template <int N> static void dig(unsigned char *h, unsigned char *m, size_t) { memcpy(h, m, N); }
typedef void (*dig_t)(unsigned char *, unsigned char *, size_t);
template <int N> struct DigTab { static void fill(dig_t *t) { t[N] = dig<N>; DigTab<N - 1>::fill(t); } };
template <> struct DigTab<0> { static void fill(dig_t *) {} };
inline dig_t digest_fn(int n) { static dig_t t[81]; if (!t[1]) DigTab<80>::fill(t); return t[n]; }
struct Scheme {
    mpECDSASignatureScheme_t s; mpECDSAHashfunc_t H; int hsz;
    Scheme(mpECurve_ptr cv, int hs) : hsz(hs) { mpECDSAHashfunc_init(H); H->dohash = digest_fn(hs); H->hsz = hs; if (mpECDSASignatureScheme_init(s, cv, H)) { fprintf(stderr, "scheme refused\n"); abort(); } }
    Scheme(const Scheme &) = delete;
    ~Scheme() { mpECDSASignatureScheme_clear(s); mpECDSAHashfunc_clear(H); }
};
// the integer signed: the leftmost bits of the digest, as many as the order has
inline Z digest_int(const Bytes &d, const Z &n) { Z e = unbe(d.data(), d.size()); long extra = (long)d.size() * 8 - (long)n.bits(); if (extra > 0) mpz_tdiv_q_2exp(e.v, e.v, extra); return e; }
// a digest of hsz bytes whose integer is e (e < 2^bits(n)); the bits beyond the order are set to `fill`
inline Bytes digest_of(const Z &e, const Z &n, size_t hsz, int fill) {
    long extra = (long)hsz * 8 - (long)n.bits(); Z v = e; if (extra > 0) { v = e * Z::pow2(extra); if (fill) v = v + Z::pow2(extra) - Z(1); }
    return be(v, hsz);
}
struct MsgBuf { unsigned char *p; size_t n; Bytes keep; MsgBuf(const Bytes &b) : n(b.size()), keep(b) { p = (unsigned char *)malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); } ~MsgBuf() { free(p); } bool same() const { return !n || !memcmp(p, keep.data(), n); } MsgBuf(const MsgBuf &) = delete; };
// a signature with chosen values, built through the import interface
inline int import_sig(mpECDSASignature_ptr sig, mpECDSASignatureScheme_ptr ss, const Z &r, const Z &s, const Z &n) {
    size_t L = (n.bits() + 7) / 8; Bytes b = be(r, L), t = be(s, L); b.insert(b.end(), t.begin(), t.end());
    return mpECDSASignature_init_import_bytes(sig, ss, b.data(), b.size());
}
