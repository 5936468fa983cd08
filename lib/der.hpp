// DER written and read independently of the library, and the containers of the exchange format as lists of fields.
#pragma once
#include "enc.hpp"
extern "C" {
#include <ecc.h>
#include <ecdh_der.h>
#include <elgamal_der.h>
#include <b64file.h>
}
inline Bytes operator+(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes tlv(int tag, const Bytes &v) {
    Bytes r(1, tag); size_t n = v.size(); if (n < 128) r.push_back(n); else { int k = n < 256 ? 1 : n < 65536 ? 2 : n < (1 << 24) ? 3 : 4; r.push_back(0x80 + k); while (k--) r.push_back(n >> (8 * k)); } return r + v;
}
inline Bytes num(const Z &v) { size_t L = (v.bits() + 7) / 8; return be(v, L ? L : 1); }
inline Bytes oct(const Z &v) { return tlv(4, num(v)); }
enum Kind { PRIV, PUB, CT, MSG }; static const char *KIND[] = {"private key", "public key", "ciphertext", "message"};
// leaves of a container in file order: own fields, then p type p1 p2 n h gx gy bits
typedef std::vector<Bytes> Leaves;
inline size_t own(Kind k) { return k == CT ? 2 : k == MSG ? 3 : 1; }
inline const char *leaf_name(Kind k, size_t i) { static const char *C[] = {"p", "type", "p1", "p2", "n", "h", "gx", "gy", "bits"}; static const char *O[][3] = {{"privkey"}, {"pubkey"}, {"c", "d"}, {"pubkeybytes", "nonce", "ciphertext"}}; return i < own(k) ? O[k][i] : C[i - own(k)]; }
inline Bytes join(Kind k, const Leaves &l) {
    size_t o = own(k); Bytes r; for (size_t i = 0; i < o; i++) r = r + l[i]; if (k == MSG) return tlv(0x30, r);
    const Bytes *c = &l[o]; return tlv(0x30, r + tlv(0x30, c[0] + c[1] + tlv(0x30, c[2] + c[3]) + c[4] + c[5] + tlv(0x30, c[6] + c[7]) + c[8]));
}
inline void curve_leaves(Leaves &l, const BigRef &r) {
    static const int T[] = {2, 3, 4, 5}; // ws ed mo te
    l.push_back(oct(r.p)); l.push_back(tlv(10, Bytes(1, T[r.f]))); l.push_back(oct(r.a)); l.push_back(oct(r.b)); l.push_back(oct(r.n)); l.push_back(oct(r.h)); l.push_back(oct(r.G.x)); l.push_back(oct(r.G.y));
    Bytes b = num(Z(r.bits)); if (b[0] & 0x80) b.insert(b.begin(), 0); l.push_back(tlv(2, b));
}
// strict reader; false: not the DER of a container of this kind
struct Rd { const unsigned char *p, *e; bool take(int tag, Bytes &v) {
    if (e - p < 2 || *p != tag) return false; size_t n = p[1]; const unsigned char *q = p + 2;
    if (n >= 128) { int k = n - 128; if (k < 1 || k > 4 || e - q < k) return false; n = 0; for (int i = 0; i < k; i++) n = n << 8 | *q++; if (n < 128 || (k > 1 && n < 1ull << (8 * (k - 1)))) return false; }
    if ((size_t)(e - q) < n) return false; v.assign(q, q + n); p = q + n; return true; } };
inline bool split(Kind k, const Bytes &d, Leaves &l) { // l: contents
    l.clear(); Rd t{d.data(), d.data() + d.size()}; Bytes top, v; if (!t.take(0x30, top) || t.p != t.e) return false; Rd r{top.data(), top.data() + top.size()};
    for (size_t i = 0; i < own(k); i++) { if (!r.take(4, v)) return false; l.push_back(v); } if (k == MSG) return r.p == r.e;
    Bytes cu, pa, g; if (!r.take(0x30, cu) || r.p != r.e) return false; Rd c{cu.data(), cu.data() + cu.size()};
    if (!c.take(4, v)) return false; l.push_back(v); if (!c.take(10, v)) return false; l.push_back(v);
    if (!c.take(0x30, pa)) return false; Rd q{pa.data(), pa.data() + pa.size()}; for (int i = 0; i < 2; i++) { if (!q.take(4, v)) return false; l.push_back(v); } if (q.p != q.e) return false;
    for (int i = 0; i < 2; i++) { if (!c.take(4, v)) return false; l.push_back(v); }
    if (!c.take(0x30, g)) return false; Rd x{g.data(), g.data() + g.size()}; for (int i = 0; i < 2; i++) { if (!x.take(4, v)) return false; l.push_back(v); } if (x.p != x.e) return false;
    if (!c.take(2, v)) return false; l.push_back(v); return c.p == c.e;
}
inline bool small_int(const Bytes &b, long &v) { if (b.empty() || b.size() > 4) return false; v = (b[0] & 0x80) ? -1 : 0; for (auto x : b) v = v * 256 + x; return true; }
