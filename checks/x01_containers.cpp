// X01: containers of the exchange format: round trips, and every damaged one is refused or consistent.
#include "der.hpp"
#include <sys/stat.h>
#include <libtasn1.h>
extern "C" { extern const asn1_static_node ecdhe_asn1_tab[]; extern const asn1_static_node elgamal_asn1_tab[]; }
using vc::Ctx;
static std::string vhex(const Bytes &b) { return b.size() <= 700 ? vc::hex(b.data(), b.size()) : vc::hex(b.data(), 300) + "..." + vc::fmt("(%zu bytes)", b.size()); }
struct Def { bool ok = false; int form; BigRef r; mpECurve_t cv; Def() { mpECurve_init(cv); } ~Def() { mpECurve_clear(cv); } Def(const Def &) = delete; };
// the curve the contents describe, as the library itself defines it from the same numbers
static void define(const Leaves &l, Kind k, Def &d) {
    const Bytes *c = &l[own(k)]; d.ok = false; for (int i : {0, 2, 3, 4, 5, 6, 7}) if (c[i].empty()) return;
    long t, b; if (!small_int(c[1], t) || !small_int(c[8], b) || t < 2 || t > 5) return; static const Form F[] = {WS, ED, MO, TE}; d.form = t; Z v[9]; for (int i : {0, 2, 3, 4, 5, 6, 7}) v[i] = unbe(c[i].data(), c[i].size());
    d.r.f = F[t - 2]; d.r.name = "curve"; d.r.p = v[0]; d.r.a = v[2]; d.r.b = v[3]; d.r.n = v[4]; d.r.h = v[5]; d.r.G.x = v[6]; d.r.G.y = v[7]; d.r.bits = (unsigned)(int)b; d.ok = LibCurve::define(d.cv, d.r.f, v[0], v[2], v[3], v[4], v[5], v[6], v[7], (unsigned)(int)b) == 0;
}
static bool curve_same(mpECurve_ptr a, Def &d) {
    mpECurve_ptr b = d.cv; if (a->type != b->type || mpz_cmp(a->fp->p, b->fp->p) || mpz_cmp(a->n, b->n) || mpz_cmp(a->h, b->h) || mpz_cmp(a->G[0], b->G[0]) || mpz_cmp(a->G[1], b->G[1]) || a->bits != b->bits || mpz_cmp(a->n, d.r.n.v) || mpz_cmp(a->h, d.r.h.v) || mpz_cmp(a->G[0], d.r.G.x.v) || mpz_cmp(a->G[1], d.r.G.y.v) || (unsigned)a->bits != d.r.bits) return false;
    return mpECurve_cmp(a, b) == 0 && mpECurve_cmp(b, a) == 0;
}
struct Exp { bool sure = false, ok = false, either = false; }; // sure: the verdict is known
static bool singular(const BigRef &r) { switch (r.f) { case WS: return !r.m(Z(4) * r.a * r.a * r.a + Z(27) * r.b * r.b).sgn(); case ED: return !r.m(r.a).sgn() || !r.m(r.b).sgn() || r.m(r.a * r.a * r.a * r.a * r.b) == Z(1); case MO: return !r.m(r.a).sgn() || !r.m(r.b * r.b - Z(4)).sgn(); default: return !r.m(r.a).sgn() || !r.m(r.b).sgn() || r.m(r.a) == r.m(r.b); } }
static Exp expect(const Leaves *l, Kind k, Def &d) {
    Exp e; if (!l) return e; e.sure = true; if (k == MSG) { e.ok = true; return e; }
    define(*l, k, d); if (!d.ok) return e; if (k == PRIV) { e.ok = !(*l)[0].empty(); return e; }
    e.either = singular(d.r);
    e.ok = true; for (size_t i = 0; i < own(k); i++) { const Bytes &b = (*l)[i]; Pt q(d.cv); unsigned char *t = (unsigned char *)malloc(b.size() + 1); memcpy(t, b.data(), b.size()); int st = mpECP_set_bytes(q.q, t, b.size(), d.cv); free(t); if (st != 0) { e.ok = false; continue; } if (k == PUB) { Pt o(d.cv); mpECP_set_neutral(o.q, d.cv); if (mpECP_cmp(q.q, o.q) == 0) e.either = true; } }
    return e;
}
static bool neutral(const Leaves &l, Kind k, const Def &w) { for (size_t i = 0; i < own(k); i++) { Pt q((mpECurve_ptr)w.cv), o((mpECurve_ptr)w.cv); Bytes b = l[i]; mpECP_set_neutral(o.q, (mpECurve_ptr)w.cv); if (mpECP_set_bytes(q.q, b.data(), b.size(), (mpECurve_ptr)w.cv) == 0 && mpECP_cmp(q.q, o.q) == 0) return true; } return false; }
struct Buf { char *p; Buf(const Bytes &b) { p = (char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size()); if (b.empty()) p++; base = b.empty() ? p - 1 : p; } char *base; ~Buf() { free(base); } };
static Bytes got(mpECP_ptr q) { Bytes b(mpECP_out_bytelen(q, 1)); mpECP_out_bytes(b.data(), q, 1); return b; }
static void take(char *der, size_t n, Bytes &o) { o.assign(der, der + n); free(der); }
// one import; on success re-exports. returns the status, fills leaves of the re-export
static int import(Ctx &c, Kind k, const Bytes &d, Bytes &out, std::vector<Bytes> &val, Def *want, const std::string &what) {
    Buf in(d); int st = -1; size_t n = 0; char *o; c.trans();
    if (k == PRIV) {
        mpz_t s; mpECurve_t cv; mpz_init(s); mpECurve_init(cv); st = _ecdh_der_import_privkey(s, cv, in.p, d.size());
        if (st == 0) { val = {num(Z::from(s))}; if (want && want->ok && !curve_same(cv, *want)) c.fail("%s: another curve was read", what.c_str()); o = _ecdh_der_export_privkey(s, cv, &n); if (!o) c.fail("%s: what was read cannot be written", what.c_str()); take(o, n, out); }
        mpECurve_clear(cv); mpz_clear(s);
    } else if (k == PUB) {
        mpECP_t q; mpECurve_t cv; memset(q, 0x5B, sizeof q); memset(cv, 0x5B, sizeof cv); st = _ecdh_der_init_import_pubkey(q, cv, in.p, d.size());
        if (st == 0) { val = {got(q)}; if (want && want->ok && !curve_same(cv, *want)) c.fail("%s: another curve was read", what.c_str()); if (mpECurve_cmp(q->cvp, cv)) c.fail("%s: the point is bound to another curve", what.c_str()); o = _ecdh_der_export_pubkey(q, cv, &n); if (!o) c.fail("%s: what was read cannot be written", what.c_str()); take(o, n, out); mpECP_clear(q); mpECurve_clear(cv); }
    } else if (k == CT) {
        mpECElgamalCiphertext_t t; mpECurve_t cv; memset(t, 0x5B, sizeof t); mpECurve_init(cv); st = _ecelgamal_der_import_ciphertxt(t, cv, in.p, d.size());
        if (st == 0) { val = {got(t->C), got(t->D)}; if (want && want->ok && !curve_same(cv, *want)) c.fail("%s: another curve was read", what.c_str()); if (mpECurve_cmp(t->C->cvp, cv) || mpECurve_cmp(t->D->cvp, cv)) c.fail("%s: the points are bound to another curve", what.c_str()); o = _ecelgamal_der_export_ciphertxt(t, &n); if (!o) c.fail("%s: what was read cannot be written", what.c_str()); take(o, n, out); mpECElgamal_clear(t); }
        mpECurve_clear(cv);
    } else {
        unsigned char *v[3]; int z[3] = {-7, -7, -7}; memset(v, 0x5B, sizeof v); st = _ecdhe_der_init_import_message(&v[0], &z[0], &v[1], &z[1], &v[2], &z[2], in.p, d.size());
        if (st == 0) { val.clear(); for (int i = 0; i < 3; i++) { if (z[i] < 0) c.fail("%s: field of %d bytes", what.c_str(), z[i]); val.push_back(Bytes(v[i], v[i] + z[i])); free(v[i]); } }
    }
    if (memcmp(in.p, d.data(), d.size())) c.fail("%s: reading changed the data", what.c_str());
    return st;
}
// contents listed as known findings, which are not read at all
// what the decoder finds in data that need not be DER; false: it does not decode
static bool decode(Kind k, const Bytes &d, Leaves &l) {
    static asn1_node root[2]; asn1_node &t = root[k == CT]; char err[ASN1_MAX_ERROR_DESCRIPTION_SIZE]; if (!t && asn1_array2tree(k == CT ? elgamal_asn1_tab : ecdhe_asn1_tab, &t, err) != ASN1_SUCCESS) abort();
    static const char *T[] = {"ExampleASN.ECDHPrivateKey", "ExampleASN.ECDHPublicKey", "EGExampleASN.ECElgamalCiphertxt", "ExampleASN.ECDHEMessage"}; static const char *C[] = {"curve.p", "curve.type", "curve.param.p1", "curve.param.p2", "curve.n", "curve.h", "curve.g.x", "curve.g.y", "curve.bits"};
    asn1_node e = nullptr; if (asn1_create_element(t, T[k], &e) != ASN1_SUCCESS) abort(); bool ok = asn1_der_decoding(&e, d.data(), d.size(), err) == ASN1_SUCCESS; l.clear();
    if (ok) for (size_t i = 0; i < own(k) + (k == MSG ? 0 : 9); i++) { Bytes v(d.size() + 16); int n = v.size(); if (asn1_read_value(e, i < own(k) ? leaf_name(k, i) : C[i - own(k)], v.data(), &n) != ASN1_SUCCESS || n < 0) n = 0; v.resize(n); l.push_back(v); }
    asn1_delete_structure(&e); return ok;
}
static bool listed(Ctx &c, Kind k, const Leaves *l, const Exp &e, const Def &w) {
    if (!l) return false; size_t t = own(k) + 1, b = own(k) + 8; long x;
    for (size_t i = 0; i < l->size(); i++) { if ((*l)[i].empty()) return c.is_known("empty-field"); if (k != MSG && (i == t || i == b) && !small_int((*l)[i], x)) return c.is_known("empty-field"); }
    if (k == PUB && !w.ok) return c.is_known("pubkey-curve"); if (k == PUB && (!e.ok || e.either || neutral(*l, k, w))) return c.is_known("pubkey-point");
    if (k == CT && (!e.ok || e.either || neutral(*l, k, w))) return c.is_known("ciphertext-point");
    return false;
}
// reads a container (parsed: strict contents if known) and judges the outcome
static void read_check(Ctx &c, Kind k, const Bytes &d, const std::string &what0, bool must = false) {
    Leaves l; bool strict = split(k, d, l); Def w; Exp e = expect(strict ? &l : nullptr, k, w); std::string what = vc::fmt("%s container, %s [%s]", KIND[k], what0.c_str(), vhex(d).c_str()); Bytes out, out2; std::vector<Bytes> v, v2;
    bool decodes = strict; if (strict) { if (listed(c, k, &l, e, w)) return; } else { Leaves m; Def w2; decodes = decode(k, d, m); if (decodes) { Exp e2 = expect(&m, k, w2); if (listed(c, k, &m, e2, w2)) return; } }
    if (must && !(e.sure && e.ok)) c.fail("%s: not a well-formed container", what.c_str());
    int st = import(c, k, d, out, v, e.sure ? &w : nullptr, what);
    if (e.sure && !e.either) { if (e.ok && st != 0) c.fail("%s: refused", what.c_str()); if (!e.ok && st == 0) c.fail("%s: accepted", what.c_str()); }
    bool deg = strict && w.ok && singular(w.r);
    if (st == 0 && strict && !deg) {
        for (size_t i = 0; i < own(k); i++) { Bytes x = l[i]; if (k == PRIV) x = num(unbe(x.data(), x.size())); if (k == PUB || k == CT) { Pt a(w.cv), b(w.cv); if (mpECP_set_bytes(a.q, x.data(), x.size(), w.cv) || mpECP_set_bytes(b.q, v[i].data(), v[i].size(), w.cv) || mpECP_cmp(a.q, b.q)) c.fail("%s: %s reads as %s", what.c_str(), leaf_name(k, i), vhex(v[i]).c_str()); } else if (v[i] != x) c.fail("%s: %s reads as %s", what.c_str(), leaf_name(k, i), vhex(v[i]).c_str()); }
    }
    if (st == 0 && k != MSG && !deg) { // consistent: what it writes is a container with the same contents, and reads back
        Leaves m; if (!split(k, out, m)) { Bytes b = out; c.fail("%s: what was read is written as %s", what.c_str(), vhex(b).c_str()); }
        if (strict) for (size_t i = own(k); i < m.size(); i++) { size_t j = i - own(k); if (j == 1 || j == 8) { long x, y; if (!small_int(m[i], x) || !small_int(l[i], y) || (x != y && !(m[i].size() == 2 && (x & 0xffff) == (y & 0xffff)))) c.fail("%s: %s is written as %s", what.c_str(), leaf_name(k, i), vhex(m[i]).c_str()); } else { Z x = unbe(m[i].data(), m[i].size()), y = unbe(l[i].data(), l[i].size()); if (j == 2 || j == 3) y = y.mod(w.r.p); if (x != y) c.fail("%s: %s is written as %s", what.c_str(), leaf_name(k, i), vhex(m[i]).c_str()); } }
        if (import(c, k, out, out2, v2, nullptr, what + ", written and read again") != 0) c.fail("%s: accepted, but what it writes is refused [%s]", what.c_str(), vhex(out).c_str()); if (v2 != v || out2 != out) c.fail("%s: changed by writing and reading", what.c_str());
    }
    { long g0 = vc::heap_live; Bytes o2; std::vector<Bytes> v3; { Bytes t; int s2 = import(c, k, d, t, v3, nullptr, what); if (s2 != st) c.fail("%s: first read gives %d, second %d", what.c_str(), st, s2); } v3.clear(); v3.shrink_to_fit(); if (vc::heap_live != g0 && !(!decodes && st != 0 && c.is_known("leak-not-der"))) c.fail("%s: reading %s leaves %ld blocks", what.c_str(), st == 0 ? "(accepted)" : "(refused)", vc::heap_live - g0); }
    c.trace(); c.outcome((st == 0) + 2 * e.sure + 4 * e.ok + 8 * k + 32 * std::min<size_t>(d.size(), 1000)); c.state(vc::hash_bytes(d.data(), d.size(), k));
}
static Bytes point(const BigRef &r, const BP &P, bool comp = true) { return encode(r, P, comp); }
static Leaves build(Kind k, const BigRef &r, const Z &s) {
    Leaves l; if (k == PRIV) l = {oct(s)}; else if (k == PUB) l = {tlv(4, point(r, r.mulG(s)))}; else if (k == CT) l = {tlv(4, point(r, r.mulG(s))), tlv(4, point(r, r.mulG(s + Z(5))))}; else l = {tlv(4, point(r, r.mulG(s))), tlv(4, Bytes(24, 0x11)), tlv(4, Bytes(3, 0x22))};
    if (k != MSG) curve_leaves(l, r); return l;
}
static std::vector<Z> keys(const BigRef &r, bool th) { std::vector<Z> v = {Z(1), Z(2), Z(127), Z(128), Z(255), Z(256), r.n / Z(2), r.n - Z(1), r.n - Z(2), Z(0)}; size_t L = (r.n.bits() + 7) / 8; for (size_t j = 2; j < L; j++) if (th || j % 8 == 0 || j + 2 > L) { v.push_back(Z::pow2(8 * j)); v.push_back(Z::pow2(8 * j) - Z(1)); v.push_back(Z::pow2(8 * j - 1)); } std::vector<Z> o; for (auto &z : v) if (z < r.n) o.push_back(z); return o; }
// writes with the library, reads with the reference and with the library
static void round_trip(Ctx &c, const BigRef &r, const Z &s, Kind k) {
    mpECurve_t cv; mpECurve_init(cv); if (r.define(cv)) c.fail("%s is refused", r.name.c_str()); size_t n = 0; char *o = nullptr; Leaves l; std::string what = vc::fmt("%s on %s, scalar 0x%s", KIND[k], r.name.c_str(), s.str().c_str()); c.trans();
    long g0 = vc::heap_live; Bytes d; { Bytes t;
    if (k == PRIV) o = _ecdh_der_export_privkey((mpz_ptr)s.v, cv, &n);
    else { BP P = r.mulG(s), Q = r.mulG(s + s + Z(1)); Pt a(cv), b(cv); set_pt(a.q, P, cv); set_pt(b.q, Q, cv); g0 = vc::heap_live; if (k == PUB) o = _ecdh_der_export_pubkey(a.q, cv, &n); else { mpECElgamalCiphertext_t ct; ct->C[0] = a.q[0]; ct->D[0] = b.q[0]; o = _ecelgamal_der_export_ciphertxt(ct, &n); } if (vc::heap_live != g0 + 1) c.fail("%s: writing leaves %ld blocks besides its result", what.c_str(), vc::heap_live - g0 - 1); }
    if (!o) c.fail("%s: not written", what.c_str()); if (k == PRIV && vc::heap_live != g0 + 1) c.fail("%s: writing leaves %ld blocks besides its result", what.c_str(), vc::heap_live - g0 - 1); }
    take(o, n, d); if (!split(k, d, l)) c.fail("%s: written as %s, not a container", what.c_str(), vhex(d).c_str());
    // contents as the reference has them
    Leaves w = build(k, r, s); if (k == CT) w[1] = tlv(4, point(r, r.mulG(s + s + Z(1)))); Leaves wl; if (!split(k, join(k, w), wl)) abort();
    for (size_t i = 0; i < l.size(); i++) { bool same = i < own(k) && k != PRIV ? l[i] == wl[i] : unbe(l[i].data(), l[i].size()) == unbe(wl[i].data(), wl[i].size()); if (!same) c.fail("%s: field %s is written as %s, expected %s", what.c_str(), leaf_name(k, i), vhex(l[i]).c_str(), vhex(wl[i]).c_str()); }
    bool ident = k == PUB && r.mulG(s).inf; mpECurve_clear(cv); read_check(c, k, d, "written by the library, " + what); if (!ident) read_check(c, k, join(k, w), "reference for " + what, true);
    if (c.want_sample()) c.sample("%s -> %s", what.c_str(), vhex(d).substr(0, 300).c_str());
}
static void trips(Ctx &c, const BigRef &r, bool th) {
    for (Kind k : {PRIV, PUB, CT}) for (auto &s : keys(r, th)) if (c.next()) round_trip(c, r, s, k);
    // first use of the library in its process
    Z s = r.n - Z(1); for (Kind k : {PRIV, PUB, CT}) { if (!c.next()) continue; Leaves l = build(k, r, s); Bytes d = join(k, l); vc::forked(c, [&] { Bytes o; std::vector<Bytes> v; int st = import(c, k, d, o, v, nullptr, "first read of a process"); if (st) c.fail("%s of %s is refused by a fresh process", KIND[k], r.name.c_str()); Leaves m, w; split(k, o, m); split(k, d, w); for (size_t i = 0; i < m.size(); i++) if (unbe(m[i].data(), m[i].size()) != unbe(w[i].data(), w[i].size())) c.fail("%s of %s read by a fresh process: %s is %s", KIND[k], r.name.c_str(), leaf_name(k, i), vhex(m[i]).c_str()); }, "first read of a process"); c.trace(); }
}
static void all_points(Ctx &c, const RefCurve &q) { BigRef r(q); for (Kind k : {PRIV, PUB, CT}) for (Z s(0); s < r.n; s = s + Z(1)) if (c.next()) round_trip(c, r, s, k);
    mpECurve_t cv; mpECurve_init(cv); r.define(cv); // every ciphertext pair, also of points outside the subgroup
    for (size_t i = 0; i < q.pts.size(); i++) for (size_t j = 0; j < q.pts.size(); j++) { if (!c.next()) continue; Pt a(q, i, cv), b(q, j, cv); mpECElgamalCiphertext_t ct; ct->C[0] = a.q[0]; ct->D[0] = b.q[0]; size_t n; char *o = _ecelgamal_der_export_ciphertxt(ct, &n); Bytes d; take(o, n, d); read_check(c, CT, d, "pair of points", true); }
    mpECurve_clear(cv); }
// fields
static std::vector<std::pair<std::string, Bytes>> field_edits(const Bytes &t, const BigRef &r, size_t i, Kind k, bool th) {
    std::vector<std::pair<std::string, Bytes>> v; Bytes b(t.begin() + 2, t.end()); int tag = t[0]; if (t.size() > 129) b.assign(t.begin() + 2 + (t[1] & 0x7f), t.end());
    auto add = [&](const char *n, const Bytes &x) { v.push_back({n, tlv(tag, x)}); }; v.push_back({"missing", Bytes()}); add("empty", Bytes()); add("zero", Bytes(1, 0)); add("one", Bytes(1, 1)); add("leading zero", Bytes(1, 0) + b); add("four leading zeros", Bytes(4, 0) + b); add("0xff", Bytes(1, 255)); add("extended", b + Bytes(1, 0)); add("doubled", b + b);
    if (!b.empty()) { Bytes x = b; x.pop_back(); add("shortened", x); x = b; x.erase(x.begin()); add("first byte lost", x); x = b; x[0] ^= 1; add("first bit", x); x = b; x.back() ^= 1; add("last bit", x); x = b; x.back() += 2; add("plus two", x); x = b; x[0] = 0; add("prefix 0", x); x[0] = 3; add("prefix 3", x); x[0] = 2; add("prefix 2", x); x[0] = 4; add("prefix 4", x); add("all ones", Bytes(b.size(), 255)); add("all zero", Bytes(b.size(), 0)); }
    for (size_t n : {5, 8, 9, 127, 128, 129, 255, 256, 257, 300}) if (th || n < 10 || n == 128 || n == 257) { add(vc::fmt("%zu bytes", n).c_str(), Bytes(n, 0x81)); }
    for (int u : {2, 3, 4, 5, 10, 0x24, 0x30, 0x84}) if (u != tag) v.push_back({vc::fmt("tag %02x", u), tlv(u, b)});
    if (tag == 10) for (int x = 0; x < 256; x++) if (th || x < 8 || x > 250 || x % 16 == 2) { add("type", Bytes(1, x)); add("wide type", Bytes(1, 0) + Bytes(1, x)); if (th) add("wide type", Bytes(3, 0) + Bytes(1, x)); add("type with high bytes", Bytes(1, 1) + Bytes(1, x)); }
    if (tag == 2) for (long x : {0l, 1l, 3l, 4l, 8l, 9l, 15l, 16l, 17l, 31l, 64l, 127l, 128l, 255l, 256l, 511l, 512l, 1024l, 2047l, 2048l, 2049l, 4096l, 32767l, 32768l, 65535l, 65536l, 0x7fffffffl}) { Bytes y = num(Z(x)); add("width", y); add("wide width", Bytes(1, 0) + y); }
    if (k != MSG && i >= own(k) && tag == 4) { for (auto &z : {r.p, r.n, r.p + Z(1), r.p - Z(1), r.n - Z(1), r.p * r.p, r.p + r.p, Z(3), Z(4), Z(5), Z(9), Z(25), r.h, r.a, r.b, r.G.x, r.G.y}) add("number", num(z)); for (unsigned e : {64u, 1023u, 1024u, 1025u, 2047u, 2048u}) if (th || e == 1024) add("power of two", num(Z::pow2(e))); if (th || i == own(k)) add("wide prime", num(next_prime(Z::pow2(200)))); }
    if (k == PUB || k == CT || k == MSG) if (i < (k == CT ? 2 : 1)) { for (auto &P : {r.zero(), r.G, r.mulG(Z(2)), r.mulG(r.n - Z(1))}) { add("point", point(r, P)); add("uncompressed point", point(r, P, false)); } }
    return v;
}
static void fields(Ctx &c, const BigRef &r, Kind k, bool pairs, bool th) {
    Leaves l = build(k, r, Z(3).mod(r.n)); std::vector<std::vector<std::pair<std::string, Bytes>>> E; for (size_t i = 0; i < l.size(); i++) E.push_back(field_edits(l[i], r, i, k, th));
    for (size_t i = 0; i < l.size(); i++) for (auto &e : E[i]) { if (!c.next()) continue; Leaves m = l; m[i] = e.second; read_check(c, k, join(k, m), vc::fmt("%s: %s", leaf_name(k, i), e.first.c_str())); }
    if (pairs) for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) for (size_t a = 0; a < E[i].size(); a++) for (size_t b = 0; b < E[j].size(); b++) { if (!th && (a * 7 + b * 3 + i + j) % 5) continue; if (!c.next()) continue; Leaves m = l; m[i] = E[i][a].second; m[j] = E[j][b].second; read_check(c, k, join(k, m), vc::fmt("%s: %s, %s: %s", leaf_name(k, i), E[i][a].first.c_str(), leaf_name(k, j), E[j][b].first.c_str())); }
    for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) if (i != j) { if (!c.next()) continue; Leaves m = l; std::swap(m[i], m[j]); read_check(c, k, join(k, m), vc::fmt("%s and %s exchanged", leaf_name(k, i), leaf_name(k, j))); if (!c.next()) continue; m = l; m[i] = m[i] + l[j]; read_check(c, k, join(k, m), vc::fmt("%s after %s", leaf_name(k, j), leaf_name(k, i))); }
}
// bytes
static void bytes(Ctx &c, const BigRef &r, Kind k, int mode, bool th) {
    Bytes d = join(k, build(k, r, Z(3).mod(r.n)));
    for (size_t n = 0; n < d.size(); n++) if (c.next()) read_check(c, k, Bytes(d.begin(), d.begin() + n), vc::fmt("cut to %zu bytes", n));
    for (int n : {1, 2, 3, 16, 300}) for (int f : {0, 1, 4, 0x30, 255}) if (c.next()) read_check(c, k, d + Bytes(n, f), vc::fmt("%d bytes of %02x appended", n, f));
    for (size_t i = 0; i < d.size(); i++) for (int x = 1; x < 256; x++) { if (mode == 1 && (x & (x - 1)) && x != d[i] && (x ^ d[i]) != 255 && (x ^ d[i]) != 128) continue; if (mode == 0 && x != 1 && x != 128 && (x ^ d[i]) != 128 && x != d[i]) continue; if (!c.next()) continue; Bytes e = d; e[i] ^= x; read_check(c, k, e, vc::fmt("byte %zu changed by %02x", i, x)); }
    for (size_t i = 0; i < d.size(); i++) { if (c.next()) { Bytes e = d; e.erase(e.begin() + i); read_check(c, k, e, vc::fmt("byte %zu lost", i)); } for (int f : {0, 4, 0x80, 255}) if (mode || f == 0) if (c.next()) { Bytes e = d; e.insert(e.begin() + i, f); read_check(c, k, e, vc::fmt("%02x inserted at %zu", f, i)); } }
    for (size_t i = 0; mode > 0 && i < d.size(); i++) for (size_t n = 2; i + n <= d.size(); n++) { if (!th && n > 6 && n % 7) continue; if (c.next()) { Bytes e = d; e.erase(e.begin() + i, e.begin() + i + n); read_check(c, k, e, vc::fmt("%zu bytes lost at %zu", n, i)); } }
    // lengths in other forms: indefinite, over-long
    for (size_t i = 0; i + 1 < d.size(); i++) for (int f : {0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0xfe, 0xff}) { if (!c.next()) continue; Bytes e = d; unsigned char n = e[i + 1]; e[i + 1] = f; e.insert(e.begin() + i + 2, n); read_check(c, k, e, vc::fmt("length form %02x at %zu", f, i + 1)); if (!c.next()) continue; e.insert(e.begin() + i + 2, 3, 255); read_check(c, k, e, vc::fmt("length form %02x ffffff at %zu", f, i + 1)); }
    if (mode > 1 && d.size() < 80) for (size_t i = 0; i < d.size(); i++) for (size_t j = i + 1; j < d.size(); j++) for (int x : {1, 2, 255}) for (int y : {1, 2, 254}) { if (!th && (i + j + x + y) % 3) continue; if (!c.next()) continue; Bytes e = d; e[i] += x; e[j] += y; read_check(c, k, e, vc::fmt("bytes %zu and %zu changed", i, j)); }
}
static void tiny(Ctx &c, Kind k, bool th) { // every string of up to two bytes, and of three or more over the bytes that matter
    for (int a = -1; a < 256; a++) for (int b = -1; b < (a < 0 ? 0 : 256); b++) { if (!c.next()) continue; Bytes d; if (a >= 0) d.push_back(a); if (b >= 0) d.push_back(b); read_check(c, k, d, "short data"); }
    static const unsigned char A[] = {0, 1, 2, 3, 4, 5, 10, 0x24, 0x30, 0x80, 0x81, 0x82, 0x84, 0x88, 0xff}; const size_t K = sizeof A;
    for (int len = 2; len <= (th ? 4 : 3); len++) { size_t N = 1; for (int i = 0; i < len; i++) N *= K; for (size_t v = 0; v < N; v++) { if (!c.next()) continue; Bytes d(1, 0x30); size_t t = v; for (int i = 0; i < len; i++) { d.push_back(A[t % K]); t /= K; } read_check(c, k, d, "short data"); } }
}
static void messages(Ctx &c, const BigRef &r, bool th) {
    mpECurve_t cv; mpECurve_init(cv); r.define(cv); std::vector<size_t> S; for (size_t n = 0; n < 140; n++) S.push_back(n); for (size_t n : {253, 254, 255, 256, 257, 258, 1000, 16383, 32767, 32768, 65535, 65536, 65537, 70000}) S.push_back(n); if (th) { S.push_back(1 << 20); S.push_back((1 << 24) + 1); }
    for (long e : {1l, 2l, 0l}) for (size_t ms : S) for (size_t ns : {24, 0, 1, 127, 128, 300}) { if ((!ms || !ns) && c.is_known("message-empty")) continue; if (ns != 24 && ms > 3 && ms != 128 && ms != 65536) continue; if (e != 1 && ms > 130) continue; if (!c.next()) continue;
        BP P = r.mulG(Z(e)); unsigned char *m = (unsigned char *)malloc(ms ? ms : 1), *no = (unsigned char *)malloc(ns ? ns : 1); memset(m, 0xAA, ms ? ms : 1); memset(no, 0xBB, ns ? ns : 1); for (size_t i = 0; i < ms; i++) m[i] = i * 7 + (i >> 8) + (e & 1); for (size_t i = 0; i < ns; i++) no[i] = i * 5; if (ms > 2) m[1] = 0; size_t n = 0; Bytes pt = point(r, P); c.trans();
        std::string what = vc::fmt("message of %zu bytes, nonce of %zu, %s", ms, ns, r.name.c_str()); long g0; char *o; { Pt q(cv); set_pt(q.q, P, cv); g0 = vc::heap_live; o = _ecdhe_der_export_message(q.q, no, ns, m, ms, &n); if (!o) c.fail("%s: not written", what.c_str()); if (vc::heap_live != g0 + 1) c.fail("%s: writing leaves %ld blocks besides its result", what.c_str(), vc::heap_live - g0 - 1); }
        Bytes d; take(o, n, d); Leaves l; if (!split(MSG, d, l)) c.fail("%s: written as %s", what.c_str(), vhex(d).c_str()); if (l[0] != pt || l[1] != Bytes(no, no + ns) || l[2] != Bytes(m, m + ms)) c.fail("%s: written as %s", what.c_str(), vhex(d).c_str());
        unsigned char *v[3]; int z[3]; Buf in(d); g0 = vc::heap_live; if (_ecdhe_der_init_import_message(&v[0], &z[0], &v[1], &z[1], &v[2], &z[2], in.p, d.size()) != 0) c.fail("%s: written, but refused when read", what.c_str()); if ((size_t)z[0] != pt.size() || (size_t)z[1] != ns || (size_t)z[2] != ms || memcmp(v[0], pt.data(), pt.size()) || memcmp(v[1], no, ns) || memcmp(v[2], m, ms)) c.fail("%s: read back as something else (%d,%d,%d bytes)", what.c_str(), z[0], z[1], z[2]); for (auto p : v) free(p); if (vc::heap_live != g0) c.fail("%s: reading leaves %ld blocks", what.c_str(), vc::heap_live - g0);
        free(m); free(no); c.trace(); c.state(ms * 1000 + ns * 4 + e); }
    mpECurve_clear(cv);
}
static void warm(Ctx &c) { vc::heap_count_on(); Leaves l = build(PUB, *golden("secp112r1"), Z(3)); Bytes o; std::vector<Bytes> v; import(c, PUB, join(PUB, l), o, v, nullptr, "warm"); }
// ---- the command line programs, from key to recovered text
static std::string BIN, SC;
static int exec_(Ctx &c, const std::vector<std::string> &a, const std::string &in, const std::string &out) {
    fflush(nullptr); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
    if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); struct rlimit rl = {20, 21}; setrlimit(RLIMIT_CPU, &rl); struct rlimit fl = {1 << 26, 1 << 26}; setrlimit(RLIMIT_FSIZE, &fl); int i = open(in.empty() ? "/dev/null" : in.c_str(), O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(i, 0); dup2(o, 1); std::vector<char *> v; std::string path = BIN + "/" + a[0]; v.push_back((char *)path.c_str()); for (size_t k = 1; k < a.size(); k++) v.push_back((char *)a[k].c_str()); v.push_back(nullptr); execv(path.c_str(), v.data()); _exit(126); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} c.trans();
    std::string cmd; for (auto &x : a) cmd += x + " "; if (!WIFEXITED(st)) c.fail("%sended with signal %d", cmd.c_str(), WTERMSIG(st)); int rc = WEXITSTATUS(st); if (rc != 0 && rc != 1) c.fail("%sended with exit status %d (see log)", cmd.c_str(), rc); return rc;
}
static void put(const std::string &f, const Bytes &b) { FILE *h = fopen(f.c_str(), "wb"); if (!h) abort(); fwrite(b.data(), 1, b.size(), h); fclose(h); }
static Bytes get(const std::string &f) { Bytes b; FILE *h = fopen(f.c_str(), "rb"); if (!h) return b; int ch; while ((ch = fgetc(h)) != EOF) b.push_back(ch); fclose(h); return b; }
struct Work { std::string d; Work(int id) { d = SC + vc::fmt("/cli%d", id); mkdir(d.c_str(), 0755); } std::string operator()(const char *n) const { return d + "/" + n; } };
#define RUN(what, ...) do { if (exec_(c, __VA_ARGS__) != 0) c.fail("%s fails", what); } while (0)
static void pipeline(Ctx &c, const char *name, int id, const std::vector<size_t> &sizes) {
    Work w(id); std::string k1 = w("k1"), p1 = w("p1"), k2 = w("k2"), p2 = w("p2"), m = w("m"), e = w("e"), o = w("o"); std::string N = name;
    auto keys = [&] { RUN("ecdh_gen", {"ecdh_gen", "-c", N}, "", k1); RUN("ecdh_pub", {"ecdh_pub", "-f", k1}, "", p1); RUN("ecdh_gen", {"ecdh_gen", "-c", N}, "", k2); RUN("ecdh_pub", {"ecdh_pub"}, k2, p2); };
    if (c.target < 0 || true) keys();
    for (size_t n : sizes) { Bytes b; for (size_t i = 0; i < n; i++) b.push_back(i * 31 + (i >> 7) + (i & 1 ? 0 : 0x80)); put(m, b);
        if (c.next() && !(n == 0 && c.is_known("empty-input"))) { RUN("ecdh_enc", {"ecdh_enc", "-k", p1}, m, e); RUN("ecdh_dec", {"ecdh_dec", "-k", k1, "-f", e}, "", o); if (get(o) != b) c.fail("%s: message of %zu bytes is decrypted to %zu bytes, not the same", name, n, get(o).size()); c.trace(); }
        if (n && c.next() && !((n == 1 || n == 2 || n == 4) && c.is_known("sign-short"))) { RUN("ecdsa_sign", {"ecdsa_sign", "-k", k1}, m, e); RUN("ecdsa_verify", {"ecdsa_verify", "-k", p1}, e, o); if (get(o) != b) c.fail("%s: signed message of %zu bytes is not the one verified", name, n); if (exec_(c, {"ecdsa_verify", "-k", p2}, e, o) == 0) c.fail("%s: signature over %zu bytes verifies under another key", name, n); c.trace(); } c.state(vc::hash_str(N) + n); }
    if (c.next()) { RUN("ecelgamal_enc", {"ecelgamal_enc", "-k", p1}, p2, e); RUN("ecelgamal_dec", {"ecelgamal_dec", "-k", k1}, e, o); if (get(o) != get(p2)) c.fail("%s: ElGamal decryption differs", name); c.trace(); }
}
static const char *WRAP[] = {"ECDH PRIVATE KEY", "ECDH PUBLIC KEY", "ECELGAMAL ENCRYPTED MESSAGE", "ECDHE_XSALSA20 ENCRYPTED MESSAGE"};
static bool unwrap(Kind k, const Bytes &text, Bytes &d) { if (text.empty()) return false; std::vector<char> t(text.begin(), text.end()); t.push_back(0); size_t n = 0; char *p = read_b64wrapped_from_buffer(t.data(), (char *)WRAP[k], &n); if (!p) return false; d.assign(p, p + n); free(p); return true; }
// a file whose contents are listed, so that no program is given it
static bool listed_file(Ctx &c, Kind k, const Bytes &text) { Bytes d; Leaves l; Def w; if (!unwrap(k, text, d)) return false; if (!split(k, d, l) && !decode(k, d, l)) return false; Exp e = expect(&l, k, w); return listed(c, k, &l, e, w); }
// a message whose point or nonce does not fit the key it is decrypted with
static bool listed_pair(Ctx &c, const Bytes &key, const Bytes &msg) { Bytes a, b; Leaves la, lb; Def w; if (!unwrap(PRIV, key, a) || !unwrap(MSG, msg, b)) return false; if ((!split(PRIV, a, la) && !decode(PRIV, a, la)) || (!split(MSG, b, lb) && !decode(MSG, b, lb))) return false; define(la, PRIV, w); if (!w.ok) return false; Pt q(w.cv); Bytes P = lb[0]; if (lb[1].size() != 24 || P.empty() || mpECP_set_bytes(q.q, P.data(), P.size(), w.cv) != 0) return c.is_known("dec-unchecked"); return false; }
// the message section of a signed file is complete up to a dash
static bool whole(const Bytes &d) { std::vector<char> t(d.begin(), d.end()); t.push_back(0); size_t n = 0; char *p = read_b64wrapped_from_buffer(t.data(), (char *)"ECDSA SIGNED MESSAGE", &n); free(p); std::string x(d.begin(), d.end()), w = "END ECDSA SIGNED MESSAGE"; size_t at = x.rfind(w); return p && at != std::string::npos && x.find('-', at) != std::string::npos; }
// damaged files for every program: it ends by itself with 0 or 1
static void cli_damage(Ctx &c, const char *name, int id, bool th) {
    Work w(id); std::string N = name, k1 = w("k1"), p1 = w("p1"), m = w("m"), e = w("e"), s = w("s"), g = w("g"), o = w("o"), x = w("x"); Bytes b; for (int i = 0; i < 60; i++) b.push_back(i * 7); put(m, b);
    RUN("ecdh_gen", {"ecdh_gen", "-c", N}, "", k1); RUN("ecdh_pub", {"ecdh_pub"}, k1, p1); RUN("ecdh_enc", {"ecdh_enc", "-k", p1}, m, e); RUN("ecdsa_sign", {"ecdsa_sign", "-k", k1}, m, s); RUN("ecelgamal_enc", {"ecelgamal_enc", "-k", p1}, p1, g);
    struct P { std::vector<std::string> a; std::string in; std::string file; bool must; }; // file: the one damaged
    std::vector<P> V = {{{"ecdh_pub"}, x, k1, false}, {{"ecdh_enc", "-k", x}, m, p1, false}, {{"ecdh_dec", "-k", k1}, x, e, false}, {{"ecdh_dec", "-k", x}, e, k1, false}, {{"ecdsa_sign", "-k", x}, m, k1, false}, {{"ecdsa_verify", "-k", p1}, x, s, false}, {{"ecdsa_verify", "-k", x}, s, p1, false}, {{"ecelgamal_enc", "-k", x}, p1, p1, false}, {{"ecelgamal_enc", "-k", p1}, x, p1, false}, {{"ecelgamal_dec", "-k", k1}, x, g, false}, {{"ecelgamal_dec", "-k", x}, g, k1, false}};
    auto give = [&](const P &v, const Bytes &d) { Kind k = v.file == k1 ? PRIV : v.file == p1 ? PUB : v.file == g ? CT : MSG; if (v.file != s && listed_file(c, k, d)) return false; if (v.a[0] == "ecdh_dec" && listed_pair(c, k == PRIV ? d : get(k1), k == PRIV ? get(e) : d)) return false; if (v.file == s && d.empty() && c.is_known("empty-input")) return false; if (v.file == s && !whole(d) && c.is_known("verify-copy")) return false; put(x, d); return true; };
    for (auto &v : V) { Bytes f = get(v.file); size_t end = f.size() > 6 ? f.size() - 6 : 0; // the last dashes carry nothing
        for (size_t n = 0; n < f.size(); n += (th ? 1 : 1 + f.size() / 25)) { if (!c.next()) continue; if (!give(v, Bytes(f.begin(), f.begin() + n))) continue; int rc = exec_(c, v.a, v.in, o); if (n < end && rc == 0) c.fail("%s accepts a file cut to %zu of %zu bytes", v.a[0].c_str(), n, f.size()); c.trace(); c.state(n * 64 + (&v - &V[0])); }
        for (size_t i = 0; i < f.size(); i += (th ? 1 : 1 + f.size() / 25)) for (int ch : {(int)'-', (int)'A', (int)'\n', 0, 200, (int)'{'}) { if (f[i] == ch) continue; if (!th && ch == 'A' ? false : !th && (i + ch) % 3) continue; if (!c.next()) continue; Bytes d = f; d[i] = ch; if (!give(v, d)) continue; exec_(c, v.a, v.in, o); c.trace(); c.state(i * 70001 + ch * 64 + (&v - &V[0])); }
        if (c.next()) { for (auto &d : {Bytes(), f + f, Bytes(20000, 'A') + f, Bytes(40000, '-')}) if (give(v, d)) exec_(c, v.a, v.in, o); if (c.is_known("failing-read")) { c.trace(); continue; } unlink(x.c_str()); mkdir(x.c_str(), 0755); if (exec_(c, v.a, v.in, o) == 0) c.fail("%s reports success although its input cannot be read", v.a[0].c_str()); rmdir(x.c_str()); c.trace(); } }
    // output that cannot be written
    struct stat sb; if (stat("/dev/full", &sb) == 0 && S_ISCHR(sb.st_mode) && !c.is_known("output-error")) for (auto &a : std::vector<std::pair<std::vector<std::string>, std::string>>{{{"ecdh_gen", "-c", N}, ""}, {{"ecdh_pub"}, k1}, {{"ecdh_enc", "-k", p1}, m}, {{"ecdsa_sign", "-k", k1}, m}, {{"ecelgamal_enc", "-k", p1}, p1}, {{"ecelgamal_dec", "-k", k1}, g}}) if (c.next()) { if (exec_(c, a.first, a.second, "/dev/full") == 0) c.fail("%s reports success although nothing was written", a.first[0].c_str()); c.trace(); }
}
// a crafted container in place of a genuine one: every field edit, through every program that reads it
static void cli_fields(Ctx &c, const BigRef &r, int id, bool th) {
    Work w(id); std::string x = w("x"), m = w("m"), o = w("o"), g = w("g"), e = w("e"), k1 = w("k1"), p1 = w("p1"); put(m, Bytes(50, 'q'));
    auto arm = [](Kind k, const Bytes &d) { static const char *W[] = {"ECDH PRIVATE KEY", "ECDH PUBLIC KEY", "ECELGAMAL ENCRYPTED MESSAGE", "ECDHE_XSALSA20 ENCRYPTED MESSAGE"}; char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n); Bytes t = d; t.push_back(0); write_b64wrapped_to_file(f, (char *)t.data(), d.size(), (char *)W[k]); fclose(f); Bytes b(p, p + n); free(p); return b; };
    Leaves L[4]; for (Kind k : {PRIV, PUB, CT, MSG}) L[k] = build(k, r, Z(3).mod(r.n)); put(k1, arm(PRIV, join(PRIV, L[PRIV]))); put(p1, arm(PUB, join(PUB, L[PUB]))); put(g, arm(CT, join(CT, L[CT]))); put(e, arm(MSG, join(MSG, L[MSG])));
    for (Kind k : {PRIV, PUB, CT, MSG}) for (size_t i = 0; i < L[k].size(); i++) { auto E = field_edits(L[k][i], r, i, k, false); for (size_t a = 0; a < E.size(); a++) { if (!th && (a + i) % 3) continue; if (!c.next()) continue; Leaves l = L[k]; l[i] = E[a].second; Bytes X = arm(k, join(k, l)); if (listed_file(c, k, X) || (k == PRIV && listed_pair(c, X, get(e))) || (k == MSG && listed_pair(c, get(k1), X))) continue; put(x, X);
        if (k == PRIV) { exec_(c, {"ecdh_pub"}, x, o); exec_(c, {"ecdh_dec", "-k", x}, e, o); exec_(c, {"ecelgamal_dec", "-k", x}, g, o); }
        if (k == PUB) { exec_(c, {"ecdh_enc", "-k", x}, m, o); exec_(c, {"ecelgamal_enc", "-k", p1}, x, o); exec_(c, {"ecelgamal_enc", "-k", x}, x, o); }
        if (k == CT) exec_(c, {"ecelgamal_dec", "-k", k1}, x, o); if (k == MSG) exec_(c, {"ecdh_dec", "-k", k1}, x, o); c.trace(); c.state((k * 16 + i) * 1000 + a); } }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) { if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough"); if (!strcmp(argv[i], "--scratch")) SC = argv[i + 1]; } BIN = SC + "/bin";
    std::vector<RefCurve> small; for (Form f : {WS, ED, MO, TE}) small.push_back(nice(f, f == WS ? 11 : 13, 3)); std::vector<RefCurve> *sm = new std::vector<RefCurve>(small); RefCurve *wide = new RefCurve(nice(WS, 251, 100));
    std::vector<const char *> big = {"secp521r1", "Curve25519", "E-222", "Ed25519", "secp256k1"};
    for (int g = 0; g < NGOLDEN; g++) { std::string n = GOLDEN[g].name; vc::unit("round trips on built-in curve " + n, [=](Ctx &c) { warm(c); trips(c, *golden(n.c_str()), th); }); }
    for (size_t i = 0; i < sm->size(); i++) { auto *q = &(*sm)[i]; vc::unit("round trips on " + q->name(), [=](Ctx &c) { warm(c); all_points(c, *q); trips(c, BigRef(*q), true); });
        for (Kind k : {PRIV, PUB, CT, MSG}) { if (k == MSG && i) continue; vc::unit(vc::fmt("%s of %s, fields", KIND[k], q->name().c_str()), [=](Ctx &c) { warm(c); fields(c, BigRef(*q), k, th || i == 0 || k == PUB, th); }); vc::unit(vc::fmt("%s of %s, bytes", KIND[k], q->name().c_str()), [=](Ctx &c) { warm(c); bytes(c, BigRef(*q), k, th || i == 0 || (k == PUB && i == 1) ? 2 : 1, th); }); } }
    vc::unit("round trips on " + wide->name(), [=](Ctx &c) { warm(c); BigRef r(*wide); trips(c, r, true); for (Kind k : {PRIV, PUB, CT}) for (Z s(0); s < r.n; s = s + Z(th ? 1 : 3)) if (c.next()) round_trip(c, r, s, k); });
    for (auto n : big) if (golden(n)) for (Kind k : {PRIV, PUB, CT}) { vc::unit(vc::fmt("%s of %s, fields", KIND[k], n), [=](Ctx &c) { warm(c); fields(c, *golden(n), k, false, th); }); vc::unit(vc::fmt("%s of %s, bytes", KIND[k], n), [=](Ctx &c) { warm(c); bytes(c, *golden(n), k, th ? 2 : 0, th); }); }
    for (Kind k : {PRIV, PUB, CT, MSG}) vc::unit(vc::fmt("%s: short data", KIND[k]), [=](Ctx &c) { warm(c); tiny(c, k, th); });
    vc::unit("messages", [=](Ctx &c) { warm(c); messages(c, *golden("secp256k1"), th); messages(c, BigRef((*sm)[0]), th); });
    int id = 0; for (int g = 0; g < NGOLDEN; g++) { std::string n = GOLDEN[g].name; int my = id++; vc::unit("programs on built-in curve " + n, [=](Ctx &c) { std::vector<size_t> z = {0, 1, 60}; if (g % 9 == 0 || th) for (size_t s : {2, 3, 53, 54, 55, 127, 128, 255, 256, 15999, 16000, 16001, 32000, 70000}) z.push_back(s); pipeline(c, n.c_str(), my, z); }, 60); }
    for (auto n : {"secp112r1", "E-222", "M-221", "Ed25519"}) { int my = id++; if (golden(n)) vc::unit(vc::fmt("programs on damaged files, %s", n), [=](Ctx &c) { cli_damage(c, n, my, th); }, 60); }
    for (size_t i = 0; i < sm->size(); i++) { int my = id++; auto *q = &(*sm)[i]; vc::unit("programs on crafted files, " + q->name(), [=](Ctx &c) { cli_fields(c, BigRef(*q), my, th); }, 60); }
    { int my = id++; vc::unit("programs on crafted files, secp256k1", [=](Ctx &c) { cli_fields(c, *golden("secp256k1"), my, th); }, 60); }
    return vc::main_(argc, argv);
}
