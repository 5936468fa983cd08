// S03: signature bytes and text, out and in.
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
using vc::Ctx;
struct Env { Z n; size_t L; LibCurve *lc = nullptr; NamedCurve *nc = nullptr; Scheme *S; mpECurve_ptr cv; std::string name; };
static Bytes join(const Env &E, const Z &r, const Z &s) { Bytes b = be(r, E.L), t = be(s, E.L); b.insert(b.end(), t.begin(), t.end()); return b; }
static bool hexch(unsigned char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
// imports bytes (text = false) or text and compares with the verdict; on success also checks value and both exports
static void import(Ctx &c, Env &E, const Bytes &in, bool text) {
    Bytes b; bool ok = true; const char *kind = text ? "text" : "bytes"; std::string shown = text ? "\"" + std::string(in.begin(), in.end()) + "\"" : vc::hex(in.data(), in.size());
    if (text) { for (auto ch : in) if (!hexch(ch)) ok = false; if (in.size() != 4 * E.L) ok = false; if (ok) for (size_t i = 0; i < in.size(); i += 2) { char t[3] = {(char)in[i], (char)in[i + 1], 0}; b.push_back(strtoul(t, 0, 16)); } } else { b = in; ok = b.size() == 2 * E.L; }
    Z r, s; if (ok) { r = unbe(b.data(), E.L); s = unbe(b.data() + E.L, E.L); ok = r.sgn() > 0 && s.sgn() > 0 && r < E.n && s < E.n; }
    unsigned char *p = (unsigned char *)malloc(in.size() + 1), *q = p; if (!in.empty()) memcpy(p, in.data(), in.size()); if (text) p[in.size()] = 0; else { free(p); p = (unsigned char *)malloc(in.size() ? in.size() : 1); if (!in.empty()) memcpy(p, in.data(), in.size()); q = in.empty() ? p + 1 : p; }
    Z a, d, x; mpz_set_ui(a.v, 1); mpz_set_ui(d.v, 1); Bytes want = join(E, ok ? r : Z(1), ok ? s : Z(1)); std::string wt = up(want); long g0 = vc::heap_live;
    { mpECDSASignature_t g; memset(g, 0x5B, sizeof g); int st = text ? mpECDSASignature_init_import_str(g, E.S->s, (char *)q) : mpECDSASignature_init_import_bytes(g, E.S->s, q, in.size()); c.trans();
      if ((st == 0) != ok) c.fail("%s: importing %s %s: %s, but it is %s", E.name.c_str(), kind, shown.c_str(), st == 0 ? "accepted" : "refused", ok ? "a well-formed signature" : "not one");
      if (in.size() && memcmp(q, in.data(), in.size())) c.fail("%s: importing %s %s changed the input", E.name.c_str(), kind, shown.c_str());
      if (st == 0) {
          mpz_set_mpFp(a.v, g->r); mpz_set_mpFp(d.v, g->s); if (a != r || d != s) c.fail("%s: %s %s imports as (%s,%s)", E.name.c_str(), kind, shown.c_str(), a.str().c_str(), d.str().c_str());
          if (mpz_cmp(g->r->fp->p, E.n.v) || mpz_cmp(g->s->fp->p, E.n.v) || g->sscheme != E.S->s) c.fail("%s: imported signature bound to the wrong group", E.name.c_str());
          size_t n = 0; unsigned char *o = mpECDSASignature_export_bytes(g, &n); if (!o || n != want.size() || memcmp(o, want.data(), n)) c.fail("%s: (%s,%s) exports as %s", E.name.c_str(), r.str().c_str(), s.str().c_str(), o ? vc::hex(o, n).c_str() : "nothing"); free(o);
          char *t = mpECDSASignature_export_str(g); if (!t || strcasecmp(t, wt.c_str())) c.fail("%s: (%s,%s) exports as text %s", E.name.c_str(), r.str().c_str(), s.str().c_str(), t); free(t); c.trans(2);
          mpz_set_mpFp(a.v, g->r); mpz_set_mpFp(d.v, g->s); if (a != r || d != s) c.fail("%s: exporting changed the signature", E.name.c_str());
          mpECDSASignature_clear(g);
      } }
    if (vc::heap_live != g0) c.fail("%s: importing %s %s leaves %ld blocks", E.name.c_str(), kind, shown.c_str(), vc::heap_live - g0);
    free(p); c.trace(); c.outcome((ok ? 1 : 0) + 2 * (text ? 1 : 0) + 4 * std::min<size_t>(in.size(), 15) + 64 * (in.empty() ? 0 : in[0])); c.state(vc::hash_bytes(in.data(), in.size(), E.L * 1000003 + text));
    if (ok && c.cur % 53 == 0) c.sample("%s: %s %s <-> (%s,%s)", E.name.c_str(), kind, shown.c_str(), r.str().c_str(), s.str().c_str());
}
static void warm(Env &E) { mpECDSASignature_t g; Bytes b = join(E, Z(1), Z(1)); if (mpECDSASignature_init_import_bytes(g, E.S->s, b.data(), b.size()) == 0) mpECDSASignature_clear(g); vc::heap_count_on(); }
static Env env(const RefCurve &r) { Env E; E.n = Z(r.n); E.L = (E.n.bits() + 7) / 8; E.lc = new LibCurve(r); E.cv = E.lc->cv; E.S = new Scheme(E.cv, 4); E.name = r.name() + vc::fmt(", n=%ld", r.n); warm(E); return E; }
static Env envn(const char *n) { Env E; const BigRef *g = golden(n); E.n = g->n; E.L = (E.n.bits() + 7) / 8; E.nc = new NamedCurve(n); E.cv = E.nc->cv; E.S = new Scheme(E.cv, 32); E.name = n; warm(E); return E; }
static RefCurve order_in(Form f, long p, long lo, long hi) { for (auto &ab : coeff_pairs(f, p)) { RefCurve q{f, p, ab.first, ab.second}; long N = 1; if (f == WS) { std::vector<int> sq(p, 0); for (long y = 0; y < p; y++) sq[y * y % p]++; for (long x = 0; x < p; x++) N += sq[q.m(q.m(x * x) * x + q.a * x + q.b)]; if (N < lo || N > hi) continue; bool pr = true; for (long d = 2; d * d <= N; d++) if (N % d == 0) pr = false; if (!pr) continue; } if (!q.build()) continue; long n = largest_prime_order(q); if (n < lo || n > hi) continue; q.pick(n); return q; } fprintf(stderr, "no order\n"); abort(); }
// every byte string up to 3 bytes (nsz = 1), every text over an alphabet
static void small(Ctx &c, Form f, long p, long lo, long hi, bool th) {
    Env E = env(order_in(f, p, lo, hi)); long n = E.n.ul();
    if (E.L == 1) {
        for (int len = 0; len <= 2; len++) for (long v = 0; v < (1l << (8 * len)); v++) { if (!c.next()) continue; Bytes b; for (int i = len - 1; i >= 0; i--) b.push_back(v >> (8 * i)); import(c, E, b, false); }
        for (int len : {3, 4, 5, 8}) for (long v = 0; v < 4096; v++) { if (!c.next()) continue; Bytes b(len, 1); b[0] = v >> 4; b[len - 1] = v & 15; import(c, E, b, false); }
    } else {
        std::vector<long> V = {0, 1, 2, 127, 128, 254, 255, 256, 257, n / 2, n - 2, n - 1, n, n + 1, n + 255, 511, 512, 2 * n, 65279, 65280, 65535};
        for (long r : V) for (long s : V) { if (r > 65535 || s > 65535) continue; if (c.next()) import(c, E, join(E, Z(r), Z(s)), false); std::string t = up(join(E, Z(r), Z(s))); if (c.next()) import(c, E, Bytes(t.begin(), t.end()), true); t = lower(t); if (c.next()) import(c, E, Bytes(t.begin(), t.end()), true); }
        for (long r = 1; r < n; r += th ? 1 : 3) for (long s : {1l, r, n - r, n - 1}) if (c.next()) import(c, E, join(E, Z(r), Z(s)), false);
        for (int len = 0; len <= 9; len++) for (int fill : {0, 1, 255}) if (c.next()) import(c, E, Bytes(len, fill), false);
    }
    // text: alphabet of digits at the ends of the ranges, their neighbours, and everything number parsers take
    static const char A[] = "0189afAFgG/:@`xX -+\t\n.,\x80\xff"; size_t K = sizeof A - 1; size_t len = 4;
    if (E.L == 1) for (size_t v = 0; v < K * K * K * K; v++) { if (!th && v % 3 && v >= K * K * K * 3 && (v / K / K / K >= 8)) continue; if (!c.next()) continue; Bytes b; size_t t = v; for (size_t i = 0; i < len; i++) { b.insert(b.begin(), A[t % K]); t /= K; } import(c, E, b, true); }
    for (size_t l = 0; l <= 4 * E.L + 3; l++) for (size_t a = 0; a < K; a++) for (size_t b = 0; b < K; b++) { if (!c.next()) continue; Bytes t(l, '1'); if (l) t[0] = A[a]; if (l > 1) t[l - 1] = A[b]; import(c, E, t, true); }
}
// multi-byte orders: boundary values, every position of the text spoilt by every other character
static void named(Ctx &c, const char *name, bool th) {
    Env E = envn(name); Z n = E.n; std::vector<Z> V = {Z(0), Z(1), Z(2), Z(255), Z(256), n / Z(2), n - Z(2), n - Z(1), n, n + Z(1), Z::pow2(8 * E.L) - Z(1), Z::pow2(n.bits() - 1), Z::pow2(n.bits() - 1) - Z(1), Z::pow2(8 * E.L - 1)};
    for (size_t j = 1; j < E.L; j++) if (th || j % 5 == 1 || j + 3 > E.L || j % 8 == 0) { V.push_back(Z::pow2(8 * j)); V.push_back(Z::pow2(8 * j) - Z(1)); V.push_back(n - Z::pow2(8 * j)); }
    Z x = unbe((const unsigned char *)"\x12\x34\x56\x78\x9a\xbc\xde\xf0", 8); V.push_back((x * x * x * x * x).mod(n)); Z lim = Z::pow2(8 * E.L);
    for (size_t i = 0; i < V.size(); i++) for (size_t k = 0; k < V.size(); k++) {
        if (!th && i != k && k != 1 && i != 1 && k != 7 && (i + k) % 4) continue; if (V[i] >= lim || V[k] >= lim) continue; Bytes b = join(E, V[i], V[k]); std::string t = up(b);
        if (c.next()) import(c, E, b, false); if (c.next()) import(c, E, Bytes(t.begin(), t.end()), true); if ((i + k) % 3 == 0) { t = lower(t); if (c.next()) import(c, E, Bytes(t.begin(), t.end()), true); }
    }
    Bytes good = join(E, V.back(), n - V.back()); std::string gt = up(good); std::string lt = lower(gt); std::string mt = gt; for (size_t i = 0; i < mt.size(); i += 3) mt[i] = tolower(mt[i]);
    for (auto &t : {gt, lt, mt}) if (c.next()) import(c, E, Bytes(t.begin(), t.end()), true);
    for (size_t l = 0; l < good.size() + 4; l++) { if (!c.next()) continue; Bytes b = good; b.resize(l, 0x11); import(c, E, b, false); }
    for (size_t l = 0; l < gt.size() + 6; l++) { if (!c.next()) continue; std::string t = gt; t.resize(l, '1'); import(c, E, Bytes(t.begin(), t.end()), true); }
    for (size_t pos = 0; pos < gt.size(); pos++) for (int ch = 1; ch < 256; ch++) { if (!th && (pos > 5 && pos + 6 < gt.size() && pos / 2 != E.L / 1 && pos / 2 + 1 != E.L) && !((ch == ' ' || ch == '-' || ch == '+' || ch == 'x' || ch == 'g' || ch == '/' || ch == ':' || ch == '`' || ch == '@' || ch == 'G' || ch == 'X' || ch == '\n' || ch == 0x80))) continue; if (!c.next()) continue; Bytes t(gt.begin(), gt.end()); t[pos] = ch; import(c, E, t, true); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    struct P { Form f; long p, lo, hi; }; std::vector<P> V = {{WS, 11, 7, 17}, {WS, 127, 127, 127}, {WS, 131, 130, 150}, {WS, 241, 240, 255}, {WS, 257, 257, 290}, {WS, 509, 500, 511}, {WS, 521, 512, 540}, {ED, 61, 11, 19}, {MO, 61, 11, 19}, {TE, 61, 11, 19}};
    for (auto &v : V) vc::unit(vc::fmt("%s over F_%ld, order in [%ld,%ld]", FORM[v.f], v.p, v.lo, v.hi), [=](Ctx &c) { small(c, v.f, v.p, v.lo, v.hi, th); });
    for (int g = 0; g < NGOLDEN; g++) vc::unit(vc::fmt("built-in curve %s", GOLDEN[g].name), [=](Ctx &c) { named(c, GOLDEN[g].name, th); });
    return vc::main_(argc, argv);
}
