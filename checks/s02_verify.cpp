// S02: verification accepts exactly what the ECDSA equation accepts.
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
using vc::Ctx;
struct Sig { // a signature object with chosen values, valid or not
    mpECDSASignature_t g; Sig(const Z &r, const Z &s, const Z &n, mpECDSASignatureScheme_ptr ss) { mpFp_init(g->r, (mpz_ptr)n.v); mpFp_init(g->s, (mpz_ptr)n.v); g->sscheme = ss; set(r, s, n); }
    void set(const Z &r, const Z &s, const Z &n) { mpFp_set_mpz(g->r, (mpz_ptr)r.v, (mpz_ptr)n.v); mpFp_set_mpz(g->s, (mpz_ptr)s.v, (mpz_ptr)n.v); }
    ~Sig() { mpECDSASignature_clear(g); } Sig(const Sig &) = delete;
};
static long inv(long v, long n) { v = ((v % n) + n) % n; long e = n - 2, z = 1; while (e) { if (e & 1) z = z * v % n; v = v * v % n; e >>= 1; } return z; }
static bool valid(const RefCurve &r, const std::vector<std::vector<int>> &mul, int Q, long e, long R, long S) {
    long n = r.n; if (R < 1 || S < 1 || R >= n || S >= n) return false; long w = inv(S, n), u1 = e % n * w % n, u2 = R * w % n;
    int P = r.tab[mul[r.gen][u1]][mul[Q][u2]]; if (P == r.zero) return false; return r.pts[P].x % n == R;
}
static void small(Ctx &c, Form f, long p, long lo, long hi, int skip, int part, int parts, int hsz, bool th) {
    RefCurve r; r.n = 0; int sk = skip;
    for (auto &ab : coeff_pairs(f, p)) { RefCurve q{f, p, ab.first, ab.second}; if (f == MO && ab.first == 1) continue; if (!q.build()) continue; long n = largest_prime_order(q); if (n < lo || n > hi) continue; q.pick(n); if (sk--) continue; r = q; break; }
    if (!r.n) return;
    long n = r.n; Z N(n); LibCurve L(r), L2(r); Scheme S(L.cv, hsz); size_t NP = r.pts.size();
    std::vector<std::vector<int>> mul(NP); for (size_t i = 0; i < NP; i++) { int P = r.zero; for (long k = 0; k < n; k++) { mul[i].push_back(P); P = r.tab[P][i]; } }
    long top = hsz == 1 ? std::min<long>(256, 1l << N.bits()) : 1l << N.bits(); Sig g(Z(1), Z(1), N, S.s); unsigned long acc = 0;
    for (size_t q = part; q < NP; q += parts) {
        Pt A(r, q, L.cv), B(r, q, (q & 1) ? L2.cv : L.cv), T(L.cv); // as given; unnormalised (or bound to an equal curve object); 
        { Pt G(r, r.gen, B.q->cvp); mpECP_add(B.q, B.q, G.q); mpECP_sub(B.q, B.q, G.q); } mpECP_set(T.q, A.q); mpECP_scalar_base_mul_setup(T.q);
        for (long e = 0; e < top; e++) {
            Bytes d = digest_of(Z(e), N, hsz, (e + q) & 1); MsgBuf m(d);
            for (long R = 0; R < n; R++) for (long s = 0; s < n; s++) {
                if (!th && n > 11 && (R * 7 + s * 3 + e + (long)q) % 5 && !valid(r, mul, q, e, R, s)) continue;
                if (!c.next()) continue;
                bool want = valid(r, mul, q, e, R, s); g.set(Z(R), Z(s), N); Pt &K = (R + s + e) % 3 == 0 ? B : (R + s + e) % 3 == 1 ? A : T;
                static int warm = 0; vc::heap_count_on(); long h0 = vc::heap_live; int st = mpECDSASignature_verify_cmp(g.g, K.q, m.p, m.n); c.trans(); acc += want; if (vc::heap_live != h0 && warm++ > 5) c.fail("verification leaves %ld blocks allocated", vc::heap_live - h0);
                if ((st == 0) != want) c.fail("%s, n=%ld, key %s, digest integer %ld, signature (%ld,%ld): %s, but the equation says %s", r.name().c_str(), n, show(r, q).c_str(), e, R, s, st == 0 ? "accepted" : "refused", want ? "valid" : "invalid");
                if (want && st) c.fail("refused");
                Z a, b; mpz_set_mpFp(a.v, g.g->r); mpz_set_mpFp(b.v, g.g->s); if (a != Z(R) || b != Z(s) || g.g->sscheme != S.s) c.fail("verification changed the signature"); if (!m.same()) c.fail("verification changed the message");
                if (R == s) expect_pt(c, r, K.q, K.q->cvp, q, "public key after verification");
                uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)n, q, (uint64_t)e, (uint64_t)R, (uint64_t)s}; c.state(vc::hash_bytes(hh, sizeof hh)); int u = -1; if (R && s) { long w = inv(s, n); u = r.tab[mul[r.gen][e % n * w % n]][mul[q][R * w % n]]; } c.outcome((want ? 1 : 0) + 2 * (u + 1)); c.trace();
                if (want && c.cur % 97 == 0) c.sample("%s, n=%ld, key %s, e=%ld, (%ld,%ld): accepted", r.name().c_str(), n, show(r, q).c_str(), e, R, s);
            }
            if (e == 0 && c.next()) { if (mpECDSASignature_verify_cmp(g.g, A.q, m.p, 0) == 0) c.fail("a signature of an empty message is accepted"); c.trans(); c.trace(); }
        }
    }
    if (!acc && !c.replaying() && part == 0) c.fail("internal: nothing was valid");
}
// every digest byte string of 1 and 2 bytes against every valid signature of one key
static void digests(Ctx &c, Form f, long p, long lo, int hsz) {
    RefCurve r = nice(f, p, lo); long n = r.n; Z N(n); LibCurve L(r); Scheme S(L.cv, hsz); Sig g(Z(1), Z(1), N, S.s); size_t NP = r.pts.size(); int q = r.mul(n / 2, r.gen); Pt K(r, q, L.cv);
    std::vector<std::vector<int>> mul(NP); for (size_t i : {(size_t)r.gen, (size_t)q}) { int P = r.zero; for (long k = 0; k < n; k++) { mul[i].push_back(P); P = r.tab[P][i]; } }
    std::vector<Bytes> D; if (hsz == 1) for (int v = 0; v < 256; v++) D.push_back(Bytes(1, v)); else for (int v = 0; v < 65536; v += hsz == 2 ? 37 : 41) { Bytes b(hsz, 0); b[0] = v >> 8; b[1] = v; for (int i = 2; i < hsz; i++) b[i] = v * i; D.push_back(b); }
    for (auto &d : D) { MsgBuf m(d); long e = digest_int(d, N).mod(N).ul(); int cnt = 0;
        for (long R = 1; R < n && cnt < 4; R++) for (long s = 1; s < n && cnt < 4; s++) { bool want = valid(r, mul, q, e, R, s); if (!want && (R + s) % n) continue; if (!c.next()) continue; cnt += want; g.set(Z(R), Z(s), N); int st = mpECDSASignature_verify_cmp(g.g, K.q, m.p, m.n); c.trans(); c.trace(); c.state(vc::hash_bytes(d.data(), d.size(), R * 4099 + s)); c.outcome(e * 2 + want);
            if ((st == 0) != want) c.fail("%s, n=%ld, digest %s, signature (%ld,%ld): %s, but the equation says %s", r.name().c_str(), n, vc::hex(d.data(), d.size()).c_str(), R, s, st == 0 ? "accepted" : "refused", want ? "valid" : "invalid"); } }
}
// keys and signature components that belong elsewhere
static void foreign(Ctx &c, Form f) {
    RefCurve r = nice(f, f == WS ? 23 : 29, 5); LibCurve L(r); Scheme S(L.cv, 1); Z N(r.n); unsigned char m[1] = {0x48};
    std::vector<RefCurve> O; for (Form g : {WS, ED, MO, TE}) for (long p : {13l, 23l, 29l, 31l}) { RefCurve t = nice(g, p, 3); O.push_back(t); }
    { RefCurve t = r; for (size_t i = 0; i < t.pts.size(); i++) if (t.order[i] != r.n && t.order[i] > 2 && !t.pts[i].inf) { t.gen = i; t.n = t.order[i]; t.h = t.pts.size() / t.n; O.push_back(t); break; } }
    { RefCurve t = r; t.gen = r.mul(2, r.gen); O.push_back(t); }
    for (auto &t : O) { if (t.form == r.form && t.p == r.p && t.a == r.a && t.b == r.b && t.gen == r.gen && t.n == r.n) continue;
        LibCurve M(t); for (int i : {t.zero, t.gen, t.mul(2, t.gen)}) for (long R : {1l, r.n - 1}) { if (!c.next()) continue; Pt K(t, i, M.cv); Sig g(Z(R), Z(2), N, S.s); c.state(vc::hash_str(t.name()) + i + R * 1000); if (mpECDSASignature_verify_cmp(g.g, K.q, m, 1) == 0) c.fail("a key on %s verifies a signature on %s", t.name().c_str(), r.name().c_str()); c.trans(); c.trace(); expect_pt(c, t, K.q, M.cv, i, "public key after refused verification"); } }
    for (const char *nm : {"secp256k1", "E-521", "Curve25519", "Ed25519"}) { if (!c.next()) continue; NamedCurve M(nm); Pt K(M.cv); set_pt(K.q, golden(nm)->G, M.cv); Sig g(Z(1), Z(2), N, S.s); if (mpECDSASignature_verify_cmp(g.g, K.q, m, 1) == 0) c.fail("a key on %s verifies a signature on %s", nm, r.name().c_str()); c.trans(); c.trace(); }
    for (Z p : {Z(r.p), Z(3), Z(1009), prev_prime(Z::pow2(256))}) for (int w = 1; w < 4; w++) { if (p == N || !c.next()) continue; Pt K(r, r.gen, L.cv); Sig g(Z(1), Z(1), N, S.s); if (w & 1) mpFp_set_ui(g.g->r, 1, (mpz_ptr)p.v); if (w & 2) mpFp_set_ui(g.g->s, 1, (mpz_ptr)p.v); if (mpECDSASignature_verify_cmp(g.g, K.q, m, 1) == 0) c.fail("a signature with components modulo %s is accepted", p.str().c_str()); c.trans(); c.trace(); }
}
static void named(Ctx &c, const char *name, bool th) {
    BigRef r = *golden(name); NamedCurve L(name); Z n = r.n; size_t nsz = (n.bits() + 7) / 8;
    for (int hs : {(int)nsz, 32, 64, (int)nsz - 1, (int)nsz + 1, 20}) {
        if (!th && hs != 32 && hs != 64 && hs != (int)nsz) continue;
        Scheme S(L.cv, hs); Sig g(Z(1), Z(1), n, S.s);
        struct KD { Z d, k; int pat; }; std::vector<KD> V = {{Z(1), n - Z(1), 0}, {n - Z(2), Z(7), 1}, {n / Z(3), n / Z(2), 2}}; { Z a; for (size_t i = 0; i < nsz; i++) a = a * Z(256) + Z((long)(i * 73 + 19) & 255); V.push_back({a.mod(n), (a * Z(5) + Z(3)).mod(n), 2}); }
        for (size_t v = 0; v < V.size(); v++) {
            if (!th && (v + hs) % 2) continue;
            auto &x = V[v]; Bytes d(hs); for (int i = 0; i < hs; i++) d[i] = x.pat == 0 ? 0 : x.pat == 1 ? 0xFF : (unsigned char)(0xC3 ^ (i * 41)); Z e = digest_int(d, n);
            BP P = r.mulG(x.k); Z R = P.x.mod(n); if (!R.sgn()) continue; Z s = (invm(x.k, n) * (e + R * x.d)).mod(n); if (!s.sgn()) continue;
            BP Q = r.mulG(x.d); Pt K(L.cv); set_pt(K.q, Q, L.cv);
            auto ref = [&](const Z &e2, const Z &R2, const Z &s2) { if (R2.sgn() <= 0 || R2 >= n || s2.sgn() <= 0 || s2 >= n) return false; Z w = invm(s2, n); Z u = (e2 * w + R2 * w * x.d).mod(n); if (!u.sgn() && (r.f == WS || r.f == MO)) return false; if (!u.sgn()) return false; return r.mulG(u).x.mod(n) == R2; };
            auto one = [&](const Bytes &dd, const Z &R2, const Z &s2, const char *what) {
                if (!c.next()) return; if (R2 >= n || s2 >= n) return; bool want = ref(digest_int(dd, n), R2, s2); g.set(R2, s2, n); MsgBuf m(dd); int st = mpECDSASignature_verify_cmp(g.g, K.q, m.p, m.n); c.trans(); c.trace(); c.outcome(want);
                c.state(vc::hash_str(vc::fmt("%s %d %zu ", name, hs, v) + R2.str() + s2.str() + up(dd)));
                if ((st == 0) != want) c.fail("%s, key %s*G, digest %s, signature (%s,%s) [%s]: %s, but the equation says %s", name, x.d.str().c_str(), vc::hex(dd.data(), dd.size()).c_str(), R2.str().c_str(), s2.str().c_str(), what, st == 0 ? "accepted" : "refused", want ? "valid" : "invalid"); };
            one(d, R, s, "genuine"); one(d, R, n - s, "negated s"); one(d, n - R, s, "negated r"); one(d, s, R, "swapped"); one(d, Z(0), s, "r=0"); one(d, R, Z(0), "s=0"); one(d, Z(0), Z(0), "0,0"); one(d, R, Z(1), "s=1"); one(d, Z(1), s, "r=1"); one(d, n - Z(1), n - Z(1), "n-1");
            if (v == 1 || v == 3) c.sample("%s: key %s, digest of %d bytes, r=%s s=%s accepted, altered ones refused", name, x.d.str().c_str(), hs, R.str().c_str(), s.str().c_str());
            int step = th ? 1 : n.bits() > 300 ? 29 : 13;
            for (unsigned b = v; b < n.bits(); b += step) { Z t = R; mpz_combit(t.v, b); one(d, t, s, "bit of r"); t = s; mpz_combit(t.v, b); one(d, R, t, "bit of s"); }
            for (int b = v; b < hs * 8; b += step) { Bytes t = d; t[b / 8] ^= 1 << (7 - b % 8); one(t, R, s, "bit of the digest"); }
            for (long b = (long)n.bits() - 3; b < (long)n.bits() + 3; b++) if (b < hs * 8) { Bytes t = d; t[b / 8] ^= 1 << (7 - b % 8); one(t, R, s, "digest bit next to the width of the order"); }
            // the combination that is the identity: e = -r*d
            { Z e0 = (Z(0) - R * x.d).mod(n); if (e0.bits() <= (size_t)hs * 8) { Bytes t = digest_of(e0, n, hs, 0); one(t, R, s, "identity combination"); } }
        }
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    struct P { Form f; long p, lo, hi; int skip, hsz; };
    std::vector<P> V = { {WS, 7, 5, 7, 0, 1}, {WS, 11, 7, 7, 0, 2}, {WS, 11, 11, 13, 0, 1}, {WS, 13, 17, 19, 0, 1}, {WS, 23, 5, 7, 1, 1}, {WS, 13, 5, 7, 1, 3},
        {ED, 13, 3, 5, 0, 1}, {ED, 19, 5, 5, 0, 1}, {ED, 23, 5, 7, 0, 2}, {ED, 29, 7, 11, 0, 1}, {ED, 37, 5, 11, 0, 1},
        {MO, 7, 3, 3, 0, 1}, {MO, 13, 3, 5, 0, 1}, {MO, 17, 3, 7, 0, 1}, {MO, 19, 5, 7, 0, 2}, {MO, 23, 5, 7, 1, 1}, {MO, 31, 7, 11, 0, 1},
        {TE, 13, 3, 5, 0, 1}, {TE, 17, 3, 7, 0, 1}, {TE, 23, 5, 7, 0, 2}, {TE, 29, 5, 11, 0, 1} };
    if (th) for (Form f : {WS, ED, MO, TE}) for (long p : {7l, 11l, 13l, 17l, 19l, 23l, 29l, 31l, 37l}) for (int s = 0; s < 4; s++) V.push_back({f, p, 3, 13, s, 1 + s % 2});
    for (auto &v : V) { int parts = v.p > 20 ? 4 : v.hi > 12 ? 4 : 2; for (int k = 0; k < parts; k++) vc::unit(vc::fmt("%s over F_%ld, order in [%ld,%ld], curve %d, %d-byte digests, part %d", FORM[v.f], v.p, v.lo, v.hi, v.skip, v.hsz, k), [=](Ctx &c) { small(c, v.f, v.p, v.lo, v.hi, v.skip, k, parts, v.hsz, th); }); }
    for (Form f : {WS, ED, MO, TE}) { for (int h : {1, 2, 5}) vc::unit(vc::fmt("%s: digests of %d bytes", FORM[f], h), [=](Ctx &c) { digests(c, f, 61, 7, h); }); vc::unit(vc::fmt("%s: keys and components from elsewhere", FORM[f]), [=](Ctx &c) { foreign(c, f); }); }
    for (int h : {1, 2, 3}) vc::unit(vc::fmt("ws order above 256: digests of %d bytes", h), [=](Ctx &c) { digests(c, WS, 263, 263, h); });
    for (int g = 0; g < NGOLDEN; g++) vc::unit(vc::fmt("built-in curve %s", GOLDEN[g].name), [=](Ctx &c) { named(c, GOLDEN[g].name, th); });
    return vc::main_(argc, argv);
}
