// S01: signing, for every key, digest and nonce draw, degenerate draws included.
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
using vc::Ctx;
// What one signing did.
struct Out { int st; Z r, s; unsigned long used; bool accepted; };
static Out sign(Ctx &c, Scheme &S, const Z &n, const Z &d, const Bytes &msg, const ent::Tape &t, mpECP_ptr Q) {
    Out o; static int warm = 0; mpz_set_ui(o.r.v, 1); mpz_set_ui(o.s.v, 1); o.accepted = true; mpECDSASignature_t g; Fe sk(d, n); MsgBuf m(msg); ent::src().load(t); vc::heap_count_on(); long h0 = vc::heap_live;
    o.st = mpECDSASignature_init_Sign(g, S.s, sk.f, m.p, m.n); o.used = ent::src().served; c.trans();
    if (o.st) return o;
    mpz_set_mpFp(o.r.v, g->r); mpz_set_mpFp(o.s.v, g->s);
    if (sk.get() != d) c.fail("signing changed the private key"); if (!m.same()) c.fail("signing changed the message");
    o.accepted = !Q || mpECDSASignature_verify_cmp(g, Q, m.p, m.n) == 0; if (Q) c.trans();
    mpECDSASignature_clear(g); if (vc::heap_live != h0 && warm++ > 2) c.fail("signing and verifying leave %ld blocks allocated", vc::heap_live - h0); return o;
}
struct Bench { // a small curve with everything derived from brute force
    RefCurve r; long n; std::vector<long> rx; // rx[k] = x(kG) mod n; -1 for k=0
    Bench(const RefCurve &q) : r(q), n(q.n), rx(q.n, -1) { int P = r.zero; for (long k = 1; k < n; k++) { P = r.tab[P][r.gen]; rx[k] = r.pts[P].x % n; } }
    long inv(long v) const { long e = n - 2, b = ((v % n) + n) % n, z = 1; while (e) { if (e & 1) z = z * b % n; b = b * b % n; e >>= 1; } return z; }
    // s for these, or 0 if this nonce must be rejected
    long s(long d, long e, long k) const { if (k == 0 || rx[k] == 0) return 0; return inv(k) * ((e + rx[k] * d) % n) % n; }
};
static std::string show(const Bench &b, long d, long e) { return vc::fmt("%s, n=%ld, key %ld, digest %ld", b.r.name().c_str(), b.n, d, e); }
// checks a signature, returns the nonce it used
static long judge(Ctx &c, const Bench &b, const Out &o, long d, long e, const char *what) {
    if (o.st) c.fail("%s: %s: signing fails with %d", show(b, d, e).c_str(), what, o.st);
    if (!(o.r.sgn() > 0 && o.r < Z(b.n) && o.s.sgn() > 0 && o.s < Z(b.n))) c.fail("%s: %s: signature (%s,%s) out of range", show(b, d, e).c_str(), what, o.r.str().c_str(), o.s.str().c_str());
    long r = o.r.ul(), s = o.s.ul(), k = b.inv(s) * ((e + r * d) % b.n) % b.n;
    if (k == 0 || b.rx[k] != r) c.fail("%s: %s: (r,s)=(%ld,%ld) is not a valid signature", show(b, d, e).c_str(), what, r, s);
    if (!o.accepted) c.fail("%s: %s: the library's own verification refuses (r,s)=(%ld,%ld)", show(b, d, e).c_str(), what, r, s);
    return k;
}
static RefCurve with_order(Form f, long p, long lo, long hi, bool prefer_zero, int skip) { // prime order subgroup with lo <= n <= hi; prefer_zero: some point of it has x = 0 mod n
    for (auto &ab : coeff_pairs(f, p)) { RefCurve r{f, p, ab.first, ab.second}; if (f == MO && ab.first == 1) continue; if (!r.build()) continue; long n = largest_prime_order(r); if (n < lo || n > hi) continue; r.pick(n);
        bool z = false, nz = false; int P = r.gen; while (P != r.zero) { if (!r.pts[P].inf) (r.pts[P].x % n == 0 ? z : nz) = true; P = r.tab[P][r.gen]; }
        if (!nz || (prefer_zero && !z)) continue; if (skip--) continue; return r; }
    RefCurve none{}; none.n = 0; return none;
}
static void small(Ctx &c, Form f, long p, long lo, long hi, bool zero, int skip, bool th, bool full) {
    RefCurve r = with_order(f, p, lo, hi, zero, skip); if (!r.n) return;
    Bench b(r); long n = b.n; LibCurve L(r); size_t nsz = n < 256 ? 1 : 2; Scheme S(L.cv, nsz); Z N(n);
    std::vector<Pt *> Q; for (long d = 0; d < n; d++) { int q = r.mul(d, r.gen); Q.push_back(new Pt(r, q, L.cv)); }
    auto dg = [&](long e, int fill) { return digest_of(Z(e), N, nsz, fill); };
    // 1. every two leading entropy bytes: which nonce does each draw give, and is each equally likely?
    std::map<long, ent::Tape> draw; std::vector<ent::Tape> bad; std::map<long, unsigned long> count; unsigned long c0 = 0; const int REST = 16;
    {
        if (!c.next() && false) return; // analysis step shared by all cases
        long d = 1, e = 0; // pick a pair with as few s = 0 as possible
        for (long dd = 1; dd < n; dd++) { bool good = true; for (long k = 1; k < n; k++) if (b.rx[k] && !b.s(dd, 1 % n, k)) good = false; if (good) { d = dd; e = 1 % n; break; } }
        std::vector<Out> out; out.reserve(65536); ent::Tape t(2 + REST); for (int i = 0; i < REST; i++) t[2 + i] = 0x11 * (i + 1);
        Bytes m = dg(e, 0);
        const int step = full || n > 200 ? 1 : 32; // partial: every value of the second byte, eight of the first
        auto pick = [&](int v) { return step == 1 || ((v >> 8) % step == 5); }; int tried = 0;
        for (int v = 0; v < 65536; v++) { if (!pick(v)) { out.push_back(Out()); continue; } tried++; t[0] = v >> 8; t[1] = v; out.push_back(sign(c, S, N, d, m, t, nullptr)); Out &o = out.back(); o.accepted = true; if (o.st) c.fail("%s: signing fails", show(b, d, e).c_str()); if (!c0 || o.used < c0) c0 = o.used; }
        if (c0 < 1) c.fail("%s: signing uses no entropy", show(b, d, e).c_str());
        if (c0 > 2 + REST) { fprintf(stderr, "one nonce uses %lu bytes: not modelled\n", c0); abort(); }
        unsigned long nbad = 0;
        for (int v = 0; v < 65536; v++) {
            if (!pick(v)) continue;
            t[0] = v >> 8; t[1] = v; t.resize(c0); long k = judge(c, b, out[v], d, e, vc::fmt("entropy starting %02x%02x", v >> 8, v & 255).c_str());
            if (out[v].used == c0) { count[k]++; if (!draw.count(k)) draw[k] = t; } else { nbad++; if (bad.size() < 2) bad.push_back(t); }
            t.resize(2 + REST); for (int i = 0; i < REST; i++) t[2 + i] = 0x11 * (i + 1);
        }
        // k = 0, zero r: never a signature; everything else equally likely
        long never = 1; for (long k = 1; k < n; k++) if (!b.s(d, e, k)) never++; else if (!draw.count(k)) c.fail("%s: no entropy makes signing use the nonce %ld", show(b, d, e).c_str(), k);
        double avg = 65536.0 / n; if (step == 1) for (auto &q : count) if (q.second > avg * 1.02 + 2 || q.second < avg * 0.98 - 2) c.fail("%s: nonce %ld is drawn by %lu of 65536 equally likely inputs, expected about %.0f", show(b, d, e).c_str(), q.first, q.second, avg);
        if (step == 1) if (nbad > avg * never * 1.02 + 2 * never || nbad < avg * never * 0.98 - 2 * never) c.fail("%s: %lu of 65536 inputs are redrawn, expected about %.0f", show(b, d, e).c_str(), nbad, avg * never);
        if (bad.empty()) c.fail("%s: no draw is rejected", show(b, d, e).c_str());
        c.sample("%s: %lu entropy bytes per nonce, %zu nonces reachable, %ld rejected", show(b, d, e).c_str(), c0, draw.size(), never); c.trace(); if (!c.replaying()) c.state(vc::hash_str(r.name()));
    }
    // 2. every key, digest, first draw (and what follows a rejected one)
    std::vector<std::pair<long, ent::Tape>> D(draw.begin(), draw.end()); for (auto &t : bad) D.push_back({-1, t});
    ent::Tape tail; for (int i = 0; i < REST; i++) tail.push_back(0x11 * (i + 1));
    long dstep = n > 40 && !th ? n / 20 : 1, estep = n > 40 && !th ? n / 30 : 1, kstep = n > 100 && !th ? 5 : 1; bool last = false;
    for (long d = 1; d < n; d += (d + dstep < n || d == n - 1) ? dstep : n - 1 - d) for (long e = 0; e < (n < 256 && (1l << N.bits()) > n ? (1l << N.bits()) : n); e += estep) {
        long em = e % n; Bytes m = dg(e, (d + e) & 1);
        for (size_t i = 0; i < D.size(); i += (D[i].first >= 0 && (long)i + kstep < (long)draw.size() ? kstep : 1)) {
            if (!c.next()) continue;
            long k = D[i].first; bool ok = k > 0 && b.s(d, em, k) != 0; uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)n, (uint64_t)d, (uint64_t)em, (uint64_t)(k + 1)}; c.state(vc::hash_bytes(hh, sizeof hh));
            std::string what = k > 0 ? vc::fmt("nonce draw %ld", k) : std::string("zero draw");
            if (ok) {
                ent::Tape t = D[i].second; t.insert(t.end(), tail.begin(), tail.end()); Out o = sign(c, S, N, d, m, t, Q[d]->q); long kk = judge(c, b, o, d, em, what.c_str());
                if (kk != k) c.fail("%s: %s: the signature uses nonce %ld", show(b, d, em).c_str(), what.c_str(), kk);
                if (o.used != c0) c.fail("%s: %s: %lu entropy bytes used instead of %lu", show(b, d, em).c_str(), what.c_str(), o.used, c0);
                c.outcome(o.r.ul() * 1000 + o.s.ul());
            } else {
                // rejected: what is drawn next decides, up to three rejections in a row
                std::vector<size_t> good, rej; for (size_t j = 0; j < D.size(); j++) { bool g = D[j].first > 0 && b.s(d, em, D[j].first) != 0; if (g) { if (good.size() < 2) good.push_back(j); } else rej.push_back(j); }
                if (good.empty()) continue;
                std::vector<std::vector<size_t>> seqs; for (size_t g : good) { seqs.push_back({g}); for (size_t a : rej) seqs.push_back({a, g}); } seqs.push_back({rej[0], rej.back(), good[0]}); seqs.push_back({i, i, good.back()});
                for (auto &q : seqs) { ent::Tape t = D[i].second; for (size_t j : q) t.insert(t.end(), D[j].second.begin(), D[j].second.end()); t.insert(t.end(), tail.begin(), tail.end());
                    Out o = sign(c, S, N, d, m, t, Q[d]->q); long kk = judge(c, b, o, d, em, ("rejected " + what).c_str());
                    if (kk != D[q.back()].first) c.fail("%s: rejected %s: the next usable draw is %ld, but the signature uses nonce %ld", show(b, d, em).c_str(), what.c_str(), D[q.back()].first, kk);
                    if (o.used != c0 * (1 + q.size())) c.fail("%s: rejected %s: %lu entropy bytes used for %zu draws of %lu", show(b, d, em).c_str(), what.c_str(), o.used, 1 + q.size(), c0); }
            }
            c.trace();
        }
        if (d == 1 && e == 0 && c.next()) { // nothing to sign
            mpECDSASignature_t g; Fe sk(Z(d), N); unsigned char z[1] = {0}; if (mpECDSASignature_init_Sign(g, S.s, sk.f, z, 0) == 0) c.fail("an empty message is signed"); if (mpECDSASignature_init_Sign(g, S.s, sk.f, nullptr, 0) == 0) c.fail("an absent message is signed"); c.trans(2); c.trace();
        }
    }
    for (auto q : Q) delete q; (void)last;
}
// keys that do not belong to the group: refused, not a crash
static void foreign(Ctx &c) {
    RefCurve r = nice(WS, 23, 5); LibCurve L(r); Scheme S(L.cv, 1);
    for (Z p : {Z(r.p), Z(3), Z(1009), prev_prime(Z::pow2(64)), prev_prime(Z::pow2(256)), prev_prime(Z::pow2(521))}) for (long v : {0l, 1l, 2l}) { if (p == Z(r.n) || !c.next()) continue; Fe sk(Z(v), p); mpECDSASignature_t g; unsigned char m[1] = {7}; ent::src().load({}); c.state(vc::hash_str(p.str()) + v); if (mpECDSASignature_init_Sign(g, S.s, sk.f, m, 1) == 0) c.fail("a private key modulo %s signs on a group of order %ld", p.str().c_str(), r.n); c.trans(); c.trace(); }
}
static void named(Ctx &c, const char *name, bool th) {
    BigRef r = *golden(name); NamedCurve L(name); Z n = r.n; size_t nsz = (n.bits() + 7) / 8;
    std::vector<Z> keys = {Z(1), Z(2), n - Z(1), n / Z(2), Z::pow2(n.bits() - 1) - Z(1)}; if (th) { keys.push_back(n - Z(2)); keys.push_back(Z::pow2(64)); keys.push_back(Z::pow2(n.bits() - 1)); }
    std::vector<ent::Tape> T; size_t B = 4 * nsz + 64; auto tape = [&](std::function<int(size_t)> f) { ent::Tape t(B); for (size_t i = 0; i < B; i++) t[i] = f(i); T.push_back(t); };
    tape([](size_t) { return 0xFF; }); tape([](size_t i) { return (int)(i * 37 + 11) & 255; }); tape([](size_t i) { return i & 1 ? 0 : 0x80; }); tape([](size_t i) { return i % 3 ? 0x55 : 0xAA; }); if (th) { tape([](size_t i) { return (int)(i * i * 7 + 3) & 255; }); tape([](size_t) { return 1; }); }
    std::set<int> H = {(int)1, (int)20, (int)32, (int)64}; for (int d : {-1, 0, 1, 2}) if ((int)nsz + d >= 1) H.insert(nsz + d);
    for (int hs : H) { Scheme S(L.cv, hs);
        std::vector<Bytes> M; M.push_back(Bytes(hs, 0)); M.push_back(Bytes(hs, 0xFF)); { Bytes t(hs); for (int i = 0; i < hs; i++) t[i] = 0xA5 ^ (i * 29); M.push_back(t); } if (hs >= (int)nsz) { M.push_back(digest_of(n, n, hs, 1)); M.push_back(digest_of(n - Z(1), n, hs, 0)); M.push_back(digest_of(n + Z(1), n, hs, 1)); }
        for (size_t d = 0; d < keys.size(); d++) { BP QB; bool haveq = false; Pt Q(L.cv);
            for (size_t m = 0; m < M.size(); m++) for (size_t t = 0; t < T.size(); t++) {
                if (!th && (d + m + t) % 4 != (size_t)hs % 4 && !(d == 0 && t == 1)) continue;
                if (!c.next()) continue;
                if (!haveq) { QB = r.mulG(keys[d]); set_pt(Q.q, QB, L.cv); haveq = true; }
                std::string tag = vc::fmt("%s, key %s, digest %s, entropy pattern %zu", name, keys[d].str().c_str(), vc::hex(M[m].data(), M[m].size()).c_str(), t); c.state(vc::hash_str(tag));
                Out o = sign(c, S, n, keys[d], M[m], T[t], Q.q); Z e = digest_int(M[m], n).mod(n);
                if (o.st) c.fail("%s: signing fails", tag.c_str());
                if (!(o.r.sgn() > 0 && o.r < n && o.s.sgn() > 0 && o.s < n)) c.fail("%s: signature (%s,%s) out of range", tag.c_str(), o.r.str().c_str(), o.s.str().c_str());
                Z k = (invm(o.s, n) * (e + o.r * keys[d])).mod(n); BP R = r.mulG(k);
                if (R.inf || R.x.mod(n) != o.r) c.fail("%s: (%s,%s) is not a valid signature", tag.c_str(), o.r.str().c_str(), o.s.str().c_str());
                if (!o.accepted) c.fail("%s: the library's own verification refuses it", tag.c_str());
                if (o.used * 8 < n.bits()) c.fail("%s: only %lu entropy bytes used for a nonce of %zu bits", tag.c_str(), o.used, n.bits());
                c.outcome(vc::hash_str(o.s.str())); c.trace();
            } }
    }
    // a first draw of zero, then another; different draws give different nonces
    Scheme S(L.cv, 32); Bytes m(32, 0x5A); Pt Q(L.cv); set_pt(Q.q, r.G, L.cv); std::set<std::string> seen; unsigned long c0 = 0;
    for (size_t t = 0; t < T.size(); t++) { if (!c.next()) continue; Out o = sign(c, S, n, Z(1), m, T[t], Q.q); c0 = o.used; if (!seen.insert(o.r.str()).second) c.fail("%s: two different entropy streams give the same nonce", name); c.trace(); }
    if (c.next()) { if (!c0) { Out o = sign(c, S, n, Z(1), m, T[1], Q.q); c0 = o.used; }
        ent::Tape z(c0, 0); ent::Tape t = z; t.insert(t.end(), T[1].begin(), T[1].begin() + c0); Out a = sign(c, S, n, Z(1), m, t, Q.q), b2 = sign(c, S, n, Z(1), m, T[1], Q.q);
        if (a.st || !a.accepted) c.fail("%s: no valid signature after an all-zero draw", name); if (a.r != b2.r || a.s != b2.s) c.fail("%s: after an all-zero draw the next draw is not used", name); if (a.used != 2 * c0) c.fail("%s: an all-zero draw is not replaced by a full fresh one", name);
        c.sample("%s: r=%s s=%s", name, a.r.str().c_str(), a.s.str().c_str()); c.trace(); }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    struct P { Form f; long p, lo, hi; bool z; int skip; bool full = false; };
    std::vector<P> V = {
        {WS, 11, 13, 20, false, 0}, {WS, 13, 5, 8, true, 0}, {WS, 13, 17, 23, false, 0}, {WS, 23, 7, 12, true, 0}, {WS, 31, 11, 23, true, 0, true}, {WS, 29, 29, 31, true, 0}, {WS, 61, 13, 20, true, 1},
        {ED, 13, 3, 7, true, 0, true}, {ED, 19, 5, 7, false, 0}, {ED, 29, 5, 11, false, 0}, {ED, 43, 11, 13, false, 1}, {ED, 61, 13, 19, true, 0},
        {MO, 13, 3, 7, true, 0}, {MO, 23, 5, 11, true, 0}, {MO, 31, 7, 11, false, 1, true}, {MO, 47, 11, 13, true, 0}, {MO, 61, 13, 19, true, 0},
        {TE, 13, 3, 7, true, 0}, {TE, 17, 3, 7, false, 0}, {TE, 29, 5, 11, false, 0}, {TE, 41, 11, 13, false, 1, true}, {TE, 61, 13, 19, true, 0},
        {WS, 251, 251, 283, false, 0}, {WS, 257, 257, 290, false, 0},
    };
    if (th) for (Form f : {WS, ED, MO, TE}) for (long p : {17l, 19l, 29l, 37l, 41l, 43l, 53l, 59l, 67l, 71l}) for (int s = 0; s < 2; s++) for (bool z : {false, true}) V.push_back({f, p, 3, 31, z, s});
    for (auto &v : V) vc::unit(vc::fmt("%s over F_%ld, order in [%ld,%ld]%s, %d", FORM[v.f], v.p, v.lo, v.hi, v.z ? ", x=0 mod n occurs" : "", v.skip), [=](Ctx &c) { small(c, v.f, v.p, v.lo, v.hi, v.z, v.skip, th, th || v.full); }, 60);
    for (int g = 0; g < NGOLDEN; g++) vc::unit(vc::fmt("built-in curve %s", GOLDEN[g].name), [=](Ctx &c) { named(c, GOLDEN[g].name, th); });
    vc::unit("keys of other groups", foreign);
    return vc::main_(argc, argv);
}
