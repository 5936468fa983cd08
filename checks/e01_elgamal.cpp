// E01: ElGamal, every key, plaintext, ciphertext pair and nonce draw.
#include "entropy.hpp"
#include "ecdsa_ref.hpp"
using vc::Ctx;
struct Enc { int st; int C, D; unsigned long used; };
static const int REST = 16;
struct Grp { RefCurve r; LibCurve L, L2; long n; std::vector<std::vector<int>> mul; std::vector<long> dlog; // dlog[P] w.r.t. the generator, -1: outside its group
    Grp(const RefCurve &q) : r(q), L(q), L2(q), n(q.n), dlog(q.pts.size(), -1) { mul.resize(r.pts.size()); for (size_t i = 0; i < r.pts.size(); i++) { int P = r.zero; for (long k = 0; k < n; k++) { mul[i].push_back(P); P = r.tab[P][i]; } } for (long k = 0; k < n; k++) dlog[mul[r.gen][k]] = k; } };
// one encryption; checks the shape of the result, the operands and the memory balance; returns the nonce
static long encrypt(Ctx &c, Grp &g, mpECP_ptr pk, int q, mpECP_ptr m, int mi, const ent::Tape &t, unsigned long &used, const char *what) {
    ent::src().load(t); mpECElgamalCiphertext_t x; memset(x, 0x6B, sizeof x); int st = mpECElgamal_init_encrypt(x, pk, m); c.trans(); used = ent::src().served;
    if (st) c.fail("%s: %s: encrypting %s under %s fails with %d", g.r.name().c_str(), what, show(g.r, mi).c_str(), show(g.r, q).c_str(), st);
    int C = which(g.r, x->C, x->C->cvp), D = which(g.r, x->D, x->D->cvp);
    if (C < 0 || D < 0 || g.dlog[C] < 0) c.fail("%s: %s: the ciphertext of %s under %s is not a pair of curve points", g.r.name().c_str(), what, show(g.r, mi).c_str(), show(g.r, q).c_str());
    long k = g.dlog[C]; if (k == 0) c.fail("%s: %s: the nonce is zero", g.r.name().c_str(), what);
    if (g.r.tab[mi][g.mul[q][k]] != D) c.fail("%s: %s: nonce %ld, plaintext %s, key %s: second part is %s, expected %s", g.r.name().c_str(), what, k, show(g.r, mi).c_str(), show(g.r, q).c_str(), show(g.r, D).c_str(), show(g.r, g.r.tab[mi][g.mul[q][k]]).c_str());
    long d = g.dlog[q]; if (d >= 0) { Fe sk(Z(d), Z(g.n)); mpECP_t p; int s2 = mpECElgamal_init_decrypt(p, sk.f, x); c.trans(); if (s2) c.fail("%s: %s: decryption fails with %d", g.r.name().c_str(), what, s2); if (which(g.r, p, p->cvp) != mi) c.fail("%s: %s: key %ld, nonce %ld, plaintext %s decrypts to %s", g.r.name().c_str(), what, d, k, show(g.r, mi).c_str(), raw(p).c_str()); if (which(g.r, x->C, x->C->cvp) != C || which(g.r, x->D, x->D->cvp) != D) c.fail("decryption changed the ciphertext"); if (sk.get() != Z(d)) c.fail("decryption changed the key"); mpECP_clear(p); }
    mpECElgamal_clear(x); if (which(g.r, pk, pk->cvp) != q || which(g.r, m, m->cvp) != mi) c.fail("%s: %s: encryption changed its operands", g.r.name().c_str(), what);
    return k;
}
static RefCurve pick(Form f, long p, long lo, long hi, int skip) { for (auto &ab : coeff_pairs(f, p)) { RefCurve q{f, p, ab.first, ab.second}; if (f == MO && ab.first == 1) continue; if (!q.build()) continue; long n = largest_prime_order(q); if (n < lo || n > hi) continue; if (skip--) continue; q.pick(n); return q; } RefCurve z{}; z.n = 0; return z; }
static void small(Ctx &c, Form f, long p, long lo, long hi, int skip, bool full, bool th) {
    RefCurve r = pick(f, p, lo, hi, skip); if (!r.n) return; Grp g(r); long n = g.n; size_t NP = r.pts.size(); mpECurve_ptr cv = g.L.cv;
    // which nonce does each draw give
    std::map<long, ent::Tape> draw; std::map<long, unsigned long> cnt; std::vector<ent::Tape> zero; unsigned long c0 = 0; std::vector<std::pair<unsigned long, long>> res; std::vector<int> tried;
    { c.next(); ent::Tape t(2 + REST); for (int i = 0; i < REST; i++) t[2 + i] = 0x11 * (i + 1); int q = r.mul(2, r.gen), mi = r.gen; Pt K(r, q, cv), M(r, mi, cv);
      for (int v = 0; v < 65536; v++) { if (!full && ((v >> 8) % 32) != 5) continue; t[0] = v >> 8; t[1] = v; unsigned long u; ent::src().load(t); mpECElgamalCiphertext_t x; if (mpECElgamal_init_encrypt(x, K.q, M.q)) c.fail("encryption fails"); u = ent::src().served; int C = which(r, x->C, cv); long k = C < 0 ? -1 : g.dlog[C]; if (k <= 0) c.fail("%s: entropy %04x gives nonce %ld", r.name().c_str(), v, k); mpECElgamal_clear(x); c.trans(); if (!c0 || u < c0) c0 = u; res.push_back({u, k}); tried.push_back(v); }
      if (!c0) c.fail("%s: encryption uses no entropy", r.name().c_str()); if (c0 > 2 + REST) { fprintf(stderr, "one nonce uses %lu bytes: not modelled\n", c0); abort(); }
      for (size_t i = 0; i < res.size(); i++) { t.assign(2 + REST, 0); t[0] = tried[i] >> 8; t[1] = tried[i]; for (int j = 0; j < REST; j++) t[2 + j] = 0x11 * (j + 1); t.resize(c0); if (res[i].first == c0) { cnt[res[i].second]++; if (!draw.count(res[i].second)) draw[res[i].second] = t; } else if (zero.size() < 2) zero.push_back(t); }
      for (long k = 1; k < n; k++) if (!draw.count(k)) c.fail("%s: no entropy makes encryption use the nonce %ld", r.name().c_str(), k);
      if (full) for (auto &q : cnt) { double avg = 65536.0 / n; if (q.second > avg * 1.02 + 2 || q.second < avg * 0.98 - 2) c.fail("%s: nonce %ld is drawn by %lu of 65536 equally likely inputs, expected about %.0f", r.name().c_str(), q.first, q.second, avg); }
      c.trace(); c.sample("%s: %lu entropy bytes per nonce, all %ld nonces reachable", r.name().c_str(), c0, n - 1); c.state(vc::hash_str(r.name())); }
    vc::heap_count_on();
    // every key (also outside the generator's group), plaintext and draw
    for (size_t q = 0; q < NP; q++) { Pt K(r, q, cv); if (q % 3 == 1) { Pt G(r, r.gen, cv); mpECP_sub(K.q, K.q, G.q); mpECP_add(K.q, K.q, G.q); } if (q % 3 == 2) mpECP_scalar_base_mul_setup(K.q);
        for (size_t m = 0; m < NP; m++) { Pt M(r, m, (m + q) % 4 == 3 ? g.L2.cv : cv); if (m % 3 == 2) { Pt G(r, r.gen, M.q->cvp); mpECP_add(M.q, M.q, G.q); mpECP_sub(M.q, M.q, G.q); }
            for (auto &d : draw) { if (!th && n > 11 && (q + m + d.first) % 3) continue; if (!c.next()) continue; ent::Tape t = d.second; t.insert(t.end(), REST, 0x77); unsigned long used; long h0 = vc::heap_live; long k;
                k = encrypt(c, g, K.q, q, M.q, m, t, used, "encryption"); if (k != d.first) c.fail("%s: the draw for nonce %ld gives %ld", r.name().c_str(), d.first, k); if (used != c0) c.fail("%s: %lu entropy bytes used instead of %lu", r.name().c_str(), used, c0);
                if (vc::heap_live != h0 && c.cur > 200) { h0 = vc::heap_live; encrypt(c, g, K.q, q, M.q, m, t, used, "encryption"); if (vc::heap_live != h0) c.fail("%s: encryption and decryption leave %ld blocks", r.name().c_str(), vc::heap_live - h0); }
                uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)r.a, (uint64_t)r.b, q, m, (uint64_t)k}; c.state(vc::hash_bytes(hh, sizeof hh)); c.outcome(k * 4096 + r.tab[m][g.mul[q][k]]); c.trace(); }
            if (m < 4 || q < 2) for (auto &z : zero) for (auto &z2 : zero) for (int rep = 0; rep < 3; rep++) { if (!c.next()) continue; auto d = draw.begin(); std::advance(d, (q + m + rep) % draw.size()); ent::Tape t = z; for (int i = 0; i < rep; i++) t.insert(t.end(), z2.begin(), z2.end()); t.insert(t.end(), d->second.begin(), d->second.end()); t.insert(t.end(), REST, 0x77); unsigned long used; long k = encrypt(c, g, K.q, q, M.q, m, t, used, "after zero draws"); if (k != d->first) c.fail("%s: after %d zero draws the next draw, %ld, is not used but %ld", r.name().c_str(), 1 + rep, d->first, k); if (used != c0 * (2 + rep)) c.fail("%s: after %d zero draws %lu entropy bytes are used", r.name().c_str(), 1 + rep, used); c.trace(); c.state(c.cur * 2654435761u + q); }
        }
        if (c.next()) { unsigned long u; ent::Tape t = draw.begin()->second; encrypt(c, g, K.q, q, K.q, q, t, u, "plaintext and key the same object"); c.trace(); }
    }
    // every ciphertext pair under every key
    for (size_t a = 0; a < NP; a++) for (size_t b = 0; b < NP; b++) for (long d = 0; d < n; d++) {
        if (!th && NP * NP * n > 20000 && (a + b * 3 + d) % 4) continue; if (!c.next()) continue;
        int objs = (a + b + d) % 4; mpECElgamalCiphertext_t x; mpECurve_ptr c1 = objs == 3 ? g.L2.cv : cv, c2 = objs == 2 ? g.L2.cv : cv; mpECP_init(x->C, c1); mpECP_init(x->D, c2); { Pt A(r, a, c1), B(r, b, c2); mpECP_set(x->C, A.q); mpECP_set(x->D, B.q); }
        Z zd(d), zn(n); Fe sk(zd, zn); mpECP_t m; memset(m, 0x6B, sizeof m); int st = mpECElgamal_init_decrypt(m, sk.f, x); c.trans(); int want = r.tab[b][r.neg[g.mul[a][d]]];
        if (st) c.fail("%s: decrypting (%s,%s) with key %ld fails%s", r.name().c_str(), show(r, a).c_str(), show(r, b).c_str(), d, objs > 1 ? " (parts bound to two equal curve objects)" : "");
        expect_pt(c, r, m, m->cvp, want, vc::fmt("decrypting (%s,%s) with key %ld", show(r, a).c_str(), show(r, b).c_str(), d).c_str());
        if (which(r, x->C, c1) != (int)a || which(r, x->D, c2) != (int)b || sk.get() != Z(d)) c.fail("decryption changed its operands");
        mpECP_clear(m); mpECElgamal_clear(x); uint64_t hh[] = {77, (uint64_t)f, (uint64_t)p, (uint64_t)r.a, (uint64_t)r.b, a, b, (uint64_t)d}; c.state(vc::hash_bytes(hh, sizeof hh)); c.outcome(0x10000000 + want); c.trace();
    }
}
static void foreign(Ctx &c, Form f) {
    RefCurve r = nice(f, f == WS ? 23 : 29, 5); LibCurve L(r); Z N(r.n); std::vector<RefCurve> O; for (Form g : {WS, ED, MO, TE}) for (long p : {13l, 23l, 29l, 31l}) O.push_back(nice(g, p, 3));
    { RefCurve t = r; t.gen = r.mul(2, r.gen); O.push_back(t); t = r; for (size_t i = 0; i < t.pts.size(); i++) if (t.order[i] != r.n && t.order[i] > 2 && !t.pts[i].inf) { t.gen = i; t.n = t.order[i]; t.h = t.pts.size() / t.n; O.push_back(t); break; } }
    for (auto &t : O) { if (t.form == r.form && t.p == r.p && t.a == r.a && t.b == r.b && t.gen == r.gen && t.n == r.n) continue; LibCurve M(t);
        for (int i : {t.zero, t.gen}) for (int j : {r.zero, r.gen}) { if (!c.next()) continue; Pt A(r, j, L.cv), B(t, i, M.cv); c.state(vc::hash_str(t.name()) + i * 64 + j); mpECElgamalCiphertext_t x;
            if (mpECElgamal_init_encrypt(x, A.q, B.q) == 0) c.fail("a point of %s is encrypted under a key on %s", t.name().c_str(), r.name().c_str()); if (mpECElgamal_init_encrypt(x, B.q, A.q) == 0) c.fail("a point of %s is encrypted under a key on %s", r.name().c_str(), t.name().c_str());
            mpECP_init(x->C, L.cv); mpECP_init(x->D, M.cv); mpECP_set(x->C, A.q); mpECP_set(x->D, B.q); mpECP_t m; Fe k1(Z(2), N), k2(Z(1), Z(t.n)); if (mpECElgamal_init_decrypt(m, k1.f, x) == 0 || mpECElgamal_init_decrypt(m, k2.f, x) == 0) c.fail("a ciphertext with parts on %s and %s is decrypted", r.name().c_str(), t.name().c_str()); mpECElgamal_clear(x);
            expect_pt(c, r, A.q, L.cv, j, "operand"); expect_pt(c, t, B.q, M.cv, i, "operand"); c.trans(4); c.trace(); } }
    for (Z p : {Z(r.p), Z(3), Z(1009), prev_prime(Z::pow2(64)), prev_prime(Z::pow2(256))}) for (long v : {0l, 1l}) { if (p == N || !c.next()) continue; mpECElgamalCiphertext_t x; mpECP_init(x->C, L.cv); mpECP_init(x->D, L.cv); Pt A(r, r.gen, L.cv); mpECP_set(x->C, A.q); mpECP_set(x->D, A.q); Fe k(Z(v), p); mpECP_t m; if (mpECElgamal_init_decrypt(m, k.f, x) == 0) c.fail("a key modulo %s decrypts on a group of order %ld", p.str().c_str(), r.n); mpECElgamal_clear(x); c.trans(); c.trace(); c.state(vc::hash_str(p.str()) + v); }
}
static void named(Ctx &c, const char *name, bool th) {
    BigRef r = *golden(name); NamedCurve L(name); mpECurve_ptr cv = L.cv; Z n = r.n; size_t B = 4 * ((n.bits() + 7) / 8) + 64;
    std::vector<ent::Tape> T; auto tape = [&](std::function<int(size_t)> f) { ent::Tape t(B); for (size_t i = 0; i < B; i++) t[i] = f(i); T.push_back(t); };
    tape([](size_t) { return 0xFF; }); tape([](size_t i) { return (int)(i * 37 + 11) & 255; }); tape([](size_t i) { return i & 1 ? 0 : 0x80; }); tape([](size_t) { return 1; });
    std::vector<Z> keys = {Z(1), Z(2), n - Z(1), n / Z(2), n / Z(3), Z::pow2(n.bits() - 1)}; std::vector<BP> M = {r.zero(), r.G, r.neg(r.G), r.mulG(Z(12345)), r.mulG(n / Z(5))}; std::set<std::string> seen; unsigned long c0 = 0;
    for (size_t k = 0; k < keys.size(); k++) for (size_t m = 0; m < M.size(); m++) for (size_t t = 0; t <= T.size(); t++) {
        if (!th && (k + m + t) % 4 && !(k == 0 && m == 1)) continue; if (!c.next()) continue; Z d = keys[k]; BP Qp = r.mulG(d);
        Pt Q(cv), P(cv); set_pt(Q.q, Qp, cv); set_pt(P.q, M[m], cv); if ((k + m) & 1) mpECP_scalar_base_mul_setup(Q.q); ent::Tape tp; bool zero = t == T.size(); if (zero) { if (!c0) continue; tp.assign(c0, 0); tp.insert(tp.end(), T[1].begin(), T[1].end()); } else tp = T[t];
        ent::src().load(tp); mpECElgamalCiphertext_t x; std::string tag = vc::fmt("%s, key %s, plaintext %zu, entropy %zu", name, d.str().c_str(), m, t); c.state(vc::hash_str(tag)); if (mpECElgamal_init_encrypt(x, Q.q, P.q)) c.fail("%s: encryption fails", tag.c_str()); c.trans();
        if (ent::src().served * 8 < n.bits()) c.fail("%s: only %lu entropy bytes used", tag.c_str(), ent::src().served); if (!c0) c0 = ent::src().served; if (ent::src().served != (zero ? 2 : 1) * c0) c.fail("%s: %lu entropy bytes used", tag.c_str(), ent::src().served);
        // C = kG without knowing k: D - M must be d*C
        Z cx, cy; BP C; { Pt o(cv); mpECP_set_neutral(o.q, cv); if (mpECP_cmp(x->C, o.q) == 0) c.fail("%s: the first part is the identity", tag.c_str()); } mpz_set_mpECP_affine_x(C.x.v, x->C); mpz_set_mpECP_affine_y(C.y.v, x->C); if (!r.on(C.x, C.y)) c.fail("%s: first part not on the curve", tag.c_str());
        BP K = r.mul(d, C); if (!same_pt(x->D, r.add(K, M[m]), cv)) c.fail("%s: the second part is not M + kQ", tag.c_str());
        if (k == 0 && m == 1 && !zero) { BP nc = r.mul(n, C); if (!(nc == r.zero())) c.fail("%s: the first part is outside the generator's group", tag.c_str()); if (!seen.insert(r.show(C)).second) c.fail("%s: two entropy streams give the same nonce", tag.c_str()); }
        Fe sk(d, n); mpECP_t pt; if (mpECElgamal_init_decrypt(pt, sk.f, x)) c.fail("%s: decryption fails", tag.c_str()); expect_bp(c, r, pt, cv, M[m], ("decrypted " + tag).c_str()); mpECP_clear(pt);
        Fe sk2((d + Z(1)).mod(n), n); if (mpECElgamal_init_decrypt(pt, sk2.f, x)) c.fail("%s: decryption fails", tag.c_str()); expect_bp(c, r, pt, cv, r.add(M[m], r.neg(C)), ("decrypted with another key " + tag).c_str()); mpECP_clear(pt);
        expect_bp(c, r, Q.q, cv, Qp, "public key"); expect_bp(c, r, P.q, cv, M[m], "plaintext"); mpECElgamal_clear(x); c.outcome(vc::hash_str(r.show(C))); c.trace(); if (c.want_sample() && m == 1) c.sample("%s: C=%s", tag.c_str(), r.show(C).c_str());
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    struct P { Form f; long p, lo, hi; int skip; bool full; }; std::vector<P> V = {{WS, 7, 5, 7, 0, false}, {WS, 11, 7, 7, 0, true}, {WS, 13, 17, 19, 0, false}, {WS, 23, 5, 7, 1, false}, {ED, 13, 3, 5, 0, false}, {ED, 19, 5, 5, 0, true}, {ED, 29, 5, 11, 0, false}, {MO, 13, 3, 5, 0, true}, {MO, 19, 5, 7, 0, false}, {MO, 23, 5, 7, 1, false}, {TE, 13, 3, 5, 0, false}, {TE, 23, 5, 7, 0, true}, {TE, 29, 5, 11, 0, false}};
    if (th) for (Form f : {WS, ED, MO, TE}) for (long p : {11l, 13l, 17l, 19l, 29l, 31l, 37l}) for (int s = 0; s < 3; s++) V.push_back({f, p, 3, 19, s, true});
    for (auto &v : V) vc::unit(vc::fmt("%s over F_%ld, order in [%ld,%ld], curve %d", FORM[v.f], v.p, v.lo, v.hi, v.skip), [=](Ctx &c) { small(c, v.f, v.p, v.lo, v.hi, v.skip, v.full || th, th); }, 60);
    for (Form f : {WS, ED, MO, TE}) vc::unit(vc::fmt("%s: operands from elsewhere", FORM[f]), [=](Ctx &c) { foreign(c, f); });
    for (int g = 0; g < NGOLDEN; g++) vc::unit(vc::fmt("built-in curve %s", GOLDEN[g].name), [=](Ctx &c) { named(c, GOLDEN[g].name, th); });
    return vc::main_(argc, argv);
}
