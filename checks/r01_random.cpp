// R01: random integers, field elements and points as functions of the entropy stream.
#include "entropy.hpp"
#include "bigref.hpp"
extern "C" {
#include <ecc/mpzurandom.h>
}
using vc::Ctx; using ent::Tape;
static Z draw(const Z &m, const Tape &t, unsigned long &used) { Z r; ent::src().load(t); mpz_urandom(r.v, (mpz_ptr)m.v); used = ent::src().served; return r; }
// Every two-byte start of the entropy stream for every bound in [lo,hi]: in range, and equally often.
// Requests that use more than two bytes are checked by `affine` instead; requests that reject and redraw, by their first draw.
static void counts(Ctx &c, long lo, long hi, int kind) {
    for (long m = lo; m <= hi; m++) {
        if (kind && (m < 3 || !mpz_probab_prime_p(Z(m).v, 10))) continue; if (!c.next()) continue;
        std::vector<unsigned long> n(m, 0); Z M(m); Z r; std::string what = vc::fmt("%s below %ld", kind ? "field element" : "integer", m); unsigned long umin = ~0ul, total = 0; std::vector<unsigned> used(65536); std::vector<long> val(65536); Tape t(18); for (int i = 0; i < 16; i++) t[2 + i] = 0x11 * (i + 1);
        Fe *f = kind ? new Fe(Z(1), Z(1009)) : nullptr; mpz_set_si(r.v, -5); 
        for (int v = 0; v < 65536; v++) { ent::src().load(t); ent::src().tape[0] = v >> 8; ent::src().tape[1] = v; if (kind) { mpFp_urandom(f->f, M.v); r = f->get(); if (v == 0 && mpz_cmp(f->f->fp->p, M.v)) c.fail("%s: element of another field", what.c_str()); } else mpz_urandom(r.v, M.v);
            used[v] = ent::src().served; if (r.sgn() < 0 || r >= M) c.fail("%s: entropy %04x gives %s", what.c_str(), v, r.str().c_str()); val[v] = r.ul(); umin = std::min<unsigned long>(umin, used[v]); if (M != Z(m)) c.fail("%s: the bound was changed", what.c_str()); }
        c.trans(65536); delete f; if (m > 1 && umin < 1) c.fail("%s: no entropy used", what.c_str());
        if (m > 1 && umin * 8 < (Z(m) - Z(1)).bits()) c.fail("%s: only %lu entropy bytes used", what.c_str(), umin);
        for (int v = 0; v < 65536; v++) if (used[v] == umin) { n[val[v]]++; total++; }
        double avg = (double)total / m; unsigned long mn = ~0ul, mx = 0; for (auto x : n) { mn = std::min(mn, x); mx = std::max(mx, x); }
        if (umin <= 2) { if (mx > avg * 1.01 + 1 || mn < avg * 0.99 - 1) { long wmx = std::max_element(n.begin(), n.end()) - n.begin(), wmn = std::min_element(n.begin(), n.end()) - n.begin(); c.fail("%s: over all equally likely entropy, %ld occurs %lu times and %ld occurs %lu times (average %.1f)", what.c_str(), wmx, mx, wmn, mn, avg); } }
        c.state(vc::hash_str(what)); c.outcome(mx * 70000 + mn); c.trace(); c.sample("%s: %lu bytes per draw, each value %lu to %lu of %lu times", what.c_str(), umin, mn, mx, total);
    }
}
// Larger bounds: the value must be the reduction of one integer read from the bytes (every byte with its own weight 256^i), which makes it uniform up to bound/256^bytes.
static void affine(Ctx &c, const Z &m, int kind, bool th) {
    if (!c.next()) return; std::string what = vc::fmt("%s below 0x%s", kind ? "field element" : "integer", m.str().c_str()); Fe *f = kind ? new Fe(Z(1), Z(1009)) : nullptr;
    auto get = [&](const Tape &t, unsigned long &u) { Z r; if (kind) { ent::src().load(t); mpFp_urandom(f->f, (mpz_ptr)m.v); u = ent::src().served; r = f->get(); } else r = draw(m, t, u); c.trans(); if (r.sgn() < 0 || r >= m) c.fail("%s: value 0x%s out of range", what.c_str(), r.str().c_str()); return r; };
    unsigned long u = 0, u0; Tape t(8192, 0); Z z = get(t, u0); Tape ff(8192, 0xFF), pat(8192); for (size_t i = 0; i < pat.size(); i++) pat[i] = (i * 151 + 77) >> (i & 3); Z a = get(ff, u), b = get(pat, u);
    bool fixed = true; get(ff, u); fixed &= u == u0; get(pat, u); fixed &= u == u0;
    if (!fixed) { c.trace(); delete f; return; } // draws and rejects: decided by the exhaustive small bounds
    if (u0 == 0 || u0 * 8 < m.bits() + std::min<size_t>(64, m.bits() > 7 ? m.bits() - 7 : 0)) c.fail("%s: %lu entropy bytes for a bound of %zu bits: the bias is not negligible", what.c_str(), u0, m.bits());
    if (z.sgn() != 0) c.fail("%s: all-zero entropy gives 0x%s", what.c_str(), z.str().c_str());
    std::map<unsigned long, bool> weight; std::vector<Z> W; for (unsigned long i = 0; i < u0; i++) { Tape x(8192, 0); x[i] = 1; Z w = get(x, u); W.push_back(w); bool ok = false; for (unsigned long e = 0; e < u0; e++) { if (!weight[e] && Z::pow2(8 * e).mod(m) == w) { weight[e] = true; ok = true; break; } } if (!ok) c.fail("%s: entropy byte %lu of %lu contributes 0x%s, no power of 256 of its own: values are not equally likely", what.c_str(), i, u0, w.str().c_str()); }
    auto expect = [&](const Tape &x) { Z s; for (unsigned long i = 0; i < u0; i++) s = s + W[i] * Z(x[i]); return s.mod(m); };
    if (a != expect(ff) || b != expect(pat)) c.fail("%s: the value is not the reduction of the bytes read", what.c_str());
    for (unsigned long i = 0; i < u0; i++) for (const Tape *base : {(const Tape *)&t, (const Tape *)&ff, (const Tape *)&pat}) for (int v = 0; v < 256; v += (th || i < 3 || i + 3 > u0) && base != &ff ? 5 : 51) { Tape x = *base; x[i] = v; if (get(x, u) != expect(x)) c.fail("%s: with entropy byte %lu = %02x the value is not the reduction of the bytes read", what.c_str(), i, v); c.state(vc::hash_bytes(&v, sizeof v, vc::hash_str(what) + i * 31 + (uintptr_t)(base == &t ? 1 : base == &ff ? 2 : 3))); if (u != u0) c.fail("%s: consumption varies", what.c_str()); }
    c.outcome(u0); c.trace(); if (m.bits() > 60) c.sample("%s: %lu bytes, value = big integer mod bound", what.c_str(), u0); delete f;
}
static void points(Ctx &c, Form f, long p, long lo, int skip) {
    RefCurve r = nice(f, p, lo, skip); LibCurve L(r); long n = r.n; if (!c.next()) return; std::map<int, unsigned long> cnt; unsigned long umin = ~0ul; std::vector<int> val(65536); std::vector<unsigned long> used(65536); Tape t(18); for (int i = 0; i < 16; i++) t[2 + i] = 0x11 * (i + 1);
    std::vector<char> in(r.pts.size(), 0); { int P = r.zero; for (long k = 0; k < n; k++) { in[P] = 1; P = r.tab[P][r.gen]; } }
    Pt R(L.cv); for (int v = 0; v < 65536; v++) { ent::src().load(t); ent::src().tape[0] = v >> 8; ent::src().tape[1] = v; mpECP_urandom(R.q, L.cv); used[v] = ent::src().served; int w = which(r, R.q, L.cv); if (w < 0 || !in[w]) c.fail("%s: entropy %04x gives %s, not in the generator's group", r.name().c_str(), v, show(r, w).c_str()); val[v] = w; umin = std::min(umin, used[v]); uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)v}; c.state(vc::hash_bytes(hh, sizeof hh)); } c.trans(65536);
    unsigned long total = 0; for (int v = 0; v < 65536; v++) if (used[v] == umin) { cnt[val[v]]++; total++; }
    if (umin * 8 < Z(n - 1).bits()) c.fail("%s: only %lu entropy bytes used", r.name().c_str(), umin);
    long vals = n; if (!cnt.count(r.zero)) vals = n - 1; double avg = (double)total / vals; if (umin <= 2) for (size_t i = 0; i < r.pts.size(); i++) if (in[i] && !((int)i == r.zero && vals == n - 1)) if (cnt[i] > avg * 1.01 + 1 || cnt[i] < avg * 0.99 - 1) c.fail("%s: over all equally likely entropy, %s occurs %lu times, average %.1f", r.name().c_str(), show(r, i).c_str(), cnt[i], avg);
    c.outcome(total * 100 + vals); c.trace(); c.sample("%s: %ld points, each about %.0f of %lu times", r.name().c_str(), vals, avg, total);
}
// every sequence of requests over one stream: request i depends on its own bytes only, and they are fresh
struct Req { int kind; Z m; mpECurve_ptr cv; const char *name; };
static std::string run(const Req &q) { switch (q.kind) { case 0: { Z r(-7), m = q.m; mpz_urandom(r.v, m.v); return r.str(); } case 1: { Fe f(Z(1), Z(5)); mpFp_urandom(f.f, (mpz_ptr)q.m.v); return f.get().str(); } default: { Pt P(q.cv); mpECP_urandom(P.q, q.cv); char s[200]; Pt o(q.cv); mpECP_set_neutral(o.q, q.cv); if (mpECP_cmp(P.q, o.q) == 0) return "O"; Z x, y; mpz_set_mpECP_affine_x(x.v, P.q); mpz_set_mpECP_affine_y(y.v, P.q); return x.str() + "," + y.str(); } } }
static void sequences(Ctx &c, size_t first, int depth, int pattern) {
    NamedCurve A("secp112r1"), B("Ed25519"); std::vector<Req> Q = {{0, Z(7), 0, "int<7"}, {0, Z(255), 0, "int<255"}, {0, Z(256), 0, "int<256"}, {0, Z(257), 0, "int<257"}, {0, Z(65537), 0, "int<65537"}, {0, Z::pow2(64) - Z(59), 0, "int<2^64-59"}, {0, Z::pow2(200), 0, "int<2^200"}, {0, Z::pow2(521) - Z(1), 0, "int<2^521-1"}, {0, Z::pow2(1031), 0, "int<2^1031"}, {1, Z(11), 0, "fe mod 11"}, {1, Z::pow2(127) - Z(1), 0, "fe mod 2^127-1"}, {1, Z::pow2(521) - Z(1), 0, "fe mod 2^521-1"}, {2, Z(0), A.cv, "point of secp112r1"}, {2, Z(0), B.cv, "point of Ed25519"}};
    if (first >= Q.size()) return; Tape S(6000); for (size_t i = 0; i < S.size(); i++) { uint64_t x = (i + 1 + pattern * 100003ull) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; S[i] = pattern == 2 ? (i % 5 ? 0 : x >> 56) : x >> 40; }
    std::map<std::pair<size_t, size_t>, std::pair<std::string, size_t>> alone; // (request, offset) -> value and consumption when it is the first request ever of its process... approximated by a fresh tape
    auto solo = [&](size_t q, size_t off) -> std::pair<std::string, size_t> & { auto k = std::make_pair(q, off); auto it = alone.find(k); if (it != alone.end()) return it->second; ent::src().load(Tape(S.begin() + off, S.end())); std::string v = run(Q[q]); c.trans(); return alone[k] = {v, ent::src().served}; };
    std::vector<size_t> ix(depth, 0); ix[0] = first;
    for (;;) {
        if (c.next()) { size_t off = 0; std::vector<std::pair<std::string, size_t>> want; for (int d = 0; d < depth; d++) { auto &s = solo(ix[d], off); want.push_back(s); off += s.second; }
            ent::src().load(S); std::string tr; for (int d = 0; d < depth; d++) { size_t b = ent::src().served; std::string v = run(Q[ix[d]]); c.trans(); tr += std::string(Q[ix[d]].name) + "; "; if (v != want[d].first || ent::src().served - b != want[d].second) c.fail("request %d of [%s] gives %s from %lu bytes; the same bytes alone give %s from %zu", d + 1, tr.c_str(), v.c_str(), ent::src().served - b, want[d].first.c_str(), want[d].second); c.outcome(vc::hash_str(v)); }
            c.state(vc::hash_str(tr) + pattern); c.trace(); if (c.cur % 31 == 0) c.sample("[%s]: independent, %zu bytes", tr.c_str(), off); }
        int d = depth - 1; while (d >= 1 && ++ix[d] == Q.size()) ix[d--] = 0; if (d < 1) break;
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    for (long lo = 1; lo <= 256; lo += 8) vc::unit(vc::fmt("all entropy, bounds %ld to %ld", lo, lo + 7), [=](Ctx &c) { counts(c, lo, lo + 7, 0); }, 60);
    for (long lo = 3; lo <= 251; lo += 62) vc::unit(vc::fmt("all entropy, fields up to %ld", lo + 61), [=](Ctx &c) { counts(c, lo, std::min(lo + 61, 256l), 1); }, 60);
    for (int part = 0; part < 8; part++) for (int kind = 0; kind < 2; kind++) vc::unit(vc::fmt("larger %s, part %d", kind ? "fields" : "bounds", part), [=](Ctx &c) {
        std::vector<Z> M; for (unsigned b = 8; b <= (th ? 1100u : 600u); b += b < 80 ? (th ? 1 : 4) : (th ? 8 : 24)) for (int d : {-1, 0, 1, 5}) { Z m = Z::pow2(b) + Z(d); if (kind) m = d == 0 ? Z::pow2(b) + Z::pow2(b - 1) : m; if (kind) m = d > 0 ? next_prime(m) : prev_prime(m); M.push_back(m); } M.push_back(Z(257)); M.push_back(Z(521)); for (unsigned b : {768u, 1000u, 1020u, 1024u, 2100u}) if (b <= 1024 || !kind) { Z m = Z::pow2(b) - Z(1); M.push_back(kind ? prev_prime(m) : m); } for (int i = 0; i < NGOLDEN; i++) { M.push_back(Z::s(GOLDEN[i].n)); if (th) M.push_back(Z::s(GOLDEN[i].p)); }
        for (size_t i = part; i < M.size(); i += 8) affine(c, M[i], kind, th); }, 120);
    struct P { Form f; long p, lo; int skip; }; for (auto &v : std::vector<P>{{WS, 11, 7, 0}, {WS, 23, 11, 1}, {WS, 61, 29, 0}, {ED, 13, 3, 0}, {ED, 29, 5, 0}, {MO, 13, 3, 0}, {MO, 31, 7, 0}, {TE, 13, 3, 0}, {TE, 29, 5, 0}}) vc::unit(vc::fmt("points, %s over F_%ld", FORM[v.f], v.p), [=](Ctx &c) { points(c, v.f, v.p, v.lo, v.skip); }, 60);
    for (size_t f = 0; f < 14; f++) for (int pat = 0; pat < 3; pat++) { vc::unit(vc::fmt("sequences of 3 requests, first %zu, stream %d", f, pat), [=](Ctx &c) { sequences(c, f, 3, pat); }); if (th && !pat) vc::unit(vc::fmt("sequences of 4 requests, first %zu", f), [=](Ctx &c) { sequences(c, f, 4, 0); }); }
    return vc::main_(argc, argv);
}
