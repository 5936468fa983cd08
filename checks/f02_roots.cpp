// F02: inverses and square roots, every element of small fields and structured elements of large ones.
#include "vc.hpp"
#include "guard.hpp"
#include "num.hpp"
extern "C" {
#include <ecc/ecurve.h>
}
using vc::Ctx;

static void one(Ctx &c, const Z &p, const Z &a) {
    if (!c.next()) return;
    c.state(vc::hash_str(p.str() + ":" + a.str()));
    Z full = p - Z(1); Fe ea(a, p), ec(full, p), er(p);
    // inverse
    int st = mpFp_inv(ec.f, ea.f);
    if (ea.get() != a) c.fail("inverse changed its operand 0x%s (p=0x%s)", a.str().c_str(), p.str().c_str());
    if ((st == 0) != (a.sgn() != 0)) c.fail("inverse of 0x%s mod 0x%s returns status %d", a.str().c_str(), p.str().c_str(), st);
    if (st == 0) {
        Z g = ec.get(); if (g.sgn() <= 0 || g >= p || (g * a).mod(p) != Z(1)) c.fail("inverse of 0x%s mod 0x%s is given as 0x%s", a.str().c_str(), p.str().c_str(), g.str().c_str());
        mpFp_mul(er.f, ec.f, ea.f); if (mpFp_cmp_ui(er.f, 1) != 0) c.fail("inverse times element is not one: 0x%s mod 0x%s", a.str().c_str(), p.str().c_str());
        Fe al(a, p); if (mpFp_inv(al.f, al.f) != 0 || al.get() != g) c.fail("in-place inverse of 0x%s mod 0x%s differs", a.str().c_str(), p.str().c_str());
        Fe nw(p); if (mpFp_inv(nw.f, ea.f) != 0 || nw.get() != g) c.fail("inverse of 0x%s mod 0x%s into a new element differs", a.str().c_str(), p.str().c_str());
    } else { Fe al(a, p); if (mpFp_inv(al.f, al.f) == 0) c.fail("in-place inverse of zero succeeds mod 0x%s", p.str().c_str()); }
    c.trans(3);
    // square root
    bool qr = a.sgn() == 0 || powm(a, (p - Z(1)) / Z(2), p) == Z(1);
    ec.set(full, p); st = mpFp_sqrt(ec.f, ea.f);
    if (ea.get() != a) c.fail("square root changed its operand 0x%s (p=0x%s)", a.str().c_str(), p.str().c_str());
    if ((st == 0) != qr) c.fail("square root of 0x%s mod 0x%s returns status %d but it is %sa square", a.str().c_str(), p.str().c_str(), st, qr ? "" : "not ");
    c.outcome(vc::hash_str(qr ? ec.get().str() : "none"));
    if (qr) {
        Z g = ec.get(); if (g.sgn() < 0 || g >= p || (g * g).mod(p) != a) c.fail("square root of 0x%s mod 0x%s is given as 0x%s", a.str().c_str(), p.str().c_str(), g.str().c_str());
        mpFp_sqr(er.f, ec.f); if (mpFp_cmp(er.f, ea.f) != 0) c.fail("root squared does not compare equal to 0x%s mod 0x%s", a.str().c_str(), p.str().c_str());
        mpFp_add(er.f, ec.f, ec.f); if (er.get() != (g + g).mod(p)) c.fail("root is not usable as an operand: 0x%s mod 0x%s", a.str().c_str(), p.str().c_str());
        Fe al(a, p); if (mpFp_sqrt(al.f, al.f) != 0 || (al.get() * al.get()).mod(p) != a) c.fail("in-place square root of 0x%s mod 0x%s gives 0x%s", a.str().c_str(), p.str().c_str(), al.get().str().c_str());
        mpFp_sqr(er.f, al.f); if (mpFp_cmp(er.f, ea.f) != 0) c.fail("in-place root squared does not compare equal to 0x%s mod 0x%s", a.str().c_str(), p.str().c_str());
        Fe nw(p); if (mpFp_sqrt(nw.f, ea.f) != 0 || (nw.get() * nw.get()).mod(p) != a) c.fail("square root of 0x%s mod 0x%s into a new element differs", a.str().c_str(), p.str().c_str());
        // result element that last lived in another, larger or smaller field
        Z q1 = Z(7), q2 = Z::pow2(521) - Z(1); Fe o1(Z(5), q1), o2(q2 - Z(2), q2);
        if (mpFp_sqrt(o1.f, ea.f) != 0 || (o1.get() * o1.get()).mod(p) != a) c.fail("square root of 0x%s mod 0x%s into an element of a small field differs", a.str().c_str(), p.str().c_str());
        if (mpFp_sqrt(o2.f, ea.f) != 0 || (o2.get() * o2.get()).mod(p) != a) c.fail("square root of 0x%s mod 0x%s into an element of a large field differs", a.str().c_str(), p.str().c_str());
    } else { Fe al(a, p); if (mpFp_sqrt(al.f, al.f) == 0) c.fail("in-place square root of the non-square 0x%s mod 0x%s succeeds", a.str().c_str(), p.str().c_str()); }
    if (a.sgn()) { Fe o1(Z(5), Z(7)); Z q2 = Z::pow2(521) - Z(1); Fe o2(q2 - Z(2), q2); Z w = invm(a, p);
        if (mpFp_inv(o1.f, ea.f) || o1.get() != w || mpFp_inv(o2.f, ea.f) || o2.get() != w) c.fail("inverse of 0x%s mod 0x%s into an element of another field differs", a.str().c_str(), p.str().c_str()); }
    c.trans(3); c.trace();
    if (c.cur % 997 == 3 && c.want_sample()) c.sample("p=0x%s a=0x%s square=%d root=0x%s", p.str().c_str(), a.str().c_str(), qr, qr ? ec.get().str().c_str() : "-");
}
// small numbers, boundary operands, the whole 2-Sylow chain and products
static void structured(Ctx &c, const Z &p, int nsmall, bool boundary) {
    std::vector<Z> v;
    for (int i = 0; i < nsmall; i++) { v.push_back(Z(i).mod(p)); v.push_back((Z(0) - Z(i)).mod(p)); }
    Z z(2); while (powm(z, (p - Z(1)) / Z(2), p) == Z(1)) z = z + Z(1);
    Z q = p - Z(1); unsigned s = 0; while (mpz_even_p(q.v)) { q = q / Z(2); s++; }
    Z w = powm(z, q, p); // order 2^s
    for (unsigned j = 0; j <= s; j++) {
        v.push_back(w); v.push_back((w * Z(9)).mod(p)); v.push_back((w * Z(4) * w * w).mod(p)); v.push_back((w * powm(z, Z(6), p)).mod(p)); w = (w * w).mod(p);
    }
    if (boundary) for (auto &b : boundary_operands(p)) { v.push_back(b); v.push_back((b * b).mod(p)); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    for (auto &a : v) one(c, p, a);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    for (int s = th ? 400 : 250; s >= 1; s -= 1) {
        if (!th && s > 80 && s % 10) continue;
        vc::unit(vc::fmt("2-adicity %d", s), [s, th](Ctx &c) {
            int found = 0; // primes c*2^s+1 with odd c
            for (long k = 1; found < (th ? 4 : 2); k += 2) { Z p = Z(k) * Z::pow2(s) + Z(1); if (p > Z(2) && mpz_probab_prime_p(p.v, 20)) { found++; structured(c, p, 12, false); } }
            // a second family with a large odd part
            if (s <= 200) for (Z k = Z::pow2(60) + Z(1);; k = k + Z(2)) { Z p = k * Z::pow2(s) + Z(1); if (mpz_probab_prime_p(p.v, 20)) { structured(c, p, 6, false); break; } }
        }, 6);
    }
    // every number up to a bound is a square: a search for a non-square has to go beyond it
    for (int B : {5, 11, 17, 23, 37, 53, 71, 101, 131, 163, 199, 257, 331, 401, 499, 701, 997, 1301}) { if (!th && B > 701) continue;
        vc::unit(vc::fmt("least non-square beyond %d", B), [B, th](Ctx &c) { Z m(1); for (auto q : odd_primes(B)) m = m * Z(q); int found = 0;
            for (int s : {3, 4, 9, 33}) { int here = 0; for (long k = 1; here < (th ? 3 : B <= 300 ? 2 : 1) && k < 20000; k += 2) { Z p = m * Z::pow2(s) * Z(k) + Z(1); if (!mpz_probab_prime_p(p.v, 20)) continue; here++; found++; structured(c, p, B <= 101 ? 8 : 4, false); } if (B > 500 && s > 4) break; } if (!found) c.fail("no prime found"); }, 60); }
    { static const long PS[] = {73, 241, 1009, 2641, 8089, 18001, 53881, 87481, 117049, 515761, 1083289, 3206641, 3818929, 9257329, 22000801, 48473881}; for (long q : PS) vc::unit(vc::fmt("pseudosquare %ld", q), [q](Ctx &c) { if (!mpz_probab_prime_p(Z(q).v, 20)) return; structured(c, Z(q), 150, false); }); }
    for (unsigned k = 1; k <= 16; k++) vc::unit(vc::fmt("%u-word primes", k), [k, th](Ctx &c) { for (auto &p : boundary_primes(k, th)) structured(c, p, 6, k <= 6 || th); }, 6);
    char **l = _mpECurve_list_standard_curves();
    for (int i = 0; l[i]; i++) { std::string n = l[i]; free(l[i]); vc::unit("fields of " + n, [n](Ctx &c) {
        mpECurve_t cv; mpECurve_init(cv); if (mpECurve_set_named(cv, (char *)n.c_str())) c.fail("no curve %s", n.c_str());
        Z p = Z::from(cv->fp->p), q = Z::from(cv->n); mpECurve_clear(cv); structured(c, p, 20, true); structured(c, q, 20, true); }, 6); }
    free(l);
    auto ps = odd_primes(th ? 2500 : 700);
    for (int part = 0; part < 16; part++) vc::unit(vc::fmt("all elements of small fields, part %d", part), [ps, part](Ctx &c) {
        for (size_t i = part; i < ps.size(); i += 16) for (unsigned long a = 0; a < ps[i]; a++) one(c, Z(ps[i]), Z(a)); });
    return vc::main_(argc, argv);
}
