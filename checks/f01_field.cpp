// F01: field arithmetic equals integer arithmetic modulo p on an exhaustive operand space.
#include "vc.hpp"
#include "guard.hpp"
#include "num.hpp"
using vc::Ctx;

// Compares c with the expected integer, and probes that c is a usable canonical element.
static void expect(Ctx &c, mpFp_t got, const Z &want, const Z &p, const char *what, const Z &a, const Z &b) {
    Z g; mpz_set_mpFp(g.v, got);
    if (g != want) c.fail("%s: p=0x%s a=0x%s b=0x%s gives 0x%s, expected 0x%s", what, p.str().c_str(), a.str().c_str(), b.str().c_str(), g.str().c_str(), want.str().c_str());
    if (mpFp_cmp_mpz(got, (mpz_ptr)want.v) != 0) c.fail("%s: result 0x%s does not compare equal to itself as integer (p=0x%s a=0x%s b=0x%s)", what, want.str().c_str(), p.str().c_str(), a.str().c_str(), b.str().c_str());
    c.trans();
}
static void unchanged(Ctx &c, mpFp_t e, const Z &want, const char *what, const Z &p) {
    Z g; mpz_set_mpFp(g.v, e);
    if (g != want) c.fail("%s changed an operand: p=0x%s was 0x%s now 0x%s", what, p.str().c_str(), want.str().c_str(), g.str().c_str());
}
typedef void (*bin_t)(mpFp_t, mpFp_t, mpFp_t);
typedef void (*binui_t)(mpFp_t, mpFp_t, unsigned long);

static void binary_ops(Ctx &c, const Z &p, const std::vector<Z> &A) {
    struct { const char *n; bin_t f; int k; } ops[] = {{"add", mpFp_add, 0}, {"sub", mpFp_sub, 1}, {"mul", mpFp_mul, 2}};
    Fe ea(p), eb(p), ec(p), et(p), chain(p); Z full = p - Z(1);
    for (auto &a : A) for (auto &b : A) for (auto &o : ops) {
        if (!c.next()) continue;
        Z want = (o.k == 0 ? a + b : o.k == 1 ? a - b : a * b).mod(p);
        c.state(vc::hash_str(p.str() + ":" + a.str() + ":" + b.str()));
        c.outcome(vc::hash_str(want.str()));
        if (c.cur % 5003 == 1 && c.want_sample()) c.sample("%s p=0x%s a=0x%s b=0x%s -> 0x%s", o.n, p.str().c_str(), a.str().c_str(), b.str().c_str(), want.str().c_str());
        // result in a dirty element
        ea.set(a, p); eb.set(b, p); ec.set(full, p);
        o.f(ec.f, ea.f, eb.f); expect(c, ec.f, want, p, o.n, a, b); unchanged(c, ea.f, a, o.n, p); unchanged(c, eb.f, b, o.n, p);
        // the result keeps working as an operand and compares like a freshly set element
        mpFp_add(chain.f, ec.f, ec.f); expect(c, chain.f, (want + want).mod(p), p, "add after op", want, want);
        mpFp_mul(chain.f, ec.f, ea.f); expect(c, chain.f, (want * a).mod(p), p, "mul after op", want, a);
        et.set(want, p); if (mpFp_cmp(ec.f, et.f) != 0) c.fail("%s: result not equal to the same element set directly: p=0x%s 0x%s", o.n, p.str().c_str(), want.str().c_str());
        // result in a fresh element
        { Fe nw(p); o.f(nw.f, ea.f, eb.f); expect(c, nw.f, want, p, o.n, a, b); }
        // aliasing: c=a, c=b
        o.f(ea.f, ea.f, eb.f); expect(c, ea.f, want, p, (std::string(o.n) + " (result is first operand)").c_str(), a, b); unchanged(c, eb.f, b, o.n, p);
        ea.set(a, p); o.f(eb.f, ea.f, eb.f); expect(c, eb.f, want, p, (std::string(o.n) + " (result is second operand)").c_str(), a, b); unchanged(c, ea.f, a, o.n, p);
        if (a == b) {
            ec.set(full, p); o.f(ec.f, ea.f, ea.f); expect(c, ec.f, want, p, (std::string(o.n) + " (same operand twice)").c_str(), a, a); unchanged(c, ea.f, a, o.n, p);
            o.f(ea.f, ea.f, ea.f); expect(c, ea.f, want, p, (std::string(o.n) + " (all three the same)").c_str(), a, a);
        }
        c.trace();
    }
}
// every operation on operands whose words cancel or absorb each other, against few partners
static void pattern_ops(Ctx &c, const Z &p, const std::vector<Z> &A) {
    struct { const char *n; bin_t f; int k; } ops[] = {{"add", mpFp_add, 0}, {"sub", mpFp_sub, 1}, {"mul", mpFp_mul, 2}};
    Fe ea(p), eb(p), ec(p); Z full = p - Z(1); unsigned k = (p.bits() + 63) / 64;
    for (auto &a : A) {
        if (!c.next()) continue;
        c.state(vc::hash_str("p" + p.str() + ":" + a.str()));
        std::vector<Z> B = {Z(0), Z(1), full, a, (Z(0) - a).mod(p), a.mod(Z::pow2(64)), (a + Z::pow2(32)).mod(p)}; for (unsigned j = 0; j < k; j++) for (unsigned b : {0u, 32u, 63u}) if (k <= 4 || j == 0 || j + 1 == k) { B.push_back((a + Z::pow2(64 * j + b)).mod(p)); B.push_back((a - Z::pow2(64 * j + b)).mod(p)); }
        { Z n = (Z(0) - a).mod(p); ea.set(a, p); ec.set(full, p); mpFp_neg(ec.f, ea.f); expect(c, ec.f, n, p, "neg", a, a); mpFp_neg(ea.f, ea.f); expect(c, ea.f, n, p, "neg in place", a, a); }
        { ea.set(a, p); ec.set(full, p); int st = mpFp_inv(ec.f, ea.f); if ((st == 0) != (a.sgn() != 0)) c.fail("inverse of 0x%s mod 0x%s returns %d", a.str().c_str(), p.str().c_str(), st); if (!st) expect(c, ec.f, invm(a, p).mod(p), p, "inverse", a, a); }
        ea.set(a, p); for (unsigned long u : {0ul, 1ul, ~0ul, 1ul << 63, 1ul << 32, a.mod(Z::pow2(64)).ul()}) { int q = mpFp_cmp_ui(ea.f, u); if ((q == 0) != (a == Z::ui(u))) c.fail("element 0x%s compared with word 0x%lx (p=0x%s) gives %d", a.str().c_str(), u, p.str().c_str(), q); c.trans(); }
        for (auto &b : B) {
            for (auto &o : ops) { Z want = (o.k == 0 ? a + b : o.k == 1 ? a - b : a * b).mod(p); ea.set(a, p); eb.set(b, p); ec.set(full, p); o.f(ec.f, ea.f, eb.f); expect(c, ec.f, want, p, o.n, a, b); c.outcome(vc::hash_str(want.str())); }
            ea.set(a, p); eb.set(b, p); int r = mpFp_cmp(ea.f, eb.f), w = cmp(a, b); if ((r == 0) != (w == 0) || (r > 0) != (w > 0)) c.fail("comparison of 0x%s and 0x%s mod 0x%s gives %d", a.str().c_str(), b.str().c_str(), p.str().c_str(), r);
            int q = mpFp_cmp_mpz(ea.f, (mpz_ptr)b.v); if ((q == 0) != (w == 0)) c.fail("element 0x%s compared with integer 0x%s (p=0x%s) gives %d", a.str().c_str(), b.str().c_str(), p.str().c_str(), q); c.trans(2);
        }
        c.trace();
    }
}
static void compare_ops(Ctx &c, const Z &p, const std::vector<Z> &A) {
    Fe ea(p), eb(p);
    for (auto &a : A) for (auto &b : A) {
        if (!c.next()) continue;
        ea.set(a, p); eb.set(b, p); c.state(vc::hash_str("c" + p.str() + ":" + a.str() + ":" + b.str()));
        int r = mpFp_cmp(ea.f, eb.f), w = cmp(a, b);
        if ((r == 0) != (w == 0) || (r > 0) != (w > 0)) c.fail("comparison of 0x%s and 0x%s mod 0x%s gives %d", a.str().c_str(), b.str().c_str(), p.str().c_str(), r);
        std::vector<Z> ms = {b, b + p, b - p, Z(0) - b, b + Z::pow2(64 * ((p.bits() + 63) / 64)), b + Z::pow2(64 * ((p.bits() + 63) / 64 + 1)), b.mod(Z::pow2(64))};
        for (auto &m : ms) { int q = mpFp_cmp_mpz(ea.f, (mpz_ptr)m.v); if ((q == 0) != (a == m)) c.fail("element 0x%s compared with integer 0x%s (p=0x%s) gives %d", a.str().c_str(), m.str().c_str(), p.str().c_str(), q); c.trans(); }
        unsigned long u = b.ul(); // low word
        int q = mpFp_cmp_ui(ea.f, u); if ((q == 0) != (a == Z::ui(u))) c.fail("element 0x%s compared with word 0x%lx (p=0x%s) gives %d", a.str().c_str(), u, p.str().c_str(), q);
        c.trans(2);
        // swap / cswap
        mpFp_swap(ea.f, eb.f); unchanged(c, ea.f, b, "swap (first)", p); unchanged(c, eb.f, a, "swap (second)", p);
        int sw[] = {0, 1, 2, -1, 256, 0x10000, (int)0x80000000};
        for (int s : sw) { ea.set(a, p); eb.set(b, p); mpFp_cswap(ea.f, eb.f, s); unchanged(c, ea.f, s ? b : a, vc::fmt("cswap(%d)", s).c_str(), p); unchanged(c, eb.f, s ? a : b, vc::fmt("cswap(%d)", s).c_str(), p); c.trans(); }
        // assignment
        eb.set(b, p); mpFp_set(eb.f, ea.f); ea.set(a, p); mpFp_set(eb.f, ea.f); unchanged(c, eb.f, a, "set", p); unchanged(c, ea.f, a, "set", p);
        mpFp_set(ea.f, ea.f); unchanged(c, ea.f, a, "set to itself", p);
        c.trans(2); c.trace();
    }
}
static std::vector<unsigned long> words_for(const Z &p, const Z &a, bool all) {
    std::set<unsigned long> s;
    auto pm = [&](unsigned long x) { s.insert(x); s.insert(x - 1); s.insert(x + 1); };
    pm(0); pm(2); pm(1ul << 31); pm(1ul << 32); pm(1ul << 63); pm(p.ul()); pm(a.ul()); pm((p - a).ul()); pm(0ul - a.ul()); s.insert(0xAAAAAAAAAAAAAAAAul);
    if (p.bits() <= 64) { unsigned long q = p.ul(); pm(2 * q); pm((~0ul / q) * q); pm((1ul << 63) / q * q); if (all && q < 200) for (unsigned long i = 0; i <= 2 * q + 1; i++) s.insert(i); }
    return std::vector<unsigned long>(s.begin(), s.end());
}
static void word_ops(Ctx &c, const Z &p, const std::vector<Z> &A) {
    struct { const char *n; binui_t f; int k; } ops[] = {{"add word", mpFp_add_ui, 0}, {"sub word", mpFp_sub_ui, 1}, {"mul word", mpFp_mul_ui, 2}};
    Fe ea(p), ec(p); Z full = p - Z(1);
    for (auto &a : A) for (unsigned long u : words_for(p, a, true)) {
        if (!c.next()) continue;
        Z b = Z::ui(u); c.state(vc::hash_str("w" + p.str() + ":" + a.str() + ":" + b.str()));
        for (auto &o : ops) {
            Z want = (o.k == 0 ? a + b : o.k == 1 ? a - b : a * b).mod(p); c.outcome(vc::hash_str(want.str()));
            ea.set(a, p); ec.set(full, p);
            o.f(ec.f, ea.f, u); expect(c, ec.f, want, p, o.n, a, b); unchanged(c, ea.f, a, o.n, p);
            o.f(ea.f, ea.f, u); expect(c, ea.f, want, p, (std::string(o.n) + " (in place)").c_str(), a, b);
        }
        // assignment of a word
        ec.set(full, p); mpFp_set_ui(ec.f, u, (mpz_ptr)p.v); expect(c, ec.f, b.mod(p), p, "set word", b, b);
        ec.set(full, p); mpFp_set_ui_fp(ec.f, u, ea.f->fp); expect(c, ec.f, b.mod(p), p, "set word (field handle)", b, b);
        ec.set(a, p); ea.set(a, p); int q = mpFp_cmp_ui(ec.f, u); if ((q == 0) != (a == b)) c.fail("element 0x%s vs word 0x%lx: %d", a.str().c_str(), u, q);
        c.trace();
    }
}
static void unary_ops(Ctx &c, const Z &p, const std::vector<Z> &A) {
    Fe ea(p), ec(p); Z full = p - Z(1); unsigned k = (p.bits() + 63) / 64;
    for (auto &a : A) {
        if (!c.next()) continue;
        c.state(vc::hash_str("u" + p.str() + ":" + a.str()));
        Z n = (Z(0) - a).mod(p), s = (a * a).mod(p);
        ea.set(a, p); ec.set(full, p); mpFp_neg(ec.f, ea.f); expect(c, ec.f, n, p, "neg", a, a); unchanged(c, ea.f, a, "neg", p);
        mpFp_neg(ea.f, ea.f); expect(c, ea.f, n, p, "neg in place", a, a);
        ea.set(a, p); ec.set(full, p); mpFp_sqr(ec.f, ea.f); expect(c, ec.f, s, p, "sqr", a, a); unchanged(c, ea.f, a, "sqr", p);
        mpFp_sqr(ea.f, ea.f); expect(c, ea.f, s, p, "sqr in place", a, a);
        ea.set(a, p);
        for (unsigned bit = 0; bit < 64 * k + 70; bit++) if (!!mpFp_tstbit(ea.f, bit) != !!mpz_tstbit(a.v, bit)) c.fail("bit %u of 0x%s (p=0x%s) reads %d", bit, a.str().c_str(), p.str().c_str(), mpFp_tstbit(ea.f, bit));
        c.trans(64 * k + 70);
        // integer conversion in both directions, from unreduced and negative integers and into used integers
        std::vector<Z> in = {a, a + p, a - p, a + p * p, a - p * p - p, a + p * Z::pow2(64), Z(0) - a, a + p * Z::pow2(64 * 3 * k)};
        for (auto &m : in) {
            Z keep = m; ec.set(full, p); mpFp_set_mpz(ec.f, (mpz_ptr)m.v, (mpz_ptr)p.v); expect(c, ec.f, m.mod(p), p, "set integer", m, m); if (m != keep) c.fail("set integer changed its argument");
            mpFp_set_mpz_fp(ec.f, (mpz_ptr)m.v, ea.f->fp); expect(c, ec.f, m.mod(p), p, "set integer (field handle)", m, m);
            Z r = Z::pow2(64 * 4 * k) - Z(1); mpz_set_mpFp(r.v, ec.f); if (r != m.mod(p)) c.fail("conversion into a used integer gives 0x%s for 0x%s", r.str().c_str(), m.mod(p).str().c_str());
            Z ng = Z(0) - Z::pow2(70); mpz_set_mpFp(ng.v, ec.f); if (ng != m.mod(p)) c.fail("conversion into a negative integer gives 0x%s for 0x%s", ng.str().c_str(), m.mod(p).str().c_str());
            c.trans(3);
        }
        c.trace();
    }
}
static void power_ops(Ctx &c, const Z &p, const std::vector<Z> &B, bool full_small) {
    Fe ea(p), ec(p); Z full = p - Z(1);
    std::vector<unsigned long> ue = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 63, 64, 65, 255, 256, 0xFFFFFFFFul, 0x100000000ul, 1ul << 63, ~0ul};
    if (full_small) for (unsigned long i = 0; i <= 2 * p.ul(); i++) ue.push_back(i);
    std::vector<Z> ze = {Z(0), Z(1), Z(2), Z(3), p - Z(3), p - Z(2), p - Z(1), p, p + Z(1), (p - Z(1)) / Z(2), (p + Z(1)) / Z(4), Z::pow2(64), Z::pow2(64) - Z(1), Z::pow2(65) + Z(1), p * p, Z(-1), Z(-2), Z(0) - p};
    if (full_small) for (unsigned long i = 0; i <= 2 * p.ul(); i++) { ze.push_back(Z(i)); ze.push_back(Z(0) - Z(i)); }
    for (auto &a : B) {
        for (unsigned long u : ue) {
            if (!c.next()) continue;
            c.state(vc::hash_str("pu" + p.str() + ":" + a.str() + ":" + std::to_string(u)));
            Z want = powm(a, Z::ui(u), p).mod(p);
            ea.set(a, p); ec.set(full, p); mpFp_pow_ui(ec.f, ea.f, u); expect(c, ec.f, want, p, "power (word)", a, Z::ui(u)); unchanged(c, ea.f, a, "power", p);
            mpFp_pow_ui(ea.f, ea.f, u); expect(c, ea.f, want, p, "power (word) in place", a, Z::ui(u)); c.trace();
        }
        for (auto &e : ze) {
            if (!c.next()) continue;
            if (e.sgn() < 0 && a.sgn() == 0) continue;
            c.state(vc::hash_str("pz" + p.str() + ":" + a.str() + ":" + e.str()));
            Z want = e.sgn() < 0 ? powm(invm(a, p), Z(0) - e, p) : powm(a, e, p); want = want.mod(p); Z keep = e;
            ea.set(a, p); ec.set(full, p); mpFp_pow_mpz(ec.f, ea.f, (mpz_ptr)e.v); expect(c, ec.f, want, p, "power", a, e); unchanged(c, ea.f, a, "power", p);
            mpFp_pow_mpz(ea.f, ea.f, (mpz_ptr)e.v); expect(c, ea.f, want, p, "power in place", a, e); if (e != keep) c.fail("power changed its exponent"); c.trace();
        }
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    for (unsigned k = 16; k >= 1; k--) {
        for (int fam = 0; fam < (th ? 6 : 3); fam++) {
            auto P = [k, fam, th]() { auto v = boundary_primes(k, th); return fam < (int)v.size() ? v[fam] : v[0]; };
            if (fam && 0) break;
            vc::unit(vc::fmt("%u words, prime family %d: binary", k, fam), [P](Ctx &c) { Z p = P(); binary_ops(c, p, boundary_operands(p)); });
            vc::unit(vc::fmt("%u words, prime family %d: rest", k, fam), [P, th](Ctx &c) {
                Z p = P(); auto A = boundary_operands(p);
                compare_ops(c, p, A); word_ops(c, p, A); unary_ops(c, p, A);
                std::vector<Z> B; size_t lim = th ? 40 : 12; for (size_t i = 0; i < A.size(); i += std::max<size_t>(1, A.size() / lim)) B.push_back(A[i]); B.push_back(A.back());
                power_ops(c, p, B, false); });
        }
    }
    for (unsigned k = 16; k >= 1; k--) for (int fam = 0; fam < (th ? 6 : 2); fam++) vc::unit(vc::fmt("%u words, prime family %d: patterns of words", k, fam), [k, fam, th](Ctx &c) { auto v = boundary_primes(k, th); Z p = fam < (int)v.size() ? v[v.size() - 1 - fam] : v[0]; pattern_ops(c, p, pattern_operands(p, th)); });
    std::vector<unsigned long> ps = odd_primes(th ? 127 : 43);
    for (unsigned long q : ps) vc::unit(vc::fmt("all of F_%lu", q), [q](Ctx &c) {
        Z p(q); std::vector<Z> A; for (unsigned long i = 0; i < q; i++) A.push_back(Z(i));
        binary_ops(c, p, A); compare_ops(c, p, A); word_ops(c, p, A); unary_ops(c, p, A); power_ops(c, p, A, true); });
    return vc::main_(argc, argv);
}
