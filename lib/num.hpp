// Thin integer wrapper for the reference side, prime families and operand alphabets.
#pragma once
#include <gmp.h>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
extern "C" {
#include <ecc/field.h>
}
struct Z {
    mpz_t v;
    Z() { mpz_init(v); }
    Z(long x) { mpz_init_set_si(v, x); }
    Z(const Z &o) { mpz_init_set(v, o.v); }
    static Z s(const char *t) { Z r; mpz_set_str(r.v, t, 0); return r; }
    ~Z() { mpz_clear(v); }
    Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; }
    static Z ui(unsigned long x) { Z r; mpz_set_ui(r.v, x); return r; }
    static Z pow2(unsigned e) { Z r; mpz_setbit(r.v, e); return r; }
    static Z from(mpz_srcptr m) { Z r; mpz_set(r.v, m); return r; }
    std::string str() const { char *s = mpz_get_str(nullptr, 16, v); std::string r = s; void (*f)(void *, size_t); mp_get_memory_functions(0, 0, &f); f(s, r.size() + 1); return r; }
    Z mod(const Z &p) const { Z r; mpz_mod(r.v, v, p.v); return r; }
    int sgn() const { return mpz_sgn(v); }
    bool fits() const { return mpz_fits_ulong_p(v); }
    unsigned long ul() const { return mpz_get_ui(v); }
    size_t bits() const { return mpz_sgn(v) ? mpz_sizeinbase(v, 2) : 0; }
};
inline Z operator+(const Z &a, const Z &b) { Z r; mpz_add(r.v, a.v, b.v); return r; }
inline Z operator-(const Z &a, const Z &b) { Z r; mpz_sub(r.v, a.v, b.v); return r; }
inline Z operator*(const Z &a, const Z &b) { Z r; mpz_mul(r.v, a.v, b.v); return r; }
inline Z operator/(const Z &a, const Z &b) { Z r; mpz_tdiv_q(r.v, a.v, b.v); return r; }
inline int cmp(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v); }
inline bool operator==(const Z &a, const Z &b) { return cmp(a, b) == 0; }
inline bool operator!=(const Z &a, const Z &b) { return cmp(a, b) != 0; }
inline bool operator<(const Z &a, const Z &b) { return cmp(a, b) < 0; }
inline bool operator<=(const Z &a, const Z &b) { return cmp(a, b) <= 0; }
inline bool operator>(const Z &a, const Z &b) { return cmp(a, b) > 0; }
inline bool operator>=(const Z &a, const Z &b) { return cmp(a, b) >= 0; }
inline Z powm(const Z &a, const Z &e, const Z &p) { Z r; mpz_powm(r.v, a.v, e.v, p.v); return r; }
inline Z invm(const Z &a, const Z &p) { Z r; mpz_invert(r.v, a.v, p.v); return r; }
inline Z next_prime(const Z &a) { Z r; mpz_nextprime(r.v, a.v); return r; }
inline Z prev_prime(const Z &a) { Z r = a - Z(1); if (mpz_even_p(r.v)) mpz_sub_ui(r.v, r.v, 1); while (!mpz_probab_prime_p(r.v, 20)) mpz_sub_ui(r.v, r.v, 2); return r; }

inline std::vector<unsigned long> odd_primes(unsigned long lim) {
    std::vector<unsigned long> r; for (unsigned long n = 3; n <= lim; n += 2) { bool p = true; for (unsigned long d = 3; d * d <= n; d += 2) if (n % d == 0) { p = false; break; } if (p) r.push_back(n); } return r;
}
// operands at the edges of a k-word residue
inline std::vector<Z> boundary_operands(const Z &p) {
    std::vector<Z> v; unsigned k = (p.bits() + 63) / 64;
    auto add = [&](const Z &x) { if (x.sgn() >= 0 && x < p) v.push_back(x); };
    for (long i = 0; i < 4; i++) { add(Z(i)); add(p - Z(1) - Z(i)); }
    Z h = p / Z(2); add(h); add(h + Z(1)); add(h - Z(1));
    for (unsigned j = 1; j <= k; j++) {
        Z b = Z::pow2(64 * j);
        add(b); add(b - Z(1)); add(b + Z(1)); add(p - b); add(p - b + Z(1)); add(p - b - Z(1)); add(b - p); add(b - p + Z(1)); add(b - p - Z(1)); add(b / Z(2)); add(b / Z(2) - Z(1));
    }
    Z a5; for (unsigned j = 0; j < k; j++) a5 = a5 * Z::pow2(64) + Z::s("0xAAAAAAAAAAAAAAAA"); add(a5.mod(p)); add((a5 / Z(2)).mod(p));
    Z alt; for (unsigned j = 0; j < k; j++) alt = alt * Z::pow2(64) + (j & 1 ? Z::s("0xFFFFFFFFFFFFFFFF") : Z(0)); add(alt.mod(p));
    Z hi = Z::pow2(p.bits() - 1); add(hi); add(p - hi); add(hi - Z(1));
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
// operands whose words cancel, absorb or truncate each other (sums, exclusive ors, halves of words)
inline std::vector<Z> pattern_operands(const Z &p, bool more) {
    static const unsigned long L[] = {0, 1, ~0ul, 1ul << 63, 1ul << 32}; std::vector<Z> v; unsigned k = (p.bits() + 63) / 64;
    auto add = [&](const std::vector<unsigned long> &w) { Z x; for (unsigned j = k; j-- > 0;) x = x * Z::pow2(64) + Z::ui(w[j]); if (x < p) v.push_back(x); };
    if (k <= (more ? 4u : 3u)) { std::vector<unsigned> d(k, 0); for (;;) { std::vector<unsigned long> w; for (auto x : d) w.push_back(L[x]); add(w); unsigned j = 0; while (j < k && ++d[j] == 5) d[j++] = 0; if (j == k) break; } }
    else for (unsigned i = 0; i < k; i++) for (unsigned j = i + 1; j < k; j++) if (more || j == i + 1 || i == 0 || j == k - 1) for (unsigned a = 0; a < 5; a++) for (unsigned b = 0; b < 5; b++) { std::vector<unsigned long> w(k, 0); w[i] = L[a]; w[j] = L[b]; add(w); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
// primes at the edges of every supported width
inline std::vector<Z> boundary_primes(unsigned k, bool more) {
    std::vector<Z> v; Z top = Z::pow2(64 * k), low = k > 1 ? Z::pow2(64 * (k - 1)) : Z(1000003);
    v.push_back(prev_prime(top)); v.push_back(next_prime(low));
    v.push_back(prev_prime(Z::pow2(64 * k - 1)));
    if (more) { v.push_back(next_prime(Z::pow2(64 * k - 1))); v.push_back(next_prime(Z::pow2(64 * k - 32) )); v.push_back(prev_prime(top - Z::pow2(64 * k - 33))); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
struct Fe { // field element of the library
    mpFp_t f;
    Fe(const Z &p) { mpFp_init(f, (mpz_ptr)p.v); }
    Fe(const Z &x, const Z &p) { mpFp_init(f, (mpz_ptr)p.v); mpFp_set_mpz(f, (mpz_ptr)x.v, (mpz_ptr)p.v); }
    Fe(const Fe &) = delete;
    ~Fe() { mpFp_clear(f); }
    void set(const Z &x, const Z &p) { mpFp_set_mpz(f, (mpz_ptr)x.v, (mpz_ptr)p.v); }
    Z get() const { Z r; mpz_set_mpFp(r.v, (mpFp_ptr)f); return r; }
};
