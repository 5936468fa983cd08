"""Textbook reference: field and curve arithmetic, point encoding, ECDSA, in plain Python integers."""
import hashlib

class Cv:
    """form: ws (a,b) ed (c,d) mo (B,A) te (a,d); points are (x,y), None is an identity without coordinates"""
    def __init__(s, form, p, a, b, n, h, gx, gy, bits):
        s.form, s.p, s.a, s.b, s.n, s.h, s.G, s.bits = form, p, a % p, b % p, n, h, (gx, gy), bits
        s.L = (bits + 7) // 8
        s.memo, s.dbl = {}, {}
    def args(s): return (s.p, s.a, s.b, s.n, s.h, s.G[0], s.G[1], s.bits)
    def key(s): return (s.form,) + s.args()
    @property
    def zero(s): return (0, s.a) if s.form == "ed" else (0, 1) if s.form == "te" else None
    def inv(s, v): return pow(v, -1, s.p)
    def on(s, x, y):
        p, a, b = s.p, s.a, s.b; x %= p; y %= p
        if s.form == "ws": return (y * y - x ** 3 - a * x - b) % p == 0
        if s.form == "ed": return (x * x + y * y - a * a * (1 + b * x * x * y * y)) % p == 0
        if s.form == "mo": return (a * y * y - x ** 3 - b * x * x - x) % p == 0
        return (a * x * x + y * y - 1 - b * x * x * y * y) % p == 0
    def neg(s, P):
        if P is None: return None
        return (P[0], -P[1] % s.p) if s.form in ("ws", "mo") else (-P[0] % s.p, P[1])
    def add(s, P, Q):
        p, a, b = s.p, s.a, s.b
        if s.form in ("ws", "mo"):
            if P is None: return Q
            if Q is None: return P
            A, B = (b, a) if s.form == "mo" else (0, 1)
            if P[0] == Q[0]:
                if (P[1] + Q[1]) % p == 0: return None
                if s.form == "ws": l = (3 * P[0] ** 2 + a) * s.inv(2 * P[1])
                else: l = (3 * P[0] ** 2 + 2 * A * P[0] + 1) * s.inv(2 * B * P[1])
            else: l = (Q[1] - P[1]) * s.inv(Q[0] - P[0])
            x = (B * l * l - A - P[0] - Q[0]) % p
            return (x, (l * (P[0] - x) - P[1]) % p)
        t = b * P[0] * Q[0] * P[1] * Q[1] % p
        if s.form == "ed":
            return ((P[0] * Q[1] + P[1] * Q[0]) * s.inv(a * (1 + t)) % p, (P[1] * Q[1] - P[0] * Q[0]) * s.inv(a * (1 - t)) % p)
        return ((P[0] * Q[1] + P[1] * Q[0]) * s.inv(1 + t) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * s.inv(1 - t) % p)
    def mul(s, P, k):
        if k < 0: return s.mul(s.neg(P), -k)
        if (P, k) in s.memo: return s.memo[P, k]
        D = s.dbl.setdefault(P, [P])
        R = s.zero
        for i in range(k.bit_length()):
            if i == len(D): D.append(s.add(D[-1], D[-1]))
            if k >> i & 1: R = s.add(R, D[i])
        s.memo[P, k] = R
        return R
    def enc(s, P, compress=True):
        if P is None: return bytes(1 + (1 if compress else 2) * s.L)
        x, y = P[0].to_bytes(s.L, "big"), P[1].to_bytes(s.L, "big")
        return bytes([2 + (P[1] & 1)]) + x if compress else b"\x04" + x + y
    def bits_of_digest(s, d):
        e = int.from_bytes(d, "big"); n = s.n.bit_length()
        return e >> (8 * len(d) - n) if 8 * len(d) > n else e
    def verifies(s, Q, d, r, t):
        if not (0 < r < s.n and 0 < t < s.n): return False
        w = pow(t, -1, s.n); e = s.bits_of_digest(d)
        R = s.add(s.mul(s.G, e * w % s.n), s.mul(Q, r * w % s.n))
        return R is not None and (R[0] % s.n) == r % s.n
    def sig_with(s, d, Q, k):
        """a signature found without the secret: used as data only"""
        r = s.mul(s.G, k)[0] % s.n
        return r

def is_prime(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d, k = n - 1, 0
    while d % 2 == 0: d //= 2; k += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(k - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def next_prime(n):
    n |= 1
    while not is_prime(n): n += 2
    return n
