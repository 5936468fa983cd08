"""Argument pools: every value carries a tag saying what it means to the reference; junk must be refused."""
import ECC, hashlib, types, sys
from ref import *

def P(**k): return k
# curves: the four forms, small and large, primes filling different numbers of machine words
def small(form, p, a, b):
    """brute-force a small curve with a complete group law; generator of the largest prime order found"""
    c = Cv(form, p, a, b, 1, 1, 0, 0, 8)
    pts = [(x, y) for x in range(p) for y in range(p) if c.on(x, y)]
    N = len(pts) + (1 if c.zero is None else 0)
    best = None
    for Q in pts:
        k, R = 1, Q
        while R != c.zero: R = c.add(R, Q); k += 1
        if is_prime(k) and (best is None or k > best[0]): best = (k, Q)
    return Cv(form, p, a, b, best[0], N // best[0], best[1][0], best[1][1], p.bit_length())
def pick_small(form, p):
    for a in range(1, p):
        for b in range(1, p):
            sq = lambda v: v % p == 0 or pow(v, (p - 1) // 2, p) == 1
            ok = {"ws": (4 * a ** 3 + 27 * b * b) % p, "ed": a != 1 and (1 - b * a ** 4) % p and not sq(b), "mo": (b * b - 4) % p, "te": (a - b) % p and sq(a) and a != 1 and not sq(b)}[form]
            if not ok: continue
            try: c = small(form, p, a, b)
            except ZeroDivisionError: continue
            except TypeError: continue
            if c.n > 7: return c
NAMED = ["secp256k1", "secp521r1", "E-222", "M-221", "Ed25519", "secp112r1"]
CURVES = {}
K = "secp256k1" if "--check" not in sys.argv or "Y01" in sys.argv or "thorough" in sys.argv else "small-ws"   # the curve of sample objects
def load_curves():
    names = ECC.ECurve._CurveNames()
    for nm in NAMED:
        if nm not in names: continue
        c = ECC.ECurve(nm)
        f, (a, b) = {"ShortWeierstrass": ("ws", "ab"), "Edwards": ("ed", "cd"), "Montgomery": ("mo", "BA"), "TwistedEdwards": ("te", "ad")}[c.ctype]
        CURVES[nm] = Cv(f, c.p, getattr(c, a), getattr(c, b), c.n, c.h, c.G[0], c.G[1], c.bits)
    for f in ("ws", "ed", "mo", "te"): CURVES["small-" + f] = pick_small(f, 43)
CTOR = {"ws": "ShortWeierstrass", "ed": "Edwards", "mo": "Montgomery", "te": "TwistedEdwards"}
def mkcurve(k):
    c = CURVES[k]
    return getattr(ECC.ECurve, CTOR[c.form])(*c.args())

# hash modules in the shape the extension expects
def hashmod(name, hname, size=None, mode=""):
    m = types.ModuleType(name)
    h0 = getattr(hashlib, hname)
    state = {"n": 0}
    class H:
        def __init__(s, d): s.d = d
        def digest(s):
            d = h0(s.d).digest()
            if mode == "str": return d.hex()
            if mode == "long" and state["n"] > 1: return d * 40
            if mode == "short" and state["n"] > 1: return d[:1]
            if mode == "raise-digest" and state["n"] > 1: raise RuntimeError("digest failed")
            if mode == "none" and state["n"] > 1: return None
            return d
    def new(data):
        state["n"] += 1
        if mode == "raise" and state["n"] > 1: raise RuntimeError("hash failed")
        if mode == "nodigest" and state["n"] > 1: return 5
        return H(data)
    if mode != "nonew": m.new = new if mode != "newint" else 7
    if mode == "builtin": m.new = h0
    if mode == "noargs":
        def new0(): return H(b"")
        m.new = new0
    if size != "missing": m.digest_size = h0().digest_size if size is None else size
    return m
HASHES = {"sha256": "sha256", "sha512": "sha512", "md5": "md5"}
def digest(h, msg): return getattr(hashlib, HASHES[h])(msg.encode() if isinstance(msg, str) else msg).digest()
BADHASH = [("size-missing", "sha256", "missing", ""), ("size-str", "sha256", "32", ""), ("size-none", "sha256", None.__class__, ""), ("size-0", "sha256", 0, ""), ("size-neg", "sha256", -1, ""), ("size-wrong", "sha256", 31, ""),
           ("size-huge", "sha256", 2 ** 40, ""), ("size-2^63", "sha256", 2 ** 63, ""), ("size-2^70", "sha256", 2 ** 70, ""), ("size-neghuge", "sha256", -2 ** 70, ""), ("size-float", "sha256", 32.0, ""),
           ("nonew", "sha256", None, "nonew"), ("newint", "sha256", None, "newint"), ("digest-str", "sha256", None, "str"), ("noargs", "sha256", None, "noargs")]
LATEHASH = ["long", "short", "raise", "raise-digest", "none", "nodigest"]

class Val:
    __slots__ = ("name", "tag", "make")
    def __init__(s, name, tag, make): s.name, s.tag, s.make = name, tag, make
def vint(v, nm=None): return Val(nm or (str(v) if abs(v) < 10 ** 6 else ("-" if v < 0 else "") + "int%d:%x" % (abs(v).bit_length(), abs(v) & 0xffff)), ("int", v), lambda: v)
def vfe(v, p): return Val("fe(%s)" % short(v), ("fe", v % p, p), lambda: ECC.FieldElement(v, p))
def short(v): return str(v) if abs(v) < 10 ** 6 else "%x.." % (v & 0xffffff)
def vcv(k): return Val("cv:" + k, ("cv", k), lambda: mkcurve(k))
_cvcache = {}
def cvobj(k):
    if k not in _cvcache: _cvcache[k] = mkcurve(k)
    return _cvcache[k]
def mkpt(k, A, base=False, own=False):
    c = mkcurve(k) if own else cvobj(k)
    q = ECC.ECPoint(c) if A == CURVES[k].zero else ECC.ECPoint(c, A)
    if base: q.setup_basemult()
    return q
def vpt(k, A, base=False, own=False): return Val("pt:%s%s%s" % (k, "O" if A == CURVES[k].zero else short(A[0]), "b" if base else ""), ("pt", k, A), lambda: mkpt(k, A, base, own))
def vproj(k, A):
    """the same point held in projective form (result of a computation)"""
    c = CURVES[k]
    def mk():
        g = ECC.ECPoint(cvobj(k), c.G)
        return (mkpt(k, A) + g) - g
    return Val("proj:%s%s" % (k, "O" if A == c.zero else short(A[0])), ("pt", k, A), mk)
_schemes = {}
_mods = {}
def scheme(k, h):
    if h not in _mods: _mods[h] = hashmod(h, HASHES[h])
    if (k, h) not in _schemes: _schemes[k, h] = ECC.ECDSASignatureScheme(cvobj(k), _mods[h])
    return _schemes[k, h]
def vscheme(k, h="sha256"): return Val("scheme:%s:%s" % (k, h), ("scheme", k, h), lambda: scheme(k, h))
def sigbytes(k, r, s): L = (CURVES[k].n.bit_length() + 7) // 8; return r.to_bytes(L, "big") + s.to_bytes(L, "big")
def vsig(k, r, s, h="sha256"): return Val("sig:%s:%s:%s" % (k, short(r), short(s)), ("sig", k, r, s, h), lambda: ECC.ECDSASignature(scheme(k, h), sigbytes(k, r, s)))
def vct(k, C, D): return Val("ct:" + k, ("ct", k, C, D), lambda: ECC.ECElgamalCiphertext(mkpt(k, C), mkpt(k, D, own=True)))

INTS = sorted(set([0, 1, -1, 2, -2, 3, 5, 255, 256, -255, -256, 65535, 65537] + [s * (2 ** k + d) for k in (8, 15, 16, 30, 31, 32, 60, 63, 64, 65, 127, 128, 256, 512, 1016, 1023, 1024, 1025, 2032, 2039, 2040, 2041, 2047, 2048, 2049, 2055, 2056, 4096, 8192, 16384, 20000) for d in (-1, 0, 1) for s in (1, -1)]), key=lambda v: (abs(v), v))
FEWINTS = [0, 1, -1, 2, -2, 2 ** 31, -2 ** 31, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 64, 2 ** 521, 2 ** 1024 - 1, 2 ** 1024, 2 ** 2040, 2 ** 2048 - 1, -2 ** 2048, 2 ** 4096, 2 ** 20000 + 1]

class Plain: pass
class Indexable:
    def __index__(s): return 5
    def __int__(s): return 5
class IntSub(int): pass
TYPES = ["FieldElement", "ECurve", "ECPoint", "ECDSASignatureScheme", "ECDSASignature", "ECElgamalCiphertext"]
_subs = {}
def _sub(t):
    if t not in _subs:
        class S(getattr(ECC, t)):
            def __init__(self, *a): pass
        _subs[t] = S
    return _subs[t]()
JUNK = [Val(n, ("junk", n), m) for n, m in [("None", lambda: None), ("1.5", lambda: 1.5), ("5.0", lambda: 5.0), ("nan", lambda: float("nan")), ("1j", lambda: 1j), ("'5'", lambda: "5"), ("''", lambda: ""), ("'\\ud800'", lambda: "\ud800"), ("'a\\0b'", lambda: "a\0b"), ("'\\u0661'", lambda: "\u0661"),
        ("b''", lambda: b""), ("b'5'", lambda: b"5"), ("bytearray", lambda: bytearray(b"\x02")), ("memoryview", lambda: memoryview(b"\x02")), ("[]", lambda: []), ("[1,2]", lambda: [1, 2]), ("()", lambda: ()), ("(1,)", lambda: (1,)), ("(1,2,3)", lambda: (1, 2, 3)), ("{}", lambda: {}), ("set", lambda: {1}), ("object", lambda: object()),
        ("plain", lambda: Plain()), ("indexable", lambda: Indexable()), ("type", lambda: int), ("lambda", lambda: (lambda *a: 1)), ("module", lambda: sys), ("range", lambda: range(3)), ("NotImplemented", lambda: NotImplemented), ("Ellipsis", lambda: ...), ("generator", lambda: (i for i in ()))]
       + [("cls " + t, lambda t=t: getattr(ECC, t)) for t in TYPES]]
UNINIT = [Val("new " + t, ("uninit", t), lambda t=t: getattr(ECC, t).__new__(getattr(ECC, t))) for t in TYPES] + [Val("sub " + t, ("uninit", t), lambda t=t: _sub(t)) for t in TYPES]
def failed(t, *a):
    """an object whose initialisation was attempted and refused"""
    o = getattr(ECC, t).__new__(getattr(ECC, t))
    try: o.__init__(*a)
    except Exception: pass
    return o
UNINIT += [Val("failed FieldElement", ("uninit", "FieldElement"), lambda: failed("FieldElement", 5, 4)), Val("failed ECurve", ("uninit", "ECurve"), lambda: failed("ECurve", "none")),
           Val("failed ECPoint", ("uninit", "ECPoint"), lambda: failed("ECPoint", cvobj(K), "02")), Val("failed scheme", ("uninit", "ECDSASignatureScheme"), lambda: failed("ECDSASignatureScheme", cvobj(K), sys)),
           Val("failed signature", ("uninit", "ECDSASignature"), lambda: failed("ECDSASignature", vscheme(K).make(), b"1")), Val("failed ciphertext", ("uninit", "ECElgamalCiphertext"), lambda: failed("ECElgamalCiphertext", 1, 2))]

PRIMES = [3, 5, 7, 251, 65537, 2 ** 64 - 59, 2 ** 64 + 13, 2 ** 127 - 1, 2 ** 255 - 19, 2 ** 521 - 1, 2 ** 1024 - 105]
COMPOSITE = [9, 15, 2 ** 64 - 1, 2 ** 128 - 1, (2 ** 64 - 59) ** 2, 2 ** 1024 - 1]
BADMOD = [0, 1, 2, 4, -1, -3, -7, 2 ** 64, 2 ** 1023, 2 ** 1024 + 1, 2 ** 1025 - 1, 2 ** 2039 + 1, 2 ** 2048 - 1, 2 ** 4096 + 1, 2 ** 20000 + 1]
def elems(p): return sorted({v % p for v in (0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 63, p // 3)})
# points in reference coordinates
_ptcache = {}
def points(k):
    if k not in _ptcache:
        c = CURVES[k]; r = [c.zero]
        for m in (1, 2, 3, c.n - 1, c.n // 2, 5):
            q = c.mul(c.G, m)
            if q not in r: r.append(q)
        _ptcache[k] = r
    return _ptcache[k]
def decode(c, b):
    """reference decoder: 'bad', 'either' or ('good', point)"""
    L = c.L
    if len(b) not in (1 + L, 1 + 2 * L): return "bad"
    if b[0] == 0:
        if any(b[1:]): return "bad"
        return ("good", None) if c.zero is None else ("either", c.zero)
    x = int.from_bytes(b[1:1 + L], "big")
    if x >= c.p: return "bad"
    if b[0] == 4:
        if len(b) != 1 + 2 * L: return "bad"
        y = int.from_bytes(b[1 + L:], "big")
        return ("good", (x, y)) if y < c.p and c.on(x, y) else "bad"
    if b[0] not in (2, 3) or len(b) != 1 + L: return "bad"
    p, a, d = c.p, c.a, c.b
    if c.form == "ws": y2 = x ** 3 + a * x + d
    elif c.form == "mo": y2 = (x ** 3 + d * x * x + x) * pow(a, -1, p)
    elif c.form == "ed":
        t = (1 - a * a * d * x * x) % p
        if not t: return "bad"
        y2 = (a * a - x * x) * pow(t, -1, p)
    else:
        t = (1 - d * x * x) % p
        if not t: return "bad"
        y2 = (1 - a * x * x) * pow(t, -1, p)
    y2 %= p
    if y2 == 0: return ("good", (x, 0)) if b[0] == 2 else "bad"
    if pow(y2, (p - 1) // 2, p) != 1: return "bad"
    return ("root", x, y2, b[0] & 1)
