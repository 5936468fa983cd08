"""Object lifetimes: (a) creation graphs followed by deletion orders, survivors used and compared after every step;
(b) every operation of the Y01 product, succeeding or failing, repeated with heap and reference accounting."""
import sys, gc, ctypes, itertools
import ECC, pool
from pool import *
LITE = "thorough" not in sys.argv
if LITE:
    pool.INTS[:] = [0, 1, -1, 2, 255, 2 ** 63, 2 ** 64, -2 ** 64, 2 ** 1024, 2 ** 2047, 2 ** 2048, -2 ** 2048, 2 ** 20000 + 1]
    pool.FEWINTS[:] = [0, 1, -1, 2 ** 64, 2 ** 1024, 2 ** 2048, 2 ** 20000 + 1]
    pool.PRIMES[:] = [7, 2 ** 64 + 13, 2 ** 521 - 1]; pool.COMPOSITE[:] = [9, 2 ** 128 - 1]; pool.BADMOD[:] = [0, 1, 2, -3, 2 ** 64, 2 ** 1024 + 1, 2 ** 2048 - 1, 2 ** 20000 + 1]
    _el = pool.elems
    pool.elems = lambda p: sorted({v % p for v in (0, 1, 2, p - 1)})
    pool.JUNK[:] = [v for v in pool.JUNK if v.name in ("None", "1.5", "'5'", "'\\ud800'", "'a\\0b'", "b'5'", "bytearray", "[1,2]", "(1,)", "(1,2,3)", "plain", "cls ECPoint")]
    pool.UNINIT[:] = [v for v in pool.UNINIT if not v.name.startswith("sub ")]
    _po = pool.points
    pool.points = lambda k: _po(k)[:4]
for k in list(CURVES):
    if LITE and k in ("secp521r1", "E-222", "M-221", "Ed25519", "secp256k1"): del CURVES[k]
import cases
from cases import case

class Bad(Exception): pass
_bytes = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
_bytes.restype = ctypes.c_size_t; _bytes.argtypes = []
gc.disable()

# ---------------------------------------------------------------- (b) balance
WATCH = [getattr(ECC, t) for t in TYPES]
def once(vs, call):
    args = [v.make() for v in vs]
    try: call(*args); return None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        return type(e).__name__
def refs(l): return [sys.getrefcount(o) for o in l]
def check(f, n):
    b = _bytes()
    for _ in range(n): f()
    return _bytes() - b
IDLE = max(check(lambda: None, 3) for _ in range(8))
def settle(): gc.collect(); sys._clear_type_cache()
def run_balance(case):
    label, vs, call, _ = case
    what = "%s(%s)" % (label, ",".join(v.name for v in vs))
    f = lambda: once(vs, call)
    o = f(); f()
    watch = WATCH + list(pool._cvcache.values()) + list(pool._schemes.values()) + [s for s in pool._mods.values()]
    r0 = refs(watch)
    g = check(f, 3)
    calls = 5
    if g > IDLE:
        # objects kept by the interpreter itself (free lists, cycles, the method cache) are given up before each reading
        settle(); f(); check(f, 3); N = 24
        for _ in range(3):
            settle(); b = _bytes()
            for _ in range(N): f()
            settle(); grow = _bytes() - b
            calls += N
            if grow < 8 * N: break
        else: raise Bad("%s: every call leaves about %d bytes allocated" % (what, grow // N))
    r1 = refs(watch)
    if r1 != r0:
        gc.collect(); r0 = refs(watch)
        for _ in range(6): f()
        gc.collect(); r1 = refs(watch); calls += 6
        for a, b, w in zip(r0, r1, watch):
            if abs(b - a) >= 6: raise Bad("%s: six calls change the reference count of %s by %+d" % (what, type(w).__name__ if not isinstance(w, type) else w.__name__, b - a))
    # arguments which live on: their own counts
    args = [v.make() for v in vs]
    ra = refs(args)
    for _ in range(2):
        try: call(*args)
        except BaseException: pass
    rb = refs(args)
    if ra != rb:
        for _ in range(6):
            try: call(*args)
            except BaseException: pass
        gc.collect(); rc = refs(args)
        for a, b, v in zip(rb, rc, vs):
            if abs(b - a) >= 6 and b < 1 << 30: raise Bad("%s: six calls change the reference count of the argument %s by %+d" % (what, v.name, b - a))
        calls += 6
    return (o or "ok", calls + 2)

# ---------------------------------------------------------------- (a) lifetimes
class Obj:
    __slots__ = ("kind", "val")
    def __init__(s, kind, val): s.kind, s.val = kind, val
class D:
    """derivation: name, operand kinds, how to make it, what it is worth"""
    def __init__(s, name, ops, make, val): s.name, s.ops, s.make, s.val = name, ops, make, val
MSG = "m"
def derivations(c, k):
    ad, ng, mu = c.add, c.neg, c.mul
    h = "md5"
    def sig_bytes():
        L = (c.n.bit_length() + 7) // 8; return (3).to_bytes(L, "big") + (4).to_bytes(L, "big")
    PT, CV, SC, SG, CT = "pt", "cv", "sc", "sg", "ct"
    return [
        D("a+b", [PT, PT], lambda a, b: a + b, lambda a, b: (PT, ad(a, b))), D("a-b", [PT, PT], lambda a, b: a - b, lambda a, b: (PT, ad(a, ng(b)))),
        D("-a", [PT], lambda a: -a, lambda a: (PT, ng(a))), D("a*3", [PT], lambda a: a * 3, lambda a: (PT, mu(a, 3))), D("0*a", [PT], lambda a: 0 * a, lambda a: (PT, c.zero)), D("-2*a", [PT], lambda a: -2 * a, lambda a: (PT, mu(a, -2))),
        D("a*fe", [PT], lambda a: a * ECC.FieldElement(3, c.n), lambda a: (PT, mu(a, 3))), D("a+a", [PT], lambda a: a + a, lambda a: (PT, ad(a, a))),
        D("eval(repr(a))", [PT], lambda a: eval(repr(a)), lambda a: (PT, a)), D("point", [CV], lambda v: ECC.ECPoint(v, c.G), lambda v: (PT, c.G)), D("point from bytes", [CV], lambda v: ECC.ECPoint(v, c.enc(c.G)), lambda v: (PT, c.G)),
        D("point from fe", [CV], lambda v: ECC.ECPoint(v, (ECC.FieldElement(c.G[0], c.p), ECC.FieldElement(c.G[1], c.p))), lambda v: (PT, c.G)), D("identity", [CV], lambda v: ECC.ECPoint(v), lambda v: (PT, c.zero)), D("urandom", [CV], lambda v: ECC.ECPoint.urandom(v), lambda v: ("rnd", None)),
        D("base(a)", [PT], lambda a: (a.setup_basemult(), a * 5)[1], lambda a: (PT, mu(a, 5))),
        D("scheme", [CV], lambda v: ECC.ECDSASignatureScheme(v, hashmod(h, "md5")), lambda v: (SC, None)), D("sign", [SC], lambda s: s.Sign(5, MSG), lambda s: (SG, None)), D("signature", [SC], lambda s: ECC.ECDSASignature(s, sig_bytes()), lambda s: (SG, sig_bytes())),
        D("ciphertext", [PT, PT], lambda a, b: ECC.ECElgamalCiphertext(a, b), lambda a, b: (CT, (a, b))), D("encrypt", [PT, PT], lambda a, b: ECC.ECElgamalCiphertext.encrypt(a, b), lambda a, b: ("enc", (a, b))),
        D("C", [CT], lambda x: x.C, lambda x: (PT, x[0])), D("D", [CT], lambda x: x.D, lambda x: (PT, x[1])), D("decrypt", [CT], lambda x: x.decrypt(3), lambda x: (PT, ad(x[1], ng(mu(x[0], 3))))), D("decrypt fe", [CT], lambda x: x.decrypt(ECC.FieldElement(3, c.n)), lambda x: (PT, ad(x[1], ng(mu(x[0], 3))))),
        D("enc.C", ["enc"], lambda x: x.C, lambda x: ("rnd", None)), D("enc.decrypt", ["enc"], lambda x: x.decrypt(1), lambda x: (PT, x[1]) if x[0] == c.G else ("rnd", None)), D("copy of ciphertext", [CT], lambda x: ECC.ECElgamalCiphertext(x.C, x.D), lambda x: (CT, x)), D("eval(repr(ct))", [CT], lambda x: eval(repr(x)), lambda x: (CT, x)),
        D("eval(repr(cv))", [CV], lambda v: eval(repr(v)), lambda v: (CV, None)), D("G", [CV], lambda v: v.G, lambda v: ("tuple", c.G)), D("affine", [PT], lambda a: a.affine(), lambda a: ("tuple", a) if a is not None else ("any", None)),
    ]
def use(c, k, kind, o, val, others):
    """every kind of use of a survivor; its value must be the one it had when it was made"""
    n = 1
    if kind == "pt":
        e = cases.pt_is(o, k, val)
        if e: return e, n
        repr(o)
        for r, w in ((o + o, c.add(val, val)), (o * 2, c.mul(val, 2)), (-o, c.neg(val)), (o - o, c.zero)):
            n += 1
            e = cases.pt_is(r, k, w)
            if e: return e, n
        for k2, o2, v2 in others:
            if k2 == "pt":
                n += 2
                e = cases.pt_is(o + o2, k, c.add(val, v2))
                if e: return e, n
                if (o == o2) != (val == v2): return "comparison changed", n
    elif kind == "rnd":
        if o * c.n != o - o or (o != o - o and not c.on(*o.affine())): return "not a point of the group any more", n
        repr(o)
    elif kind == "cv":
        if cases.cv_is(o, c): return cases.cv_is(o, c), n
        e = cases.pt_is(ECC.ECPoint(o, c.G) * 2, k, c.mul(c.G, 2))
        if e: return e, n
    elif kind == "sc":
        repr(o)
        if not c.verifies(c.mul(c.G, 2), digest("md5", MSG), *_rs(o.Sign(2, MSG).AsBytes())): return "scheme no longer signs properly", n
    elif kind == "sg":
        b = o.AsBytes(); str(o); repr(o)
        if val is not None and b != val: return cases.err(val, b), n
        if o.Verify(ECC.ECPoint(cvobj(k), c.mul(c.G, 5)), MSG) != c.verifies(c.mul(c.G, 5), digest("md5", MSG), *_rs(b)): return "verification changed", n
    elif kind in ("ct", "enc"):
        if kind == "ct":
            e = cases.pt_is(o.C, k, val[0]) or cases.pt_is(o.D, k, val[1]) or cases.pt_is(o.decrypt(2), k, c.add(val[1], c.neg(c.mul(val[0], 2))))
            if e: return e, n
        elif val[0] == c.G:
            e = cases.pt_is(o.decrypt(1), k, val[1])
            if e: return e, n
        str(o); repr(o); o.C + o.D
    elif kind == "tuple":
        if o != val: return cases.err(val, o), n
    return None, n
def _rs(b): L = len(b) // 2; return int.from_bytes(b[:L], "big"), int.from_bytes(b[L:], "big")
class Hist:
    """one graph (list of derivations with operand indices) and one deletion order"""
    def __init__(s, k, steps, order): s.k, s.steps, s.order = k, steps, order
BASE = ["A", "B", "P(A)", "Q(B)", "O(A)"]
def build(k, steps):
    c = CURVES[k]
    Q = c.mul(c.G, 2)
    a, b = mkcurve(k), mkcurve(k)
    objs = [a, b, ECC.ECPoint(a, c.G), ECC.ECPoint(b, Q), ECC.ECPoint(a)]
    info = [("cv", None), ("cv", None), ("pt", c.G), ("pt", Q), ("pt", c.zero)]
    for d, idx in steps:
        objs.append(d.make(*[objs[i] for i in idx])); info.append(d.val(*[info[i][1] for i in idx]))
    return objs, info
def run_hist(case):
    label, vs, (k, steps, order), _ = case
    c = CURVES[k]; objs, info = build(k, steps); n = len(objs)
    names = BASE + ["%s(%s)" % (d.name, ",".join(str(i) for i in idx)) for d, idx in steps]
    trans = n; dead = []
    for i in order:
        objs[i] = None; dead.append(names[i])
        for j in range(n):
            if objs[j] is not None:
                if order[-1] == j or j >= len(BASE):
                    others = [(info[x][0], objs[x], info[x][1]) for x in range(n) if x != j and objs[x] is not None]
                else: others = []
                e, m = use(c, k, info[j][0], objs[j], info[j][1], others)
                trans += m
                if e: raise Bad("on %s: objects %s; after deleting %s, %s is wrong: %s" % (k, names, dead, names[j], e))
    return ("%d alive" % (n - len(order)), trans)
def graphs(k, depth, ders, maxlast=None):
    """all sequences of depth derivations whose last one uses (at depth 2 and more) the one before"""
    c = CURVES[k]
    def rec(steps, kinds):
        if len(steps) == depth: yield list(steps); return
        for d in ders:
            cand = [[i for i, kk in enumerate(kinds) if kk == o] for o in d.ops]
            for idx in itertools.product(*cand):
                if steps and len(kinds) - 1 not in idx: continue
                _, inf = None, None
                steps.append((d, idx))
                yield from rec(steps, kinds + [kind_of(d)])
                steps.pop()
    def kind_of(d): return d.val(*[(c.G, c.G) if o == "ct" else (None, None) if o == "enc" else c.G for o in d.ops])[0]
    yield from rec([], ["cv", "cv", "pt", "pt", "pt"])
class Nm:
    def __init__(s, name): s.name = name
def u_graphs(k, depth, allorders, part=0, parts=1):
    def g():
        ders = derivations(CURVES[k], k); cnt = 0
        for steps in graphs(k, depth, ders):
            cnt += 1
            if cnt % parts != part: continue
            n = len(BASE) + len(steps); nm = [Nm("%s%s" % (d.name, idx)) for d, idx in steps]
            if allorders: orders = itertools.permutations(range(n), n - 1)
            else:
                orders = []
                for j in range(n):
                    rest = [i for i in range(n) if i != j]; orders += [rest, rest[::-1]]
            for o in orders: yield case("history", nm + [Nm("del" + "".join(map(str, o)))], (k, list(steps), o), None)
    return g
def run(case): return run_hist(case) if case[0] == "history" else run_balance(case)

def units(T):
    U = []
    pl = [k for k in ("small-ws", "small-te", "small-mo", "small-ed") if k in CURVES]
    for k in pl if T else pl[:2]:
        for p in range(6): U.append(("creation and every deletion order on %s part %d" % (k, p), u_graphs(k, 1, True, p, 6)))
    for k in pl if T else pl[:3]:
        for p in range(6): U.append(("two derivations, every survivor on %s part %d" % (k, p), u_graphs(k, 2, False, p, 6)))
    if T:
        for p in range(32): U.append(("three derivations, every survivor on %s part %d" % (pl[0], p), u_graphs(pl[0], 3, False, p, 32)))
    skip = ("subclass", "tuple subclass")
    def bal(gen):
        def g():
            for c in gen():
                if c[0] in skip: continue
                yield c
        return g
    for n, gen in cases.units(T):
        U.append(("balance: " + n, bal(gen)))
    return U
