"""The product of operations and argument kinds, with the verdict the reference gives for each.
A case is (name, [Val...], call, verdict); verdict is
  ("must", check)  the call has to return, check(result) -> error text or None
  ("may", check)   it either raises or returns a right result
  ("raise",)       it has to raise
  ("any",)         anything but ending the process"""
import operator, copy, pickle
import ECC
from ref import *
from pool import *
import pool

def name_of(vs): return ",".join(v.name for v in vs)
def err(w, g): return "expected %s, got %s" % (str(w)[:200], str(g)[:200])

# --- checks of results
def is_fe(v, p):
    def f(r):
        if type(r) is not ECC.FieldElement: return err("FieldElement", type(r))
        if int(r) != v % p: return err(v % p, int(r))
        w = "ECC.FieldElement(%d, %d)" % (v % p, p)
        if repr(r) != w: return err(w, repr(r))
    return f
def pt_is(r, k, A):
    c = CURVES[k]
    if type(r) is not ECC.ECPoint: return err("ECPoint", type(r))
    if r.uncompressed() != c.enc(A, False): return err(c.enc(A, False).hex(), r.uncompressed().hex())
    if r.compressed() != c.enc(A): return err(c.enc(A).hex(), r.compressed().hex())
    if str(r) != c.enc(A).hex().upper(): return err(c.enc(A).hex(), str(r))
    if A is not None and r.affine() != A: return err(A, r.affine())
def is_pt(k, A): return lambda r: pt_is(r, k, A)
def cv_is(r, c):
    if type(r) is not ECC.ECurve: return err("ECurve", type(r))
    n1, n2 = {"ws": "ab", "ed": "cd", "mo": "BA", "te": "ad"}[c.form]
    got = (r.ctype, r.p, getattr(r, n1), getattr(r, n2), r.n, r.h, r.G[0], r.G[1], r.bits)
    want = (CTOR[c.form], c.p, c.a, c.b, c.n, c.h, c.G[0], c.G[1], c.bits)
    if got != want: return err(want, got)
def is_val(v): return lambda r: None if r == v and type(r) is type(v) else err(v, r)
def is_bool(r): return None if isinstance(r, bool) else err("bool", r)
def one_of(*vs): return lambda r: None if any(r == v and type(r) is type(v) for v in vs) else err(vs, r)

RANK = {"uninit": 0, "junk": 0}
def ints_of(t): return t[1] if t[0] == "int" else None
SYM = {"+": operator.add, "-": operator.sub, "*": operator.mul, "**": operator.pow, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift, "@": operator.matmul, "divmod": divmod}
INPL = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "**=": operator.ipow}
def consistent(x, y): e = x == y; return (x != y) is (not e) and (y == x) is e and (y != x) is (not e)
CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
def powv(b, e, p): return pow(b, e, p) if p > 1 else 0

def judge_bin(op, a, b):
    ta, tb = a.tag, b.tag
    op = op.rstrip("=") if op in INPL else op
    if ta[0] == "fe" and tb[0] == "fe":
        if op in "+-*" and ta[2] == tb[2]: return ("must", is_fe({"+": ta[1] + tb[1], "-": ta[1] - tb[1], "*": ta[1] * tb[1]}[op], ta[2]))
        return ("raise",)
    if ta[0] == "fe" and tb[0] == "int":
        if op in ("+", "-", "*"): return ("must", is_fe({"+": ta[1] + tb[1], "-": ta[1] - tb[1], "*": ta[1] * tb[1]}[op], ta[2]))
        if op == "**":
            e = tb[1]
            if e < 0:
                try: v = pow(ta[1], e, ta[2])
                except ValueError: return ("raise",)
                return ("may", is_fe(v, ta[2]))
            return ("must" if e < 2 ** 64 else "may", is_fe(powv(ta[1], e, ta[2]), ta[2]))
        return ("raise",)
    if ta[0] == "int" and tb[0] == "fe" and op in ("+", "-", "*"):
        return ("must", is_fe({"+": ta[1] + tb[1], "-": ta[1] - tb[1], "*": ta[1] * tb[1]}[op], tb[2]))
    if ta[0] == "pt" and tb[0] == "pt" and op in ("+", "-"):
        if ta[1] != tb[1]: return ("raise",)
        c = CURVES[ta[1]]; return ("must", is_pt(ta[1], c.add(ta[2], tb[2] if op == "+" else c.neg(tb[2]))))
    if op == "*":
        for x, y in ((ta, tb), (tb, ta)):
            if x[0] == "pt" and y[0] in ("int", "fe"):
                c = CURVES[x[1]]; k = y[1]
                return ("must" if y[0] == "int" or y[2] == c.n else "may", is_pt(x[1], c.mul(x[2], k % (c.n * c.h))))
    return ("raise",)
def judge_cmp(op, a, b):
    ta, tb = a.tag, b.tag
    if op not in ("==", "!="): return ("raise",)
    s = op == "=="
    if "uninit" in (ta[0], tb[0]): return ("may", is_val(not s))
    if ta[0] == "fe" and tb[0] == "fe": return ("must", is_val((ta == tb) == s))
    for x, y in ((ta, tb), (tb, ta)):
        if x[0] == "fe" and y[0] == "int":
            if 0 <= y[1] < x[2]: return ("must", is_val((x[1] == y[1]) == s))
            if (y[1] - x[1]) % x[2]: return ("must", is_val(not s))
            return ("must", is_bool)
    if ta[0] == "pt" and tb[0] == "pt": return ("must" if ta[1] == tb[1] else "may", is_val((ta == tb) == s))
    if ta[0] == "cv" and tb[0] == "cv": return ("must", is_val((ta == tb) == s))
    if ta[0] != tb[0]: return ("must", is_val(not s))
    return ("any",)

def case(label, vs, call, verdict): return (label, vs, call, verdict)
def binops(As, Bs, ops, both=True):
    for a in As:
        for b in Bs:
            for x, y in ((a, b), (b, a)) if both else ((a, b),):
                for o in ops:
                    if o in CMP: yield case(o, [x, y], CMP[o], judge_cmp(o, x, y))
                    if o == "==": yield case("== opposite of != and symmetric", [x, y], consistent, ("must" if judge_cmp("==", x, y)[0] == "must" else "may", is_val(True)))
                    if o in CMP: pass
                    else: yield case(o, [x, y], SYM.get(o) or INPL[o], judge_bin(o, x, y))
MAIN = ["+", "-", "*", "**", "==", "!="]
REST = ["/", "//", "%", "&", "|", "^", "<<", ">>", "@", "divmod", "<", "<=", ">", ">=", "+=", "-=", "*=", "**="]

# --- field elements
def sqrt_ok(v, p):
    def f(r):
        if type(r) is not ECC.FieldElement: return err("FieldElement", r)
        x = int(r)
        if not (0 <= x < p and x * x % p == v % p): return "%d squared is not %d mod %d" % (x, v, p)
    return f
def u_fe_ops(p, T):
    def g():
        E = [vfe(v, p) for v in elems(p)]
        I = [vint(v) for v in INTS] + [vint(v + d) for v in (p, 2 * p, -p, p * p) for d in (-1, 0, 1)] + [Val("True", ("int", 1), lambda: True), Val("False", ("int", 0), lambda: False), Val("intsub", ("int", 7), lambda: IntSub(7))]
        if not T: E2 = E[:2] + E[-2:]
        else: E2 = E
        yield from binops(E, E, MAIN, both=False)
        yield from binops(E2, I, MAIN)
        yield from binops(E2, [vint(v) for v in (0, 1, 2, -1, p, 2 ** 64)], REST)
        yield from binops(E2, JUNK + UNINIT, MAIN)
        yield from binops(E2[:1], JUNK + UNINIT, REST)
        for q in (PRIMES + COMPOSITE if T else (3, 7, 65537, 2 ** 64 + 13, 2 ** 521 - 1)):
            if q != p: yield from binops(E2, [vfe(v, q) for v in (0, 1, q - 1)], MAIN, both=True)
        for e in E:
            v = e.tag[1]
            yield case("neg", [e], operator.neg, ("must", is_fe(-v, p)))
            yield case("int", [e], int, ("must", is_val(v)))
            yield case("repr", [e], repr, ("must", is_val("ECC.FieldElement(%d, %d)" % (v, p))))
            yield case("str", [e], str, ("must", is_val("ECC.FieldElement(%d, %d)" % (v, p))))
            yield case("bool", [e], bool, ("any",))
            yield case("hash", [e], hash, ("any",))
            yield case("float", [e], float, ("any",))
            for nm, f in (("pos", operator.pos), ("invert", operator.invert), ("abs", abs), ("index", operator.index), ("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", pickle.dumps), ("call", lambda x: x()), ("iter", iter), ("len", len), ("getitem", lambda x: x[0])):
                yield case(nm, [e], f, ("raise",))
            try: inv = pow(v, -1, p)
            except ValueError: inv = None
            yield case("inverse", [e], lambda x: x.inverse(), ("must", is_val(None) if inv is None else is_fe(inv, p)))
            if is_prime(p):
                qr = v == 0 or pow(v, (p - 1) // 2, p) == 1
                yield case("sqrt", [e], lambda x: x.sqrt(), ("must", sqrt_ok(v, p) if qr else is_val(None)))
            else: yield case("sqrt", [e], lambda x: x.sqrt(), ("may", lambda r, v=v: None if r is None else sqrt_ok(v, p)(r)))
            for third in [vint(0), vint(2), vint(p), e] + JUNK[1:4]:
                for b in (vint(2), e, JUNK[0]): yield case("pow3", [e, b, third], pow, ("raise",))
                yield case("pow3", [vint(2), e, third], pow, ("raise",))
            yield case("pow3None", [e, vint(3)], lambda a, b: pow(a, b, None), ("must", is_fe(v ** 3, p)))
    return g
def u_fe_ctor(T):
    def g():
        mods = [vint(v) for v in PRIMES + COMPOSITE + BADMOD]
        vals = [vint(v) for v in INTS]
        F = ECC.FieldElement
        for m in mods:
            p = m.tag[1]
            for i in vals:
                if p in PRIMES + COMPOSITE: vd = ("must", is_fe(i.tag[1], p))
                elif p < 2: vd = ("raise",)
                else: vd = ("may", is_fe(i.tag[1], p))
                yield case("FieldElement", [i, m], F, vd)
            for j in JUNK + UNINIT:
                yield case("FieldElement", [j, m], F, ("raise",))
                yield case("FieldElement", [vint(1), j], F, ("raise",))
            yield case("urandom", [m], F.urandom, ("must" if p in PRIMES + COMPOSITE else "raise" if p < 2 else "may", lambda r, p=p: None if 0 <= int(r) < p and repr(r).endswith(", %d)" % p) and type(r) is F else err("element", repr(r))))
            yield case("FieldElement", [Val("True", ("int", 1), lambda: True), m], F, ("must", is_fe(1, p)) if p in PRIMES + COMPOSITE else ("any",))
        for j in JUNK + UNINIT + [vfe(3, 7)]: yield case("urandom", [j], F.urandom, ("raise",))
        for a in ([], [vint(1)], [vint(1), vint(7), vint(7)], [vfe(1, 7), vint(7)], [vint(1), vfe(1, 7)]): yield case("FieldElement", a, F, ("raise",))
        yield case("FieldElement kw", [vint(1), vint(7)], lambda a, b: F(i=a, p=b), ("any",))
        yield case("reinit", [vfe(3, 7), vint(1), vint(11)], lambda x, a, b: x.__init__(a, b), ("raise",))
        yield case("init after new", [UNINIT[0], vint(1), vint(11)], lambda x, a, b: (x.__init__(a, b), int(x))[1], ("must", is_val(1)))
        for i in (vint(5), vint(-1), vint(2 ** 1024)):
            for m in (vint(7), vint(2 ** 127 - 1)):
                yield case("subclass", [i, m], lambda a, b: int(type("S", (F,), {})(a, b) + 0), ("must", is_val(i.tag[1] % m.tag[1])))
    return g
METHODS = {"FieldElement": ["inverse", "sqrt", "urandom"], "ECurve": ["ShortWeierstrass", "Edwards", "Montgomery", "TwistedEdwards", "PointIsValid", "_CurveNames"], "ECPoint": ["urandom", "affine", "compressed", "uncompressed", "setup_basemult"],
           "ECDSASignatureScheme": ["Sign"], "ECDSASignature": ["AsBytes", "Verify"], "ECElgamalCiphertext": ["encrypt", "decrypt"]}
ATTRS = {"ECurve": ["p", "n", "h", "G", "bits", "ctype", "a", "b", "c", "d", "A", "B"], "ECElgamalCiphertext": ["C", "D"]}
SLOTS = ["__repr__", "__str__", "__int__", "__neg__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__pow__", "__rpow__", "__eq__", "__ne__", "__lt__", "__getattribute__", "__init__", "__bool__", "__hash__", "__sizeof__", "__reduce__", "__reduce_ex__", "__dir__", "__format__", "__class__", "__delattr__", "__setattr__"]
def samples(): return [vfe(3, 7), vcv(K), vpt(K, CURVES[K].G), vscheme(K), vsig(K, 5, 6), vct(K, CURVES[K].G, CURVES[K].G)]
def u_foreign(T):
    """every method and slot of every type called on every kind of object, with every short list of argument kinds"""
    def g():
        S = samples()
        for t in TYPES:
            for m in METHODS[t] + SLOTS:
                static = m in ("urandom", "ShortWeierstrass", "Edwards", "Montgomery", "TwistedEdwards", "_CurveNames", "encrypt")
                def call(*a, t=t, m=m): return getattr(getattr(ECC, t), m)(*a)
                objs = UNINIT + S + [JUNK[0], JUNK[5], vint(3)]
                for o in objs:
                    own = o.tag[0] == {"FieldElement": "fe", "ECurve": "cv", "ECPoint": "pt", "ECDSASignatureScheme": "scheme", "ECDSASignature": "sig", "ECElgamalCiphertext": "ct"}[t] or o.tag == ("uninit", t)
                    for extra in ([], [vint(1)], [JUNK[0]], [S[2]], [vint(1), JUNK[5]], [S[2], S[2]], [UNINIT[2], UNINIT[2]], [S[0], JUNK[11]], [UNINIT[0], JUNK[11]], [vint(1)] * 3):
                        if o.tag[0] == "uninit" and own and m in METHODS[t] and not static: vd = ("raise",)
                        elif not own and m in METHODS[t] and not static: vd = ("raise",)
                        else: vd = ("any",)
                        yield case(t + "." + m, [o] + extra, call, vd)
            for u in UNINIT:
                for a in ATTRS.get(t, []) + ["nope", "\ud800", "", "__dict__", "a\0"]:
                    yield case("getattr " + ascii(a), [u], lambda x, a=a: getattr(x, a), ("raise",) if a != "__dict__" else ("any",))
                    yield case("setattr " + ascii(a), [u, vint(1)], lambda x, v, a=a: setattr(x, a, v), ("any",))
                for f in (repr, str, int, operator.neg, operator.pos, bool, hash, dir, copy.copy, pickle.dumps): yield case(f.__name__, [u], f, ("raise",) if f in (repr, str, int, operator.neg) and not (f in (int, operator.neg) and u.tag[1] != "FieldElement" and u.tag[1] != "ECPoint") else ("any",))
            for o in samples():
                for a in ["nope", "\ud800", "", "a\0", "C ", "pp"]:
                    yield case("getattr " + ascii(a), [o], lambda x, a=a: getattr(x, a), ("raise",))
                for a in ["p", "C", "inverse", "nope"]:
                    yield case("setattr " + a, [o, vint(1)], lambda x, v, a=a: setattr(x, a, v), ("raise",))
                    yield case("delattr " + a, [o], lambda x, a=a: delattr(x, a), ("raise",))
                for bad in JUNK[:12]: yield case("getattr by", [o, bad], lambda x, a: getattr(x, a), ("raise",))
                for f in (copy.copy, pickle.dumps): yield case(f.__name__, [o], f, ("raise",))
            for u in UNINIT[:6]:
                yield from binops([u], UNINIT + S + [vint(2)], MAIN + ["<", "%"])
    return g

# --- curves
def u_cv_ctor(form, T):
    def g():
        ks = [k for k in CURVES if CURVES[k].form == form]
        for k in ks:
            c = CURVES[k]; C = getattr(ECC.ECurve, CTOR[form]); base = list(c.args())
            def good(r, a):
                d = Cv(form, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); return cv_is(r, d)
            yield case(CTOR[form], [vint(v) for v in base], C, ("must", lambda r: cv_is(r, c)))
            alts = [vint(v) for v in (FEWINTS if not T else INTS)]
            for i in range(8):
                near = [vint(base[i] + d) for d in (-2, -1, 1, 2)] + [vint(base[i] + c.p), vint(-base[i]), vint(base[i] * 2), vint(base[i] ** 2)]
                for v in alts + near + JUNK + UNINIT:
                    a = list(base); vs = [vint(x) for x in base]; vs[i] = v
                    if v.tag[0] != "int": yield case("%s arg %d" % (CTOR[form], i), vs, C, ("raise",)); continue
                    a[i] = v.tag[1]
                    if a[i] < 0 or not (a[0] > 3 and a[0].bit_length() <= 1024 and is_prime(a[0])) or a[3] < 1: vd = ("raise",)
                    elif not Cv(form, *a).on(a[5], a[6]) or a[7] < a[0].bit_length(): vd = ("raise",)
                    else: vd = ("may", lambda r, a=tuple(a): None if type(r) is ECC.ECurve and (r.p, r.n, r.h, r.bits) == (a[0], a[3], a[4], a[7]) and all((x - y) % a[0] == 0 for x, y in zip(r.G, a[5:7])) and all((x - y) % a[0] == 0 for x, y in zip([getattr(r, n) for n in {"ws": "ab", "ed": "cd", "mo": "BA", "te": "ad"}[form]], a[1:3])) else err(a, repr(r)))
                    yield case("%s arg %d" % (CTOR[form], i), vs, C, vd)
            for i in range(8):
                for j in range(i + 1, 8):
                    for v in (vint(0), vint(-1), JUNK[0], vint(2 ** 1100)):
                        vs = [vint(x) for x in base]; vs[i] = v; vs[j] = v
                        yield case("%s args %d %d" % (CTOR[form], i, j), vs, C, ("any",) if v.tag[0] == "int" and v.tag[1] >= 0 else ("raise",))
            for n in list(range(8)) + [9]: yield case(CTOR[form] + " arity %d" % n, [vint(v) for v in (base + [1])[:n]], C, ("raise",))
            # the same parameters under the other forms: whatever is accepted must satisfy its own equation
            for f2 in CTOR:
                if f2 != form:
                    on = Cv(f2, *base).on(*c.G)
                    yield case(CTOR[f2] + " with " + form, [vint(v) for v in base], getattr(ECC.ECurve, CTOR[f2]), ("may", is_bool and (lambda r: None)) if on else ("raise",))
    return g
def u_cv_ops(T):
    def g():
        names = ECC.ECurve._CurveNames()
        E = ECC.ECurve
        for nm in names: yield case("ECurve(%s)" % nm, [Val(nm, ("str", nm), lambda nm=nm: nm)], lambda s: (lambda c: (c.PointIsValid(*c.G), repr(c) == repr(eval(repr(c))), c == eval(repr(c))))(E(s)), ("must", is_val((True, True, True))))
        for nm in ["", " ", "secp256k1 ", " secp256k1", "secp256k1\0", "secp256k", "secp256k11", "\ud800", "é", "\u0661", "x" * 100000, "%s%n", "secp256k1\n"]: yield case("ECurve(%s)" % ascii(nm)[:30], [], lambda nm=nm: E(nm), ("raise",))
        for v in JUNK + UNINIT + [vint(5), vcv(K), Val("bytes name", ("bytes",), lambda: b"secp256k1")]: yield case("ECurve", [v], E, ("raise",))
        yield case("ECurve()", [], E, ("raise",)); yield case("ECurve(a,b)", [], lambda: E("secp256k1", 1), ("raise",))
        yield case("_CurveNames", [], E._CurveNames, ("must", is_val(names)))
        yield case("_CurveNames(1)", [], lambda: E._CurveNames(1), ("raise",))
        yield case("reinit", [vcv(K)], lambda c: c.__init__("secp521r1"), ("raise",))
        for k in CURVES:
            c = CURVES[k]; v = vcv(k)
            yield case("attrs", [v], lambda x: x, ("must", lambda r, c=c: cv_is(r, c)))
            for a in ATTRS["ECurve"]:
                mine = a in ("p", "n", "h", "G", "bits", "ctype") or a in {"ws": "ab", "ed": "cd", "mo": "BA", "te": "ad"}[c.form]
                want = {"p": c.p, "n": c.n, "h": c.h, "G": c.G, "bits": c.bits, "ctype": CTOR[c.form], {"ws": "a", "ed": "c", "mo": "B", "te": "a"}[c.form]: c.a, {"ws": "b", "ed": "d", "mo": "A", "te": "d"}[c.form]: c.b}.get(a)
                yield case("attr " + a, [v], lambda x, a=a: getattr(x, a), ("must", is_val(want)) if mine else ("raise",))
                yield case("hasattr " + a, [v], lambda x, a=a: hasattr(x, a), ("must", is_val(mine)))
                yield case("getattr default " + a, [v], lambda x, a=a: getattr(x, a, 17), ("must", is_val(want if mine else 17)))
            yield case("repr", [v], lambda x: (eval(repr(x)) == x, str(x) == repr(x)), ("must", is_val((True, True))))
            xs = [vint(x) for x in sorted({c.G[0], c.G[1], 0, 1, 2, c.p - 1, c.p, c.G[0] + c.p, c.G[1] + c.p, c.p - c.G[1], c.a} | set(FEWINTS))]
            for x in xs:
                for y in xs:
                    X, Y = x.tag[1], y.tag[1]; on = c.on(X, Y)
                    vd = ("must", is_val(on)) if 0 <= X < c.p and 0 <= Y < c.p else ("may", is_bool if on else is_val(False))
                    yield case("PointIsValid", [v, x, y], lambda c, x, y: c.PointIsValid(x, y), vd)
            for j in JUNK + UNINIT + [vfe(c.G[0], c.p)]:
                yield case("PointIsValid", [v, j, vint(1)], lambda c, x, y: c.PointIsValid(x, y), ("raise",))
                yield case("PointIsValid", [v, vint(1), j], lambda c, x, y: c.PointIsValid(x, y), ("raise",))
            yield from binops([v], [vcv(k2) for k2 in CURVES], ["==", "!=", "<", "+"], both=False)
            yield from binops([v], JUNK + UNINIT + [vint(1), vfe(1, 7)], ["==", "!=", "<", "+", "*"])
    return g

# --- points
def u_pt_ops(k, T):
    def g():
        c = CURVES[k]; A = points(k)
        Ps = [vpt(k, a) for a in A] + [vproj(k, a) for a in A[:3]] + [vpt(k, a, base=True) for a in A[:3]] + [vpt(k, A[1], own=True)]
        big = c.p.bit_length() > 100
        Pp = Ps if not big else Ps[:-4] + Ps[-3:-2] + Ps[-1:]
        yield from binops(Pp, Pp, ["+", "-", "==", "!=", "+=", "-="], both=False)
        yield from binops(Ps[:2], Ps[:2], [o for o in list(SYM) + REST if o not in ("+", "-", "+=", "-=")], both=False)
        I = FEWINTS if not T else INTS
        I = sorted(set(I + [c.n + d for d in (-1, 0, 1)] + [-c.n, c.n * c.h, c.n * c.h + 1, 2 * c.n, 3, 4, 7, 16, 255, -3]))
        for q in (Ps if (T or not big) else Ps[:2] + Ps[-3:]): yield from binops([q], [vint(i) for i in I if not big or T or q is Ps[1] or abs(i) < 2 ** 1024] + [vfe(v, c.n) for v in (0, 1, 2, c.n - 1)] + [vfe(v, c.p) for v in (0, 1, c.p - 1)] + [vfe(6, 7), Val("True", ("int", 1), lambda: True)], ["*"])
        yield from binops(Ps[1:2], [vint(2), vfe(2, c.n)], [o for o in SYM if o != "*"] + ["<", "=="])
        yield from binops(Ps[:2], JUNK + UNINIT + [vcv(k)], MAIN)
        yield from binops(Ps[1:2], JUNK + UNINIT, REST)
        for k2 in CURVES:
            if k2 != k: yield from binops(Ps[:2], [vpt(k2, a) for a in points(k2)[:2]], ["+", "-", "==", "!=", "*", "+="])
        for q in Ps:
            a = q.tag[2]
            yield case("neg", [q], operator.neg, ("must", is_pt(k, c.neg(a))))
            yield case("value", [q], lambda x: x, ("must", is_pt(k, a)))
            yield case("repr", [q], lambda x: eval(repr(x)), ("must", is_pt(k, a)))
            yield case("affine", [q], lambda x: x.affine(), ("must", is_val(a)) if a is not None else ("any",))
            yield case("setup_basemult", [q], lambda x: (x.setup_basemult(), x.setup_basemult(), x)[2], ("must", is_pt(k, a)))
            yield case("setup_basemult*3", [q], lambda x: (x.setup_basemult(), x * 3)[1], ("must", is_pt(k, c.mul(a, 3))))
            for nm, f in (("int", int), ("pos", operator.pos), ("invert", operator.invert), ("abs", abs), ("index", operator.index), ("copy", copy.copy), ("pickle", pickle.dumps), ("call", lambda x: x()), ("iter", iter), ("len", len), ("getitem", lambda x: x[0])): yield case(nm, [q], f, ("raise",))
            yield case("reinit", [q, vcv(k)], lambda x, c: x.__init__(c), ("raise",))
    return g
def u_pt_ctor(k, T):
    def g():
        c = CURVES[k]; v = vcv(k); E = ECC.ECPoint; L = c.L
        yield case("ECPoint(cv)", [v], E, ("must", is_pt(k, c.zero)))
        yield case("urandom", [v], E.urandom, ("must", lambda r: None if type(r) is E and (r == E(cvobj(k)) or c.on(*r.affine())) and r * c.n == E(cvobj(k)) and r.uncompressed() == E(cvobj(k), r.compressed()).uncompressed() else err("point", r)))
        for j in JUNK + UNINIT + [vint(1), vfe(1, 7), vpt(k, points(k)[1])]:
            yield case("urandom", [j], E.urandom, ("raise",)); yield case("ECPoint(junk)", [j], E, ("raise",)); yield case("ECPoint(junk,x)", [j, vint(1)], E, ("raise",))
            if j.name not in ("''", "b''"): yield case("ECPoint(cv,junk)", [v, j], E, ("raise",))
        yield case("ECPoint()", [], E, ("raise",)); yield case("ECPoint 3", [v, vint(1), vint(1)], E, ("raise",))
        # coordinates
        X = [0, 1, 2, -1, -2, c.G[0], c.G[1], c.p - c.G[1], c.p - c.G[0], c.p - 1, c.p, c.p + 1, c.G[0] + c.p, c.G[1] + c.p, c.G[0] - c.p, c.G[1] - c.p, c.a] + FEWINTS
        if c.p < 100: X += list(range(c.p))
        X = sorted(set(X))
        def tup(x, y): return Val("(%s,%s)" % (x.name, y.name), ("tuple", x.tag, y.tag), lambda: (x.make(), y.make()))
        for x in X:
            for y in X:
                on = c.on(x, y); canon = 0 <= x < c.p and 0 <= y < c.p
                yield case("ECPoint(cv,(x,y))", [v, tup(vint(x), vint(y))], E, ("raise",) if not on else ("must" if canon else "may", is_pt(k, (x % c.p, y % c.p))))
                if canon: yield case("ECPoint(cv,(fe,fe))", [v, tup(vfe(x, c.p), vfe(y, c.p))], E, ("raise",) if not on else ("must", is_pt(k, (x, y))))
        gx, gy = c.G
        for a, b in ((vfe(gx, c.p), vint(gy)), (vint(gx), vfe(gy, c.p))): yield case("ECPoint(cv,mixed)", [v, tup(a, b)], E, ("may", is_pt(k, c.G)))
        for q in (7, 2 ** 64 + 13, 2 ** 521 - 1, c.n):
            if q != c.p:
                for a, b in ((vfe(gx, c.p), vfe(gy, q)), (vfe(gx, q), vfe(gy, c.p)), (vfe(gx, q), vfe(gy, q)), (vint(gx), vfe(gy, q)), (vfe(gx, q), vint(gy))): yield case("ECPoint(cv,other field)", [v, tup(a, b)], E, ("raise",))
        for j in JUNK + UNINIT:
            for a, b in ((vint(gx), j), (j, vint(gy)), (j, j), (vfe(gx, c.p), j), (j, vfe(gy, c.p))): yield case("ECPoint(cv,(junk))", [v, tup(a, b)], E, ("raise",))
        class TS(tuple): pass
        yield case("tuple subclass", [v], lambda cv: E(cv, TS(c.G)), ("must", is_pt(k, c.G)))
        # encodings
        enc = []
        for A in points(k)[:4 if not T else 7]:
            for comp in (True, False): enc.append(c.enc(A, comp))
        if L == 1: enc += [bytes([a, b]) for a in range(256) for b in (range(256) if T else range(0, 256, 1) if a < 8 else (0, 1, 255))]
        muts = set(enc)
        for b in enc[:8]:
            for i in range(len(b) + 1):
                muts.add(b[:i])
                if i < len(b):
                    for d in ((1, 0x80, 0xff) if T or L < 33 or i < 4 or i > len(b) - 3 else (1,)): muts.add(b[:i] + bytes([b[i] ^ d]) + b[i + 1:])
            muts.add(b + b"\0"); muts.add(b"\0" + b); muts.add(b + b)
            for pre in range(0, 9): muts.add(bytes([pre]) + b[1:])
        muts.add(b"\x04" + b"\xff" * (2 * L)); muts.add(b"\x02" + b"\xff" * L); muts.add(b"\x02" + c.p.to_bytes(L + 1, "big")[-L:]); muts.add(bytes(100000))
        def judge(b):
            d = decode(c, b)
            if d == "bad": return ("raise",)
            if d[0] == "good": return ("must", is_pt(k, d[1]))
            if d[0] == "either": return ("may", is_pt(k, d[1]))
            _, x, y2, odd = d
            def f(r):
                if type(r) is not E: return err("ECPoint", r)
                a = r.affine()
                if a[0] != x or a[1] * a[1] % c.p != y2 or a[1] & 1 != odd or not 0 <= a[1] < c.p: return err((x, "root of %d" % y2), a)
            return ("must", f)
        for b in sorted(muts):
            vd = judge(b)
            yield case("ECPoint(cv,bytes %s)" % b[:40].hex(), [v, Val("b", ("bytes",), lambda b=b: b)], E, vd)
            for s in ((b.hex().upper(), b.hex()) if len(b) < 2000 else ()): yield case("ECPoint(cv,str %s)" % s[:80], [v, Val("s", ("str",), lambda s=s: s)], E, vd)
        h = c.enc(c.G).hex().upper()
        for s in [h + " ", " " + h, h + "\n", "0x" + h, h[:-1], h[:-2] + "\ud800", "\ud800" + h, h + "\0", h + "\0" + h, h + "\0junk", h[:3] + "\0" + h[4:], h[:-1] + "G", h[:-2] + "+1", h[:-2] + "-1", h[:-2] + " 1", h.replace(h[3], "\u0661", 1), h[:-1] + "\u00e9", h[:-2] + "\uff11\uff11", "é" * len(h), "+" + h[1:], "x" * 100000, "0" * 100001]:
            yield case("ECPoint(cv,text %s)" % ascii(s)[:40], [v], lambda cv, s=s: E(cv, s), ("raise",))
    return g

# --- signatures
def u_sign(k, h, T):
    def g():
        c = CURVES[k]; S = vscheme(k, h)
        def ok(sk, msg):
            def f(r):
                if type(r) is not ECC.ECDSASignature: return err("signature", r)
                b = r.AsBytes(); L = len(b) // 2
                if str(r) != b.hex().upper() or len(b) != 2 * ((c.n.bit_length() + 7) // 8): return err(b.hex(), str(r))
                Q = c.mul(c.G, sk % c.n)
                if not c.verifies(Q, digest(h, msg), int.from_bytes(b[:L], "big"), int.from_bytes(b[L:], "big")): return "signature %s does not verify" % b.hex()
                if r.Verify(mkpt(k, Q), msg) is not True: return "Verify refuses a genuine signature"
            return f
        keys = sorted({1, 2, c.n - 1, c.n // 2, c.n + 1, -1, 2 ** 64, 2 ** 600 + 1, -2 ** 600, 2 ** 2040 + 1, 2 ** 20000 + 1})
        keys = [x for x in keys if x % c.n]
        msgs = ["a", b"a", "é", b"\0", b"\xff" * 100000, "message"] if T else ["a", b"\0\xff", "é"]
        sign = lambda s, x, m: s.Sign(x, m)
        M = lambda m: Val(ascii(m)[:20], ("msg",), lambda: m)
        # signing on a tiny curve may have to draw many nonces, but always ends for keys which are not zero
        for x in keys:
            for m in msgs:
                yield case("Sign", [S, vint(x), M(m)], sign, ("must", ok(x, m)))
                yield case("Sign", [S, vfe(x, c.n), M(m)], sign, ("must", ok(x, m)))
        for m in ("", b""): yield case("Sign", [S, vint(1), M(m)], sign, ("may", ok(1, m)))
        for j in JUNK + UNINIT + [vfe(1, 7), vfe(1, c.p) if c.p != c.n else vfe(1, 5), vpt(k, points(k)[1])]: yield case("Sign", [S, j, M("a")], sign, ("raise",))
        for j in [j for j in JUNK if j.name not in ("'5'", "''", "b''", "b'5'", "'a\\0b'", "'\\u0661'")] + UNINIT + [vint(1), vfe(1, c.n)]: yield case("Sign", [S, vint(1), j], sign, ("raise",))
        for n in (0, 1, 3): yield case("Sign arity", [S] + [vint(1)] * n, lambda s, *a: s.Sign(*a), ("raise",))
        yield case("repr", [S], lambda s: repr(s).startswith("ECC.ECDSASignatureScheme(" + repr(cvobj(k))), ("must", is_val(True)))
        sg = vsig(k, 5, 6, h)
        yield case("repr", [sg], lambda s: (repr(s).startswith("ECC.ECDSASignature(ECC.ECDSASignatureScheme("), repr(s).endswith("'%s')" % sigbytes(k, 5, 6).hex().upper())), ("must", is_val((True, True))))
    return g
def u_verify(k, h, T):
    def g():
        c = CURVES[k]; L = (c.n.bit_length() + 7) // 8
        M = lambda m: Val(ascii(m)[:20], ("msg",), lambda: m)
        ver = lambda s, q, m: s.Verify(q, m)
        msg = "sample"; d = digest(h, msg); e = c.bits_of_digest(d)
        big = c.p.bit_length() > 100 and not T
        for sk in (2, c.n // 3) if big else (1, 2, c.n - 1, c.n // 3):
            Q = c.mul(c.G, sk)
            for kk in (1, c.n // 2) if big else (1, 2, c.n - 1, c.n // 2):
                R = c.mul(c.G, kk)
                if R is None: continue
                r = R[0] % c.n; s = pow(kk, -1, c.n) * (e + r * sk) % c.n
                for rr, ss in {(r, s), (r, c.n - s), (s, r), ((r + 1) % c.n, s), (r, (s + 1) % c.n), (1, 1), (c.n - 1, c.n - 1)}:
                    if not (0 < rr < c.n and 0 < ss < c.n): continue
                    sg = vsig(k, rr, ss, h)
                    for q in [Q, c.neg(Q), c.zero, c.G]:
                        vq = vpt(k, q)
                        for m in (msg, msg.encode(), msg + " "): yield case("Verify", [sg, vq, M(m)], ver, ("must", is_val(c.verifies(q, digest(h, m), rr, ss))) if m or True else None)
                    for k2 in list(CURVES)[:3]:
                        if k2 != k: yield case("Verify", [sg, vpt(k2, points(k2)[1]), M(msg)], ver, ("may", is_val(False)))
        sg = vsig(k, 5 % c.n, 6 % c.n, h); vq = vpt(k, points(k)[1])
        for m in ("", b""): yield case("Verify", [sg, vq, M(m)], ver, ("may", is_bool))
        for j in JUNK + UNINIT + [vint(1), vfe(1, c.n)]: yield case("Verify", [sg, j, M(msg)], ver, ("raise",))
        for j in [j for j in JUNK if j.name not in ("'5'", "''", "b''", "b'5'", "'a\\0b'", "'\\u0661'")] + UNINIT + [vint(1)]: yield case("Verify", [sg, vq, j], ver, ("raise",))
        for n in (0, 1, 3): yield case("Verify arity", [sg] + [vq] * n, lambda s, *a: s.Verify(*a), ("raise",))
        # decoding
        S = vscheme(k, h); G = ECC.ECDSASignature
        vals = sorted({0, 1, 2, c.n - 1, c.n, c.n + 1, (1 << (8 * L)) - 1, c.n // 2} & set(range(1 << 16)) | {x for x in (0, 1, 2, c.n - 1, c.n, c.n + 1, (1 << (8 * L)) - 1, c.n // 2) if x < 1 << (8 * L)})
        raw = [a.to_bytes(L, "big") + b.to_bytes(L, "big") for a in vals for b in vals]
        base = sigbytes(k, 5 % c.n, 6 % c.n)
        raw += [base[:i] for i in range(2 * L)] + [base + b"\0", b"\0" + base, base + base, bytes(100000)]
        for b in raw:
            r, s = int.from_bytes(b[:L], "big"), int.from_bytes(b[L:], "big")
            if len(b) != 2 * L: vd = ("raise",)
            else:
                f = lambda x, b=b: None if type(x) is G and x.AsBytes() == b and str(x) == b.hex().upper() else err(b.hex(), x)
                vd = ("must", f) if 0 < r < c.n and 0 < s < c.n else ("may", f)
            yield case("ECDSASignature(bytes %s)" % b[:40].hex(), [S, Val("b", ("bytes",), lambda b=b: b)], G, vd)
            for t in ((b.hex().upper(), b.hex()) if len(b) < 2000 else ()): yield case("ECDSASignature(str %s)" % t[:80], [S, Val("s", ("str",), lambda t=t: t)], G, vd)
        t = base.hex().upper()
        for s in [t + " ", " " + t, t[:-1], t + "\0", t + "\0x", t[:-1] + "\0", t[:-1] + "G", t[:-1] + "\u00e9", t[:-2] + "\u0661", "\ud800", t[:-2] + "+1", t[:-2] + " 1", t[:-2] + "0x", "x" * 100000, "0" * 100001]: yield case("ECDSASignature(text %s)" % ascii(s)[:40], [S], lambda S, s=s: G(S, s), ("raise",))
        for j in [j for j in JUNK if not j.name.startswith(("'", "b'"))] + UNINIT + [vint(1)]:
            yield case("ECDSASignature", [S, j], G, ("raise",)); yield case("ECDSASignature", [j, M(base)], G, ("raise",))
        yield case("ECDSASignature()", [], G, ("raise",)); yield case("ECDSASignature 3", [S, M(base), M(base)], G, ("raise",))
        yield case("reinit", [sg, S, M(base)], lambda x, s, b: x.__init__(s, b), ("raise",)); yield case("reinit", [S, vcv(k)], lambda x, c: x.__init__(c, hashmod("h", "md5")), ("raise",))
    return g
def u_scheme(T):
    def g():
        k = K; v = vcv(k); C = ECC.ECDSASignatureScheme; c = CURVES[k]
        for h in HASHES: yield case("scheme " + h, [v], lambda cv, h=h: C(cv, hashmod(h, HASHES[h])), ("must", lambda r: None if type(r) is C else err(C, r)))
        for nm, hn, size, mode in BADHASH: yield case("scheme " + nm, [v], lambda cv, a=(nm, hn, size, mode): C(cv, hashmod(*a)), ("raise",))
        yield case("scheme builtin", [v], lambda cv: C(cv, hashmod("b", "sha256", None, "builtin")), ("may", lambda r: None))
        for mode in LATEHASH:
            mk = Val("late:" + mode, ("scheme", k, "x"), lambda mode=mode: C(cvobj(k), hashmod("l", "sha256", None, mode)))
            for m in (b"a", "a"):
                yield case("Sign with failing hash", [mk, vint(5)], lambda s, x, m=m: s.Sign(x, m), ("raise",))
                yield case("Sign zero with failing hash", [mk, vint(0)], lambda s, x, m=m: s.Sign(x, m), ("raise",))
                yield case("Verify with failing hash", [mk, vpt(k, points(k)[1])], lambda s, q, m=m: ECC.ECDSASignature(s, sigbytes(k, 5, 6)).Verify(q, m), ("raise",))
        for j in JUNK + UNINIT + [vint(1)]:
            yield case("scheme", [v, j], C, ("raise",))
            yield case("scheme", [j], lambda j: C(j, hashmod("h", "sha256")), ("raise",))
        yield case("scheme()", [], C, ("raise",)); yield case("scheme(1)", [v], C, ("raise",))
        # the module changes after the scheme was made
        def gone(s, attr, val):
            hm = hashmod("g", "sha256"); S = C(cvobj(k), hm)
            if val is None: delattr(hm, attr)
            else: setattr(hm, attr, val)
            return S.Sign(5, b"a")
        yield case("module loses new", [v], lambda cv: gone(cv, "new", None), ("raise",))
        yield case("module new replaced", [v], lambda cv: gone(cv, "new", 5), ("raise",))
        yield case("module size replaced", [v], lambda cv: gone(cv, "digest_size", 1000000), ("any",))
        yield case("module loses size", [v], lambda cv: gone(cv, "digest_size", None), ("any",))
    return g

# --- ElGamal
def u_elgamal(k, T):
    def g():
        c = CURVES[k]; A = points(k); Ct = ECC.ECElgamalCiphertext
        def ct_is(r, C, D):
            if type(r) is not Ct: return err("ciphertext", r)
            e = pt_is(r.C, k, C) or pt_is(r.D, k, D)
            if e: return e
            w = "(%s, %s)" % (c.enc(C).hex().upper(), c.enc(D).hex().upper())
            if str(r) != w: return err(w, str(r))
            if str(eval(repr(r))) != w: return err(w, repr(r))
        dec = lambda x, s: x.decrypt(s)
        sks = sorted({0, 1, 2, -1, c.n - 1, c.n, c.n + 1, 2 ** 64, -2 ** 64, 2 ** 600, 2 ** 2040, -2 ** 2048, 2 ** 20000 + 1})
        big = c.p.bit_length() > 100
        sub = A if (T or not big) else A[:4]
        for C in sub:
            for D in sub:
                v = vct(k, C, D)
                yield case("ciphertext", [vpt(k, C), vpt(k, D, own=True)], Ct, ("must", lambda r, C=C, D=D: ct_is(r, C, D)))
                yield case("ciphertext proj", [vproj(k, C), vproj(k, D)], Ct, ("must", lambda r, C=C, D=D: ct_is(r, C, D)))
                for s in (sks if C == A[1] or T else sks[:6]):
                    want = c.add(D, c.neg(c.mul(C, s % c.n)))
                    yield case("decrypt", [v, vint(s)], dec, ("must", is_pt(k, want)))
                    yield case("decrypt", [v, vfe(s, c.n)], dec, ("must", is_pt(k, want)))
        v = vct(k, A[1], A[2])
        for j in JUNK + UNINIT + [vfe(1, 7), vfe(1, 2 ** 64 + 13), vpt(k, A[1])]: yield case("decrypt", [v, j], dec, ("raise",))
        for sk in (1, 2, c.n - 1, 3):
            K = c.mul(c.G, sk)
            for m in sub:
                def f(r, sk=sk, m=m):
                    if type(r) is not Ct: return err("ciphertext", r)
                    if m is None or True:
                        C, D = r.C, r.D
                        if str(r) != "(%s, %s)" % (C, D): return err((C, D), str(r))
                        o = ECC.ECPoint(cvobj(k))
                        for q in (C, D):
                            if q != o and not c.on(*q.affine()): return "off the curve"
                        if C == o: return "ephemeral point is the identity"
                        return pt_is(r.decrypt(sk), k, m) or pt_is(D - C * sk, k, m)
                yield case("encrypt", [vpt(k, K), vpt(k, m, own=True)], Ct.encrypt, ("must", f))
                yield case("encrypt base", [vpt(k, K, base=True), vproj(k, m)], Ct.encrypt, ("must", f))
        for k2 in CURVES:
            if k2 != k:
                for f in (Ct, Ct.encrypt): yield case("mixed curves", [vpt(k, A[1]), vpt(k2, points(k2)[1])], f, ("raise",))
        for j in JUNK + UNINIT + [vint(1), vcv(k)]:
            for f in (Ct, Ct.encrypt):
                yield case("junk", [j, vpt(k, A[1])], f, ("raise",)); yield case("junk", [vpt(k, A[1]), j], f, ("raise",))
        for n in (0, 1, 3):
            for f in (Ct, Ct.encrypt): yield case("arity", [vpt(k, A[1])] * n, f, ("raise",))
        yield case("reinit", [v, vpt(k, A[1])], lambda x, a: x.__init__(a, a), ("raise",))
        for a in ("E", "c", "D ", "\ud800"):
            yield case("attr " + ascii(a), [v], lambda x, a=a: getattr(x, a), ("raise",)); yield case("attr default", [v], lambda x, a=a: getattr(x, a, 3), ("must", is_val(3)) if a != "\ud800" else ("any",))
            yield case("hasattr", [v], lambda x, a=a: hasattr(x, a), ("must", is_val(False)) if a != "\ud800" else ("any",))
    return g

def pt_units(U, k, T):
        U.append(("points of %s ops" % k, u_pt_ops(k, T))); U.append(("points of %s constructors" % k, u_pt_ctor(k, T))); U.append(("elgamal on " + k, u_elgamal(k, T)))
        for h in (HASHES if T or k == K else ["sha256"]):
            U.append(("sign on %s with %s" % (k, h), u_sign(k, h, T))); U.append(("verify on %s with %s" % (k, h), u_verify(k, h, T)))
def units(T):
    U = []
    for k in sorted(CURVES, key=lambda k: -CURVES[k].p): pt_units(U, k, T)
    for p in PRIMES + COMPOSITE: U.append(("field p=%s ops" % short(p), u_fe_ops(p, T)))
    U.append(("field constructors", u_fe_ctor(T))); U.append(("methods on foreign and unfinished objects", u_foreign(T)))
    for f in CTOR: U.append(("curve constructors " + f, u_cv_ctor(f, T)))
    U.append(("curve operations", u_cv_ops(T))); U.append(("signature schemes", u_scheme(T)))
    return U
