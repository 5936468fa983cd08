// N01, part one: every operation over boundary arguments, judged against the reference; arguments compared before and after.
package main

import (
	"bytes"
	"ecgo"
	"fmt"
	"math/big"
	"strings"
)

type yield func(name string, f func() string)
type Unit struct {
	name string
	gen  func(y yield)
}

var thorough bool

func p(v ...interface{}) string { return fmt.Sprintln(v...) }

// try runs f; a recoverable panic is reported as text
func try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return ""
}

// snap remembers numbers; the returned function reports the first one that changed
func snap(vs ...*big.Int) func() string {
	var c []*big.Int
	for _, v := range vs {
		c = append(c, cp(v))
	}
	return func() string {
		for i, v := range vs {
			if v.Cmp(c[i]) != 0 {
				return fmt.Sprintf("argument %d changed from %s to %s", i, short(c[i]), short(v))
			}
		}
		return ""
	}
}
func first(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

var primes = []*big.Int{N(3), N(5), N(7), N(251), N(65537), P2(64, -59), P2(64, 13), P2(127, -1), P2(255, -19), P2(521, -1), P2(1024, -105)}
var composites = []*big.Int{N(9), N(15), P2(64, -1), P2(128, -1)}
var badmods = []*big.Int{N(0), N(1), N(2), N(4), N(-1), N(-3), N(-7), P2(64, 0), P2(1023, 0), P2(1024, 1), P2(1025, -1), P2(2048, -1), P2(4096, 1), P2(20000, 1)}

func ints() []*big.Int {
	r := []*big.Int{N(0), N(1), N(-1), N(2), N(-2), N(3), N(255), N(-256)}
	ks := []uint{31, 32, 63, 64, 128, 256, 521, 1024, 2040, 2048, 4096, 20000}
	if thorough {
		ks = []uint{7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 511, 512, 521, 1023, 1024, 1025, 2039, 2040, 2047, 2048, 4096, 20000}
	}
	for _, k := range ks {
		for _, d := range []int64{-1, 0, 1} {
			r = append(r, P2(k, d), neg(P2(k, d)))
		}
	}
	return r
}
func elems(p *big.Int) []*big.Int {
	seen := map[string]bool{}
	var r []*big.Int
	for _, v := range []*big.Int{N(0), N(1), N(2), N(3), sub(p, N(1)), sub(p, N(2)), new(big.Int).Rsh(p, 1), P2(64, 0), P2(64, -1), new(big.Int).Div(p, N(3))} {
		v = mod(v, p)
		if !seen[v.String()] {
			seen[v.String()] = true
			r = append(r, v)
		}
	}
	return r
}
func feIs(z *ecgo.FieldElement, v, p *big.Int) string {
	if z == nil {
		return "nil instead of " + short(v)
	}
	if z.AsInt().Cmp(v) != 0 {
		return fmt.Sprintf("is %s, should be %s", short(z.AsInt()), short(v))
	}
	if z.Order().Cmp(p) != 0 {
		return fmt.Sprintf("lies in the field of %s, not %s", short(z.Order()), short(p))
	}
	return ""
}

//go:noinline
func fe(v, p *big.Int) *ecgo.FieldElement { return ecgo.NewFieldElement(v, p) }

func fieldNew(y yield) {
	for _, m := range append(append([]*big.Int{}, primes...), composites...) {
		m := m
		for _, v := range ints() {
			v := v
			y(fmt.Sprintf("NewFieldElement(%s,%s)", short(v), short(m)), func() string {
				s := snap(v, m)
				z := ecgo.NewFieldElement(v, m)
				return first(s(), feIs(z, mod(v, m), m), s())
			})
			if v.Sign() >= 0 && v.IsUint64() {
				y(fmt.Sprintf("NewFieldElementUI(%s,%s)", short(v), short(m)), func() string {
					s := snap(m)
					return first(feIs(ecgo.NewFieldElementUI(v.Uint64(), m), mod(v, m), m), s())
				})
			}
		}
		y("NewFieldElementURandom("+short(m)+")", func() string {
			s := snap(m)
			z := ecgo.NewFieldElementURandom(m)
			if z == nil {
				return "nil"
			}
			if v := z.AsInt(); v.Sign() < 0 || v.Cmp(m) >= 0 {
				return "out of range"
			}
			return first(feIs(z, z.AsInt(), m), s())
		})
	}
	for _, m := range badmods {
		m := m
		for _, v := range []*big.Int{N(0), N(1), N(-1), N(5), P2(64, 1), neg(P2(3000, 1))} {
			v := v
			for k, nm := range []string{"NewFieldElement", "NewFieldElementUI", "NewFieldElementURandom"} {
				k := k
				if k > 0 && v.Cmp(N(5)) != 0 {
					continue
				}
				y(fmt.Sprintf("%s(%s,%s)", nm, short(v), short(m)), func() string {
					s := snap(v, m)
					var z *ecgo.FieldElement
					msg := try(func() {
						switch k {
						case 0:
							z = ecgo.NewFieldElement(v, m)
						case 1:
							z = ecgo.NewFieldElementUI(5, m)
						case 2:
							z = ecgo.NewFieldElementURandom(m)
						}
					})
					if msg == "" && z != nil {
						return "accepted a modulus the field code cannot work with"
					}
					return s()
				})
			}
		}
	}
}

var fieldBin = []struct {
	name string
	f    func(z, a, b *ecgo.FieldElement) *ecgo.FieldElement
	r    func(a, b, p *big.Int) *big.Int
}{
	{"Add", (*ecgo.FieldElement).Add, func(a, b, p *big.Int) *big.Int { return mod(add(a, b), p) }},
	{"Sub", (*ecgo.FieldElement).Sub, func(a, b, p *big.Int) *big.Int { return mod(sub(a, b), p) }},
	{"Mul", (*ecgo.FieldElement).Mul, func(a, b, p *big.Int) *big.Int { return mod(mul(a, b), p) }},
}

func fieldOps(m *big.Int) func(y yield) {
	prime := m.ProbablyPrime(20)
	return func(y yield) {
		other := N(11)
		es := elems(m)
		for _, a := range es {
			a := a
			for _, b := range es {
				b := b
				for _, op := range fieldBin {
					op := op
					want := op.r(a, b, m)
					y(fmt.Sprintf("%s(%s,%s)", op.name, short(a), short(b)), func() string {
						x, w := fe(a, m), fe(b, m)
						for k, z := range []*ecgo.FieldElement{fe(N(0), m), fe(N(7), other), fe(N(1), P2(521, -1)), fe(N(1), N(3))} {
							r := op.f(z, x, w)
							if e := first(feIs(r, want, m), feIs(z, want, m), feIs(x, a, m), feIs(w, b, m)); e != "" {
								return fmt.Sprintf("receiver %d: %s", k, e)
							}
						}
						if a.Cmp(b) == 0 {
							if e := feIs(op.f(x, x, x), want, m); e != "" {
								return "x op= x,x: " + e
							}
							x = fe(a, m)
						}
						if e := first(feIs(op.f(x, x, w), want, m), feIs(w, b, m)); e != "" {
							return "receiver is first operand: " + e
						}
						x = fe(a, m)
						if e := first(feIs(op.f(w, x, w), want, m), feIs(x, a, m)); e != "" {
							return "receiver is second operand: " + e
						}
						return ""
					})
				}
				y(fmt.Sprintf("Cmp(%s,%s)", short(a), short(b)), func() string {
					x, w := fe(a, m), fe(b, m)
					c := x.Cmp(w)
					if (c == 0) != (a.Cmp(b) == 0) || (c < 0) != (a.Cmp(b) < 0) {
						return fmt.Sprintf("Cmp gives %d", c)
					}
					return first(feIs(x, a, m), feIs(w, b, m))
				})
			}
			y("Neg "+short(a), func() string {
				x := fe(a, m)
				return first(feIs(fe(N(1), other).Neg(x), mod(neg(a), m), m), feIs(x, a, m), feIs(x.Neg(x), mod(neg(a), m), m))
			})
			y("Inv "+short(a), func() string {
				x := fe(a, m)
				w := new(big.Int).ModInverse(a, m)
				if a.Sign() == 0 {
					w = nil
				}
				for k, z := range []*ecgo.FieldElement{fe(N(1), m), fe(N(1), other), x} {
					r, err := z.Inv(x)
					if w == nil {
						if err == nil {
							return "inverse of an element without one"
						}
					} else if err != nil {
						return "no inverse: " + err.Error()
					} else if e := feIs(r, w, m); e != "" {
						return fmt.Sprint(k, " ", e)
					}
					if k < 2 {
						if e := feIs(x, a, m); e != "" {
							return "argument changed: " + e
						}
					}
				}
				return ""
			})
			y("Sqrt "+short(a), func() string {
				x := fe(a, m)
				for k, z := range []*ecgo.FieldElement{fe(N(1), m), fe(N(1), other), x} {
					r, err := z.Sqrt(x)
					if err == nil {
						if r == nil {
							return "nil without an error"
						}
						if q := r.AsInt(); mod(mul(q, q), m).Cmp(a) != 0 || r.Order().Cmp(m) != 0 {
							return fmt.Sprintf("receiver %d: root of %s is %s", k, short(a), short(q))
						}
					} else if prime && (a.Sign() == 0 || big.Jacobi(a, m) == 1) {
						return "no root: " + err.Error()
					}
					if k < 2 {
						if e := feIs(x, a, m); e != "" {
							return "argument changed: " + e
						}
					}
				}
				return ""
			})
			for _, e := range []uint64{0, 1, 2, 3, 5, 255, 65537, 1<<32 - 1, 1 << 32, 1 << 63, 1<<64 - 1} {
				e := e
				y(fmt.Sprintf("Exp(%s,%d)", short(a), e), func() string {
					x := fe(a, m)
					w := mod(new(big.Int).Exp(a, new(big.Int).SetUint64(e), m), m)
					return first(feIs(fe(N(1), other).Exp(x, e), w, m), feIs(x, a, m), feIs(x.Exp(x, e), w, m))
				})
			}
			for _, i := range []int{0, 1, 2, 7, 8, 31, 32, 63, 64, 65, 127, 255, 520, 521, 1023, 1024, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1, -1, -2, -64, -1 << 31, -1 << 32, -1<<32 + 1, -1 << 63} {
				i := i
				y(fmt.Sprintf("Bit(%s,%d)", short(a), i), func() string {
					x := fe(a, m)
					var g uint
					msg := try(func() { g = x.Bit(i) })
					if i < 0 {
						if msg == "" && g != 0 {
							return "a bit below the first is set"
						}
						return feIs(x, a, m)
					}
					if msg != "" {
						return msg
					}
					if g != a.Bit(i) {
						return fmt.Sprintf("is %d", g)
					}
					return feIs(x, a, m)
				})
			}
		}
		// operands of different fields, and nothing at all
		for _, o := range []*big.Int{N(3), N(7), N(251), P2(64, 13), P2(521, -1), P2(1024, -105)} {
			o := o
			if o.Cmp(m) == 0 {
				continue
			}
			for k, nm := range []string{"Add", "Sub", "Mul", "Cmp"} {
				k, nm := k, nm
				y(fmt.Sprintf("%s across fields %s", nm, short(o)), func() string {
					x, w, z := fe(N(2), m), fe(N(2), o), fe(N(1), m)
					for _, sw := range []bool{false, true} {
						a, b := x, w
						if sw {
							a, b = w, x
						}
						var c int
						msg := try(func() {
							if k < 3 {
								if fieldBin[k].f(z, a, b) == nil {
									panic("refused")
								}
							} else {
								c = a.Cmp(b)
							}
						})
						if k < 3 && msg == "" {
							return "operands of different fields accepted"
						}
						if k == 3 && msg == "" && c == 0 {
							return "elements of different fields compare as equal"
						}
						if e := first(feIs(x, N(2).Mod(N(2), m), m), feIs(w, N(2), o)); e != "" && o.Cmp(N(2)) > 0 {
							return e
						}
					}
					return ""
				})
			}
		}
		y("nil operands", func() string {
			x := fe(N(1), m)
			var no *ecgo.FieldElement
			for k, f := range []func(){func() { x.Add(x, no) }, func() { x.Sub(no, x) }, func() { x.Mul(no, no) }, func() { x.Cmp(no) }, func() { x.Neg(no) }, func() { x.Inv(no) }, func() { x.Sqrt(no) }, func() { x.Exp(no, 2) }, func() { no.AsInt() }, func() { no.Order() }, func() { no.Add(x, x) }, func() { no.Bit(0) },
				func() { ecgo.NewFieldElement(nil, m) }, func() { ecgo.NewFieldElement(N(1), nil) }} {
				if try(f) == "" {
					return fmt.Sprint("accepted: ", k)
				}
				if e := feIs(x, N(1), m); e != "" {
					return e
				}
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- curves
var attrsOf = map[string][]string{"ws": {"ws_a", "ws_b"}, "ed": {"ed_c", "ed_d"}, "mo": {"mo_B", "mo_A"}, "te": {"te_a", "te_d"}}

func curveIs(o *ecgo.Curve, c *Cv) string {
	if o == nil {
		return "nil"
	}
	w := map[string]*big.Int{"p": c.p, "n": c.n, "h": c.h, "gx": c.G.X, "gy": c.G.Y, "bits": N(int64(c.bits)), attrsOf[c.form][0]: c.a, attrsOf[c.form][1]: c.b}
	for _, a := range []string{"p", "n", "h", "gx", "gy", "bits", "ws_a", "ws_b", "ed_c", "ed_d", "mo_B", "mo_A", "te_a", "te_d", "", "P", "ws_A", "x"} {
		g := o.GetAttr(a)
		if (g == nil) != (w[a] == nil) || (g != nil && g.Cmp(w[a]) != 0) {
			return fmt.Sprintf("attribute %q is %v, should be %v", a, g, w[a])
		}
		if g != nil { // the caller owns what it was given
			g.SetInt64(-77)
		}
	}
	if o.GetAttr("n").Cmp(c.n) != 0 || o.GetAttr("p").Cmp(c.p) != 0 {
		return "changing a returned attribute changed the curve"
	}
	t := map[string]int{"ws": ecgo.EQTypeShortWeierstrass, "ed": ecgo.EQTypeEdwards, "mo": ecgo.EQTypeMontgomery, "te": ecgo.EQTypeTwistedEdwards}[c.form]
	if o.Type() != t {
		return fmt.Sprintf("type %d", o.Type())
	}
	return ""
}
func curveNames(y yield) {
	for _, nm := range ecgo.CurveNames() {
		nm := nm
		y("NamedCurve("+nm+")", func() string {
			c := ecgo.NamedCurve(nm)
			if c == nil {
				return "listed but unknown"
			}
			f := map[int]string{ecgo.EQTypeShortWeierstrass: "ws", ecgo.EQTypeEdwards: "ed", ecgo.EQTypeMontgomery: "mo", ecgo.EQTypeTwistedEdwards: "te"}[c.Type()]
			if f == "" {
				return "no form"
			}
			v := &Cv{name: "named-" + nm, form: f, p: c.GetAttr("p"), a: c.GetAttr(attrsOf[f][0]), b: c.GetAttr(attrsOf[f][1]), n: c.GetAttr("n"), h: c.GetAttr("h"), G: Pt{c.GetAttr("gx"), c.GetAttr("gy"), false}, bits: uint(c.GetAttr("bits").Uint64())}
			v.L = int(v.bits+7) / 8
			if !v.on(v.G.X, v.G.Y) || !c.PointCheck(v.G.X, v.G.Y) {
				return "generator is not on the curve"
			}
			d := v.mk()
			if e := first(curveIs(d, v), curveIs(c, v)); e != "" {
				return e
			}
			if c.Cmp(d) != 0 || d.Cmp(c) != 0 || c.Cmp(c) != 0 {
				return "differs from the same curve given by its parameters"
			}
			return v.is(ecgo.NewPointGenerator(c), v.G)
		})
		for _, bad := range []string{nm + " ", " " + nm, nm + "\x00", nm + "\x00x", strings.ToUpper(nm) + "_", nm[:len(nm)-1] + "\xff"} {
			bad := bad
			y(fmt.Sprintf("NamedCurve(%q)", bad), func() string {
				if ecgo.NamedCurve(bad) != nil {
					return "accepted a name that is not in the list"
				}
				return ""
			})
		}
	}
	for _, bad := range []string{"", "\x00", "x", strings.Repeat("x", 100000), "%s%n%d", "\xff\xfe", "secp256k"} {
		bad := bad
		y(fmt.Sprintf("NamedCurve(%.20q)", bad), func() string {
			if ecgo.NamedCurve(bad) != nil {
				return "accepted"
			}
			return ""
		})
	}
}
func curveCtor(k string) func(y yield) {
	return func(y yield) {
		c := CV[k]
		base := []*big.Int{c.p, c.a, c.b, c.n, c.h, c.G.X, c.G.Y}
		y("constructor", func() string { return curveIs(c.mk(), c) })
		vals := append(ints(), N(4), N(9), c.p, neg(c.p), add(c.p, N(1)), sub(c.p, N(1)), c.n, mul(c.p, c.p), sub(c.n, N(1)))
		test := func(args []*big.Int, bits uint) string {
			s := snap(args...)
			var o *ecgo.Curve
			msg := try(func() { o = c.ctor(args[0], args[1], args[2], args[3], args[4], args[5], args[6], bits) })
			if e := s(); e != "" {
				return e
			}
			if msg != "" || o == nil {
				for i, v := range args {
					if v.Cmp(base[i]) != 0 || bits != c.bits {
						return ""
					}
				}
				return "refused the curve: " + msg
			}
			P := args[0]
			if P.Cmp(N(3)) < 0 || P.Bit(0) == 0 || P.BitLen() > 1024 {
				return "accepted a modulus the field code cannot work with"
			}
			w := *c
			w.p, w.a, w.b, w.n, w.h, w.G, w.bits = args[0], mod(args[1], P), mod(args[2], P), args[3], args[4], Pt{args[5], args[6], false}, bits
			if !w.on(args[5], args[6]) {
				return "accepted a generator which is not on the curve"
			}
			for i, a := range []string{"p", attrsOf[c.form][0], attrsOf[c.form][1], "n", "h", "gx", "gy"} {
				g := o.GetAttr(a)
				v := args[i]
				if g == nil || (g.Cmp(v) != 0 && g.Cmp(mod(v, P)) != 0) {
					return fmt.Sprintf("attribute %s is %v, should be %v", a, g, v)
				}
			}
			o.PointCheck(args[5], args[6])
			q := ecgo.NewPointGenerator(o)
			q.BytesCompressed()
			if !o.PointCheck(args[5], args[6]) {
				return "its generator is not on the curve"
			}
			return ""
		}
		for i := range base {
			for _, v := range vals {
				args := append([]*big.Int{}, base...)
				args[i] = v
				y(fmt.Sprintf("parameter %d = %s", i, short(v)), func() string { return test(args, c.bits) })
			}
		}
		for _, b := range []uint{0, 1, 7, 8, 63, 64, 255, 1024, 1025, 65535, 1 << 31, 1<<32 - 1, c.bits - 1, c.bits + 1, c.bits + 8, 1 << 32, 1<<32 + c.bits, 1<<64 - 1} {
			b := b
			y(fmt.Sprintf("bits = %d", b), func() string {
				o := c.ctor(c.p, c.a, c.b, c.n, c.h, c.G.X, c.G.Y, b)
				if o == nil {
					return ""
				}
				if o.GetAttr("bits").Cmp(new(big.Int).SetUint64(uint64(b))) != 0 {
					return "another width than given: " + o.GetAttr("bits").String()
				}
				q := ecgo.NewPointGenerator(o)
				for _, e := range [][]byte{q.BytesCompressed(), q.BytesUncompressed()} {
					if d := ecgo.NewPointFromBytes(e, o); d == nil || d.Cmp(q) != 0 {
						return "generator does not survive encoding"
					}
				}
				return ""
			})
		}
		for _, x := range vals {
			for _, yy := range []*big.Int{N(0), N(1), N(-1), c.G.Y, sub(c.p, c.G.Y), neg(c.G.Y), add(c.p, c.G.Y), P2(2048, 1), neg(P2(20000, 1))} {
				x, yy := x, yy
				for sw := 0; sw < 2; sw++ {
					if sw == 1 {
						x, yy = yy, x
					}
					a, b := x, yy
					y(fmt.Sprintf("PointCheck(%s,%s)", short(a), short(b)), func() string {
						s := snap(a, b)
						r := c.obj().PointCheck(a, b)
						if r && !c.on(a, b) {
							return "a point off the curve passes"
						}
						if !r && c.on(a, b) && a.Sign() >= 0 && b.Sign() >= 0 && a.Cmp(c.p) < 0 && b.Cmp(c.p) < 0 {
							return "a point of the curve is refused"
						}
						return s()
					})
				}
			}
		}
		for _, k2 := range order {
			k2 := k2
			y("Cmp with "+k2, func() string {
				if (c.mk().Cmp(CV[k2].mk()) == 0) != (k == k2) {
					return "wrong"
				}
				return ""
			})
		}
		y("nil curve", func() string {
			var no *ecgo.Curve
			o := c.obj()
			for i, f := range []func(){func() { o.Cmp(no) }, func() { no.Cmp(o) }, func() { no.Type() }, func() { no.GetAttr("p") }, func() { no.PointCheck(N(1), N(1)) }, func() { ecgo.NewPointNeutral(no) }, func() { ecgo.NewPointGenerator(no) }, func() { ecgo.NewPointXY(N(1), N(1), no) }, func() { ecgo.NewPointURandom(no) }, func() { ecgo.NewPointFromString("00", no) }, func() { ecgo.NewPointFromBytes(nil, no) }, func() { o.PointCheck(nil, N(1)) }} {
				if try(f) == "" {
					return fmt.Sprint("accepted: ", i)
				}
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- points
func points(c *Cv) []Pt {
	r := []Pt{c.zero()}
	for _, k := range []*big.Int{N(1), N(2), N(3), sub(c.n, N(1)), new(big.Int).Rsh(c.n, 1)} {
		q := c.mul(c.G, k)
		dup := false
		for _, o := range r {
			dup = dup || o.eq(q)
		}
		if !dup {
			r = append(r, q)
		}
	}
	return r
}

// forms in which the same point can be held
func holders(c *Cv, P Pt) []func() *ecgo.Point {
	r := []func() *ecgo.Point{func() *ecgo.Point { return c.pt(P) },
		func() *ecgo.Point { // result of a computation, over its own curve object
			o := c.mk()
			g := ecgo.NewPointGenerator(o)
			q := c.ptOn(P, o)
			t := ecgo.NewPointNeutral(o).Add(q, g)
			return ecgo.NewPointNeutral(o).Sub(t, g)
		},
		func() *ecgo.Point { q := c.pt(P); q.SetupBaseMul(); return q }}
	return r
}
func pointOps(k string) func(y yield) {
	return func(y yield) {
		c := CV[k]
		ps := points(c)
		otherC := CV["small-ws"]
		if k == "small-ws" {
			otherC = CV["small-ed"]
		}
		recv := []func() *ecgo.Point{func() *ecgo.Point { return ecgo.NewPointNeutral(c.obj()) }, func() *ecgo.Point { return otherC.pt(otherC.G) }, func() *ecgo.Point { q := otherC.pt(otherC.G); q.SetupBaseMul(); return q }, func() *ecgo.Point { return ecgo.NewPointGenerator(c.mk()) }, func() *ecgo.Point { q := c.pt(c.G); q.SetupBaseMul(); return q }}
		for _, P := range ps {
			P := P
			for hi, H := range holders(c, P) {
				hi, H := hi, H
				y(fmt.Sprintf("views of %v form %d", P, hi), func() string {
					q := H()
					for i := 0; i < 2; i++ {
						if e := c.is(q, P); e != "" {
							return e
						}
						if !bytes.Equal(q.BytesCompressed(), c.enc(P, true)) {
							return "compressed"
						}
						if q.StringCompressed() != strings.ToUpper(fmt.Sprintf("%x", c.enc(P, true))) || q.StringUncompressed() != strings.ToUpper(fmt.Sprintf("%x", c.enc(P, false))) {
							return "text is " + q.StringCompressed()
						}
						if !P.O {
							x, yy := q.Affine()
							if x.Cmp(P.X) != 0 || yy.Cmp(P.Y) != 0 {
								return "affine coordinates are " + short(x) + "," + short(yy)
							}
							x.SetInt64(5)
							yy.SetInt64(-5)
						} else {
							try(func() { q.Affine() })
						}
						q.SetupBaseMul()
					}
					return ""
				})
				for ri, R := range recv {
					ri, R := ri, R
					y(fmt.Sprintf("Neg,Set %v form %d receiver %d", P, hi, ri), func() string {
						q, z, z2 := H(), R(), R()
						r := z.Neg(q)
						e := first(c.is(r, c.neg(P)), c.is(z, c.neg(P)), c.is(q, P), c.is(z2.Set(q), P), c.is(z2, P), c.is(q, P))
						if e != "" {
							return e
						}
						// a copy lives on its own
						q.Neg(q)
						return first(c.is(z2, P), c.is(q, c.neg(P)), c.is(z, c.neg(P)), c.is(z2.Set(z2), P))
					})
					if c.p.BitLen() > 64 && ri > 1 {
						continue
					}
					for _, kk := range scalars(c) {
						kk := kk
						y(fmt.Sprintf("Mul %v form %d receiver %d by %s", P, hi, ri, short(kk)), func() string {
							q, z := H(), R()
							s := snap(kk)
							w := c.mul(P, red(c, P, kk))
							r := z.Mul(q, kk)
							if e := first(s(), c.is(r, w), c.is(z, w), c.is(q, P)); e != "" {
								return e
							}
							return c.is(q.Mul(q, kk), w)
						})
					}
				}
			}
			for _, Q := range ps {
				Q := Q
				nh := len(holders(c, P))
				for i := 0; i < nh*nh; i++ {
					ha, hb := holders(c, P)[i%nh], holders(c, Q)[i/nh]
					i := i
					recv := recv
					if c.p.BitLen() > 64 && !thorough && !(P.eq(ps[1]) && Q.eq(ps[2])) {
						// tables of large curves are slow to build: in quick one pair of points has them
						if i%nh == 2 || i/nh == 2 {
							continue
						}
						recv = recv[:4]
					}
					y(fmt.Sprintf("Add,Sub,Cmp %v,%v forms %d,%d", P, Q, i%nh, i/nh), func() string {
						for ri, R := range recv {
							a, b := ha(), hb()
							if e := first(c.is(R().Add(a, b), c.add(P, Q)), c.is(R().Sub(a, b), c.add(P, c.neg(Q))), c.is(a, P), c.is(b, Q)); e != "" {
								return fmt.Sprintf("receiver %d: %s", ri, e)
							}
							if (a.Cmp(b) == 0) != P.eq(Q) || (b.Cmp(a) == 0) != P.eq(Q) {
								return "Cmp"
							}
						}
						a, b := ha(), hb()
						if e := first(c.is(a.Add(a, b), c.add(P, Q)), c.is(b, Q)); e != "" {
							return "receiver is first operand: " + e
						}
						a = ha()
						if e := first(c.is(b.Add(a, b), c.add(P, Q)), c.is(a, P)); e != "" {
							return "receiver is second operand: " + e
						}
						b = hb()
						if e := first(c.is(b.Sub(a, b), c.add(P, c.neg(Q))), c.is(a, P)); e != "" {
							return "Sub, receiver is second operand: " + e
						}
						b = hb()
						if e := first(c.is(a.Sub(a, b), c.add(P, c.neg(Q))), c.is(b, Q)); e != "" {
							return "Sub, receiver is first operand: " + e
						}
						a = ha()
						return first(c.is(a.Add(a, a), c.add(P, P)), c.is(b.Sub(b, b), c.zero()))
					})
				}
			}
		}
		for _, k2 := range order {
			if k2 == k {
				continue
			}
			d := CV[k2]
			for i, nm := range []string{"Add", "Sub", "Cmp"} {
				i := i
				y(nm+" across curves with "+k2, func() string {
					a, b, z := c.pt(c.G), d.pt(d.G), c.pt(c.zero())
					for sw := 0; sw < 2; sw++ {
						x, w := a, b
						if sw == 1 {
							x, w = b, a
						}
						cm := 1
						msg := try(func() {
							var r *ecgo.Point
							switch i {
							case 0:
								r = z.Add(x, w)
							case 1:
								r = z.Sub(x, w)
							case 2:
								cm = x.Cmp(w)
								return
							}
							if r == nil {
								panic("refused")
							}
						})
						if i < 2 && msg == "" {
							return "points of different curves accepted"
						}
						if i == 2 && cm == 0 {
							return "points of different curves compare as equal"
						}
						if e := first(c.is(a, c.G), d.is(b, d.G)); e != "" {
							return e
						}
					}
					return ""
				})
			}
		}
		y("nil operands", func() string {
			q := c.pt(c.G)
			var no *ecgo.Point
			for i, f := range []func(){func() { q.Add(q, no) }, func() { q.Add(no, q) }, func() { q.Sub(no, q) }, func() { q.Sub(q, no) }, func() { q.Neg(no) }, func() { q.Set(no) }, func() { q.Mul(no, N(2)) }, func() { q.Mul(q, nil) }, func() { q.Cmp(no) }, func() { no.Cmp(q) }, func() { no.Affine() }, func() { no.IsNeutral() }, func() { no.BytesCompressed() }, func() { no.StringUncompressed() }, func() { no.SetupBaseMul() }, func() { no.Add(q, q) }, func() { ecgo.NewPointXY(nil, N(1), c.obj()) }} {
				if try(f) == "" {
					return fmt.Sprint("accepted: ", i)
				}
				if e := c.is(q, c.G); e != "" {
					return fmt.Sprint("after ", i, ": ", e)
				}
			}
			return ""
		})
	}
}

// red reduces a scalar for the reference only
func red(c *Cv, P Pt, k *big.Int) *big.Int {
	if k.BitLen() > 600 {
		return mod(k, c.n) // every pool point lies in the group of order n
	}
	return k
}
func scalars(c *Cv) []*big.Int {
	r := []*big.Int{N(0), N(1), N(-1), N(2), N(-2), N(3), c.n, sub(c.n, N(1)), add(c.n, N(1)), neg(c.n), P2(64, -1), neg(P2(64, 0)), neg(P2(1024, 1)), P2(4096, 1)}
	if thorough {
		r = append(r, ints()...)
	}
	return r
}
func pointNew(k string) func(y yield) {
	return func(y yield) {
		c := CV[k]
		xs := []*big.Int{N(0), N(1), N(-1), N(2), c.G.X, neg(c.G.X), sub(c.p, c.G.X), add(c.G.X, c.p), sub(c.G.X, c.p), c.p, sub(c.p, N(1)), P2(64, 0), P2(2048, 1), neg(P2(2048, 1)), neg(P2(20000, 1)), add(mul(c.p, P2(3000, 0)), c.G.X)}
		ys := []*big.Int{N(0), N(1), N(-1), N(2), c.G.Y, neg(c.G.Y), sub(c.p, c.G.Y), add(c.G.Y, c.p), sub(c.G.Y, c.p), c.p, sub(c.p, N(1)), P2(64, 0), P2(2048, 1), neg(P2(2048, 1)), neg(P2(20000, 1)), add(mul(c.p, P2(3000, 0)), c.G.Y)}
		if c.p.BitLen() < 10 {
			xs, ys = nil, nil
			for i := int64(-2); i < c.p.Int64()+2; i++ {
				xs = append(xs, N(i))
				ys = append(ys, N(i))
			}
		}
		for _, x := range xs {
			for _, yy := range ys {
				x, yy := x, yy
				y(fmt.Sprintf("NewPointXY(%s,%s)", short(x), short(yy)), func() string {
					s := snap(x, yy)
					var q *ecgo.Point
					msg := try(func() { q = ecgo.NewPointXY(x, yy, c.obj()) })
					if e := s(); e != "" {
						return e
					}
					if msg != "" || q == nil {
						if c.on(x, yy) && x.Sign() >= 0 && yy.Sign() >= 0 && x.Cmp(c.p) < 0 && yy.Cmp(c.p) < 0 {
							return "a point of the curve is refused " + msg
						}
						return ""
					}
					if !c.on(x, yy) {
						return "a point off the curve is accepted"
					}
					P := Pt{mod(x, c.p), mod(yy, c.p), false}
					return first(c.is(q, P), s())
				})
			}
		}
		for _, P := range points(c) {
			P := P
			for _, compress := range []bool{true, false} {
				base := c.enc(P, compress)
				var all [][]byte
				all = append(all, base, nil, []byte{}, make([]byte, 1), make([]byte, 100000))
				for l := 0; l <= len(base)+2; l++ {
					if l <= len(base) {
						all = append(all, base[:l])
					} else {
						all = append(all, append(append([]byte{}, base...), make([]byte, l-len(base))...))
					}
				}
				for i := range base {
					if i > 2 && i < len(base)-2 && !thorough && c.p.BitLen() > 64 {
						continue
					}
					for v := 0; v < 256; v++ {
						if i > 0 && !thorough && c.p.BitLen() > 64 && v != 0 && v != 255 && v != 1 && v != 128 {
							continue
						}
						m := append([]byte{}, base...)
						m[i] = byte(v)
						all = append(all, m)
					}
				}
				for _, b := range all {
					b := b
					y(fmt.Sprintf("NewPointFromBytes(%.80x) %d", b, len(b)), func() string {
						keep := append([]byte{}, b...)
						q := ecgo.NewPointFromBytes(b, c.obj())
						if !bytes.Equal(b, keep) {
							return "argument changed"
						}
						t, w := c.dec(b)
						if q == nil {
							if t == 1 {
								return "refused an encoding of " + w.String()
							}
							return ""
						}
						if t == 0 {
							return "accepted a string that encodes no point"
						}
						if len(b) > 0 {
							b[0] ^= 0x55 // the caller keeps its slice
							defer func() { b[0] ^= 0x55 }()
						}
						return c.is(q, w)
					})
					if len(b) > 1000 {
						continue
					}
					for ti, tx := range []string{fmt.Sprintf("%x", b), strings.ToUpper(fmt.Sprintf("%x", b))} {
						tx := tx
						if ti == 1 && strings.ToUpper(tx) == strings.ToLower(tx) {
							continue
						}
						y(fmt.Sprintf("NewPointFromString(%.100s)", tx), func() string {
							q := ecgo.NewPointFromString(tx, c.obj())
							t, w := c.dec(b)
							if q == nil {
								if t == 1 {
									return "refused an encoding of " + w.String()
								}
								return ""
							}
							if t == 0 {
								return "accepted a string that encodes no point"
							}
							return c.is(q, w)
						})
					}
				}
				t := fmt.Sprintf("%x", base)
				for _, bad := range []string{t + " ", " " + t, t + "\n", t + "\x00", t + "\x00x", "\x00" + t, t + "\x00" + t, t[:len(t)-1], t[:len(t)-1] + "g", t[:len(t)-1] + " ", t[:len(t)-2] + "0x", t[:len(t)-2] + "+1", t[:len(t)-2] + "-1", "0x" + t, t[:len(t)-1] + "\xff", t[:len(t)-2] + "\u0661", strings.Repeat("0", 200001), t[:len(t)-1] + "\x00", t[:2] + "\x00" + t[3:]} {
					bad := bad
					y(fmt.Sprintf("NewPointFromString(%.100q)", bad), func() string {
						if ecgo.NewPointFromString(bad, c.obj()) != nil {
							return "accepted text that encodes no point"
						}
						return ""
					})
				}
			}
		}
		y("NewPointNeutral", func() string { return c.is(ecgo.NewPointNeutral(c.obj()), c.zero()) })
		y("NewPointGenerator", func() string { return c.is(ecgo.NewPointGenerator(c.obj()), c.G) })
		for i := 0; i < 4; i++ {
			y(fmt.Sprint("NewPointURandom ", i), func() string {
				q := ecgo.NewPointURandom(c.obj())
				if q == nil {
					return "nil"
				}
				if q.IsNeutral() {
					return ""
				}
				x, yy := q.Affine()
				if !c.on(x, yy) {
					return "not on the curve"
				}
				return c.is(q, Pt{x, yy, false})
			})
		}
	}
}

// ---------------------------------------------------------------- ECDSA
func signKeys(c *Cv) []*big.Int {
	r := []*big.Int{N(1), N(2), sub(c.n, N(1)), new(big.Int).Rsh(c.n, 1), add(c.n, N(1)), N(-1), add(mul(c.n, P2(600, 0)), N(5)), neg(P2(600, 3)), P2(64, 0), P2(2048, 1), neg(P2(20000, 1))}
	var o []*big.Int
	for _, k := range r {
		if mod(k, c.n).Sign() != 0 {
			o = append(o, k)
		}
	}
	return o
}
func messages(c *Cv, h Hash) [][]byte {
	var o [][]byte
	for _, m := range [][]byte{nil, {}, []byte("a"), {0}, []byte("message\x00tail"), bytes.Repeat([]byte{0xff}, 100000), []byte("b")} {
		if mod(c.e(digest(h, m)), c.n).Sign() != 0 {
			o = append(o, m)
		}
	}
	return o
}
func signing(k string, h Hash) func(y yield) {
	return func(y yield) {
		c := CV[k]
		for _, x := range signKeys(c) {
			for _, m := range messages(c, h) {
				x, m := x, m
				y(fmt.Sprintf("Sign(%s,%.8q)", short(x), m), func() string {
					s := snap(x)
					keep := append([]byte{}, m...)
					ss := ecgo.NewECDSASignatureScheme(c.mk(), h.mk())
					sig := ss.Sign(x, m)
					if e := s(); e != "" {
						return e
					}
					if !bytes.Equal(keep, m) {
						return "message changed"
					}
					if sig == nil {
						return "no signature"
					}
					b := sig.AsBytes()
					L := c.nL()
					if len(b) != 2*L {
						return fmt.Sprintf("%d bytes", len(b))
					}
					Q := c.mul(c.G, mod(x, c.n))
					r, t := new(big.Int).SetBytes(b[:L]), new(big.Int).SetBytes(b[L:])
					if !c.verifies(Q, digest(h, m), r, t) {
						return fmt.Sprintf("signature %x does not verify", b)
					}
					if !sig.Verify(c.pt(Q), m) {
						return "Verify refuses a genuine signature"
					}
					if sig.Verify(c.pt(Q), append(append([]byte{}, m...), 'x')) != c.verifies(Q, digest(h, append(append([]byte{}, m...), 'x')), r, t) {
						return "Verify of another message"
					}
					d := ss.SignatureFromBytes(b)
					if d == nil || !bytes.Equal(d.AsBytes(), b) || !d.Verify(c.pt(Q), m) {
						return "does not survive export and import"
					}
					b[0] ^= 1
					if bytes.Equal(b, sig.AsBytes()) {
						return "caller's bytes are the signature's"
					}
					return ""
				})
			}
		}
	}
}
func verifying(k string, h Hash) func(y yield) {
	return func(y yield) {
		c := CV[k]
		ss := ecgo.NewECDSASignatureScheme(c.obj(), h.mk())
		msg := []byte("m")
		rs := []*big.Int{N(0), N(1), N(2), sub(c.n, N(1)), c.n, sub(P2(uint(8*c.nL()), 0), N(1)), new(big.Int).Rsh(c.n, 1)}
		// a genuine one, by the reference with nonce 3
		kq := c.mul(c.G, N(3))
		r0 := mod(kq.X, c.n)
		s0 := mod(mul(inv(N(3), c.n), add(c.e(digest(h, msg)), mul(r0, N(5)))), c.n)
		rs = append(rs, r0, s0)
		if c.n.BitLen() < 10 {
			rs = nil
			for i := int64(0); i < c.n.Int64()+2; i++ {
				rs = append(rs, N(i))
			}
		}
		lim := P2(uint(8*c.nL()), 0)
		keys := append([]Pt{c.mul(c.G, N(5))}, points(c)...)
		if c.n.BitLen() < 10 && !thorough {
			keys = keys[:3]
		}
		for _, r := range rs {
			for _, s := range rs {
				if r.Cmp(lim) >= 0 || s.Cmp(lim) >= 0 {
					continue
				}
				b := c.sigBytes(r, s)
				for _, Q := range keys {
					r, s, Q := r, s, Q
					y(fmt.Sprintf("Verify(%s,%s) by %v", short(r), short(s), Q), func() string {
						sig := ss.SignatureFromBytes(b)
						w := c.verifies(Q, digest(h, msg), r, s)
						if sig == nil {
							if r.Sign() > 0 && s.Sign() > 0 && r.Cmp(c.n) < 0 && s.Cmp(c.n) < 0 {
								return "import refused"
							}
							return ""
						}
						q := c.pt(Q)
						if g := sig.Verify(q, msg); g != w {
							return fmt.Sprintf("is %v, should be %v", g, w)
						}
						q.SetupBaseMul()
						if g := sig.Verify(q, msg); g != w {
							return fmt.Sprintf("with base multiplication table: is %v, should be %v", g, w)
						}
						return first(c.is(q, Q))
					})
				}
			}
		}
		for k := int64(4); r0.Sign() == 0 || s0.Sign() == 0; k++ {
			r0 = mod(c.mul(c.G, N(k)).X, c.n)
			s0 = mod(mul(inv(N(k), c.n), add(c.e(digest(h, msg)), mul(r0, N(5)))), c.n)
		}
		base := c.sigBytes(r0, s0)
		for l := 0; l < len(base)+3; l++ {
			l := l
			if l == len(base) {
				continue
			}
			y(fmt.Sprint("SignatureFromBytes of length ", l), func() string {
				b := make([]byte, l)
				copy(b, base)
				if ss.SignatureFromBytes(b) != nil {
					return "accepted"
				}
				return ""
			})
		}
		y("SignatureFromBytes(nil)", func() string {
			if ss.SignatureFromBytes(nil) != nil || ss.SignatureFromBytes(make([]byte, 100000)) != nil {
				return "accepted"
			}
			return ""
		})
		for _, k2 := range order {
			if k2 == k {
				continue
			}
			d := CV[k2]
			y("Verify by a key of "+k2, func() string {
				sig := ss.SignatureFromBytes(base)
				if sig == nil {
					return "nil"
				}
				ok := false
				try(func() { ok = sig.Verify(d.pt(d.mul(d.G, N(5))), msg) })
				if ok {
					return "accepted"
				}
				return ""
			})
		}
		y("nil", func() string {
			sig := ss.SignatureFromBytes(base)
			var no *ecgo.ECDSASignature
			var nss *ecgo.ECDSASignatureScheme
			for i, f := range []func(){func() { sig.Verify(nil, msg) }, func() { no.Verify(c.pt(c.G), msg) }, func() { no.AsBytes() }, func() { ss.Sign(nil, msg) }, func() { nss.Sign(N(1), msg) }, func() { nss.SignatureFromBytes(base) }, func() { ecgo.NewECDSASignatureScheme(nil, h.mk()) }, func() { ecgo.NewECDSASignatureScheme(c.obj(), nil) }} {
				if try(f) == "" {
					return fmt.Sprint("accepted: ", i)
				}
			}
			if !sig.Verify(c.pt(c.mul(c.G, N(5))), msg) {
				return "the signature no longer verifies"
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- ElGamal
func elgamal(k string) func(y yield) {
	return func(y yield) {
		c := CV[k]
		ps := points(c)
		keys := append(signKeys(c), N(0), c.n)
		for _, x := range keys {
			for _, M := range ps {
				x, M := x, M
				y(fmt.Sprintf("Encrypt,Decrypt(%s) of %v", short(x), M), func() string {
					Q := c.mul(c.G, mod(x, c.n))
					s := snap(x)
					for own := 0; own < 2; own++ {
						q, m := c.pt(Q), c.pt(M)
						if own == 1 {
							m = c.ptOn(M, c.mk())
						}
						ct := ecgo.ECElgamalEncrypt(q, m)
						if ct == nil {
							if Q.eq(c.zero()) {
								return ""
							}
							return "refused"
						}
						if e := first(c.is(ct.Decrypt(x), M), s(), c.is(q, Q), c.is(m, M), c.is(ct.Decrypt(x), M)); e != "" {
							return e
						}
						C, D := ct.C(), ct.D()
						if C.IsNeutral() {
							continue
						}
						cx, cy := C.Affine()
						CP := Pt{cx, cy, false}
						if !c.on(cx, cy) {
							return "C is not on the curve"
						}
						want := c.add(M, c.mul(CP, mod(x, c.n)))
						if e := c.is(D, want); e != "" {
							return "D " + e
						}
						again := ecgo.NewECElgamalCiphertext(C, D)
						if again == nil {
							return "ciphertext refused"
						}
						C.Neg(C)
						if e := first(c.is(again.Decrypt(x), M), c.is(ct.C(), CP), c.is(again.C(), CP), c.is(again.D(), want)); e != "" {
							return e
						}
					}
					return ""
				})
			}
		}
		for _, A := range ps {
			for _, B := range ps {
				for _, x := range keys {
					A, B, x := A, B, x
					y(fmt.Sprintf("Decrypt(%v,%v) with %s", A, B, short(x)), func() string {
						s := snap(x)
						for own := 0; own < 3; own++ {
							a, b := c.pt(A), c.pt(B)
							if own == 1 {
								b = c.ptOn(B, c.mk())
							} else if own == 2 && c.p.BitLen() > 64 && !thorough && !A.eq(B) {
								continue
							} else if own == 2 {
								a = c.ptOn(A, c.mk())
								b.SetupBaseMul()
								a.SetupBaseMul()
							}
							ct := ecgo.NewECElgamalCiphertext(a, b)
							if ct == nil {
								return "nil"
							}
							w := c.add(B, c.neg(c.mul(A, mod(x, c.n))))
							if e := first(c.is(ct.Decrypt(x), w), s(), c.is(a, A), c.is(b, B), c.is(ct.C(), A), c.is(ct.D(), B)); e != "" {
								return e
							}
							// the ciphertext holds copies
							a.Neg(a)
							b.Neg(b)
							if e := first(c.is(ct.C(), A), c.is(ct.D(), B), c.is(ct.Decrypt(x), w)); e != "" {
								return e
							}
							cc := ct.C()
							cc.Neg(cc)
							if e := c.is(ct.C(), A); e != "" {
								return e
							}
						}
						return ""
					})
				}
			}
		}
		for _, k2 := range order {
			if k2 == k {
				continue
			}
			d := CV[k2]
			y("across curves with "+k2, func() string {
				for i, f := range []func() *ecgo.ECElgamalCiphertext{func() *ecgo.ECElgamalCiphertext { return ecgo.ECElgamalEncrypt(c.pt(c.G), d.pt(d.G)) }, func() *ecgo.ECElgamalCiphertext { return ecgo.NewECElgamalCiphertext(c.pt(c.G), d.pt(d.G)) }} {
					var r *ecgo.ECElgamalCiphertext
					if try(func() { r = f() }) == "" && r != nil {
						return fmt.Sprint("accepted ", i)
					}
				}
				return ""
			})
		}
		y("nil", func() string {
			q := c.pt(c.G)
			var no *ecgo.ECElgamalCiphertext
			for i, f := range []func(){func() { ecgo.ECElgamalEncrypt(q, nil) }, func() { ecgo.ECElgamalEncrypt(nil, q) }, func() { ecgo.NewECElgamalCiphertext(nil, q) }, func() { ecgo.NewECElgamalCiphertext(q, nil) }, func() { no.Decrypt(N(1)) }, func() { no.C() }, func() { no.D() }, func() { ecgo.NewECElgamalCiphertext(q, q).Decrypt(nil) }} {
				if try(f) == "" {
					return fmt.Sprint("accepted: ", i)
				}
			}
			return ""
		})
	}
}

func valueUnits() []Unit {
	var u []Unit
	for _, k := range order {
		if CV[k].p.BitLen() > 64 {
			u = append(u, Unit{"points of " + k + " operations", pointOps(k)})
		}
	}
	for _, k := range order {
		if CV[k].p.BitLen() <= 64 {
			u = append(u, Unit{"points of " + k + " operations", pointOps(k)})
		}
		u = append(u, Unit{"points of " + k + " constructors", pointNew(k)}, Unit{"elgamal on " + k, elgamal(k)})
		for i, h := range hashes {
			if i > 0 && !thorough && k != "secp256k1" && k != "small-ws" {
				continue
			}
			u = append(u, Unit{"sign on " + k + " with " + h.name, signing(k, h)}, Unit{"verify on " + k + " with " + h.name, verifying(k, h)})
		}
		u = append(u, Unit{"curve " + k, curveCtor(k)})
	}
	u = append(u, Unit{"field constructors", fieldNew}, Unit{"curve names", curveNames})
	for _, m := range append(append([]*big.Int{}, primes...), composites...) {
		u = append(u, Unit{"field " + short(m), fieldOps(m)})
	}
	return u
}
