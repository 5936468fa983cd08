// N01, part two: the collector runs, and finalizers with it, at chosen boundaries between Go and C and between steps.
package main

// void vp_arm(int on);
// unsigned long vp_bytes(void);
import "C"

import (
	"ecgo"
	"fmt"
	"math/big"
	"runtime"
	"runtime/debug"
	"strings"
)

var boundary, only int // boundaries passed; the one at which to collect (-1: none, 0: all)
var collections int64

//export vpBoundary
func vpBoundary() {
	boundary++
	if only == 0 || only == boundary {
		drain(2)
	}
}

// drain collects and waits for finalizers; an object is released one round after the object that refers to it
func drain(rounds int) {
	collections++
	for i := 0; i < rounds+1; i++ {
		ch := make(chan int, 1)
		sentinel(ch)
		runtime.GC()
		<-ch
	}
}

//go:noinline
func sentinel(ch chan int) {
	s := new([64]byte)
	runtime.SetFinalizer(s, func(*[64]byte) { ch <- 1 })
}
func arm()            { C.vp_arm(1) }
func off()            { C.vp_arm(0) }
func bytesNow() int64 { return int64(C.vp_bytes()) }

func init() { debug.SetGCPercent(-1) }

// gcOp: f arms, performs the call, disarms and judges the result
type gcOp struct {
	name string
	f    func() string
}

func show(z *ecgo.FieldElement) string { return z.AsInt().String() + "/" + z.Order().String() }
func eqs(g, w string) string {
	if g != w {
		return "is " + g + ", should be " + w
	}
	return ""
}
func fieldGC() []gcOp {
	m := P2(127, -1)
	var l []gcOp
	o := func(n string, f func() string) { l = append(l, gcOp{n, f}) }
	fv := func(f func() *ecgo.FieldElement, want *big.Int) func() string {
		return func() string {
			arm()
			r := f()
			off()
			return feIs(r, want, m)
		}
	}
	sv := func(f func() string, want string) func() string {
		return func() string {
			arm()
			r := f()
			off()
			return eqs(r, want)
		}
	}
	o("NewFieldElement", fv(func() *ecgo.FieldElement { return fe(neg(P2(200, 1)), m) }, mod(neg(P2(200, 1)), m)))
	o("NewFieldElementUI", fv(func() *ecgo.FieldElement { return ecgo.NewFieldElementUI(5, m) }, N(5)))
	o("NewFieldElementURandom", sv(func() string { return ecgo.NewFieldElementURandom(m).Order().String() }, m.String()))
	o("Add", fv(func() *ecgo.FieldElement { return fe(N(1), m).Add(fe(N(3), m), fe(P2(126, 0), m)) }, mod(add(N(3), P2(126, 0)), m)))
	o("Sub", fv(func() *ecgo.FieldElement { return fe(N(1), m).Sub(fe(N(3), m), fe(N(5), m)) }, sub(m, N(2))))
	o("Mul", fv(func() *ecgo.FieldElement { return fe(N(1), m).Mul(fe(P2(100, 0), m), fe(P2(100, 0), m)) }, mod(P2(200, 0), m)))
	o("Neg", fv(func() *ecgo.FieldElement { return fe(N(1), m).Neg(fe(N(5), m)) }, sub(m, N(5))))
	o("Inv", fv(func() *ecgo.FieldElement { r, _ := fe(N(1), m).Inv(fe(N(5), m)); return r }, inv(N(5), m)))
	o("Inv of nothing", sv(func() string { _, err := fe(N(1), m).Inv(fe(N(0), m)); return fmt.Sprint(err != nil) }, "true"))
	o("Sqrt", sv(func() string {
		r, _ := fe(N(1), m).Sqrt(fe(N(4), m))
		return fe(N(1), m).Mul(r, r).AsInt().String()
	}, "4"))
	o("Sqrt of a non-residue", sv(func() string { _, err := fe(N(1), m).Sqrt(fe(sub(m, N(1)), m)); return fmt.Sprint(err != nil) }, "true"))
	o("Exp", fv(func() *ecgo.FieldElement { return fe(N(1), m).Exp(fe(N(2), m), 200) }, mod(P2(200, 0), m)))
	o("AsInt", sv(func() string { return fe(P2(100, 7), m).AsInt().String() }, P2(100, 7).String()))
	o("Order", sv(func() string { return fe(N(1), m).Order().String() }, m.String()))
	o("Cmp", sv(func() string { return fmt.Sprint(fe(P2(100, 1), m).Cmp(fe(P2(100, 1), m))) }, "0"))
	o("Bit", sv(func() string { return fmt.Sprint(fe(P2(100, 0), m).Bit(100), fe(P2(100, 0), m).Bit(99)) }, "1 0"))
	o("refused", sv(func() string { return try(func() { fe(N(1), m).Add(fe(N(1), m), fe(N(1), N(7))) })[:5] }, "panic"))
	return l
}
func curveGC(c *Cv) []gcOp {
	var l []gcOp
	o := func(n string, f func() string) { l = append(l, gcOp{n, f}) }
	five, seven := c.mul(c.G, N(5)), c.mul(c.G, N(7))
	pv := func(f func() *ecgo.Point, want Pt) func() string {
		return func() string {
			arm()
			r := f()
			off()
			return c.is(r, want)
		}
	}
	sv := func(f func() string, want string) func() string {
		return func() string {
			arm()
			r := f()
			off()
			return eqs(r, want)
		}
	}
	// every point over a curve object of its own that nobody else holds
	mk := func(P Pt) *ecgo.Point { return c.ptOn(P, c.mk()) }
	hx := func(b []byte) string { return fmt.Sprintf("%x", b) }
	o("constructor", func() string { arm(); r := c.mk(); off(); return curveIs(r, c) })
	for _, a := range []string{"p", "n", "h", "gx", "gy", "bits", attrsOf[c.form][0], attrsOf[c.form][1], "none"} {
		a := a
		w := map[string]*big.Int{"p": c.p, "n": c.n, "h": c.h, "gx": c.G.X, "gy": c.G.Y, "bits": N(int64(c.bits)), attrsOf[c.form][0]: c.a, attrsOf[c.form][1]: c.b}[a]
		o("GetAttr "+a, sv(func() string { return fmt.Sprint(c.mk().GetAttr(a)) }, fmt.Sprint(w)))
	}
	o("Type", sv(func() string { return fmt.Sprint(c.mk().Type() == c.obj().Type()) }, "true"))
	o("Curve.Cmp", sv(func() string { return fmt.Sprint(c.mk().Cmp(c.mk())) }, "0"))
	o("PointCheck", sv(func() string { return fmt.Sprint(c.mk().PointCheck(c.G.X, c.G.Y), c.mk().PointCheck(c.G.X, N(-1))) }, "true false"))
	o("NewPointXY", pv(func() *ecgo.Point { return mk(c.G) }, c.G))
	o("NewPointXY refused", func() string {
		arm()
		r := ecgo.NewPointXY(c.G.X, add(c.G.Y, N(1)), c.mk())
		off()
		if r != nil {
			return "accepted"
		}
		return ""
	})
	o("NewPointNeutral", pv(func() *ecgo.Point { return ecgo.NewPointNeutral(c.mk()) }, c.zero()))
	o("NewPointGenerator", pv(func() *ecgo.Point { return ecgo.NewPointGenerator(c.mk()) }, c.G))
	o("NewPointURandom", func() string {
		arm()
		r := ecgo.NewPointURandom(c.mk())
		off()
		r.BytesCompressed()
		return ""
	})
	o("NewPointFromBytes", pv(func() *ecgo.Point { return ecgo.NewPointFromBytes(c.enc(five, true), c.mk()) }, five))
	o("NewPointFromString", pv(func() *ecgo.Point { return ecgo.NewPointFromString(hx(c.enc(five, false)), c.mk()) }, five))
	o("NewPointFromBytes refused", sv(func() string { return fmt.Sprint(ecgo.NewPointFromBytes([]byte{9, 9}, c.mk()) == nil) }, "true"))
	o("NewPointFromString refused", sv(func() string { return fmt.Sprint(ecgo.NewPointFromString("xx", c.mk()) == nil) }, "true"))
	o("Affine", sv(func() string { x, y := mk(five).Affine(); return x.String() + y.String() }, five.X.String()+five.Y.String()))
	o("Affine of a sum", sv(func() string {
		q := mk(c.G)
		x, y := mk(c.G).Add(q, mk(c.mul(c.G, N(4)))).Affine()
		return x.String() + y.String()
	}, five.X.String()+five.Y.String()))
	o("IsNeutral", sv(func() string { return fmt.Sprint(mk(five).IsNeutral(), mk(c.zero()).IsNeutral()) }, "false true"))
	o("StringCompressed", sv(func() string { return fmt.Sprint(len(mk(five).StringCompressed())) }, fmt.Sprint(2*(1+c.L))))
	o("StringUncompressed", sv(func() string { return fmt.Sprint(len(mk(five).StringUncompressed())) }, fmt.Sprint(2*(1+2*c.L))))
	o("BytesCompressed", sv(func() string { return hx(mk(five).BytesCompressed()) }, hx(c.enc(five, true))))
	o("BytesUncompressed", sv(func() string { return hx(mk(five).BytesUncompressed()) }, hx(c.enc(five, false))))
	o("Point.Cmp", sv(func() string { return fmt.Sprint(mk(five).Cmp(mk(five))) }, "0"))
	o("Point.Add", pv(func() *ecgo.Point { return mk(c.G).Add(mk(five), mk(seven)) }, c.mul(c.G, N(12))))
	o("Point.Add identity", pv(func() *ecgo.Point { return mk(c.G).Add(mk(c.zero()), mk(seven)) }, seven))
	o("Point.Add to identity", pv(func() *ecgo.Point { return mk(c.G).Add(mk(seven), mk(c.zero())) }, seven))
	o("Point.Add itself", pv(func() *ecgo.Point { q := mk(five); return mk(c.G).Add(q, q) }, c.mul(c.G, N(10))))
	o("Point.Sub", pv(func() *ecgo.Point { return mk(c.G).Sub(mk(seven), mk(five)) }, c.mul(c.G, N(2))))
	o("Point.Neg", pv(func() *ecgo.Point { return mk(c.G).Neg(mk(five)) }, c.neg(five)))
	o("Point.Set", pv(func() *ecgo.Point { return mk(c.G).Set(mk(five)) }, five))
	o("Point.Set based", pv(func() *ecgo.Point { q := mk(five); q.SetupBaseMul(); return mk(c.G).Set(q) }, five))
	o("Point.Mul", pv(func() *ecgo.Point { return mk(c.G).Mul(mk(c.G), N(-5)) }, c.neg(five)))
	o("Point.Mul based", pv(func() *ecgo.Point { q := mk(c.G); q.SetupBaseMul(); return mk(five).Mul(q, N(7)) }, seven))
	o("SetupBaseMul", sv(func() string { mk(five).SetupBaseMul(); return "" }, ""))
	h := hashes[0]
	msg := []byte("m")
	sch := func() *ecgo.ECDSASignatureScheme { return ecgo.NewECDSASignatureScheme(c.mk(), h.mk()) }
	kq := c.mul(c.G, N(3))
	r0 := mod(kq.X, c.n)
	var s0 *big.Int
	good := false
	for _, m := range []string{"m", "n", "o", "q", "r", "t"} {
		msg = []byte(m)
		s0 = mod(mul(inv(N(3), c.n), add(c.e(digest(h, msg)), mul(r0, N(5)))), c.n)
		if good = r0.Sign() > 0 && s0.Sign() > 0 && c.verifies(five, digest(h, msg), r0, s0); good {
			break
		}
	}
	if good {
		b := c.sigBytes(r0, s0)
		o("Sign", sv(func() string { return fmt.Sprint(sch().Sign(N(5), msg).Verify(mk(five), msg)) }, "true"))
		o("SignatureFromBytes, Verify", sv(func() string { return fmt.Sprint(sch().SignatureFromBytes(b).Verify(mk(five), msg)) }, "true"))
		o("AsBytes", sv(func() string { return hx(sch().SignatureFromBytes(b).AsBytes()) }, hx(b)))
		o("Verify other", sv(func() string {
			return fmt.Sprint(sch().SignatureFromBytes(b).Verify(mk(seven), msg) == c.verifies(seven, digest(h, msg), r0, s0))
		}, "true"))
		o("SignatureFromBytes refused", sv(func() string { return fmt.Sprint(sch().SignatureFromBytes(b[1:]) == nil) }, "true"))
	}
	o("Encrypt, Decrypt", pv(func() *ecgo.Point { return ecgo.ECElgamalEncrypt(mk(five), mk(seven)).Decrypt(N(5)) }, seven))
	o("NewECElgamalCiphertext, Decrypt", pv(func() *ecgo.Point { return ecgo.NewECElgamalCiphertext(mk(c.G), mk(five)).Decrypt(N(2)) }, c.mul(c.G, N(3))))
	o("C", pv(func() *ecgo.Point { return ecgo.NewECElgamalCiphertext(mk(c.G), mk(five)).C() }, c.G))
	o("D", pv(func() *ecgo.Point { return ecgo.NewECElgamalCiphertext(mk(c.G), mk(five)).D() }, five))
	o("Encrypt refused", sv(func() string {
		d := CV["small-ws"]
		if d == c {
			d = CV["small-te"]
		}
		var r *ecgo.ECElgamalCiphertext
		try(func() { r = ecgo.ECElgamalEncrypt(mk(five), d.ptOn(d.G, d.mk())) })
		return fmt.Sprint(r == nil)
	}, "true"))
	return l
}

// one operation, with collections at every boundary, then at each boundary alone
func gcUnit(ops []gcOp) func(y yield) {
	return func(y yield) {
		for _, op := range ops {
			op := op
			run := func(at int) string {
				boundary, only = 0, at
				defer off()
				e := op.f()
				if e != "" {
					return e
				}
				drain(2)
				return ""
			}
			y(op.name+" with a collection at every boundary", func() string { return run(0) })
			n := 0
			y(op.name+" without collections", func() string { e := run(-1); n = boundary; return e })
			if n == 0 { // skipped by the runner: count all the same
				run(-1)
				n = boundary
			}
			for i := 1; i <= n; i++ {
				i := i
				if n > 60 && !thorough && i%7 != 1 {
					continue
				}
				y(fmt.Sprintf("%s with a collection at boundary %d", op.name, i), func() string { return run(i) })
			}
		}
	}
}

// ---------------------------------------------------------------- graphs of objects
type obj struct {
	kind string // pt cv sc sg ct fe rnd
	o    interface{}
	P, Q Pt
	v    *big.Int
}
type deriv struct {
	name string
	ops  []string
	f    func(a []*obj) *obj
}

var gmsg = []byte("m")

func derivs(c *Cv) []deriv {
	h := hashes[2]
	pt := func(o *obj) *ecgo.Point { return o.o.(*ecgo.Point) }
	cv := func(o *obj) *ecgo.Curve { return o.o.(*ecgo.Curve) }
	np := func(o *ecgo.Point, P Pt) *obj { return &obj{kind: "pt", o: o, P: P} }
	fresh := func() *ecgo.Point { return ecgo.NewPointGenerator(c.mk()) }
	return []deriv{
		{"a+b", []string{"pt", "pt"}, func(a []*obj) *obj { return np(fresh().Add(pt(a[0]), pt(a[1])), c.add(a[0].P, a[1].P)) }},
		{"a-b", []string{"pt", "pt"}, func(a []*obj) *obj { return np(fresh().Sub(pt(a[0]), pt(a[1])), c.add(a[0].P, c.neg(a[1].P))) }},
		{"-a", []string{"pt"}, func(a []*obj) *obj { return np(fresh().Neg(pt(a[0])), c.neg(a[0].P)) }},
		{"set", []string{"pt"}, func(a []*obj) *obj { return np(fresh().Set(pt(a[0])), a[0].P) }},
		{"3a", []string{"pt"}, func(a []*obj) *obj { return np(fresh().Mul(pt(a[0]), N(3)), c.mul(a[0].P, N(3))) }},
		{"0a", []string{"pt"}, func(a []*obj) *obj { return np(fresh().Mul(pt(a[0]), N(0)), c.zero()) }},
		{"5a by table", []string{"pt"}, func(a []*obj) *obj {
			pt(a[0]).SetupBaseMul()
			return np(fresh().Mul(pt(a[0]), N(5)), c.mul(a[0].P, N(5)))
		}},
		{"xy", []string{"cv"}, func(a []*obj) *obj { return np(ecgo.NewPointXY(c.G.X, c.G.Y, cv(a[0])), c.G) }},
		{"neutral", []string{"cv"}, func(a []*obj) *obj { return np(ecgo.NewPointNeutral(cv(a[0])), c.zero()) }},
		{"bytes", []string{"cv"}, func(a []*obj) *obj { return np(ecgo.NewPointFromBytes(c.enc(c.G, true), cv(a[0])), c.G) }},
		{"string", []string{"cv"}, func(a []*obj) *obj {
			return np(ecgo.NewPointFromString(fmt.Sprintf("%x", c.enc(c.G, false)), cv(a[0])), c.G)
		}},
		{"urandom", []string{"cv"}, func(a []*obj) *obj { return &obj{kind: "rnd", o: ecgo.NewPointURandom(cv(a[0]))} }},
		{"scheme", []string{"cv"}, func(a []*obj) *obj { return &obj{kind: "sc", o: ecgo.NewECDSASignatureScheme(cv(a[0]), h.mk())} }},
		{"sign", []string{"sc"}, func(a []*obj) *obj { return &obj{kind: "sg", o: a[0].o.(*ecgo.ECDSASignatureScheme).Sign(N(5), gmsg)} }},
		{"import", []string{"sc"}, func(a []*obj) *obj {
			return &obj{kind: "sg", v: N(3), o: a[0].o.(*ecgo.ECDSASignatureScheme).SignatureFromBytes(c.sigBytes(N(3), N(4)))}
		}},
		{"ciphertext", []string{"pt", "pt"}, func(a []*obj) *obj {
			return &obj{kind: "ct", o: ecgo.NewECElgamalCiphertext(pt(a[0]), pt(a[1])), P: a[0].P, Q: a[1].P}
		}},
		{"encrypt", []string{"pt", "pt"}, func(a []*obj) *obj {
			r := ecgo.ECElgamalEncrypt(pt(a[0]), pt(a[1]))
			if r == nil {
				return nil
			}
			return &obj{kind: "rnd", o: r.C()}
		}},
		{"C", []string{"ct"}, func(a []*obj) *obj { return np(a[0].o.(*ecgo.ECElgamalCiphertext).C(), a[0].P) }},
		{"D", []string{"ct"}, func(a []*obj) *obj { return np(a[0].o.(*ecgo.ECElgamalCiphertext).D(), a[0].Q) }},
		{"decrypt", []string{"ct"}, func(a []*obj) *obj {
			return np(a[0].o.(*ecgo.ECElgamalCiphertext).Decrypt(N(3)), c.add(a[0].Q, c.neg(c.mul(a[0].P, N(3)))))
		}},
	}
}
func useObj(c *Cv, x *obj, all []*obj) string {
	switch x.kind {
	case "pt":
		o := x.o.(*ecgo.Point)
		e := c.is(o, x.P)
		if e != "" {
			return e
		}
		t := ecgo.NewPointNeutral(c.mk())
		if e = first(c.is(t.Add(o, o), c.add(x.P, x.P)), c.is(t.Mul(o, N(2)), c.mul(x.P, N(2))), c.is(t.Neg(o), c.neg(x.P)), c.is(t.Set(o), x.P), c.is(o, x.P)); e != "" {
			return "used: " + e
		}
		for _, y := range all {
			if y != nil && y.kind == "pt" {
				if e = c.is(t.Add(o, y.o.(*ecgo.Point)), c.add(x.P, y.P)); e != "" {
					return "added: " + e
				}
			}
		}
	case "rnd":
		o := x.o.(*ecgo.Point)
		if o == nil {
			return "nil"
		}
		t := ecgo.NewPointNeutral(c.mk())
		if !o.IsNeutral() {
			a, b := o.Affine()
			if !c.on(a, b) {
				return "not on the curve"
			}
		}
		o.StringCompressed()
		return c.is(t.Sub(o, o), c.zero())
	case "cv":
		o := x.o.(*ecgo.Curve)
		return first(curveIs(o, c), c.is(ecgo.NewPointGenerator(o), c.G))
	case "sc":
		o := x.o.(*ecgo.ECDSASignatureScheme)
		s := o.Sign(N(2), gmsg)
		if s == nil || !s.Verify(c.pt(c.mul(c.G, N(2))), gmsg) {
			return "does not sign"
		}
	case "sg":
		o := x.o.(*ecgo.ECDSASignature)
		if o == nil {
			return "nil"
		}
		b := o.AsBytes()
		L := len(b) / 2
		r, s := new(big.Int).SetBytes(b[:L]), new(big.Int).SetBytes(b[L:])
		if x.v != nil && r.Cmp(x.v) != 0 {
			return "value changed"
		}
		Q := c.mul(c.G, N(5))
		if o.Verify(c.pt(Q), gmsg) != c.verifies(Q, digest(hashes[2], gmsg), r, s) {
			return "verification changed"
		}
	case "ct":
		o := x.o.(*ecgo.ECElgamalCiphertext)
		if o == nil {
			return "nil"
		}
		return first(c.is(o.C(), x.P), c.is(o.D(), x.Q), c.is(o.Decrypt(N(2)), c.add(x.Q, c.neg(c.mul(x.P, N(2))))))
	}
	return ""
}

type step struct {
	d   deriv
	idx []int
}

//go:noinline
func buildGraph(c *Cv, steps []step) []*obj {
	a, b := c.mk(), c.mk()
	two := c.mul(c.G, N(2))
	r := []*obj{{kind: "cv", o: a}, {kind: "cv", o: b}, {kind: "pt", o: c.ptOn(c.G, a), P: c.G}, {kind: "pt", o: c.ptOn(two, b), P: two}, {kind: "pt", o: ecgo.NewPointNeutral(a), P: c.zero()}}
	for _, s := range steps {
		var ops []*obj
		for _, i := range s.idx {
			ops = append(ops, r[i])
		}
		r = append(r, s.d.f(ops))
	}
	return r
}
func kindOf(d deriv) string {
	switch d.name {
	case "urandom", "encrypt":
		return "rnd"
	case "scheme":
		return "sc"
	case "sign", "import":
		return "sg"
	case "ciphertext":
		return "ct"
	}
	return "pt"
}
func graphs(c *Cv, depth int, f func(steps []step, name string)) {
	ds := derivs(c)
	var rec func(steps []step, kinds []string, name string)
	rec = func(steps []step, kinds []string, name string) {
		if len(steps) == depth {
			f(append([]step{}, steps...), name)
			return
		}
		for _, d := range ds {
			idx := make([]int, len(d.ops))
			var pick func(k int)
			pick = func(k int) {
				if k == len(d.ops) {
					if len(steps) > 0 {
						uses := false
						for _, i := range idx {
							uses = uses || i == len(kinds)-1
						}
						if !uses {
							return
						}
					}
					rec(append(steps, step{d, append([]int{}, idx...)}), append(append([]string{}, kinds...), kindOf(d)), name+fmt.Sprint(d.name, idx, " "))
					return
				}
				for i, kk := range kinds {
					if kk == d.ops[k] {
						idx[k] = i
						pick(k + 1)
					}
				}
			}
			pick(0)
		}
	}
	rec(nil, []string{"cv", "cv", "pt", "pt", "pt"}, "")
}
func graphUnit(c *Cv, depth int, part, parts int) func(y yield) {
	return func(y yield) {
		cnt := 0
		graphs(c, depth, func(steps []step, name string) {
			cnt++
			if cnt%parts != part {
				return
			}
			n := 5 + depth
			for keep := 1; keep < 1<<n; keep++ {
				if depth > 1 && keep&(keep-1) != 0 {
					// at depth two: single survivors, and the last one with one other
					r := keep &^ (1 << (n - 1))
					if keep == r || r&(r-1) != 0 {
						continue
					}
				}
				keep := keep
				y(fmt.Sprintf("%skeeping %b", name, keep), func() string {
					objs := buildGraph(c, steps)
					for i := range objs {
						if keep>>i&1 == 0 {
							objs[i] = nil
						}
					}
					drain(2)
					for i, x := range objs {
						if x == nil {
							continue
						}
						if e := useObj(c, x, objs); e != "" {
							return fmt.Sprintf("object %d: %s", i, e)
						}
					}
					return ""
				})
			}
		})
	}
}
func gcUnits() []Unit {
	u := []Unit{{"collections in field operations", gcUnit(fieldGC())}}
	for _, k := range order {
		if !thorough && (k == "secp256k1" || k == "Ed25519") {
			continue
		}
		u = append(u, Unit{"collections in curve operations of " + k, gcUnit(curveGC(CV[k]))})
	}
	ks := []string{"small-ws", "small-te"}
	if thorough {
		ks = []string{"small-ws", "small-te", "small-ed", "small-mo"}
	}
	for _, k := range ks {
		for i := 0; i < 4; i++ {
			u = append(u, Unit{fmt.Sprintf("graphs of one derivation on %s part %d", k, i), graphUnit(CV[k], 1, i, 4)})
			u = append(u, Unit{fmt.Sprintf("graphs of two derivations on %s part %d", k, i), graphUnit(CV[k], 2, i, 4)})
		}
	}
	return u
}

// ---------------------------------------------------------------- N02: what is allocated is released
// settled is the size of the C heap once collections change nothing any more
func settled() int64 {
	b, same := int64(-1), 0
	for i := 0; i < 40 && same < 3; i++ {
		drain(0)
		if n := bytesNow(); n == b {
			same++
		} else {
			b, same = n, 0
		}
	}
	return b
}
func balanceUnit(g func(y yield)) func(y yield) {
	return func(y yield) {
		type cs struct {
			name string
			f    func() string
		}
		var chunk []cs
		measure := func(fs []cs, n int) int64 {
			b := settled()
			for i := 0; i < n; i++ {
				for _, c := range fs {
					try(func() { c.f() })
				}
			}
			return settled() - b
		}
		flush := func() {
			fs := chunk
			chunk = nil
			if len(fs) == 0 {
				return
			}
			y(fmt.Sprintf("%d operations from %s", len(fs), fs[0].name), func() string {
				measure(fs, 1)
				if measure(fs, 1) < 8 {
					return ""
				}
				for _, c := range fs {
					one := []cs{c}
					measure(one, 2)
					leak := int64(0)
					for i := 0; i < 3; i++ {
						g := measure(one, 16)
						leak = g / 16
						if g < 16*8 {
							leak = 0
							break
						}
					}
					if leak > 0 {
						return fmt.Sprintf("%s: every call leaves about %d bytes allocated", c.name, leak)
					}
				}
				return ""
			})
		}
		g(func(name string, f func() string) {
			if strings.HasPrefix(name, "nil") { // misuse that ends in a recovered panic
				return
			}
			chunk = append(chunk, cs{name, f})
			if len(chunk) == 40 {
				flush()
			}
		})
		flush()
	}
}
