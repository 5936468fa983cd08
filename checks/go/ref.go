// Textbook reference on math/big: fields, the four curve forms, encodings, ECDSA.
package main

import (
	"crypto/md5"
	"crypto/sha256"
	"crypto/sha512"
	"ecgo"
	"fmt"
	"hash"
	"math/big"
)

func N(v int64) *big.Int { return big.NewInt(v) }
func P2(k uint, d int64) *big.Int {
	return new(big.Int).Add(new(big.Int).Lsh(N(1), k), N(d))
}
func neg(v *big.Int) *big.Int    { return new(big.Int).Neg(v) }
func cp(v *big.Int) *big.Int     { return new(big.Int).Set(v) }
func mod(v, p *big.Int) *big.Int { return new(big.Int).Mod(v, p) }
func mul(v ...*big.Int) *big.Int {
	r := N(1)
	for _, x := range v {
		r.Mul(r, x)
	}
	return r
}
func add(v ...*big.Int) *big.Int {
	r := N(0)
	for _, x := range v {
		r.Add(r, x)
	}
	return r
}
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func inv(a, p *big.Int) *big.Int { return new(big.Int).ModInverse(mod(a, p), p) }

// Pt is a reference point; O marks an identity without coordinates
type Pt struct {
	X, Y *big.Int
	O    bool
}

func (a Pt) eq(b Pt) bool {
	if a.O || b.O {
		return a.O == b.O
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}
func (a Pt) String() string {
	if a.O {
		return "O"
	}
	return fmt.Sprintf("(%s,%s)", short(a.X), short(a.Y))
}
func short(v *big.Int) string {
	if v.BitLen() < 20 {
		return v.String()
	}
	s := v.Text(16)
	return fmt.Sprintf("%s..%s:%d", s[:3], s[len(s)-3:], v.BitLen())
}

type Cv struct {
	name          string
	form          string // ws ed mo te
	p, a, b, n, h *big.Int
	G             Pt
	bits          uint
	L             int
}

func (c *Cv) zero() Pt {
	switch c.form {
	case "ed":
		return Pt{N(0), cp(c.a), false}
	case "te":
		return Pt{N(0), N(1), false}
	}
	return Pt{nil, nil, true}
}
func (c *Cv) on(x, y *big.Int) bool {
	x, y = mod(x, c.p), mod(y, c.p)
	xx, yy := mul(x, x), mul(y, y)
	var d *big.Int
	switch c.form {
	case "ws":
		d = sub(yy, add(mul(xx, x), mul(c.a, x), c.b))
	case "ed":
		d = sub(add(xx, yy), mul(c.a, c.a, add(N(1), mul(c.b, xx, yy))))
	case "mo":
		d = sub(mul(c.a, yy), add(mul(xx, x), mul(c.b, xx), x))
	default:
		d = sub(add(mul(c.a, xx), yy), add(N(1), mul(c.b, xx, yy)))
	}
	return mod(d, c.p).Sign() == 0
}
func (c *Cv) neg(P Pt) Pt {
	if P.O {
		return P
	}
	if c.form == "ws" || c.form == "mo" {
		return Pt{P.X, mod(neg(P.Y), c.p), false}
	}
	return Pt{mod(neg(P.X), c.p), P.Y, false}
}
func (c *Cv) add(P, Q Pt) Pt {
	p, a, b := c.p, c.a, c.b
	if c.form == "ws" || c.form == "mo" {
		if P.O {
			return Q
		}
		if Q.O {
			return P
		}
		A, B := N(0), N(1)
		if c.form == "mo" {
			A, B = b, a
		}
		var l *big.Int
		if P.X.Cmp(Q.X) == 0 {
			if mod(add(P.Y, Q.Y), p).Sign() == 0 {
				return Pt{nil, nil, true}
			}
			if c.form == "ws" {
				l = mul(add(mul(N(3), P.X, P.X), a), inv(mul(N(2), P.Y), p))
			} else {
				l = mul(add(mul(N(3), P.X, P.X), mul(N(2), A, P.X), N(1)), inv(mul(N(2), B, P.Y), p))
			}
		} else {
			l = mul(sub(Q.Y, P.Y), inv(sub(Q.X, P.X), p))
		}
		l = mod(l, p)
		x := mod(sub(sub(sub(mul(B, l, l), A), P.X), Q.X), p)
		return Pt{x, mod(sub(mul(l, sub(P.X, x)), P.Y), p), false}
	}
	t := mod(mul(b, P.X, Q.X, P.Y, Q.Y), p)
	if c.form == "ed" {
		return Pt{mod(mul(add(mul(P.X, Q.Y), mul(P.Y, Q.X)), inv(mul(a, add(N(1), t)), p)), p), mod(mul(sub(mul(P.Y, Q.Y), mul(P.X, Q.X)), inv(mul(a, sub(N(1), t)), p)), p), false}
	}
	return Pt{mod(mul(add(mul(P.X, Q.Y), mul(P.Y, Q.X)), inv(add(N(1), t), p)), p), mod(mul(sub(mul(P.Y, Q.Y), mul(a, P.X, Q.X)), inv(sub(N(1), t), p)), p), false}
}

var memo = map[string]Pt{}

func (c *Cv) mul(P Pt, k *big.Int) Pt {
	if k.Sign() < 0 {
		return c.mul(c.neg(P), neg(k))
	}
	key := c.name + P.String() + "*" + k.Text(36)
	if !P.O {
		key += P.X.Text(36) + "," + P.Y.Text(36)
	}
	if r, ok := memo[key]; ok {
		return r
	}
	R := c.zero()
	for i := k.BitLen() - 1; i >= 0; i-- {
		R = c.add(R, R)
		if k.Bit(i) == 1 {
			R = c.add(R, P)
		}
	}
	memo[key] = R
	return R
}
func (c *Cv) enc(P Pt, compress bool) []byte {
	n := 1 + 2*c.L
	if compress {
		n = 1 + c.L
	}
	b := make([]byte, n)
	if P.O {
		return b
	}
	P.X.FillBytes(b[1 : 1+c.L])
	if compress {
		b[0] = 2 + byte(P.Y.Bit(0))
	} else {
		b[0] = 4
		P.Y.FillBytes(b[1+c.L:])
	}
	return b
}

// dec: 0 bad, 1 good, 2 either (identity written as zeros on a form whose identity has coordinates)
func (c *Cv) dec(b []byte) (int, Pt) {
	none := Pt{}
	if len(b) != 1+c.L && len(b) != 1+2*c.L {
		return 0, none
	}
	if b[0] == 0 {
		for _, v := range b {
			if v != 0 {
				return 0, none
			}
		}
		if c.zero().O {
			return 1, c.zero()
		}
		return 2, c.zero()
	}
	x := new(big.Int).SetBytes(b[1 : 1+c.L])
	if x.Cmp(c.p) >= 0 {
		return 0, none
	}
	if b[0] == 4 {
		if len(b) != 1+2*c.L {
			return 0, none
		}
		y := new(big.Int).SetBytes(b[1+c.L:])
		if y.Cmp(c.p) >= 0 || !c.on(x, y) {
			return 0, none
		}
		return 1, Pt{x, y, false}
	}
	if (b[0] != 2 && b[0] != 3) || len(b) != 1+c.L {
		return 0, none
	}
	p, a, d := c.p, c.a, c.b
	var y2 *big.Int
	switch c.form {
	case "ws":
		y2 = add(mul(x, x, x), mul(a, x), d)
	case "mo":
		y2 = mul(add(mul(x, x, x), mul(d, x, x), x), inv(a, p))
	case "ed":
		t := mod(sub(N(1), mul(a, a, d, x, x)), p)
		if t.Sign() == 0 {
			return 0, none
		}
		y2 = mul(sub(mul(a, a), mul(x, x)), inv(t, p))
	default:
		t := mod(sub(N(1), mul(d, x, x)), p)
		if t.Sign() == 0 {
			return 0, none
		}
		y2 = mul(sub(N(1), mul(a, x, x)), inv(t, p))
	}
	y2 = mod(y2, p)
	if y2.Sign() == 0 {
		if b[0] == 2 {
			return 1, Pt{x, N(0), false}
		}
		return 0, none
	}
	y := new(big.Int).ModSqrt(y2, p)
	if y == nil {
		return 0, none
	}
	if y.Bit(0) != uint(b[0]&1) {
		y = sub(p, y)
	}
	return 1, Pt{x, y, false}
}
func (c *Cv) e(d []byte) *big.Int {
	e := new(big.Int).SetBytes(d)
	if s := 8*len(d) - c.n.BitLen(); s > 0 {
		e.Rsh(e, uint(s))
	}
	return e
}
func (c *Cv) verifies(Q Pt, d []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.n) >= 0 || s.Cmp(c.n) >= 0 {
		return false
	}
	w := inv(s, c.n)
	R := c.add(c.mul(c.G, mod(mul(c.e(d), w), c.n)), c.mul(Q, mod(mul(r, w), c.n)))
	return !R.O && mod(R.X, c.n).Cmp(r) == 0
}
func (c *Cv) nL() int { return (c.n.BitLen() + 7) / 8 }
func (c *Cv) sigBytes(r, s *big.Int) []byte {
	L := c.nL()
	b := make([]byte, 2*L)
	r.FillBytes(b[:L])
	s.FillBytes(b[L:])
	return b
}

// small brute-forces a curve over a tiny prime with a complete group law and its largest prime-order generator
func small(form string, p int64) *Cv {
	P := N(p)
	sq := func(v int64) bool {
		v = ((v % p) + p) % p
		return v == 0 || new(big.Int).Exp(N(v), N((p-1)/2), P).Cmp(N(1)) == 0
	}
	for a := int64(1); a < p; a++ {
		for b := int64(1); b < p; b++ {
			ok := false
			switch form {
			case "ws":
				ok = (4*a*a*a+27*b*b)%p != 0
			case "ed":
				ok = a != 1 && (1-(b*a%p*a%p*a%p*a)%p)%p != 0 && !sq(b)
			case "mo":
				ok = (b*b-4)%p != 0
			case "te":
				ok = a != b && sq(a) && a != 1 && !sq(b)
			}
			if !ok {
				continue
			}
			c := &Cv{name: "small-" + form, form: form, p: P, a: N(a), b: N(b), bits: uint(P.BitLen()), L: (P.BitLen() + 7) / 8}
			total := int64(0)
			if c.zero().O {
				total = 1
			}
			best, bestn := Pt{}, int64(0)
			for x := int64(0); x < p; x++ {
				for y := int64(0); y < p; y++ {
					if !c.on(N(x), N(y)) {
						continue
					}
					total++
				}
			}
			for x := int64(0); x < p; x++ {
				for y := int64(0); y < p; y++ {
					if !c.on(N(x), N(y)) {
						continue
					}
					Q := Pt{N(x), N(y), false}
					k, R := int64(1), Q
					for !R.eq(c.zero()) {
						R = c.add(R, Q)
						k++
					}
					if N(k).ProbablyPrime(10) && k > bestn {
						best, bestn = Q, k
					}
				}
			}
			if bestn <= 7 {
				continue
			}
			c.n, c.h, c.G = N(bestn), N(total/bestn), best
			return c
		}
	}
	panic("no small curve")
}

var CV = map[string]*Cv{}
var order []string

func loadCurves() {
	for _, nm := range []string{"secp256k1", "secp112r1", "E-222", "M-221", "Ed25519"} {
		c := ecgo.NamedCurve(nm)
		if c == nil {
			continue
		}
		f, a, b := "", "", ""
		switch c.Type() {
		case ecgo.EQTypeShortWeierstrass:
			f, a, b = "ws", "ws_a", "ws_b"
		case ecgo.EQTypeEdwards:
			f, a, b = "ed", "ed_c", "ed_d"
		case ecgo.EQTypeMontgomery:
			f, a, b = "mo", "mo_B", "mo_A"
		default:
			f, a, b = "te", "te_a", "te_d"
		}
		v := &Cv{name: nm, form: f, p: c.GetAttr("p"), a: c.GetAttr(a), b: c.GetAttr(b), n: c.GetAttr("n"), h: c.GetAttr("h"), G: Pt{c.GetAttr("gx"), c.GetAttr("gy"), false}, bits: uint(c.GetAttr("bits").Uint64())}
		v.L = int(v.bits+7) / 8
		CV[nm] = v
		order = append(order, nm)
	}
	for _, f := range []string{"ws", "ed", "mo", "te"} {
		c := small(f, 43)
		CV[c.name] = c
		order = append(order, c.name)
	}
}

func (c *Cv) ctor(p, a, b, n, h, gx, gy *big.Int, bits uint) *ecgo.Curve {
	switch c.form {
	case "ws":
		return ecgo.ShortWeierstrassCurve(p, a, b, n, h, gx, gy, bits)
	case "ed":
		return ecgo.EdwardsCurve(p, a, b, n, h, gx, gy, bits)
	case "mo":
		return ecgo.MontgomeryCurve(p, a, b, n, h, gx, gy, bits)
	}
	return ecgo.TwistedEdwardsCurve(p, a, b, n, h, gx, gy, bits)
}

//go:noinline
func (c *Cv) mk() *ecgo.Curve { return c.ctor(c.p, c.a, c.b, c.n, c.h, c.G.X, c.G.Y, c.bits) }

var cvcache = map[string]*ecgo.Curve{}

//go:noinline
func (c *Cv) obj() *ecgo.Curve {
	if cvcache[c.name] == nil {
		cvcache[c.name] = c.mk()
	}
	return cvcache[c.name]
}

//go:noinline
func (c *Cv) pt(P Pt) *ecgo.Point { return c.ptOn(P, c.obj()) }

//go:noinline
func (c *Cv) ptOn(P Pt, o *ecgo.Curve) *ecgo.Point {
	if P.eq(c.zero()) {
		return ecgo.NewPointNeutral(o)
	}
	return ecgo.NewPointXY(P.X, P.Y, o)
}

// is: the point object holds the reference point
func (c *Cv) is(o *ecgo.Point, P Pt) string {
	if o == nil {
		return "nil instead of " + P.String()
	}
	if w, g := c.enc(P, false), o.BytesUncompressed(); string(w) != string(g) {
		return fmt.Sprintf("is %x, should be %x", g, w)
	}
	if o.IsNeutral() != P.eq(c.zero()) {
		return fmt.Sprintf("IsNeutral is %v for %v", o.IsNeutral(), P)
	}
	return ""
}

type Hash struct {
	name string
	mk   func() hash.Hash
}

var hashes = []Hash{{"sha256", sha256.New}, {"sha512", sha512.New}, {"md5", md5.New}}

func digest(h Hash, m []byte) []byte { x := h.mk(); x.Write(m); return x.Sum(nil) }
