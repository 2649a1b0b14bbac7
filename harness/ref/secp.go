// Package ref is the reference model: an implementation of the standards the
// library claims to follow, written independently of it.
package ref

import (
	"math/big"
)

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return n
}

// Curve constants (SEC 2, secp256k1).
var (
	P  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	// Lambda is the eigenvalue of the curve endomorphism: Lambda*(x,y) = (Beta*x, y).
	Lambda = hexInt("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
	Beta   = hexInt("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
)

// Point is an affine point; Inf marks the point at infinity.
type Point struct {
	X, Y *big.Int
	Inf  bool
}

// Infinity is the neutral element.
func Infinity() Point { return Point{Inf: true} }

// G is the generator.
func G() Point { return Point{X: new(big.Int).Set(gx), Y: new(big.Int).Set(gy)} }

// Equal compares points.
func (a Point) Equal(b Point) bool {
	if a.Inf || b.Inf {
		return a.Inf == b.Inf
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// Neg is the opposite point.
func (a Point) Neg() Point {
	if a.Inf {
		return a
	}
	return Point{X: new(big.Int).Set(a.X), Y: new(big.Int).Sub(P, a.Y)}
}

// OnCurve says whether 0 <= x,y < p and y^2 = x^3 + 7.
func OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	l.Mod(l, P)
	return l.Cmp(rhs(x)) == 0
}

func rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Mod(r, P)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	return r.Mod(r, P)
}

// LiftX returns the point with the given x and parity of y, if there is one.
func LiftX(x *big.Int, odd bool) (Point, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Point{}, false
	}
	y := new(big.Int).ModSqrt(rhs(x), P)
	if y == nil {
		return Point{}, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	return Point{X: new(big.Int).Set(x), Y: y}, true
}

// jac is a point in Jacobian coordinates; z = 0 is infinity.
type jac struct{ x, y, z *big.Int }

func toJac(p Point) jac {
	if p.Inf {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	return jac{p.X, p.Y, big.NewInt(1)}
}

func mul(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, P)
}

func sub(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, P)
}

func (p jac) double() jac {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return toJac(Infinity())
	}
	a := mul(p.x, p.x)
	b := mul(p.y, p.y)
	c := mul(b, b)
	d := new(big.Int).Add(p.x, b)
	d = mul(d, d)
	d = sub(sub(d, a), c)
	d = sub(new(big.Int).Lsh(d, 1), new(big.Int))
	e := new(big.Int).Mul(a, big.NewInt(3))
	e.Mod(e, P)
	f := mul(e, e)
	x := sub(f, new(big.Int).Lsh(d, 1))
	y := sub(mul(e, sub(d, x)), new(big.Int).Lsh(c, 3))
	z := mul(new(big.Int).Lsh(p.y, 1), p.z)
	return jac{x, y, z}
}

func (p jac) add(q jac) jac {
	if p.z.Sign() == 0 {
		return q
	}
	if q.z.Sign() == 0 {
		return p
	}
	z1z1 := mul(p.z, p.z)
	z2z2 := mul(q.z, q.z)
	u1 := mul(p.x, z2z2)
	u2 := mul(q.x, z1z1)
	s1 := mul(mul(p.y, q.z), z2z2)
	s2 := mul(mul(q.y, p.z), z1z1)
	h := sub(u2, u1)
	r := sub(s2, s1)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return p.double()
		}
		return toJac(Infinity())
	}
	hh := mul(h, h)
	hhh := mul(h, hh)
	v := mul(u1, hh)
	x := sub(sub(mul(r, r), hhh), new(big.Int).Lsh(v, 1))
	y := sub(mul(r, sub(v, x)), mul(s1, hhh))
	z := mul(mul(p.z, q.z), h)
	return jac{x, y, z}
}

func (p jac) affine() Point {
	if p.z.Sign() == 0 {
		return Infinity()
	}
	zi := new(big.Int).ModInverse(p.z, P)
	zi2 := mul(zi, zi)
	return Point{X: mul(p.x, zi2), Y: mul(mul(p.y, zi2), zi)}
}

// gpow[i] is 2^i * G.
var gpow [256]jac

func init() {
	g := toJac(G())
	for i := range gpow {
		gpow[i] = toJac(g.affine())
		g = gpow[i].double()
	}
}

// BaseMult is (k mod n) * G.
func BaseMult(k *big.Int) Point {
	k = new(big.Int).Mod(k, N)
	acc := toJac(Infinity())
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			acc = acc.add(gpow[i])
		}
	}
	return acc.affine()
}

// Mult is (k mod n) * p.
func Mult(k *big.Int, p Point) Point {
	k = new(big.Int).Mod(k, N)
	acc := toJac(Infinity())
	b := toJac(p)
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = acc.double()
		if k.Bit(i) == 1 {
			acc = acc.add(b)
		}
	}
	return acc.affine()
}

// Add is the group law.
func Add(a, b Point) Point { return toJac(a).add(toJac(b)).affine() }

// ValidScalar says whether 1 <= k <= n-1.
func ValidScalar(k *big.Int) bool { return k != nil && k.Sign() > 0 && k.Cmp(N) < 0 }

// LiftY returns one of the (zero or three) points with the given y.
func LiftY(y *big.Int, root int) (Point, bool) {
	// x^3 = y^2 - 7; p = 7 mod 9, so a cube root of c is c^((p+2)/9) if c is a cube.
	c := new(big.Int).Mul(y, y)
	c.Sub(c, big.NewInt(7))
	c.Mod(c, P)
	e := new(big.Int).Add(P, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	x := new(big.Int).Exp(c, e, P)
	if mul(mul(x, x), x).Cmp(c) != 0 {
		return Point{}, false
	}
	for ; root > 0; root-- {
		x = mul(x, Beta)
	}
	return Point{X: x, Y: new(big.Int).Set(y)}, OnCurve(x, y)
}
