package main

import (
	"math"
	"math/big"

	"geGoMetry/r3"
)

// Exact predicates over float64 coordinates. A static floating-point filter
// answers the clear cases, exact big.Float arithmetic the others.

const prec = 4200

func bf(x float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(x) }

func bsub(a, b *big.Float) *big.Float {
	z := new(big.Float).SetPrec(prec).Sub(a, b)
	if z.Acc() != big.Exact {
		panic(harnessError("inexact"))
	}
	return z
}
func badd(a, b *big.Float) *big.Float {
	z := new(big.Float).SetPrec(prec).Add(a, b)
	if z.Acc() != big.Exact {
		panic(harnessError("inexact"))
	}
	return z
}
func bmul(a, b *big.Float) *big.Float {
	z := new(big.Float).SetPrec(prec).Mul(a, b)
	if z.Acc() != big.Exact {
		panic(harnessError("inexact"))
	}
	return z
}

// orient2 is twice the signed area of abc (positive: counter-clockwise), as a
// sign decided exactly, its float value and the magnitude of its terms.
func orient2(a, b, c r3.Vector) (sign int, val, perm float64) {
	l := (b.X - a.X) * (c.Y - a.Y)
	r := (b.Y - a.Y) * (c.X - a.X)
	val = l - r
	perm = math.Abs(l) + math.Abs(r)
	if math.Abs(val) > 4e-15*perm && !math.IsInf(perm, 0) && perm > 1e-280 {
		return fsign(val), val, perm
	}
	ax, ay := bf(a.X), bf(a.Y)
	d := bsub(bmul(bsub(bf(b.X), ax), bsub(bf(c.Y), ay)), bmul(bsub(bf(b.Y), ay), bsub(bf(c.X), ax)))
	return d.Sign(), val, perm
}

func fsign(v float64) int {
	if v > 0 {
		return 1
	}
	if v < 0 {
		return -1
	}
	return 0
}

// incircle2 is positive when p lies strictly inside the circle through the
// counter-clockwise triangle abc.
func incircle2(a, b, c, p r3.Vector) (sign int, val, perm float64) {
	ax, ay := a.X-p.X, a.Y-p.Y
	bx, by := b.X-p.X, b.Y-p.Y
	cx, cy := c.X-p.X, c.Y-p.Y
	al, bl, cl := ax*ax+ay*ay, bx*bx+by*by, cx*cx+cy*cy
	val = al*(bx*cy-by*cx) - bl*(ax*cy-ay*cx) + cl*(ax*by-ay*bx)
	perm = al*(math.Abs(bx*cy)+math.Abs(by*cx)) + bl*(math.Abs(ax*cy)+math.Abs(ay*cx)) + cl*(math.Abs(ax*by)+math.Abs(ay*bx))
	if math.Abs(val) > 1e-14*perm && !math.IsInf(perm, 0) && perm > 1e-280 {
		return fsign(val), val, perm
	}
	px, py := bf(p.X), bf(p.Y)
	Ax, Ay := bsub(bf(a.X), px), bsub(bf(a.Y), py)
	Bx, By := bsub(bf(b.X), px), bsub(bf(b.Y), py)
	Cx, Cy := bsub(bf(c.X), px), bsub(bf(c.Y), py)
	lift := func(x, y *big.Float) *big.Float { return badd(bmul(x, x), bmul(y, y)) }
	cr := func(x, y, u, v *big.Float) *big.Float { return bsub(bmul(x, v), bmul(y, u)) }
	d := badd(bsub(bmul(lift(Ax, Ay), cr(Bx, By, Cx, Cy)), bmul(lift(Bx, By), cr(Ax, Ay, Cx, Cy))), bmul(lift(Cx, Cy), cr(Ax, Ay, Bx, By)))
	return d.Sign(), val, perm
}

type bvec struct{ x, y, z *big.Float }

func bvecOf(a r3.Vector) bvec { return bvec{bf(a.X), bf(a.Y), bf(a.Z)} }
func (a bvec) sub(b bvec) bvec {
	return bvec{bsub(a.x, b.x), bsub(a.y, b.y), bsub(a.z, b.z)}
}
func bdet3(a, b, c bvec) *big.Float {
	t1 := bmul(a.x, bsub(bmul(b.y, c.z), bmul(b.z, c.y)))
	t2 := bmul(a.y, bsub(bmul(b.x, c.z), bmul(b.z, c.x)))
	t3 := bmul(a.z, bsub(bmul(b.x, c.y), bmul(b.y, c.x)))
	return badd(bsub(t1, t2), t3)
}
func bdot(a, b bvec) *big.Float {
	return badd(badd(bmul(a.x, b.x), bmul(a.y, b.y)), bmul(a.z, b.z))
}

// orient3Exact is det[a-d; b-d; c-d], exactly (positive by Shewchuk's
// convention: d below the plane abc seen counter-clockwise from above).
func orient3Exact(a, b, c, d r3.Vector) *big.Float {
	D := bvecOf(d)
	return bdet3(bvecOf(a).sub(D), bvecOf(b).sub(D), bvecOf(c).sub(D))
}

// insphereExact is Shewchuk's insphere determinant, exactly: positive when e
// is strictly inside the sphere through the positively oriented abcd.
func insphereExact(a, b, c, d, e r3.Vector) *big.Float {
	E := bvecOf(e)
	A, B, C, D := bvecOf(a).sub(E), bvecOf(b).sub(E), bvecOf(c).sub(E), bvecOf(d).sub(E)
	// |A A2; B B2; C C2; D D2| expanded along the lifted column
	s := bmul(bdot(D, D), bdet3(A, B, C))
	s = bsub(s, bmul(bdot(C, C), bdet3(A, B, D)))
	s = badd(s, bmul(bdot(B, B), bdet3(A, C, D)))
	s = bsub(s, bmul(bdot(A, A), bdet3(B, C, D)))
	return s
}
