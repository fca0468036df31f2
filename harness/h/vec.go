package main

import (
	"fmt"
	"math"
	"math/big"

	"geGoMetry/r3"
)

// ---- vector algebra --------------------------------------------------------

func ff(b *big.Float) float64 { f, _ := b.Float64(); return f }

func bcross(a, b bvec) bvec {
	return bvec{bsub(bmul(a.y, b.z), bmul(a.z, b.y)), bsub(bmul(a.z, b.x), bmul(a.x, b.z)), bsub(bmul(a.x, b.y), bmul(a.y, b.x))}
}

// sqrtRef is the square root of an exact sum of squares, rounded once.
func sqrtRef(b *big.Float) float64 {
	if b.Sign() == 0 {
		return 0
	}
	return ff(new(big.Float).SetPrec(300).Sqrt(b))
}

func closeTo(got, want, tol float64) bool {
	return got == want || math.Abs(got-want) <= tol
}

func vecClose(a, b r3.Vector, tol float64) bool {
	return closeTo(a.X, b.X, tol) && closeTo(a.Y, b.Y, tol) && closeTo(a.Z, b.Z, tol)
}

// genVec draws a vector of one of the classes the algebra must hold for.
func genVec(k *Case) (v r3.Vector, exact bool) {
	switch k.Intn(8) {
	case 0:
		return k.ivec(3), true
	case 1:
		return k.ivec(4000), true
	case 2: // along an axis
		v := k.ivec(50)
		switch k.Intn(3) {
		case 0:
			v.X, v.Y = 0, 0
		case 1:
			v.X, v.Z = 0, 0
		case 2:
			v.Y, v.Z = 0, 0
		}
		return v, true
	case 3:
		return k.rvec(1), false
	case 4:
		return k.rvec(math.Pow(10, float64(k.Intn(200)-100))), false
	case 5: // components of very different sizes
		p := func() float64 { return (k.Float64()*2 - 1) * math.Pow(10, float64(k.Intn(40)-20)) }
		return v3(p(), p(), p()), false
	case 6: // nearly unit
		return unitVec(k).Scaled(1 + float64(k.Intn(3)-1)*math.Pow(10, -float64(1+k.Intn(16)))), false
	default:
		return k.rvec(1000), false
	}
}

func unitVec(k *Case) r3.Vector {
	for {
		v := v3(k.NormFloat64(), k.NormFloat64(), k.NormFloat64())
		if n := math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z); n > 1e-3 {
			return v3(v.X/n, v.Y/n, v.Z/n)
		}
	}
}

func runVectors(c *Ctx) {
	create, haveCreate := lookup[func(a, b r3.Vector) r3.Vector](c, "r3.createVector")
	c.Sub("sums, products and lengths", c.N(180000, 2000000), func(k *Case) {
		a, ea := genVec(k)
		b, eb := genVec(k)
		if k.Intn(8) == 0 {
			b, eb = a, ea
		}
		if k.Intn(8) == 0 {
			b, eb = a.Scaled(float64(k.Intn(7)-3)), ea // parallel or opposite
		}
		exact := ea && eb
		f := float64(k.Intn(41) - 20)
		if !exact {
			f = k.NormFloat64() * 10
			if k.Intn(6) == 0 {
				f *= math.Pow(10, float64(k.Intn(61)-30))
			}
		}
		k.Input(map[string]interface{}{"a": fmt.Sprint(a), "b": fmt.Sprint(b), "factor": f})
		k.Seen(a, b, f)
		if w := []r3.Vector{a, b}; true {
			k.twin(w, func() {
				w[0].Scaled(f)
				r3.Add(w[0], w[1])
				r3.Sub(w[0], w[1])
				r3.Cross(w[0], w[1])
				r3.Dot(w[0], w[1])
				r3.Distance(w[0], w[1])
				w[0].Norm()
				w[0].Norm2()
				if haveCreate {
					create(w[0], w[1])
				}
			})
		}
		if exact {
			k.c.Obs("exact pairs", 1)
		}
		A, B := bvecOf(a), bvecOf(b)
		eps := 4e-16
		ck := func(what string, got, want, tol float64) bool {
			if exact {
				tol = 0
			}
			if closeTo(got, want, tol) {
				return true
			}
			k.Fail("%s of %v and %v (factor %v) = %v, want %v", what, a, b, f, got, want)
			return false
		}
		ckv := func(what string, got, want, tol r3.Vector) bool {
			return ck(what+" (x)", got.X, want.X, tol.X) && ck(what+" (y)", got.Y, want.Y, tol.Y) && ck(what+" (z)", got.Z, want.Z, tol.Z)
		}
		abs := func(v r3.Vector) r3.Vector { return v3(math.Abs(v.X), math.Abs(v.Y), math.Abs(v.Z)) }
		size := v3(math.Abs(a.X)+math.Abs(b.X), math.Abs(a.Y)+math.Abs(b.Y), math.Abs(a.Z)+math.Abs(b.Z))
		tol := v3(eps*size.X, eps*size.Y, eps*size.Z)
		sum := v3(ff(badd(A.x, B.x)), ff(badd(A.y, B.y)), ff(badd(A.z, B.z)))
		D := A.sub(B)
		diff := v3(ff(D.x), ff(D.y), ff(D.z))
		cr := bcross(A, B)
		cross := v3(ff(cr.x), ff(cr.y), ff(cr.z))
		aa, ab := abs(a), abs(b)
		crossTol := v3(eps*2*(aa.Y*ab.Z+ab.Y*aa.Z), eps*2*(aa.Z*ab.X+ab.Z*aa.X), eps*2*(aa.X*ab.Y+ab.X*aa.Y))
		dotTol := 2 * eps * (aa.X*ab.X + aa.Y*ab.Y + aa.Z*ab.Z)
		scaled := v3(f*a.X, f*a.Y, f*a.Z)
		a0, b0 := a, b
		if !ckv("sum", r3.Add(a, b), sum, tol) || !ckv("difference", r3.Sub(a, b), diff, tol) ||
			!ck("dot product", r3.Dot(a, b), ff(bdot(A, B)), dotTol) || !ckv("cross product", r3.Cross(a, b), cross, crossTol) ||
			!ckv("scaled copy", a.Scaled(f), scaled, v3(eps*math.Abs(scaled.X), eps*math.Abs(scaled.Y), eps*math.Abs(scaled.Z))) ||
			!ckv("absolute copy", r3.Abs(a), aa, r3.Vector{}) {
			return
		}
		if haveCreate && !ckv("created vector", create(a, b), diff, tol) {
			return
		}
		n2 := ff(bdot(A, A))
		n := sqrtRef(bdot(A, A))
		if !ck("squared norm", a.Norm2(), n2, 2*eps*n2) || !ck("squared magnitude", a.SquaredMagnitude(), n2, 2*eps*n2) {
			return
		}
		d2 := ff(bdot(D, D))
		d := sqrtRef(bdot(D, D))
		// the difference is rounded before it is squared
		dt := 2*eps*math.Sqrt(n2+b.X*b.X+b.Y*b.Y+b.Z*b.Z)*d + 4*eps*d2
		if !ck("squared distance", r3.SquaredDistance(a, b), d2, dt) {
			return
		}
		exact = false // roots are rounded even for integers
		if !ck("norm", a.Norm(), n, 3*eps*n) || !ck("magnitude", a.Magnitude(), n, 3*eps*n) ||
			!ck("distance", r3.Distance(a, b), d, 3*eps*d+eps*math.Max(size.X, math.Max(size.Y, size.Z))) {
			return
		}
		exact = ea && eb
		// in-place forms
		v := a
		v.Add(b)
		if !ckv("in-place sum", v, sum, tol) {
			return
		}
		v = a
		v.Sub(b)
		if !ckv("in-place difference", v, diff, tol) {
			return
		}
		v = a
		if p := v.Scale(f); p != &v {
			k.Fail("Scale(%v) of %v does not return its receiver", f, a)
			return
		}
		if !ckv("in-place scaling", v, scaled, v3(eps*math.Abs(scaled.X), eps*math.Abs(scaled.Y), eps*math.Abs(scaled.Z))) {
			return
		}
		v = a
		v.Abs()
		if !ckv("in-place absolute", v, aa, r3.Vector{}) {
			return
		}
		v = a
		v.Add(v)
		if !ckv("in-place sum with itself", v, v3(2*a.X, 2*a.Y, 2*a.Z), r3.Vector{}) {
			return
		}
		if a != a0 || b != b0 {
			k.Fail("operands %v, %v became %v, %v", a0, b0, a, b)
			return
		}
		if r3.Zero != (r3.Vector{}) {
			k.Fail("the zero vector became %v", r3.Zero)
			r3.Zero = r3.Vector{}
		}
	})
	c.Sub("normalisation", c.N(120000, 1000000), func(k *Case) {
		a, _ := genVec(k)
		if k.Intn(30) == 0 {
			a = r3.Vector{}
		}
		k.Input(fmt.Sprint(a))
		k.Seen(a)
		if w := []r3.Vector{a}; true {
			k.twin(w, func() { v := w[0]; v.Normalize(); r3.Normalize(w[0]) })
		}
		v := a
		p := v.Normalize()
		if p != &v {
			k.Fail("Normalize of %v does not return its receiver", a)
			return
		}
		for i, u := range []r3.Vector{v, r3.Normalize(a)} {
			form := []string{"in place", "copied"}[i]
			if a == (r3.Vector{}) {
				k.c.Obs("zero vectors", 1)
				if u != (r3.Vector{}) {
					k.Fail("the zero vector normalized (%s) is %v", form, u)
					return
				}
				continue
			}
			U := bvecOf(u)
			if n := sqrtRef(bdot(U, U)); !(math.Abs(n-1) <= 1e-12) {
				k.Fail("%v normalized (%s) is %v, of length %v", a, form, u, n)
				return
			}
			l := sqrtRef(bdot(bvecOf(a), bvecOf(a)))
			if !vecClose(u, v3(a.X/l, a.Y/l, a.Z/l), 1e-12) {
				k.Fail("%v normalized (%s) is %v, another direction", a, form, u)
				return
			}
			if !u.IsUnit() && math.Abs(ff(bdot(U, U))-1) < 1e-14 {
				k.Fail("%v normalized (%s) is %v, which is not called a unit vector", a, form, u)
				return
			}
			k.c.Obs("unit vectors", 1)
		}
	})
	c.Sub("unit test", c.N(60000, 400000), func(k *Case) {
		off := []float64{0, 1e-15, -1e-15, 1e-11, -1e-11, 1e-6, -1e-6, 0.1, -0.1, 1, -0.9}[k.Intn(11)]
		v := unitVec(k).Scaled(1 + off)
		if k.Intn(10) == 0 {
			v = k.ivec(1)
		}
		k.Input(fmt.Sprint(v))
		k.Seen(v)
		if w := []r3.Vector{v}; true {
			k.twin(w, func() { w[0].IsUnit() })
		}
		d := math.Abs(ff(bdot(bvecOf(v), bvecOf(v))) - 1)
		got := v.IsUnit()
		if d < 1e-14 && !got || d > 1e-12 && got {
			k.Fail("IsUnit(%v) = %v, the squared length differs from 1 by %v", v, got, d)
			return
		}
		if got {
			k.c.Obs("units", 1)
		} else {
			k.c.Obs("not units", 1)
		}
	})
	c.Sub("interpolation", c.N(90000, 800000), func(k *Case) {
		a, ea := genVec(k)
		b, eb := genVec(k)
		t := []float64{0, 1, 0.5, 0.25, 0.75, k.Float64(), k.Float64(), -1, 2, 1e-12, 1 - 1e-12, 1 + 1e-9, -1e-9, k.NormFloat64() * 100, 1e6}[k.Intn(15)]
		k.Input(map[string]interface{}{"a": fmt.Sprint(a), "b": fmt.Sprint(b), "t": t})
		k.Seen(a, b, t)
		if w := []r3.Vector{a, b}; true {
			k.twin(w, func() { r3.Interpolate(&w[0], &w[1], t); w[1].GetInterpolationVector(w[0], t) })
		}
		T := bf(t)
		one := badd(bf(1), new(big.Float).SetPrec(prec).Neg(T))
		lerp := func(x, y float64) float64 { return ff(badd(bmul(bf(x), one), bmul(bf(y), T))) }
		want := v3(lerp(a.X, b.X), lerp(a.Y, b.Y), lerp(a.Z, b.Z))
		at, bt := math.Abs(1-t)+1, math.Abs(t)+1
		eps := 1e-15
		if ea && eb && t*4 == math.Trunc(t*4) {
			eps = 0
		}
		tol := v3(eps*(math.Abs(a.X)*at+math.Abs(b.X)*bt), eps*(math.Abs(a.Y)*at+math.Abs(b.Y)*bt), eps*(math.Abs(a.Z)*at+math.Abs(b.Z)*bt))
		if t == 0 || t == 1 {
			tol = r3.Vector{}
		}
		ok := func(g r3.Vector) bool {
			return closeTo(g.X, want.X, tol.X) && closeTo(g.Y, want.Y, tol.Y) && closeTo(g.Z, want.Z, tol.Z)
		}
		a1, b1 := a, b
		if g := r3.Interpolate(&a1, &b1, t); !ok(g) {
			k.Fail("Interpolate(%v, %v, %v) = %v, want %v", a, b, t, g, want)
			return
		}
		if a1 != a || b1 != b {
			k.Fail("Interpolate changed its arguments %v, %v to %v, %v", a, b, a1, b1)
			return
		}
		// the other form weights its receiver
		if g := b.GetInterpolationVector(a, t); !ok(g) {
			k.Fail("%v.GetInterpolationVector(%v, %v) = %v, want %v", b, a, t, g, want)
			return
		}
		k.c.Obs("interpolations", 2)
		// one pointer for both ends
		if g := r3.Interpolate(&a1, &a1, 0.5); !vecClose(g, a, 1e-15*(math.Abs(a.X)+math.Abs(a.Y)+math.Abs(a.Z))) {
			k.Fail("Interpolate(%v with itself) = %v", a, g)
		}
	})
}

// ---- lines and planes ------------------------------------------------------

func runIntersect(c *Ctx) {
	meet := func(k *Case, l r3.Line, p r3.Plane3D) (g r3.Vector, panicked bool) {
		l0, p0 := l, p
		if w := []r3.Vector{l.Vector, l.Direction, p.Normal, p.Vector}; true {
			k.twin(w, func() {
				r3.Line{Vector: w[0], Direction: w[1]}.IntersectPlane(r3.Plane3D{Normal: w[2], Vector: w[3]})
			})
		}
		panicked = catch(func() { g = l.IntersectPlane(p) }) != nil
		if l != l0 || p != p0 {
			k.Fail("the line or the plane was changed")
		}
		return
	}
	// judge compares with the exact intersection
	judge := func(k *Case, l r3.Line, p r3.Plane3D) {
		N, D := bvecOf(p.Normal), bvecOf(l.Direction)
		nd := bdot(N, D)
		g, panicked := meet(k, l, p)
		if nd.Sign() == 0 {
			k.c.Obs("parallel pairs", 1)
			if !panicked {
				k.Fail("%+v and %+v are parallel, but %v is returned", l, p, g)
			}
			return
		}
		cond := sqrtRef(bdot(N, N)) * sqrtRef(bdot(D, D)) / math.Abs(ff(nd))
		if cond > 1e12 {
			k.c.Obs("parallel within rounding", 1)
			return
		}
		if panicked {
			k.Fail("%+v and %+v are not parallel, but the call panics", l, p)
			return
		}
		num := bdot(N, bvecOf(p.Vector).sub(bvecOf(l.Vector)))
		t := ff(new(big.Float).SetPrec(400).Quo(num, nd))
		T := new(big.Float).SetPrec(400).Quo(num, nd)
		at := func(o, d float64) float64 {
			x := new(big.Float).SetPrec(600).Mul(T, bf(d))
			return ff(x.Add(x, bf(o)))
		}
		want := v3(at(l.Vector.X, l.Direction.X), at(l.Vector.Y, l.Direction.Y), at(l.Vector.Z, l.Direction.Z))
		tol := 2e-14*cond*(l.Vector.Norm()+p.Vector.Norm()+math.Abs(t)*l.Direction.Norm()) + 1e-300
		if !vecClose(g, want, tol) {
			k.Fail("%+v meets %+v at %v, not at %v", l, p, want, g)
			return
		}
		k.c.Obs("intersections", 1)
		if t < 0 {
			k.c.Obs("intersections behind the line's point", 1)
		}
	}
	in := func(l r3.Line, p r3.Plane3D) interface{} {
		return map[string]interface{}{"line": fmt.Sprint(l), "plane": fmt.Sprint(p)}
	}
	c.Sub("integer lines and planes", c.N(150000, 1500000), func(k *Case) {
		R := []int{1, 2, 5, 30, 1000}[k.Intn(5)]
		l := r3.Line{Vector: k.ivec(R), Direction: k.ivec(R)}
		p := r3.Plane3D{Normal: k.ivec(R), Vector: k.ivec(R)}
		if l.Direction == (r3.Vector{}) {
			l.Direction = v3(1, 2, -1)
		}
		if p.Normal == (r3.Vector{}) {
			p.Normal = v3(2, -1, 1)
		}
		switch k.Intn(6) {
		case 0: // parallel
			n := r3.Cross(l.Direction, k.ivec(R))
			if n != (r3.Vector{}) {
				p.Normal = n
			}
		case 1: // the line's point on the plane
			p.Vector = l.Vector
		case 2:
			p.Normal = l.Direction
		}
		k.Input(in(l, p))
		k.Seen(l, p)
		judge(k, l, p)
	})
	c.Sub("real lines and planes", c.N(90000, 800000), func(k *Case) {
		s := math.Pow(10, float64(k.Intn(9)-4))
		l := r3.Line{Vector: k.rvec(s), Direction: k.rvec(math.Pow(10, float64(k.Intn(9)-4)))}
		p := r3.Plane3D{Normal: k.rvec(math.Pow(10, float64(k.Intn(9)-4))), Vector: k.rvec(s)}
		if k.Intn(4) == 0 { // very short and very long
			l.Direction = l.Direction.Scaled(math.Pow(10, float64(k.Intn(121)-60)))
			p.Normal = p.Normal.Scaled(math.Pow(10, float64(k.Intn(121)-60)))
		}
		if k.Intn(5) == 0 { // nearly, but not quite parallel
			n := r3.Normalize(r3.Cross(l.Direction, k.rvec(1)))
			p.Normal = r3.Add(n, r3.Normalize(l.Direction).Scaled(math.Pow(10, -float64(k.Intn(13)))))
		}
		if l.Direction == (r3.Vector{}) || p.Normal == (r3.Vector{}) {
			return
		}
		k.Input(in(l, p))
		k.Seen(l, p)
		judge(k, l, p)
	})
	c.Sub("longer and opposite directions", c.N(30000, 300000), func(k *Case) {
		// the same line and the same plane described otherwise
		l := r3.Line{Vector: k.ivec(20), Direction: k.ivec(9)}
		p := r3.Plane3D{Normal: k.ivec(9), Vector: k.ivec(20)}
		if r3.Dot(l.Direction, p.Normal) == 0 {
			return
		}
		f, g, h := float64(k.Intn(19)-9), float64(k.Intn(19)-9), float64(k.Intn(9)-4)
		if f == 0 || g == 0 {
			return
		}
		l2 := r3.Line{Vector: r3.Add(l.Vector, l.Direction.Scaled(h)), Direction: l.Direction.Scaled(f)}
		p2 := r3.Plane3D{Normal: p.Normal.Scaled(g), Vector: r3.Add(p.Vector, r3.Cross(p.Normal, k.ivec(5)))}
		k.Input(map[string]interface{}{"first": in(l, p), "second": in(l2, p2)})
		k.Seen(l, p, l2, p2)
		a, pa := meet(k, l, p)
		b, pb := meet(k, l2, p2)
		if pa || pb {
			k.Fail("no intersection of %+v with %+v or of %+v with %+v", l, p, l2, p2)
			return
		}
		cond := l.Direction.Norm() * p.Normal.Norm() / math.Abs(r3.Dot(l.Direction, p.Normal))
		if !vecClose(a, b, 1e-12*cond*(100+a.Norm()+l2.Vector.Norm()+p2.Vector.Norm())) {
			k.Fail("%+v and %+v meet at %v, but the same line and plane as %+v and %+v at %v", l, p, a, l2, p2, b)
			return
		}
		k.c.Obs("pairs described in two ways", 1)
	})
}

func runPlanes(c *Ctx) {
	newPlane, ok1 := lookup[func(normal, origin r3.Vector) r3.Plane](c, "r3.newPlane")
	calc, ok2 := lookup[func(p r3.Plane, a, b, d r3.Vector) r3.Vector](c, "r3.calculateNormal")
	c.Sub("distance to a plane given by its offset", c.N(120000, 1000000), func(k *Case) {
		// integer planes and points: the value is exact
		R := []int{1, 5, 50, 2000}[k.Intn(4)]
		n, v := k.ivec(R), k.ivec(R)
		d := float64(k.Intn(2*R+1) - R)
		k.Input(map[string]interface{}{"normal": fmt.Sprint(n), "offset": d, "point": fmt.Sprint(v)})
		k.Seen(n, d, v)
		if w := []r3.Vector{n, v}; true {
			k.twin(w, func() {
				w[1].CalculateDistanceToPlane(r3.Plane{Normal: w[0], Distance: d})
				if ok1 {
					newPlane(w[0], w[1])
				}
			})
		}
		want := n.X*v.X + n.Y*v.Y + n.Z*v.Z + d
		if got := v.CalculateDistanceToPlane(r3.Plane{Normal: n, Distance: d}); got != want {
			k.Fail("distance of %v to the plane %v, %v = %v, want %v", v, n, d, got, want)
			return
		}
		k.c.Obs("sign "+fmt.Sprint(fsign(want)), 1)
	})
	c.Sub("real planes", c.N(90000, 600000), func(k *Case) {
		pow := func() float64 { return math.Pow(10, float64(k.Intn(41)-20)) }
		n, v := k.rvec(pow()), k.rvec(pow())
		d := (k.Float64()*2 - 1) * pow()
		if k.Intn(3) == 0 {
			d = -r3.Dot(n, v) * (1 + float64(k.Intn(3)-1)*1e-9)
		}
		k.Input(map[string]interface{}{"normal": fmt.Sprint(n), "offset": d, "point": fmt.Sprint(v)})
		k.Seen(n, d, v)
		if w := []r3.Vector{n, v}; true {
			k.twin(w, func() {
				w[1].CalculateDistanceToPlane(r3.Plane{Normal: w[0], Distance: d})
				if ok1 {
					newPlane(w[0], w[1])
				}
			})
		}
		size := math.Abs(n.X*v.X) + math.Abs(n.Y*v.Y) + math.Abs(n.Z*v.Z)
		want := ff(badd(bdot(bvecOf(n), bvecOf(v)), bf(d)))
		if got := v.CalculateDistanceToPlane(r3.Plane{Normal: n, Distance: d}); !closeTo(got, want, 2e-15*(size+math.Abs(d))) {
			k.Fail("distance of %v to the plane %v, %v = %v, want %v", v, n, d, got, want)
			return
		}
		if ok1 {
			if q := newPlane(n, v); q.Normal != n || !closeTo(q.Distance, -ff(bdot(bvecOf(n), bvecOf(v))), 2e-15*size) {
				k.Fail("plane with normal %v through %v: %+v", n, v, q)
				return
			}
		}
		if ok2 {
			a, b, e := k.rvec(pow()), v, k.rvec(pow())
			if k.Intn(2) == 0 { // a small triangle anywhere
				o, s := k.rvec(1000), pow()
				if s > 1e-9 {
					a, b, e = r3.Add(o, k.rvec(s)), r3.Add(o, k.rvec(s)), r3.Add(o, k.rvec(s))
				}
			}
			A, B := bvecOf(b).sub(bvecOf(a)), bvecOf(e).sub(bvecOf(a))
			w := bcross(A, B)
			u, x := v3(ff(A.x), ff(A.y), ff(A.z)), v3(ff(B.x), ff(B.y), ff(B.z))
			tol := func(p, q, r, s float64) float64 { return 4e-15 * (math.Abs(p*q) + math.Abs(r*s)) }
			got := calc(r3.Plane{Normal: n, Distance: d}, a, b, e)
			if !closeTo(got.X, ff(w.x), tol(u.Y, x.Z, u.Z, x.Y)) || !closeTo(got.Y, ff(w.y), tol(u.Z, x.X, u.X, x.Z)) || !closeTo(got.Z, ff(w.z), tol(u.X, x.Y, u.Y, x.X)) {
				k.Fail("normal of the triangle %v %v %v = %v, want (%v, %v, %v)", a, b, e, got, ff(w.x), ff(w.y), ff(w.z))
				return
			}
		}
		k.c.Obs("real planes", 1)
	})
	c.Sub("unit normals", c.N(60000, 500000), func(k *Case) {
		s := math.Pow(10, float64(k.Intn(9)-4))
		n, o, v := unitVec(k), k.rvec(s), k.rvec(s)
		h := (k.Float64()*2 - 1) * s
		if k.Intn(3) == 0 { // a point at a known height over the plane
			w := r3.Cross(n, k.rvec(s))
			v = r3.Add(r3.Add(o, w), n.Scaled(h))
		} else {
			h = r3.Dot(n, r3.Sub(v, o))
		}
		k.Input(map[string]interface{}{"normal": fmt.Sprint(n), "origin": fmt.Sprint(o), "point": fmt.Sprint(v), "height": h})
		k.Seen(n, o, v)
		if w := []r3.Vector{n, o}; ok1 {
			k.twin(w, func() { newPlane(w[0], w[1]) })
		}
		p := r3.Plane{Normal: n, Distance: -r3.Dot(n, o)}
		if ok1 {
			q := newPlane(n, o)
			if q.Normal != n || math.Abs(q.Distance-p.Distance) > 1e-14*s {
				k.Fail("plane with normal %v through %v: %+v, want offset %v", n, o, q, p.Distance)
				return
			}
			p = q
		}
		if got := v.CalculateDistanceToPlane(p); math.Abs(got-h) > 2e-14*s {
			k.Fail("%v is %v above the plane with normal %v through %v, but its distance is %v", v, h, n, o, got)
			return
		}
		if got := o.CalculateDistanceToPlane(p); math.Abs(got) > 2e-14*s {
			k.Fail("the point %v of the plane has distance %v", o, got)
			return
		}
		k.c.Obs("distances", 2)
	})
	if ok1 {
		c.Sub("planes through a point", c.N(60000, 500000), func(k *Case) {
			n, o := k.ivec(100), k.ivec(100)
			k.Input(map[string]interface{}{"normal": fmt.Sprint(n), "origin": fmt.Sprint(o)})
			k.Seen(n, o)
			p := newPlane(n, o)
			if p.Normal != n || p.Distance != -(n.X*o.X+n.Y*o.Y+n.Z*o.Z) {
				k.Fail("plane with normal %v through %v = %+v", n, o, p)
				return
			}
			for i := 0; i < 3; i++ {
				q := r3.Add(o, r3.Cross(n, k.ivec(100)))
				if d := q.CalculateDistanceToPlane(p); d != 0 {
					k.Fail("%v lies on the plane with normal %v through %v, but has distance %v", q, n, o, d)
					return
				}
			}
			k.c.Obs("points of planes", 3)
		})
	}
	if ok2 {
		c.Sub("normals of triangles", c.N(90000, 800000), func(k *Case) {
			R := []int{1, 5, 50, 2000}[k.Intn(4)]
			a, b, d := k.ivec(R), k.ivec(R), k.ivec(R)
			k.Input(fmt.Sprint(a, b, d))
			k.Seen(a, b, d)
			w := bcross(bvecOf(b).sub(bvecOf(a)), bvecOf(d).sub(bvecOf(a)))
			want := v3(ff(w.x), ff(w.y), ff(w.z))
			p := r3.Plane{Normal: k.ivec(5), Distance: 3}
			tw := []r3.Vector{a, b, d}
			k.twin(tw, func() { calc(p, tw[0], tw[1], tw[2]) })
			if got := calc(p, a, b, d); got != want {
				k.Fail("normal of the triangle %v %v %v = %v, want %v", a, b, d, got, want)
				return
			}
			if got := calc(p, a, d, b); got != want.Scaled(-1) && got != r3.Sub(r3.Vector{}, want) {
				k.Fail("normal of the reversed triangle %v %v %v = %v, want %v", a, d, b, got, want.Scaled(-1))
				return
			}
			if ok1 && want != (r3.Vector{}) {
				pl := newPlane(want, a)
				for _, q := range []r3.Vector{a, b, d} {
					if h := q.CalculateDistanceToPlane(pl); h != 0 {
						k.Fail("the corner %v of the triangle %v %v %v is %v off its plane", q, a, b, d, h)
						return
					}
				}
			}
			k.c.Obs("triangles", 1)
		})
	}
}

func init() {
	register("C17", "integer vectors (exact), reals at 200 scales, mixed scales, axis-parallel, nearly unit, parallel and zero vectors; compared with exact arithmetic; distinct by content", runVectors,
		"components between 1e-100 and 1e100 in magnitude, or zero; rounding of a few units in the last place of the largest term is allowed")
	register("C18", "integer lines and planes incl. exactly parallel ones, real ones at all scales incl. nearly parallel ones, and the same pair described in two ways; compared with the exact intersection; distinct by content", runIntersect,
		"the direction and the normal are not zero")
	register("C19", "integer planes and points (exact), real ones at scales of 1e-20 to 1e20, triangles; compared with exact arithmetic; distinct by content", runPlanes)
}
