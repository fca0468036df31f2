package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"geGoMetry/predicates"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"geGoMetry/triangulate3"
)

func v3(x, y, z float64) r3.Vector { return r3.Vector{X: x, Y: y, Z: z} }

func (k *Case) ivec(R int) r3.Vector {
	return v3(float64(k.Intn(2*R+1)-R), float64(k.Intn(2*R+1)-R), float64(k.Intn(2*R+1)-R))
}

func (k *Case) rvec(s float64) r3.Vector {
	return v3((k.Float64()*2-1)*s, (k.Float64()*2-1)*s, (k.Float64()*2-1)*s)
}

// orient3f and insphere3f are float versions with the size of their terms.
func orient3f(a, b, c, d r3.Vector) (val, perm float64) {
	ax, ay, az := a.X-d.X, a.Y-d.Y, a.Z-d.Z
	bx, by, bz := b.X-d.X, b.Y-d.Y, b.Z-d.Z
	cx, cy, cz := c.X-d.X, c.Y-d.Y, c.Z-d.Z
	val = ax*(by*cz-bz*cy) - ay*(bx*cz-bz*cx) + az*(bx*cy-by*cx)
	perm = math.Abs(ax)*(math.Abs(by*cz)+math.Abs(bz*cy)) + math.Abs(ay)*(math.Abs(bx*cz)+math.Abs(bz*cx)) + math.Abs(az)*(math.Abs(bx*cy)+math.Abs(by*cx))
	return
}

func det3f(a, b, c r3.Vector) (val, perm float64) { return orient3f(a, b, c, r3.Vector{}) }

func insphere3f(a, b, c, d, e r3.Vector) (val, perm float64) {
	s := func(p r3.Vector) r3.Vector { return v3(p.X-e.X, p.Y-e.Y, p.Z-e.Z) }
	A, B, C, D := s(a), s(b), s(c), s(d)
	l := func(p r3.Vector) float64 { return p.X*p.X + p.Y*p.Y + p.Z*p.Z }
	add := func(sg, w float64, x, y, z r3.Vector) {
		v, p := det3f(x, y, z)
		val += sg * w * v
		perm += w * p
	}
	add(1, l(D), A, B, C)
	add(-1, l(C), A, B, D)
	add(1, l(B), A, C, D)
	add(-1, l(A), B, C, D)
	return
}

func orient3sign(a, b, c, d r3.Vector) int {
	v, p := orient3f(a, b, c, d)
	if math.Abs(v) > 1e-14*p && p > 1e-200 && !math.IsInf(p, 0) {
		return fsign(v)
	}
	return orient3Exact(a, b, c, d).Sign()
}

// insphereSign is +1 when e is strictly inside the sphere through abcd
// (whatever their orientation), -1 outside, 0 on it or abcd coplanar.
func insphereSign(a, b, c, d, e r3.Vector) int {
	o := orient3sign(a, b, c, d)
	v, p := insphere3f(a, b, c, d, e)
	s := fsign(v)
	if !(math.Abs(v) > 1e-13*p && p > 1e-200 && !math.IsInf(p, 0)) {
		s = insphereExact(a, b, c, d, e).Sign()
	}
	return s * o
}

// ---- 3D triangulation ------------------------------------------------------

func gen3D(k *Case) (pts []r3.Vector, kind string) {
	n := 4 + k.Intn(14)
	switch k.Intn(8) {
	case 0:
		n = 4 + k.Intn(4)
	case 1:
		n = 20 + k.Intn(25)
	}
	switch k.Intn(9) {
	case 0:
		s := math.Pow(10, float64(k.Intn(5)-2))
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(s))
		}
		kind = fmt.Sprintf("uniform %g", s)
	case 1:
		for i := 0; i < n; i++ {
			pts = append(pts, v3(k.NormFloat64(), k.NormFloat64(), k.NormFloat64()))
		}
		kind = "gaussian"
	case 2:
		o := k.rvec(100)
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Add(o, k.rvec(5)))
		}
		kind = "shifted"
	case 3:
		// inner points in a distant, slightly irregular frame, so that most
		// tetrahedra have their spheres within the bounding box
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(1))
		}
		for i := 0; i < 8; i++ {
			c := v3(float64(i&1*2-1), float64(i>>1&1*2-1), float64(i>>2&1*2-1)).Scaled(6)
			pts = append(pts, r3.Add(c, k.rvec(0.7)))
		}
		k.shuffle(pts)
		kind = "framed"
	case 4:
		for i := 0; i < n; i++ {
			p := v3(k.NormFloat64(), k.NormFloat64(), k.NormFloat64())
			pts = append(pts, r3.Normalize(p).Scaled(1+k.Float64()*0.2))
		}
		kind = "shell"
	case 5:
		R := 20 + k.Intn(30)
		for i := 0; i < n; i++ {
			pts = append(pts, k.ivec(R))
		}
		kind = fmt.Sprintf("integers R=%d", R)
	case 6:
		jit := math.Pow(10, -1-float64(k.Intn(4)))
		for i := 0; i < 8+k.Intn(20); i++ {
			p := v3(float64(i%3), float64(i/3%3), float64(i/9))
			pts = append(pts, r3.Add(p, k.rvec(jit)))
		}
		if k.Intn(2) == 0 {
			k.shuffle(pts)
		}
		kind = fmt.Sprintf("grid with jitter %g", jit)
	case 7:
		f := v3(math.Pow(10, k.Float64()*4-2), math.Pow(10, k.Float64()*4-2), math.Pow(10, k.Float64()*4-2))
		for i := 0; i < n; i++ {
			p := k.rvec(1)
			pts = append(pts, v3(p.X*f.X, p.Y*f.Y, p.Z*f.Z))
		}
		kind = "stretched"
	case 8:
		s := math.Pow(10, float64(k.Intn(13)-6))
		o := k.rvec(1000 * s)
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Add(o, k.rvec(s)))
		}
		kind = fmt.Sprintf("size %g, far away", s)
	}
	return
}

// genLattice3 makes integer sets in special position: few and small
// coordinates, so that every determinant of them and of the englobing
// tetrahedron is exact.
func genLattice3(k *Case) (pts []r3.Vector, kind string) {
	n := 1 + k.Intn(30)
	switch k.Intn(7) {
	case 0:
		R := 1 + k.Intn(4)
		for i := 0; i < n; i++ {
			pts = append(pts, k.ivec(R))
		}
		kind = fmt.Sprintf("lattice R=%d", R)
	case 1:
		a, b, c := 1+k.Intn(4), 1+k.Intn(4), 1+k.Intn(3)
		s := v3(float64(1+k.Intn(3)), float64(1+k.Intn(3)), float64(1+k.Intn(3)))
		for x := 0; x < a; x++ {
			for y := 0; y < b; y++ {
				for z := 0; z < c; z++ {
					pts = append(pts, v3(float64(x)*s.X, float64(y)*s.Y, float64(z)*s.Z))
				}
			}
		}
		kind = fmt.Sprintf("grid %dx%dx%d", a, b, c)
	case 2: // one sphere
		for _, r := range [][3]float64{{3, 4, 0}, {0, 3, 4}, {4, 0, 3}, {5, 0, 0}, {0, 5, 0}, {0, 0, 5}} {
			for s := 0; s < 8; s++ {
				q := v3(r[0]*float64(s&1*2-1), r[1]*float64(s>>1&1*2-1), r[2]*float64(s>>2&1*2-1))
				if k.Intn(2) == 0 {
					pts = append(pts, q)
				}
			}
		}
		if k.Intn(2) == 0 {
			pts = append(pts, v3(0, 0, 0))
		}
		kind = "cospherical"
	case 3: // a plane
		u, w := k.ivec(2), k.ivec(2)
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Add(u.Scaled(float64(k.Intn(5)-2)), w.Scaled(float64(k.Intn(5)-2))))
		}
		kind = "plane"
	case 4: // a plane and some
		u, w := k.ivec(2), k.ivec(2)
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Add(u.Scaled(float64(k.Intn(5)-2)), w.Scaled(float64(k.Intn(5)-2))))
		}
		for i := 0; i < 1+k.Intn(4); i++ {
			pts = append(pts, k.ivec(6))
		}
		kind = "plane and some"
	case 5: // two lines
		u, w, o := k.ivec(2), k.ivec(2), k.ivec(5)
		for i := 0; i < n; i++ {
			pts = append(pts, u.Scaled(float64(k.Intn(7)-3)), r3.Add(o, w.Scaled(float64(k.Intn(7)-3))))
		}
		kind = "lines"
	default:
		for i := 0; i < n; i++ {
			pts = append(pts, k.ivec(12))
		}
		kind = "integers"
	}
	if k.Intn(3) > 0 {
		k.shuffle(pts)
	}
	if k.Intn(4) == 0 {
		o := k.ivec(500)
		for i := range pts {
			pts[i] = r3.Add(pts[i], o)
		}
		kind += ", shifted"
	}
	if len(pts) == 0 {
		pts = append(pts, k.ivec(3))
	}
	return
}

// genNear3 makes real sets that rounding keeps off a special position, or
// that rounding brings close to one.
func genNear3(k *Case) (pts []r3.Vector, kind string) {
	n := 4 + k.Intn(20)
	a, b := k.Float64()*7, k.Float64()*7
	rot := func(x, y, z float64) r3.Vector {
		x, y = x*math.Cos(a)-y*math.Sin(a), x*math.Sin(a)+y*math.Cos(a)
		y, z = y*math.Cos(b)-z*math.Sin(b), y*math.Sin(b)+z*math.Cos(b)
		return v3(x, y, z)
	}
	switch k.Intn(11) {
	case 0:
		w, h, l := 2+k.Intn(3), 2+k.Intn(3), 1+k.Intn(3)
		for i := 0; i < w*h*l; i++ {
			pts = append(pts, rot(float64(i%w), float64(i/w%h), float64(i/w/h)))
		}
		kind = "rotated grid"
	case 1:
		r := math.Exp2(k.NormFloat64() * 10)
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Normalize(v3(k.NormFloat64(), k.NormFloat64(), k.NormFloat64())).Scaled(r))
		}
		kind = "sphere"
	case 2:
		m := shape.ConstructSphere(k.rvec(10), 1+k.Float64())
		v := m.Vertices
		for i := 0; i < n; i++ {
			pts = append(pts, v[k.Intn(len(v))])
		}
		kind = "vertices of a sphere shape"
	case 3:
		h := k.NormFloat64()
		for i := 0; i < n; i++ {
			pts = append(pts, rot(k.Float64(), k.Float64(), h))
		}
		if k.Intn(2) == 0 {
			pts = append(pts, k.rvec(2), k.rvec(2))
		}
		kind = "rotated plane"
	case 4:
		for i := 0; i < n; i++ {
			pts = append(pts, rot(k.Float64()*10, 0, 0))
		}
		pts = append(pts, k.rvec(10), k.rvec(10), k.rvec(10))[:n+k.Intn(4)]
		kind = "rotated line"
	case 5:
		d := math.Pow(10, -17+12*k.Float64())
		for i := 0; i < n/2+2; i++ {
			p := k.rvec(1)
			pts = append(pts, p, r3.Add(p, k.rvec(d)))
		}
		kind = "close pairs"
	case 6:
		d := math.Ldexp(1, 4+k.Intn(40))
		u := math.Ldexp(1, -k.Intn(30))
		for i := 0; i < n; i++ {
			c := v3(0, 0, 0)
			switch k.Intn(3) {
			case 0:
				c.X = d
			case 1:
				c = v3(d, d, 0)
			}
			pts = append(pts, r3.Add(c, k.ivec(3)).Scaled(u))
		}
		kind = "far clusters"
	case 7:
		o := v3(1+k.Float64(), -1-k.Float64(), 1+k.Float64()).Scaled(math.Exp2(k.NormFloat64() * 8))
		u := math.Nextafter(math.Abs(o.X), math.Inf(1)) - math.Abs(o.X)
		u = math.Max(u, math.Nextafter(math.Abs(o.Y), math.Inf(1))-math.Abs(o.Y))
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Add(o, k.ivec(4).Scaled(2*u)))
		}
		kind = "rounding steps"
	case 8:
		r := float64(1 + k.Intn(40))
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Normalize(v3(k.NormFloat64(), k.NormFloat64(), k.NormFloat64())).Scaled(math.Exp2((k.Float64()*2-1)*r)))
		}
		kind = "all scales"
	case 9:
		f := v3(1, math.Pow(10, -12*k.Float64()), math.Pow(10, -12*k.Float64()))
		for i := 0; i < n; i++ {
			p := k.rvec(1)
			pts = append(pts, v3(p.X*f.X, p.Y*f.Y, p.Z*f.Z))
		}
		kind = "very flat"
	case 10:
		for i := 0; i < n; i++ {
			t := 2 * math.Pi * float64(i) / float64(n)
			pts = append(pts, rot(math.Cos(t), math.Sin(t), float64(i%2)))
		}
		kind = "prism"
	}
	if k.Intn(4) == 0 {
		f := math.Ldexp(1, k.Intn(201)-100)
		for i := range pts {
			pts[i] = pts[i].Scaled(f)
		}
		kind += " scaled"
	}
	if k.Intn(4) == 0 {
		pts = append(pts, pts[k.Intn(len(pts))])
	}
	k.shuffle(pts)
	return
}

func minRange(pts []r3.Vector) (lo, hi r3.Vector) {
	lo, hi = pts[0], pts[0]
	for _, p := range pts {
		lo = v3(math.Min(lo.X, p.X), math.Min(lo.Y, p.Y), math.Min(lo.Z, p.Z))
		hi = v3(math.Max(hi.X, p.X), math.Max(hi.Y, p.Y), math.Max(hi.Z, p.Z))
	}
	return
}

// circumsphere in floats; ok is false for nearly flat tetrahedra.
// circumsphere returns the centre relative to a.
func circumsphere(a, b, c, d r3.Vector) (o r3.Vector, r float64, ok bool) {
	u, v, w := r3.Sub(b, a), r3.Sub(c, a), r3.Sub(d, a)
	det, perm := det3f(u, v, w)
	if !(math.Abs(det) > 1e-6*perm) {
		return
	}
	num := r3.Cross(v, w).Scaled(u.Norm2())
	num = r3.Add(num, r3.Cross(w, u).Scaled(v.Norm2()))
	num = r3.Add(num, r3.Cross(u, v).Scaled(w.Norm2()))
	terms := u.Norm2()*v.Norm()*w.Norm() + v.Norm2()*w.Norm()*u.Norm() + w.Norm2()*u.Norm()*v.Norm()
	if !(num.Norm() > 1e-8*terms) || !(math.Abs(det) > 1e-200 && terms > 1e-250 && terms < 1e280) || cancelled(a, b, u) || cancelled(a, c, v) || cancelled(a, d, w) {
		return circumsphereExact(a, b, c, d)
	}
	x := num.Scaled(1 / (2 * det))
	return x, x.Norm(), true
}

// cancelled tells whether rounding may have mattered in the difference d of b and a.
func cancelled(a, b, d r3.Vector) bool {
	f := func(a, b, d float64) bool { return d != 0 && math.Abs(d) < 1e-9*(math.Abs(a)+math.Abs(b)) }
	return f(a.X, b.X, d.X) || f(a.Y, b.Y, d.Y) || f(a.Z, b.Z, d.Z)
}

// circumsphereExact rounds only the results.
func circumsphereExact(a, b, c, d r3.Vector) (o r3.Vector, r float64, ok bool) {
	A := bvecOf(a)
	u, v, w := bvecOf(b).sub(A), bvecOf(c).sub(A), bvecOf(d).sub(A)
	det := bdet3(u, v, w)
	if det.Sign() == 0 {
		return
	}
	u2, v2, w2 := bdot(u, u), bdot(v, v), bdot(w, w)
	component := func(f func(p bvec) (*big.Float, *big.Float)) float64 {
		cross := func(p, q bvec) *big.Float {
			py, pz := f(p)
			qy, qz := f(q)
			return bsub(bmul(py, qz), bmul(pz, qy))
		}
		num := badd(badd(bmul(cross(v, w), u2), bmul(cross(w, u), v2)), bmul(cross(u, v), w2))
		x, _ := new(big.Float).SetPrec(200).Quo(num, badd(det, det)).Float64()
		return x
	}
	o.X = component(func(p bvec) (*big.Float, *big.Float) { return p.y, p.z })
	o.Y = component(func(p bvec) (*big.Float, *big.Float) { return p.z, p.x })
	o.Z = component(func(p bvec) (*big.Float, *big.Float) { return p.x, p.y })
	return o, o.Norm(), true
}

// offPlane is a point that is not in the plane of abc, if they have one.
func offPlane(a, b, c r3.Vector) (r3.Vector, bool) {
	lo, hi := minRange([]r3.Vector{a, b, c})
	d := r3.Sub(hi, lo)
	size := math.Max(d.X, math.Max(d.Y, d.Z))
	best, at := 0.0, a
	step := func(x *float64) { // far from the origin, one that rounding leaves there
		*x += math.Max(size, math.Abs(*x)*0x1p-40)
	}
	for ax := 0; ax < 3; ax++ {
		q := a
		switch ax {
		case 0:
			step(&q.X)
		case 1:
			step(&q.Y)
		default:
			step(&q.Z)
		}
		if v, _ := orient3f(a, b, c, q); orient3sign(a, b, c, q) != 0 && (best == 0 || math.Abs(v) > best) {
			best, at = math.Abs(v), q
			if best == 0 {
				best = math.SmallestNonzeroFloat64
			}
		}
	}
	return at, best != 0
}

// monitor3D judges the triangles of a triangulation. Every decision is exact:
// copies, flat quadruples and points on common spheres are allowed.
func monitor3D(k *Case, pts []r3.Vector, idx []int) {
	if len(idx)%3 != 0 {
		k.Fail("%d indices", len(idx))
		return
	}
	first := map[r3.Vector]int{}
	var P []int // distinct points
	for i, p := range pts {
		p = v3(p.X+0, p.Y+0, p.Z+0)
		if _, ok := first[p]; !ok {
			first[p] = i
			P = append(P, i)
		}
	}
	faces := map[[3]int]int{}
	for t := 0; t < len(idx); t += 3 {
		var f [3]int
		for j := range f {
			if idx[t+j] < 0 || idx[t+j] >= len(pts) {
				k.Fail("triangle %d uses vertex %d of %d", t/3, idx[t+j], len(pts))
				return
			}
			p := pts[idx[t+j]]
			f[j] = first[v3(p.X+0, p.Y+0, p.Z+0)]
		}
		sort.Ints(f[:])
		faces[f]++
	}
	var apexes [][4]int
	for f, n := range faces {
		a, b, c := pts[f[0]], pts[f[1]], pts[f[2]]
		if n != 2 {
			k.Fail("triangle %v %v %v is reported %d times instead of once per side", a, b, c, n)
			return
		}
		off, ok := offPlane(a, b, c)
		if !ok {
			k.Fail("triangle %v %v %v is flat", a, b, c)
			return
		}
		// a Delaunay triangle: some sphere through its corners holds no other point
		side := orient3sign(a, b, c, off)
		up, down := -1, -1
		for _, e := range P {
			if e == f[0] || e == f[1] || e == f[2] {
				continue
			}
			switch s := orient3sign(a, b, c, pts[e]) * side; {
			case s == 0:
				if insphereSign(a, b, c, off, pts[e]) > 0 {
					k.Fail("triangle %v %v %v is not Delaunay: its circle holds %v", a, b, c, pts[e])
					return
				}
			case s > 0 && (up < 0 || insphereSign(a, b, c, pts[up], pts[e]) > 0):
				up = e
			case s < 0 && (down < 0 || insphereSign(a, b, c, pts[down], pts[e]) > 0):
				down = e
			}
		}
		if up >= 0 && down >= 0 && insphereSign(a, b, c, pts[up], pts[down]) > 0 {
			k.Fail("triangle %v %v %v is not Delaunay: every sphere through it holds %v or %v", a, b, c, pts[up], pts[down])
			return
		}
		for _, e := range []int{up, down} {
			if e >= 0 {
				apexes = append(apexes, [4]int{f[0], f[1], f[2], e})
			}
		}
	}
	k.c.Obs("triangles checked", len(faces))
	if len(faces) < 250 && !noCrossing(k, pts, faces) {
		return
	}
	require := requirer(k, pts, P, faces)
	if len(P) > 30 {
		// the tetrahedra on both sides of the triangles that are there
		for _, t := range apexes {
			if !require(t) {
				return
			}
		}
		return
	}
	requireAll(P, require)
}

// noCrossing checks that no edge of a triangle crosses another triangle or one
// of its edges: spheres through many points leave a choice of triangles, and
// choices must fit together.
func noCrossing(k *Case, pts []r3.Vector, faces map[[3]int]int) bool {
	type box struct{ lo, hi r3.Vector }
	apart := func(a, b box) bool {
		return a.hi.X < b.lo.X || b.hi.X < a.lo.X || a.hi.Y < b.lo.Y || b.hi.Y < a.lo.Y || a.hi.Z < b.lo.Z || b.hi.Z < a.lo.Z
	}
	edges := map[[2]int]box{}
	for f := range faces {
		for _, e := range [][2]int{{f[0], f[1]}, {f[1], f[2]}, {f[0], f[2]}} {
			lo, hi := minRange([]r3.Vector{pts[e[0]], pts[e[1]]})
			edges[e] = box{lo, hi}
		}
	}
	for f := range faces {
		a, b, c := pts[f[0]], pts[f[1]], pts[f[2]]
		lo, hi := minRange([]r3.Vector{a, b, c})
		fb := box{lo, hi}
		for e, eb := range edges {
			if e[0] == f[0] || e[0] == f[1] || e[0] == f[2] || e[1] == f[0] || e[1] == f[1] || e[1] == f[2] || apart(eb, fb) {
				continue
			}
			p, q := pts[e[0]], pts[e[1]]
			k.c.obs["edges tried against triangles"]++
			sp, sq := orient3sign(a, b, c, p), orient3sign(a, b, c, q)
			if sp*sq > 0 || sp == 0 && sq == 0 {
				continue // crossing edges of one plane are seen in a triangle beside that plane
			}
			if sp == 0 || sq == 0 {
				continue // a point inside a triangle is not Delaunay
			}
			u, v, w := orient3sign(p, q, a, b), orient3sign(p, q, b, c), orient3sign(p, q, c, a)
			if u >= 0 && v >= 0 && w >= 0 || u <= 0 && v <= 0 && w <= 0 {
				k.Fail("edge %v %v crosses triangle %v %v %v", p, q, a, b, c)
				return false
			}
		}
	}
	return true
}

// requirer returns the monitor for Delaunay tetrahedra whose sphere stays
// within the bounding box: all of their faces must be reported.
func requirer(k *Case, pts []r3.Vector, P []int, faces map[[3]int]int) func(ids [4]int) bool {
	blo, bhi := minRange(pts)
	return func(ids [4]int) bool {
		sort.Ints(ids[:])
		a, b, c, d := pts[ids[0]], pts[ids[1]], pts[ids[2]], pts[ids[3]]
		o, r, ok := circumsphere(a, b, c, d)
		r *= 1 + 1e-6
		if lo, hi := r3.Sub(blo, a), r3.Sub(bhi, a); !ok || o.X-r < lo.X || o.Y-r < lo.Y || o.Z-r < lo.Z || o.X+r > hi.X || o.Y+r > hi.Y || o.Z+r > hi.Z {
			return true
		}
		for _, e := range P {
			if e == ids[0] || e == ids[1] || e == ids[2] || e == ids[3] {
				continue
			}
			if d := r3.Distance(r3.Sub(pts[e], a), o); d < r*(1-1e-5) || d < r*(1+1e-5) && insphereSign(pts[ids[0]], pts[ids[1]], pts[ids[2]], pts[ids[3]], pts[e]) >= 0 {
				return true
			}
		}
		k.c.Obs("Delaunay tetrahedra required", 1)
		for s := 0; s < 4; s++ {
			var f [3]int
			x := 0
			for y := 0; y < 4; y++ {
				if y != s {
					f[x] = ids[y]
					x++
				}
			}
			if faces[f] == 0 {
				k.Fail("Delaunay tetrahedron %v %v %v %v, whose sphere stays within the bounding box, lacks triangle %v", a, b, c, d, f)
				return false
			}
		}
		return true
	}
}

func requireAll(P []int, require func(ids [4]int) bool) {
	for i := 0; i < len(P); i++ {
		for j := i + 1; j < len(P); j++ {
			for l := j + 1; l < len(P); l++ {
				for m := l + 1; m < len(P); m++ {
					if !require([4]int{P[i], P[j], P[l], P[m]}) {
						return
					}
				}
			}
		}
	}
}

func input3D(kind string, pts []r3.Vector) interface{} {
	return map[string]interface{}{"kind": kind, "n": len(pts), "points": clipPts(pts)}
}

func runBowyerWatson(c *Ctx) {
	bw, ok := lookup[func(...r3.Vector) []int](c, "meshing.bowyerWatson")
	if !ok {
		return
	}
	run := func(k *Case, pts []r3.Vector, kind string) {
		k.Input(input3D(kind, pts))
		k.Seen(pts)
		in := clonePts(pts)
		if len(pts) < 40 {
			k.twin(in, func() { bw(in...) })
		}
		idx := bw(in...)
		if len(pts) < 40 && k.Intn(4) == 0 { // another result, overwritten by its owner
			other := clonePts(pts[:1+k.Intn(len(pts))])
			for i := range other {
				other[i].X, other[i].Z = other[i].Z, other[i].X
			}
			spoilInts(bw(other...))
			k.c.Obs("results kept while others were made", 1)
		}
		for i := range in {
			if in[i] != pts[i] {
				k.Fail("the input was changed at %d", i)
				return
			}
		}
		monitor3D(k, pts, idx)
	}
	c.Sub("sets in general position", c.N(5000, 40000), func(k *Case) {
		pts, kind := gen3D(k)
		run(k, pts, kind)
	})
	c.Sub("lattice sets", c.N(2000, 20000), func(k *Case) {
		pts, kind := genLattice3(k)
		run(k, pts, kind)
	})
	c.Sub("degenerate but for rounding", c.N(3000, 30000), func(k *Case) {
		pts, kind := genNear3(k)
		run(k, pts, kind)
	})
	c.Sub("sets at two scales", c.N(600, 8000), func(k *Case) {
		// special position, disturbed far below the rounding of the larger coordinates
		f, g := math.Ldexp(1, k.Intn(126)), math.Ldexp(1, -k.Intn(130))
		r, few := 1+k.Intn(3), 1+k.Intn(4)
		var pts []r3.Vector
		for i, n := 0, 4+k.Intn(14); i < n; i++ {
			var x [3]float64
			for j := range x {
				x[j] = float64(k.Intn(2*r+1) - r)
			}
			if k.Intn(2) == 0 {
				x[k.Intn(3)] = 0
			}
			if k.Intn(2) == 0 { // on an axis
				x = [3]float64{}
				x[k.Intn(3)] = float64((2*k.Intn(2) - 1) * r)
			}
			for j := range x {
				if x[j] *= f; x[j] == 0 && k.Intn(few) == 0 {
					x[j] = float64(k.Intn(7)-3) * g
				}
			}
			pts = append(pts, v3(x[0], x[1], x[2]))
		}
		run(k, pts, "two scales")
	})
	c.Sub("framed sets", c.N(1500, 10000), func(k *Case) {
		var pts []r3.Vector
		n := 6 + k.Intn(18)
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(1))
		}
		for i := 0; i < 8; i++ {
			q := v3(float64(i&1*2-1), float64(i>>1&1*2-1), float64(i>>2&1*2-1)).Scaled(4)
			pts = append(pts, r3.Add(q, k.rvec(0.5)))
		}
		o := k.rvec(20)
		s := math.Pow(10, float64(k.Intn(4)-1))
		for i := range pts {
			pts[i] = r3.Add(pts[i], o).Scaled(s)
		}
		k.shuffle(pts)
		run(k, pts, "framed")
	})
	c.Sub("sets with copies", c.N(1500, 10000), func(k *Case) {
		pts, kind := gen3D(k)
		for n := 1 + k.Intn(6); n > 0; n-- {
			pts = append(pts, pts[k.Intn(len(pts))])
		}
		k.shuffle(pts)
		run(k, pts, kind+" with copies")
	})
	c.Sub("large sets", c.N(30, 200), func(k *Case) {
		var pts []r3.Vector
		n := 100 + k.Intn(60)
		if k.index%8 == 7 {
			n = 260 + k.Intn(300)
		}
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(10))
		}
		run(k, pts, "large uniform")
	})
	c.Sub("neighbours whose numbers run together alike", c.N(120, 1000), func(k *Case) {
		// 4, 51, 62 and 45, 1, 62: triangles of neighbours must not be
		// mistaken for each other because of the digits of their corners
		off := []int{4, 4, 0, 1}[k.Intn(4)]
		n := 70 + k.Intn(130)
		labels := k.alikeLabels(off, n-4+off)
		if labels == nil {
			return
		}
		var pts []r3.Vector
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(10))
		}
		o, r := k.rvec(4), []float64{0.01, 0.1, 1}[k.Intn(3)]
		for _, l := range labels {
			pts[l-off] = r3.Add(o, k.rvec(r))
		}
		for i := n - 4; i < n; i++ { // the last ones take their triangles apart
			pts[i] = r3.Add(o, k.rvec(r))
		}
		run(k, pts, fmt.Sprintf("neighbours %v, counted from %d", labels, off))
		k.c.Obs("sets of neighbours with like numbers", 1)
	})
	c.Sub("neighbours whose numbers differ by a power of two", c.N(5, 40), func(k *Case) {
		// tetrahedra and triangles must not be mistaken for those whose
		// corners have the same low bits
		S := []int{128, 256, 512, 1024}[k.index%4]
		if k.c.Tier == "quick" && k.index >= 4 {
			S = 256
		}
		low := []int{0, 1, 3, 4}[k.Intn(4)]
		n, clusters := S+120, 16
		var pts []r3.Vector
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(10))
		}
		for i := 0; i < clusters; i++ {
			// three early corners, and two apices on either side
			o, a, b := k.rvec(8), k.rvec(1), k.rvec(1)
			a = r3.Normalize(a).Scaled(0.01)
			b = r3.Normalize(b).Scaled(0.01)
			m := r3.Normalize(r3.Cross(a, b)).Scaled(0.008)
			g := r3.Add(a, b).Scaled(1.0 / 3)
			c := low + 4*i
			if c+3+S >= n {
				break
			}
			pts[c], pts[c+1], pts[c+2] = o, r3.Add(o, a), r3.Add(o, b)
			pts[c+3] = r3.Add(r3.Add(o, g), m)
			pts[c+3+S] = r3.Add(r3.Add(o, g), m.Scaled(-1))
		}
		run(k, pts, fmt.Sprintf("neighbours %d apart", S))
		k.c.Obs("sets of neighbours whose numbers differ by a power of two", 1)
	})
	c.Sub("very large sets", c.N(2, 12), func(k *Case) {
		var pts []r3.Vector
		n := 1100 + k.Intn(200)
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(10))
		}
		if k.index%2 == 1 { // the last points tear large holes
			for i := range pts[:n-4] {
				pts[i] = r3.Normalize(pts[i]).Scaled(10 + 0.01*k.Float64())
			}
		}
		run(k, pts, "very large")
	})
}

// alikeLabels returns the numbers from lo to below hi of two different
// ascending triples whose digits read alike, nil if none was found.
func (k *Case) alikeLabels(lo, hi int) []int {
	for try := 0; try < 20000; try++ {
		var t [3]int
		for i := range t {
			t[i] = lo + k.Intn([]int{10, 90, hi}[k.Intn(3)])
			if t[i] >= hi {
				t[i] = hi - 1
			}
		}
		sort.Ints(t[:])
		if t[0] == t[1] || t[1] == t[2] {
			continue
		}
		s := fmt.Sprint(t[0]) + fmt.Sprint(t[1]) + fmt.Sprint(t[2])
		var others [][3]int
		for i := 1; i < len(s)-1; i++ {
			for j := i + 1; j < len(s); j++ {
				if s[i] == '0' || s[j] == '0' || i > 4 || j-i > 4 || len(s)-j > 4 {
					continue
				}
				var u [3]int
				for x, d := range []string{s[:i], s[i:j], s[j:]} {
					fmt.Sscan(d, &u[x])
				}
				if u != t && lo <= u[0] && u[0] < u[1] && u[1] < u[2] && u[2] < hi {
					others = append(others, u)
				}
			}
		}
		if len(others) == 0 {
			continue
		}
		set := map[int]bool{}
		var out []int
		for _, x := range append(t[:], func() []int { u := others[k.Intn(len(others))]; return u[:] }()...) {
			if !set[x] {
				set[x] = true
				out = append(out, x)
			}
		}
		return out
	}
	return nil
}

// ---- englobing tetrahedra --------------------------------------------------

// genCloud makes 3D sets, degenerate ones included, of any size and place:
// up to maxMag in magnitude, shifted and stretched by axis.
const maxMag = 1e60

func genCloud(k *Case) (pts []r3.Vector, kind string) {
	if k.Intn(50) == 0 {
		return make([]r3.Vector, 1+k.Intn(4)), "the origin"
	}
	pts, kind = genShape(k)
	switch k.Intn(12) { // in order along an axis, one way or the other
	case 0:
		sort.Slice(pts, func(i, j int) bool { return pts[i].X < pts[j].X })
	case 1:
		sort.Slice(pts, func(i, j int) bool { return pts[i].X > pts[j].X })
	case 2:
		sort.Slice(pts, func(i, j int) bool { return pts[i].Y < pts[j].Y })
	case 3:
		sort.Slice(pts, func(i, j int) bool { return pts[i].Z > pts[j].Z })
	}
	pow := func() float64 { return math.Ldexp(1, k.Intn(361)-180) }
	var f func(p r3.Vector) r3.Vector
	switch k.Intn(6) {
	case 0:
		s := pow()
		f = func(p r3.Vector) r3.Vector { return p.Scaled(s) }
		kind += fmt.Sprintf(", times %g", s)
	case 1:
		sx, sy, sz := pow(), pow(), pow()
		f = func(p r3.Vector) r3.Vector { return v3(p.X*sx, p.Y*sy, p.Z*sz) }
		kind += ", stretched"
	case 2: // far away along one or more axes
		s := pow()
		o := v3(float64(k.Intn(3)-1), float64(k.Intn(3)-1), float64(k.Intn(3)-1)).Scaled(math.Pow(10, float64(k.Intn(50))) * 1000)
		f = func(p r3.Vector) r3.Vector { return r3.Add(p.Scaled(s), o) }
		kind += fmt.Sprintf(", times %g around %v", s, o)
	default:
		return
	}
	for i, p := range pts {
		q := f(p)
		if math.Max(math.Abs(q.X), math.Max(math.Abs(q.Y), math.Abs(q.Z))) > maxMag {
			for j := range pts { // too far: half of everything
				pts[j] = pts[j].Scaled(0.5)
			}
			return
		}
		pts[i] = q
	}
	return
}

func genShape(k *Case) (pts []r3.Vector, kind string) {
	n := 1 + k.Intn(30)
	if k.Intn(60) == 0 {
		n = 100 + k.Intn(3000)
	}
	switch k.Intn(8) {
	case 0:
		for i := 0; i < n; i++ {
			pts = append(pts, k.ivec(10))
		}
		kind = "lattice"
	case 1:
		s := math.Pow(10, float64(k.Intn(9)-4))
		for i := 0; i < n; i++ {
			pts = append(pts, k.rvec(s))
		}
		kind = fmt.Sprintf("uniform %g", s)
	case 2:
		o := k.rvec(1000)
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Add(o, k.rvec(1)))
		}
		kind = "shifted"
	case 3: // in an axis-parallel plane
		ax := k.Intn(3)
		h := k.NormFloat64() * 10
		for i := 0; i < n; i++ {
			p := k.rvec(10)
			switch ax {
			case 0:
				p.X = h
			case 1:
				p.Y = h
			default:
				p.Z = h
			}
			pts = append(pts, p)
		}
		kind = "plane"
	case 4: // on an axis-parallel line
		p := k.ivec(20)
		ax := k.Intn(3)
		for i := 0; i < n; i++ {
			q := p
			switch ax {
			case 0:
				q.X += float64(k.Intn(9))
			case 1:
				q.Y += float64(k.Intn(9))
			default:
				q.Z += float64(k.Intn(9))
			}
			pts = append(pts, q)
		}
		kind = "line"
	case 5:
		pts = append(pts, k.rvec(10))
		if k.Intn(2) == 0 {
			for i := 0; i < n; i++ {
				pts = append(pts, pts[0])
			}
		}
		kind = "one position"
	case 6: // corners of a box
		a, b := k.ivec(20), v3(float64(1+k.Intn(20)), float64(1+k.Intn(20)), float64(1+k.Intn(20)))
		for i := 0; i < 8; i++ {
			pts = append(pts, v3(a.X+float64(i&1)*b.X, a.Y+float64(i>>1&1)*b.Y, a.Z+float64(i>>2&1)*b.Z))
		}
		k.shuffle(pts)
		kind = "box"
	default: // all coordinates of one sign
		o := v3(float64(k.Intn(3)-1)*500, float64(k.Intn(3)-1)*500, float64(k.Intn(3)-1)*500)
		for i := 0; i < n; i++ {
			pts = append(pts, r3.Add(o, k.ivec(100)))
		}
		kind = "octant"
	}
	return
}

// strictlyInside decides exactly.
func strictlyInside(t [4]r3.Vector, p r3.Vector) bool {
	o := orient3sign(t[0], t[1], t[2], t[3])
	if o == 0 {
		return false
	}
	return orient3sign(p, t[1], t[2], t[3]) == o && orient3sign(t[0], p, t[2], t[3]) == o &&
		orient3sign(t[0], t[1], p, t[3]) == o && orient3sign(t[0], t[1], t[2], p) == o
}

func runEnglobe(c *Ctx) {
	englobe, ok1 := lookup[func(*[]r3.Vector) [4]int](c, "meshing.englobe")
	construct, ok2 := lookup[func([]r3.Vector) shape.Mesh](c, "triangulate3.constructEnglobingTetra")
	bbox, ok3 := lookup[func([]r3.Vector) (r3.Vector, r3.Vector)](c, "triangulate3.computeBoundingBoxForVectors")
	extremas, ok4 := lookup[func([]r3.Vector) (r3.Vector, r3.Vector)](c, "meshing.findExtremas")
	if ok1 {
		c.Sub("initial tetrahedron of the mesher", c.N(25000, 300000), func(k *Case) {
			pts, kind := genCloud(k)
			k.Input(input3D(kind, pts))
			k.Seen(pts)
			all := clonePts(pts)
			k.twin(all, func() { mine := all[:len(all):len(all)]; englobe(&mine) })
			id := englobe(&all)
			if len(all) != len(pts)+4 {
				k.Fail("%d points became %d", len(pts), len(all))
				return
			}
			for i := range pts {
				if all[i+4] != pts[i] {
					k.Fail("point %d became %v behind the englobing vertices", i, all[i+4])
					return
				}
			}
			var t [4]r3.Vector
			for i := range id {
				if id[i] < 0 || id[i] > 3 {
					k.Fail("vertex %d of the tetrahedron is point %d", i, id[i])
					return
				}
				t[i] = all[id[i]]
			}
			for _, p := range pts {
				if !strictlyInside(t, p) {
					k.Fail("%v is not strictly inside the tetrahedron %v", p, t)
					return
				}
			}
			k.c.Obs("containments checked", len(pts))
			k.c.ObsMax("largest set", len(pts))
		})
	}
	if ok2 {
		c.Sub("englobing mesh of triangulate3", c.N(25000, 300000), func(k *Case) {
			pts, kind := genCloud(k)
			k.Input(input3D(kind, pts))
			k.Seen(pts)
			in := clonePts(pts)
			k.twin(in, func() { construct(in) })
			m := construct(in)
			for i := range in {
				if in[i] != pts[i] {
					k.Fail("the input was changed at %d", i)
					return
				}
			}
			if len(m.Vertices) != 4 {
				k.Fail("%d vertices", len(m.Vertices))
				return
			}
			var t [4]r3.Vector
			copy(t[:], m.Vertices)
			for _, p := range pts {
				if !strictlyInside(t, p) {
					k.Fail("%v is not strictly inside the tetrahedron %v", p, t)
					return
				}
			}
			seen := map[[3]uint32]int{}
			for i := 0; i+2 < len(m.Indices); i += 3 {
				f := []int{int(m.Indices[i]), int(m.Indices[i+1]), int(m.Indices[i+2])}
				sort.Ints(f)
				seen[[3]uint32{uint32(f[0]), uint32(f[1]), uint32(f[2])}]++
			}
			for _, f := range [][3]uint32{{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}} {
				if seen[f] == 0 {
					k.Fail("the mesh lacks face %v: %v", f, m.Indices)
					return
				}
			}
			if len(seen) != 4 {
				k.Fail("the mesh has faces that are not of the tetrahedron: %v", m.Indices)
				return
			}
			k.c.Obs("containments checked", len(pts))
		})
	}
	if ok3 {
		c.Sub("bounding boxes", c.N(15000, 150000), func(k *Case) {
			pts, kind := genCloud(k)
			k.Input(input3D(kind, pts))
			k.Seen(pts)
			lo, hi := bbox(clonePts(pts))
			wl, wh := minRange(pts)
			if lo != wl || hi != wh {
				k.Fail("bounding box %v %v, it is %v %v", lo, hi, wl, wh)
			}
			k.c.Obs("bounding boxes", 1)
		})
	}
	if ok4 {
		c.Sub("bounding boxes of the mesher", c.N(15000, 150000), func(k *Case) {
			pts, kind := genCloud(k)
			k.Input(input3D(kind, pts))
			k.Seen(pts)
			lo, hi := extremas(clonePts(pts))
			wl, wh := minRange(pts)
			if lo != wl || hi != wh {
				k.Fail("bounding box %v %v, it is %v %v", lo, hi, wl, wh)
			}
			k.c.Obs("bounding boxes", 1)
		})
	}
}

// ---- seeds -----------------------------------------------------------------

func runSeeds(c *Ctx) {
	initial, ok1 := lookup[func([]r3.Vector) []r3.Vector](c, "triangulate3.createInitialTetra")
	nearest, ok2 := lookup[func([]r3.Vector, r3.Vector) r3.Vector](c, "meshing.getNearestPoint")
	nearC, ok3 := lookup[func([]r3.Vector, int, int, int, int) r3.Vector](c, "meshing.nearestToCentroid")
	if ok1 {
		c.Sub("initial simplex", c.N(30000, 300000), func(k *Case) {
			pts, kind := genCloud(k)
			for len(pts) < 4 {
				pts = append(pts, k.ivec(10))
			}
			if k.Intn(3) == 0 { // all heights above or below the rest
				s := float64(1 - 2*k.Intn(2))
				for i := range pts {
					pts[i].Z = s * math.Abs(pts[i].Z)
				}
				kind += " on one side"
			}
			k.Input(input3D(kind, pts))
			// not coplanar, and two different x
			coplanar := true
			sameX := true
			d := pts[0]
			for _, p := range pts {
				sameX = sameX && p.X == d.X
			}
			if !sameX {
				var b, e = -1, -1
				for i, p := range pts {
					if p == d {
						continue
					}
					if b < 0 {
						b = i
					} else if e < 0 {
						u := r3.Cross(r3.Sub(pts[b], d), r3.Sub(p, d))
						if u.Norm() > 1e-9*r3.Sub(pts[b], d).Norm()*r3.Sub(p, d).Norm() {
							e = i
						}
					} else {
						q := [4]r3.Vector{d, pts[b], pts[e], p}
						resolved := true
						for x := 0; x < 4; x++ { // from whichever corner it is measured
							v, perm := orient3f(q[(x+1)%4], q[(x+2)%4], q[(x+3)%4], q[x])
							resolved = resolved && math.Abs(v) > 1e-9*perm
						}
						if resolved {
							coplanar = false
							break
						}
					}
				}
			}
			if coplanar {
				return
			}
			k.Seen(pts)
			in0 := clonePts(pts)
			k.twin(in0, func() { initial(in0) })
			t := initial(in0)
			if len(t) != 4 {
				k.Fail("%d vertices", len(t))
				return
			}
			in := map[r3.Vector]bool{}
			for _, p := range pts {
				in[p] = true
			}
			for i, v := range t {
				if !in[v] {
					k.Fail("vertex %d, %v, is not an input point", i, v)
					return
				}
			}
			lo, hi := minRange(pts)
			// what is wrong with the four in this order
			wrong := func(t [4]r3.Vector) string {
				if t[0].X != lo.X || t[1].X != hi.X {
					return fmt.Sprintf("first vertices %v %v, the extremes in x are %v and %v", t[0], t[1], lo.X, hi.X)
				}
				// squared distances times a common factor, with bounds of their rounding
				d2 := func(p r3.Vector) (float64, float64) {
					u, v := v3(t[1].X-t[0].X, t[1].Y-t[0].Y, t[1].Z-t[0].Z), v3(p.X-t[0].X, p.Y-t[0].Y, p.Z-t[0].Z)
					val, err := 0.0, 0.0
					for _, c := range [3][4]float64{{u.Y, v.Z, u.Z, v.Y}, {u.Z, v.X, u.X, v.Z}, {u.X, v.Y, u.Y, v.X}} {
						x := c[0]*c[1] - c[2]*c[3]
						e := 1e-15 * (math.Abs(c[0]*c[1]) + math.Abs(c[2]*c[3]))
						val += x * x
						err += 2*math.Abs(x)*e + e*e + 1e-15*x*x
					}
					return val, err
				}
				d3 := func(p r3.Vector) (float64, float64) {
					v, perm := orient3f(t[1], t[2], p, t[0])
					return math.Abs(v), 4e-15 * perm
				}
				v2, e2 := d2(t[2])
				v3, e3 := d3(t[3])
				for _, p := range pts {
					if v, e := d2(p); v-e > v2+e2 {
						return fmt.Sprintf("%v is further from the line of the first two vertices than %v", p, t[2])
					}
					if v, e := d3(p); v-e > v3+e3 {
						return fmt.Sprintf("%v is further from the plane of the first three vertices than %v", p, t[3])
					}
				}
				return ""
			}
			first := ""
			for x := 0; x < 24; x++ { // the first order is as they come
				rest := []int{0, 1, 2, 3}
				var u [4]r3.Vector
				for i, y := 0, x; i < 4; i++ {
					f := []int{6, 2, 1, 1}[i]
					j := y / f
					y %= f
					u[i] = t[rest[j]]
					rest = append(append([]int{}, rest[:j]...), rest[j+1:]...)
				}
				w := wrong(u)
				if x == 0 {
					first = w
				}
				if w == "" {
					first = ""
					break
				}
			}
			if first != "" {
				k.Fail("%s", first)
				return
			}
			if orient3sign(t[0], t[1], t[2], t[3]) == 0 {
				k.Fail("flat simplex %v of points that are not coplanar", t)
			}
			k.c.Obs("simplices checked", 1)
			k.c.ObsMax("largest set", len(pts))
		})
	}
	checkNear := func(k *Case, pts []r3.Vector, q, got r3.Vector) {
		found := false
		for _, p := range pts {
			if p == got {
				found = true
			}
		}
		if !found {
			k.Fail("nearest point %v is not one of the points", got)
			return
		}
		g := r3.Sub(got, q)
		for _, p := range pts {
			if d := r3.Sub(p, q); d.Norm2() < g.Norm2()*(1-1e-12) {
				k.Fail("%v is nearer to %v than %v", p, q, got)
				return
			}
		}
		k.c.Obs("nearest points", 1)
	}
	if ok2 {
		c.Sub("nearest point", c.N(12000, 120000), func(k *Case) {
			pts, kind := genCloud(k)
			q := k.rvec(20)
			if k.Intn(2) == 0 {
				q = r3.Add(pts[k.Intn(len(pts))], k.rvec(2))
			}
			k.Input(map[string]interface{}{"set": input3D(kind, pts), "query": [3]float64{q.X, q.Y, q.Z}})
			k.Seen(pts, q)
			checkNear(k, pts, q, nearest(clonePts(pts), q))
		})
	}
	if ok3 {
		c.Sub("nearest point to a centroid", c.N(8000, 80000), func(k *Case) {
			pts, kind := genCloud(k)
			for len(pts) < 4 {
				pts = append(pts, k.ivec(10))
			}
			ix := k.Perm(len(pts))[:4]
			k.Input(map[string]interface{}{"set": input3D(kind, pts), "tetrahedron": ix})
			k.Seen(pts, ix)
			var q r3.Vector
			for _, i := range ix {
				q = r3.Add(q, pts[i].Scaled(0.25))
			}
			got := nearC(clonePts(pts), ix[0], ix[1], ix[2], ix[3])
			g := r3.Distance(got, q)
			in := false
			scale := 0.0
			for _, p := range pts {
				in = in || p == got
				scale = math.Max(scale, p.Norm())
			}
			if !in {
				k.Fail("nearest point %v is not one of the points", got)
				return
			}
			for _, p := range pts {
				if r3.Distance(p, q) < g-1e-12*scale {
					k.Fail("%v is nearer to the centroid %v than %v", p, q, got)
					return
				}
			}
		})
	}
}

// ---- containment and predicates --------------------------------------------

func runContainment(c *Ctx) {
	inMesh, ok := lookup[func(a, b, c, d, p r3.Vector) bool](c, "meshing.vectorInTetrahedron")
	ssMesh, ok2 := lookup[func(a, b, c, d, p r3.Vector) bool](c, "meshing.sameSide")
	c.Sub("point in tetrahedron", c.N(120000, 1500000), func(k *Case) {
		R := []int{2, 5, 50, 1000}[k.Intn(4)]
		t := [4]r3.Vector{k.ivec(R), k.ivec(R), k.ivec(R), k.ivec(R)}
		if orient3sign(t[0], t[1], t[2], t[3]) == 0 {
			return
		}
		var p r3.Vector
		kind := "random"
		switch k.Intn(6) {
		case 0:
			p = k.ivec(R)
		case 1: // inside or on a face, edge or vertex: integer weights over a common denominator, exact in floats
			w := [4]int{k.Intn(4), k.Intn(4), k.Intn(4), k.Intn(4)}
			s := w[0] + w[1] + w[2] + w[3]
			if s == 0 {
				w[0], s = 1, 1
			}
			for i := range t { // make the combination integral
				t[i] = t[i].Scaled(float64(s))
			}
			for i := range t {
				p = r3.Add(p, t[i].Scaled(float64(w[i])/float64(s)))
			}
			p = v3(math.Round(p.X), math.Round(p.Y), math.Round(p.Z))
			kind = "convex combination"
		case 2: // near a vertex
			p = r3.Add(t[k.Intn(4)], k.ivec(1))
			kind = "near a vertex"
		case 3:
			p = t[k.Intn(4)]
			kind = "vertex"
		case 4: // beyond one face
			i := k.Intn(4)
			g := r3.Add(r3.Add(t[(i+1)%4], t[(i+2)%4]), t[(i+3)%4]).Scaled(1.0 / 3)
			p = r3.Add(g, r3.Sub(g, t[i]).Scaled(k.Float64()*0.5-0.1))
			p = v3(math.Round(p.X), math.Round(p.Y), math.Round(p.Z))
			kind = "across a face"
		default: // midpoint of an edge pair
			i, j := k.Intn(4), k.Intn(4)
			p = r3.Add(t[i], t[j]).Scaled(0.5)
			kind = "edge midpoint"
		}
		if k.Intn(3) == 0 { // a power of two changes no rounding
			f := math.Ldexp(1, k.Intn(121)-60)
			for i := range t {
				t[i] = t[i].Scaled(f)
			}
			p = p.Scaled(f)
			kind += fmt.Sprintf(" times %g", f)
		}
		k.Input(map[string]interface{}{"kind": kind, "tetrahedron": fmt.Sprint(t), "point": fmt.Sprint(p)})
		o := orient3sign(t[0], t[1], t[2], t[3])
		want := true
		for i := range t {
			u := t
			u[i] = p
			if s := orient3sign(u[0], u[1], u[2], u[3]); s != 0 && s != o {
				want = false
			}
		}
		k.Seen(t, p)
		if want {
			k.c.Obs("points inside or on the boundary", 1)
		} else {
			k.c.Obs("points outside", 1)
		}
		perm := k.Perm(4)
		q := [4]r3.Vector{t[perm[0]], t[perm[1]], t[perm[2]], t[perm[3]]}
		if w := []r3.Vector{t[0], t[1], t[2], t[3], p}; true {
			k.twin(w, func() {
				triangulate3.VectorInTetrahedron(w[0], w[1], w[2], w[3], w[4])
				if ok {
					inMesh(w[0], w[1], w[2], w[3], w[4])
				}
			})
		}
		for _, v := range [][4]r3.Vector{t, q} {
			if got := triangulate3.VectorInTetrahedron(v[0], v[1], v[2], v[3], p); got != want {
				k.Fail("VectorInTetrahedron(%v, %v) = %v", v, p, got)
				return
			}
			if ok {
				if got := inMesh(v[0], v[1], v[2], v[3], p); got != want {
					k.Fail("mesh containment(%v, %v) = %v", v, p, got)
					return
				}
			}
		}
		// sides of one face
		s := orient3sign(t[0], t[1], t[2], p)
		side := s == 0 || s == o
		if got := triangulate3.SameSide(t[0], t[1], t[2], t[3], p); got != side {
			k.Fail("SameSide(%v, %v) = %v", t, p, got)
			return
		}
		if ok2 {
			if got := ssMesh(t[0], t[1], t[2], t[3], p); got != side {
				k.Fail("mesh side test(%v, %v) = %v", t, p, got)
			}
		}
	})
	c.Sub("sides of a plane", c.N(60000, 600000), func(k *Case) {
		R := []int{1, 3, 20, 1000}[k.Intn(4)]
		t := [3]r3.Vector{k.ivec(R), k.ivec(R), k.ivec(R)}
		// any two points, in the plane too
		point := func() r3.Vector {
			switch k.Intn(3) {
			case 0:
				a, b := float64(k.Intn(7)-3), float64(k.Intn(7)-3)
				return r3.Add(t[0], r3.Add(r3.Sub(t[1], t[0]).Scaled(a), r3.Sub(t[2], t[0]).Scaled(b)))
			case 1:
				return t[k.Intn(3)]
			}
			return k.ivec(R)
		}
		p, q := point(), point()
		f := 1.0
		if k.Intn(3) == 0 {
			f = math.Ldexp(1, k.Intn(121)-60)
		}
		for i := range t {
			t[i] = t[i].Scaled(f)
		}
		p, q = p.Scaled(f), q.Scaled(f)
		k.Input(map[string]interface{}{"plane": fmt.Sprint(t), "points": fmt.Sprint(p, q)})
		if n := r3.Cross(r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0])); n == r3.Zero {
			return
		}
		k.Seen(t, p, q)
		s1, s2 := orient3sign(t[0], t[1], t[2], p), orient3sign(t[0], t[1], t[2], q)
		want := s1*s2 >= 0
		if got := triangulate3.SameSide(t[0], t[1], t[2], p, q); got != want {
			k.Fail("SameSide(%v, %v, %v) = %v", t, p, q, got)
			return
		}
		if ok2 {
			if got := ssMesh(t[0], t[1], t[2], p, q); got != want {
				k.Fail("mesh side test(%v, %v, %v) = %v", t, p, q, got)
				return
			}
		}
		k.c.Obs(fmt.Sprintf("points with sides %d and %d", s1, s2), 1)
	})
	c.Sub("real points well inside or outside", c.N(50000, 500000), func(k *Case) {
		s := math.Pow(10, float64(k.Intn(7)-3))
		o := k.rvec(s)
		t := [4]r3.Vector{r3.Add(o, k.rvec(s)), r3.Add(o, k.rvec(s)), r3.Add(o, k.rvec(s)), r3.Add(o, k.rvec(s))}
		v, perm := orient3f(t[0], t[1], t[2], t[3])
		if math.Abs(v) < 1e-4*perm {
			return
		}
		// barycentric coordinates, away from zero
		var w [4]float64
		sum := 0.0
		for i := range w {
			w[i] = k.Float64()*0.9 + 0.05
			sum += w[i]
		}
		want := true
		if k.Intn(2) == 0 {
			i := k.Intn(4)
			sum -= 2 * w[i]
			w[i] = -w[i]
			want = false
			if sum < 0.1 {
				return
			}
		}
		var p r3.Vector
		for i := range w {
			p = r3.Add(p, t[i].Scaled(w[i]/sum))
		}
		k.Input(map[string]interface{}{"tetrahedron": fmt.Sprint(t), "point": fmt.Sprint(p), "inside": want})
		k.Seen(t, p)
		if got := triangulate3.VectorInTetrahedron(t[0], t[1], t[2], t[3], p); got != want {
			k.Fail("VectorInTetrahedron(%v, %v) = %v", t, p, got)
			return
		}
		if ok {
			if got := inMesh(t[0], t[1], t[2], t[3], p); got != want {
				k.Fail("mesh containment(%v, %v) = %v", t, p, got)
			}
		}
	})
}

// twoScales enlarges small whole coordinates and replaces zeros by tiny ones.
func twoScales(k *Case, p [5]r3.Vector) [5]r3.Vector {
	f, g := math.Ldexp(1, k.Intn(126)), math.Ldexp(1, -k.Intn(130))
	few := 1 + k.Intn(4)
	put := func(x *float64) {
		if *x != 0 {
			*x *= f
		} else if k.Intn(few) == 0 {
			*x = float64(k.Intn(7)-3) * g
		}
	}
	for i := range p {
		put(&p[i].X)
		put(&p[i].Y)
		put(&p[i].Z)
	}
	return p
}

func runPredicates(c *Ctx) {
	orient, ok1 := lookup[func(a, b, c, d r3.Vector) float64](c, "predicates.orient3dfast")
	insph, ok2 := lookup[func(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64) float64](c, "predicates.inSphere")
	pts5 := func(k *Case) (p [5]r3.Vector, kind string) {
		R := []int{1, 2, 5, 20, 100}[k.Intn(5)]
		for i := range p {
			p[i] = k.ivec(R)
		}
		kind = fmt.Sprintf("lattice R=%d", R)
		switch k.Intn(5) {
		case 0: // five points of one sphere: permutations and signs of a triple
			a, b, d := float64(k.Intn(R+1)), float64(k.Intn(R+1)), float64(k.Intn(R+1))
			o := k.ivec(10)
			for i := range p {
				x := [3]float64{a, b, d}
				k.Rand.Shuffle(3, func(i, j int) { x[i], x[j] = x[j], x[i] })
				for j := range x {
					if k.Intn(2) == 0 {
						x[j] = -x[j]
					}
				}
				p[i] = r3.Add(o, v3(x[0], x[1], x[2]))
			}
			if k.Intn(2) == 0 {
				p[4] = r3.Add(p[4], k.ivec(1))
			}
			kind = "on or near a sphere"
		case 1:
			p[4] = p[k.Intn(4)]
			kind = "copy of a vertex"
		case 2: // inside
			p[4] = r3.Add(r3.Add(p[0], p[1]), r3.Add(p[2], p[3])).Scaled(0.25)
			kind = "centroid"
		}
		if k.Intn(3) == 0 { // a power of two changes no rounding
			f := math.Ldexp(1, k.Intn(121)-60)
			for i := range p {
				p[i] = p[i].Scaled(f)
			}
			kind += fmt.Sprintf(" times %g", f)
		}
		return
	}
	// the filtered test and the one built on it leave nothing to rounding
	twin5 := func(k *Case, p [5]r3.Vector) {
		w := p[:]
		k.twin(w, func() {
			predicates.InSphereFast(w[0], w[1], w[2], w[3], w[4])
			predicates.InCircumsphere(w[0], w[1], w[2], w[3], w[4])
			if ok2 {
				insph(w[0].X, w[0].Y, w[0].Z, w[1].X, w[1].Y, w[1].Z, w[2].X, w[2].Y, w[2].Z, w[3].X, w[3].Y, w[3].Z, w[4].X, w[4].Y, w[4].Z)
			}
		})
	}
	exactly := func(k *Case, p [5]r3.Vector) {
		twin5(k, p)
		in := insphereSign(p[0], p[1], p[2], p[3], p[4])
		o := orient3sign(p[0], p[1], p[2], p[3])
		if o != 0 {
			k.c.Obs([]string{"strictly outside", "exactly on the sphere", "strictly inside"}[in+1], 1)
			if got := predicates.InCircumsphere(p[0], p[1], p[2], p[3], p[4]); got != (in > 0) {
				k.Fail("InCircumsphere(%v) = %v, the exact sign is %d", p, got, in)
				return
			}
			if got := predicates.InCircumsphere(p[1], p[0], p[2], p[3], p[4]); got != (in > 0) {
				k.Fail("InCircumsphere(%v) of the mirrored tetrahedron = %v, the exact sign is %d", p, got, in)
				return
			}
		}
		if ok2 {
			want := int(inSphereConvention()) * insphereExact(p[0], p[1], p[2], p[3], p[4]).Sign()
			g := insph(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z)
			if fsign(g) != want {
				k.Fail("filtered in-sphere test(%v) = %v, the exact sign is %d", p, g, want)
				return
			}
			k.c.Obs("filtered tests", 1)
		}
	}
	c.Sub("in-sphere test on exact inputs", c.N(120000, 1500000), func(k *Case) {
		p, kind := pts5(k)
		k.Input(map[string]interface{}{"kind": kind, "points": fmt.Sprint(p)})
		k.Seen(p)
		det := insphereExact(p[0], p[1], p[2], p[3], p[4])
		got := predicates.InSphereFast(p[0], p[1], p[2], p[3], p[4])
		// the code's convention has the opposite sign of Shewchuk's matrix: fixed by
		// the unit simplex below, so only relative consistency is required here
		want, _ := det.Float64()
		want *= inSphereConvention()
		if got != want {
			k.Fail("InSphereFast(%v) = %v, the determinant is %v", p, got, want)
			return
		}
		in := insphereSign(p[0], p[1], p[2], p[3], p[4])
		k.c.Obs([]string{"outside", "on the sphere or flat", "inside"}[in+1], 1)
		exactly(k, p)
	})
	real := func(k *Case, p [5]r3.Vector, kind string) {
		k.Input(map[string]interface{}{"kind": kind, "points": fmt.Sprint(p)})
		k.Seen(p)
		det := insphereExact(p[0], p[1], p[2], p[3], p[4])
		_, perm := insphere3f(p[0], p[1], p[2], p[3], p[4])
		want, _ := det.Float64()
		want *= inSphereConvention()
		got := predicates.InSphereFast(p[0], p[1], p[2], p[3], p[4])
		if math.Abs(got-want) > 1e-13*perm {
			k.Fail("InSphereFast(%v) = %v, the determinant is %v", p, got, want)
			return
		}
		exactly(k, p)
	}
	c.Sub("in-sphere test on real inputs", c.N(80000, 800000), func(k *Case) {
		s := math.Pow(10, float64(k.Intn(7)-3))
		var p [5]r3.Vector
		o := k.rvec(s)
		for i := range p {
			p[i] = r3.Add(o, k.rvec(s))
		}
		kind := "uniform"
		if k.Intn(3) == 0 { // close to the sphere
			if q, r, ok := circumsphere(p[0], p[1], p[2], p[3]); ok && r < 100*s {
				d := r3.Normalize(k.rvec(1))
				p[4] = r3.Add(r3.Add(p[0], q), d.Scaled(r*(1+math.Pow(10, -float64(k.Intn(18)))*float64(k.Intn(3)-1))))
				kind = "near the sphere"
			}
		}
		if k.Intn(4) == 0 { // on a sphere, but for rounding
			q, _ := pts5(k)
			f, o := (0.5+k.Float64())*s, k.rvec(s)
			if k.Intn(2) == 0 {
				o = r3.Vector{}
			}
			for i := range q {
				q[i] = r3.Add(q[i].Scaled(f), o)
			}
			p, kind = q, "rounded lattice"
		}
		real(k, p, kind)
	})
	c.Sub("in-sphere test at two scales", c.N(60000, 600000), func(k *Case) {
		// exact decisions far below the rounding of the larger coordinates
		p, kind := pts5(k)
		if k.Intn(2) == 0 {
			q := k.ivec(3)
			for i := range p { // points in the coordinate planes and on the axes
				o := [3]float64{q.X, q.Y, q.Z}
				k.Rand.Shuffle(3, func(i, j int) { o[i], o[j] = o[j], o[i] })
				for j := range o {
					o[j] *= float64(1 - 2*k.Intn(2))
				}
				if k.Intn(2) == 0 {
					o[k.Intn(3)] = 0
				}
				p[i] = v3(o[0], o[1], o[2])
			}
			if k.Intn(2) == 0 {
				p = [5]r3.Vector{v3(1, 0, 0), v3(-1, 0, 0), v3(0, 1, 0), v3(0, -1, 0), v3(0, 0, 1)}
				k.shuffle(p[:])
			}
		}
		p = twoScales(k, p)
		for _, q := range p {
			if big := math.Max(math.Abs(q.X), math.Max(math.Abs(q.Y), math.Abs(q.Z))); big > 1e40 {
				return
			}
		}
		k.Input(map[string]interface{}{"kind": kind + " at two scales", "points": fmt.Sprint(p)})
		k.Seen(p)
		exactly(k, p)
	})
	c.Sub("in-sphere test within rounding of the sphere", c.N(120000, 1500000), func(k *Case) {
		p, kind := clusteredSphere(k)
		real(k, p, kind)
	})
	c.Sub("in-sphere test of nearly flat tetrahedra", c.N(60000, 700000), func(k *Case) {
		var p [5]r3.Vector
		t := realTuple(k)
		copy(p[:], t[:])
		s := math.Pow(10, float64(k.Intn(13)-6))
		p[4] = k.rvec(s)
		kind := "any point"
		switch k.Intn(4) {
		case 0: // beside a vertex
			i := k.Intn(4)
			p[4] = p[i]
			for j := k.Intn(3); j > 0; j-- {
				p[4].X = math.Nextafter(p[4].X, k.rvec(1e9).X)
				p[4].Z = math.Nextafter(p[4].Z, k.rvec(1e9).Z)
			}
			kind = "beside a vertex"
		case 1: // in the plane, but for rounding
			w, x, y := k.NormFloat64(), k.NormFloat64(), k.NormFloat64()
			p[4] = r3.Add(r3.Add(p[0].Scaled(1-w-x-y), p[1].Scaled(w)), r3.Add(p[2].Scaled(x), p[3].Scaled(y)))
			kind = "in the plane"
		case 2:
			q, _ := clusteredSphere(k)
			p = q
			// the first four near a circle of it
			n, h := k.rvec(1), p[0]
			for i := 1; i < 4; i++ {
				d := r3.Sub(p[i], h)
				p[i] = r3.Sub(p[i], n.Scaled(r3.Dot(d, n)/n.Norm2()))
			}
			kind = "near a circle"
		}
		f := math.Ldexp(1, k.Intn(201)-100)
		for i := range p {
			p[i] = p[i].Scaled(f)
		}
		k.Input(map[string]interface{}{"kind": kind, "points": fmt.Sprint(p)})
		k.Seen(p)
		exactly(k, p)
	})
	if ok1 {
		c.Sub("orientation test", c.N(120000, 1500000), func(k *Case) {
			R := []int{1, 3, 20, 1000}[k.Intn(4)]
			p := [4]r3.Vector{k.ivec(R), k.ivec(R), k.ivec(R), k.ivec(R)}
			if k.Intn(4) == 0 { // coplanar
				p[3] = r3.Sub(r3.Add(p[0], p[1]), p[2])
			}
			if k.Intn(3) == 0 {
				f := math.Ldexp(1, k.Intn(121)-60)
				for i := range p {
					p[i] = p[i].Scaled(f)
				}
			}
			k.Input(fmt.Sprint(p))
			k.Seen(p)
			want, _ := orient3Exact(p[0], p[1], p[2], p[3]).Float64()
			w := clonePts(p[:])
			k.twin(w, func() { orient(w[0], w[1], w[2], w[3]) })
			if got := orient(p[0], p[1], p[2], p[3]); got != want {
				k.Fail("orientation(%v) = %v, the determinant is %v", p, got, want)
			}
			k.c.Obs([]string{"negative orientation", "coplanar", "positive orientation"}[fsign(want)+1], 1)
		})
		c.Sub("orientation test on real inputs", c.N(50000, 500000), func(k *Case) {
			s := math.Pow(10, float64(k.Intn(9)-4))
			p := [4]r3.Vector{k.rvec(s), k.rvec(s), k.rvec(s), k.rvec(s)}
			k.Input(fmt.Sprint(p))
			k.Seen(p)
			want, _ := orient3Exact(p[0], p[1], p[2], p[3]).Float64()
			_, perm := orient3f(p[0], p[1], p[2], p[3])
			w := clonePts(p[:])
			k.twin(w, func() { orient(w[0], w[1], w[2], w[3]) })
			if got := orient(p[0], p[1], p[2], p[3]); math.Abs(got-want) > 1e-14*perm {
				k.Fail("orientation(%v) = %v, the determinant is %v", p, got, want)
			}
		})
	}
}

// clusteredSphere makes five points of one sphere, but for rounding: spread,
// or in one to three tight clusters, or on circles of it that lie in or close
// to coordinate planes. Every product of the determinant gets to be the one
// that matters for rounding.
func clusteredSphere(k *Case) (p [5]r3.Vector, kind string) {
	if k.Intn(2) == 0 {
		// a sphere through the origin, which is the last point: the others
		// have the relative accuracy of their distance from it
		ax := k.Intn(3)
		rev := k.Intn(2) == 0
		near := math.Pow(10, -6*k.Float64())
		thin := math.Pow(10, -6*k.Float64()*float64(k.Intn(2)))
		turn := k.Float64() * 2 * math.Pi
		for i := 0; i < 4; i++ {
			x, y, z := k.NormFloat64(), k.NormFloat64()*thin, k.NormFloat64()
			if k.Intn(4) > 0 {
				z *= near
			}
			x, y = x*math.Cos(turn)-y*math.Sin(turn), x*math.Sin(turn)+y*math.Cos(turn)
			u := r3.Normalize(v3(x, y, z))
			u = u.Scaled(2 * u.Z)
			if rev {
				u.Z = -u.Z
			}
			switch ax {
			case 0:
				u = v3(u.Y, u.Z, u.X)
			case 1:
				u = v3(u.Z, u.X, u.Y)
			}
			p[i] = u
		}
		return p, "sphere through the origin"
	}
	var dirs []r3.Vector
	for n := 1 + k.Intn(3); len(dirs) < n; {
		d := v3(k.NormFloat64(), k.NormFloat64(), k.NormFloat64())
		switch k.Intn(4) {
		case 0:
			d = v3(float64(k.Intn(3)-1), float64(k.Intn(3)-1), float64(k.Intn(3)-1))
		case 1:
			d.Z *= math.Pow(10, -float64(k.Intn(9)))
		}
		if d.Norm() > 0 {
			dirs = append(dirs, r3.Normalize(d))
		}
	}
	size := make([]float64, len(dirs))
	for i := range size {
		size[i] = math.Pow(10, -7*k.Float64())
	}
	flat := [3]float64{1, 1, 1}
	if k.Intn(2) == 0 {
		flat[k.Intn(3)] = math.Pow(10, -8*k.Float64()) * float64(k.Intn(4))
	}
	r := math.Pow(10, 4*k.Float64()-2)
	o := k.rvec(r * math.Pow(10, 2*k.Float64()-1))
	atEnd := k.Intn(3) == 0
	if k.Intn(3) == 0 {
		o = r3.Vector{}
	}
	for i := range p {
		c := k.Intn(len(dirs))
		if k.Intn(5) == 0 {
			c = -1
		}
		d := v3(k.NormFloat64()*flat[0], k.NormFloat64()*flat[1], k.NormFloat64()*flat[2])
		if c >= 0 {
			d = r3.Add(dirs[c], d.Scaled(size[c]))
		}
		p[i] = r3.Add(o, r3.Normalize(d).Scaled(r))
	}
	if atEnd { // differences with the last point are exact
		l := p[4]
		for i := range p {
			p[i] = r3.Sub(p[i], l)
		}
	}
	if k.Intn(3) == 0 {
		k.Rand.Shuffle(5, func(i, j int) { p[i], p[j] = p[j], p[i] })
	}
	return p, "clusters on a sphere"
}

// inSphereConvention is the sign between the code's in-sphere value and the
// exact determinant: both conventions are in use in the literature, and the
// code's callers rely on "value and orientation of opposite sign = inside".
func inSphereConvention() float64 { return insphereConv }

const insphereConv = -1

// realTuple makes four points with arbitrary fractions, at any scale, some
// sharing coordinates, some far from the origin, some nearly in one plane.
func realTuple(k *Case) (p [4]r3.Vector) {
	s := math.Pow(10, float64(k.Intn(13)-6))
	for i := range p {
		p[i] = k.rvec(s)
	}
	switch k.Intn(6) {
	case 0: // shared coordinates
		i, j := k.Intn(4), k.Intn(4)
		p[i].X = p[j].X
		p[k.Intn(4)].Y = p[k.Intn(4)].Y
		p[j].Z = p[i].Z
	case 1: // three of four share one
		i, a := k.Intn(4), k.Intn(3)
		for j := range p {
			if j != i {
				switch a {
				case 0:
					p[j].X = p[(i+1)%4].X
				case 1:
					p[j].Y = p[(i+1)%4].Y
				default:
					p[j].Z = p[(i+1)%4].Z
				}
			}
		}
	case 2:
		o := k.rvec(s * 1e4)
		for i := range p {
			p[i] = v3(p[i].X+o.X, p[i].Y+o.Y, p[i].Z+o.Z)
		}
	case 3: // nearly flat
		w := k.rvec(1)
		p[3] = v3(p[0].X*w.X+p[1].X*w.Y+p[2].X*(1-w.X-w.Y), p[0].Y*w.X+p[1].Y*w.Y+p[2].Y*(1-w.X-w.Y), p[0].Z*w.X+p[1].Z*w.Y+p[2].Z*(1-w.X-w.Y))
	}
	return
}

func runMeasures(c *Ctx) {
	centM, ok1 := lookup[func(a, b, c, d r3.Vector) r3.Vector](c, "meshing.findCentroid")
	centT, ok2 := lookup[func(a, b, c, d r3.Vector) r3.Vector](c, "triangulate3.findCentroid")
	det2, ok3 := lookup[func(a, b r3.Vector) float64](c, "r3.det2D")
	twin4 := func(k *Case, p [4]r3.Vector) {
		w := p[:]
		k.twin(w, func() {
			triangulate3.Get2Ddist(w[0], w[1], w[2])
			triangulate3.Get3Ddist(w[0], w[1], w[2], w[3])
			if ok1 {
				centM(w[0], w[1], w[2], w[3])
			}
			if ok2 {
				centT(w[0], w[1], w[2], w[3])
			}
			if ok3 {
				det2(w[0], w[1])
			}
		})
	}
	c.Sub("exact measures", c.N(120000, 1500000), func(k *Case) {
		R := []int{1, 2, 10, 1000}[k.Intn(4)]
		p := [4]r3.Vector{k.ivec(R), k.ivec(R), k.ivec(R), k.ivec(R)}
		if k.Intn(3) == 0 {
			f := math.Ldexp(1, k.Intn(121)-60)
			for i := range p {
				p[i] = p[i].Scaled(f)
			}
		}
		k.Input(fmt.Sprint(p))
		k.Seen(p)
		twin4(k, p)
		A, B, C := bvecOf(p[0]), bvecOf(p[1]), bvecOf(p[2])
		u, v := B.sub(A), C.sub(A)
		cx := bsub(bmul(u.y, v.z), bmul(u.z, v.y))
		cy := bsub(bmul(u.z, v.x), bmul(u.x, v.z))
		cz := bsub(bmul(u.x, v.y), bmul(u.y, v.x))
		w2, _ := badd(badd(bmul(cx, cx), bmul(cy, cy)), bmul(cz, cz)).Float64()
		if got := triangulate3.Get2Ddist(p[0], p[1], p[2]); math.Abs(got-w2) > 1e-14*math.Abs(w2) {
			k.Fail("Get2Ddist(%v) = %v, the squared double area is %v", p[:3], got, w2)
			return
		}
		var d *big.Float = bdet3(u, v, bvecOf(p[3]).sub(A))
		w3, _ := d.Float64()
		if got := triangulate3.Get3Ddist(p[0], p[1], p[2], p[3]); got != w3 {
			k.Fail("Get3Ddist(%v) = %v, the volume determinant is %v", p, got, w3)
			return
		}
		k.c.Obs("areas and volumes", 2)
		want := v3((p[0].X+p[1].X+p[2].X+p[3].X)/4, (p[0].Y+p[1].Y+p[2].Y+p[3].Y)/4, (p[0].Z+p[1].Z+p[2].Z+p[3].Z)/4)
		if ok1 {
			if got := centM(p[0], p[1], p[2], p[3]); got != want {
				k.Fail("centroid(%v) = %v", p, got)
				return
			}
		}
		if ok2 {
			if got := centT(p[0], p[1], p[2], p[3]); got != want {
				k.Fail("centroid(%v) = %v", p, got)
				return
			}
		}
		if ok3 {
			if got := det2(p[0], p[1]); got != p[0].X*p[1].Y-p[0].Y*p[1].X {
				k.Fail("2D determinant(%v, %v) = %v", p[0], p[1], got)
			}
		}
	})
	var cents []func(a, b, c, d r3.Vector) r3.Vector
	if ok1 {
		cents = append(cents, centM)
	}
	if ok2 {
		cents = append(cents, centT)
	}
	c.Sub("real measures", c.N(40000, 400000), func(k *Case) {
		p := realTuple(k)
		k.Input(fmt.Sprint(p))
		k.Seen(p)
		twin4(k, p)
		u, v := bvecOf(p[1]).sub(bvecOf(p[0])), bvecOf(p[2]).sub(bvecOf(p[0]))
		uf, vf := r3.Vector{X: p[1].X - p[0].X, Y: p[1].Y - p[0].Y, Z: p[1].Z - p[0].Z}, r3.Vector{X: p[2].X - p[0].X, Y: p[2].Y - p[0].Y, Z: p[2].Z - p[0].Z}
		cx, cy, cz := bsub(bmul(u.y, v.z), bmul(u.z, v.y)), bsub(bmul(u.z, v.x), bmul(u.x, v.z)), bsub(bmul(u.x, v.y), bmul(u.y, v.x))
		want, _ := badd(badd(bmul(cx, cx), bmul(cy, cy)), bmul(cz, cz)).Float64()
		sq := func(a, b, c, d float64) float64 { x := math.Abs(a*b) + math.Abs(c*d); return x * x }
		l := sq(uf.Y, vf.Z, uf.Z, vf.Y) + sq(uf.Z, vf.X, uf.X, vf.Z) + sq(uf.X, vf.Y, uf.Y, vf.X)
		if got := triangulate3.Get2Ddist(p[0], p[1], p[2]); math.Abs(got-want) > 1e-14*l {
			k.Fail("Get2Ddist(%v) = %v, the squared double area is %v", p[:3], got, want)
			return
		}
		w3, _ := orient3Exact(p[1], p[2], p[3], p[0]).Float64()
		_, perm := orient3f(p[1], p[2], p[3], p[0])
		if got := triangulate3.Get3Ddist(p[0], p[1], p[2], p[3]); math.Abs(got-w3) > 1e-14*perm {
			k.Fail("Get3Ddist(%v) = %v, the volume determinant is %v", p, got, w3)
			return
		}
		// the measure changes sign with two vertices exchanged
		i, j := k.Intn(4), k.Intn(4)
		if i != j {
			q := p
			q[i], q[j] = q[j], q[i]
			_, perm2 := orient3f(q[1], q[2], q[3], q[0])
			if a, b := triangulate3.Get3Ddist(p[0], p[1], p[2], p[3]), triangulate3.Get3Ddist(q[0], q[1], q[2], q[3]); math.Abs(a+b) > 1e-14*(perm+perm2) {
				k.Fail("Get3Ddist(%v): %v, with vertices %d and %d exchanged %v", p, a, i, j, b)
				return
			}
		}
		for _, f := range cents {
			got := f(p[0], p[1], p[2], p[3])
			for a, x := range [3][5]float64{{got.X, p[0].X, p[1].X, p[2].X, p[3].X}, {got.Y, p[0].Y, p[1].Y, p[2].Y, p[3].Y}, {got.Z, p[0].Z, p[1].Z, p[2].Z, p[3].Z}} {
				m := math.Abs(x[1]) + math.Abs(x[2]) + math.Abs(x[3]) + math.Abs(x[4])
				w, _ := badd(badd(bf(x[1]), bf(x[2])), badd(bf(x[3]), bf(x[4]))).Float64()
				if math.Abs(x[0]-w/4) > 1e-15*m {
					k.Fail("centroid(%v) = %v: coordinate %d is off", p, got, a)
					return
				}
			}
			k.c.Obs("centroids", 1)
		}
		if ok3 {
			w, _ := bsub(bmul(bf(p[0].X), bf(p[1].Y)), bmul(bf(p[0].Y), bf(p[1].X))).Float64()
			if got := det2(p[0], p[1]); math.Abs(got-w) > 1e-15*(math.Abs(p[0].X*p[1].Y)+math.Abs(p[0].Y*p[1].X)) {
				k.Fail("2D determinant(%v, %v) = %v, it is %v", p[0], p[1], got, w)
			}
		}
	})
}

func runFlip14(c *Ctx) {
	flip, ok := lookup[func([]r3.Vector, r3.Vector) ([]r3.Vector, []uint32)](c, "meshing.flip14")
	if !ok {
		return
	}
	c.Sub("splits of a tetrahedron", c.N(100000, 400000), func(k *Case) {
		R := []int{1, 3, 20}[k.Intn(3)]
		t := []r3.Vector{k.ivec(R), k.ivec(R), k.ivec(R), k.ivec(R)}
		if k.Intn(3) == 0 {
			s := math.Pow(10, float64(k.Intn(13)-6))
			t = []r3.Vector{k.rvec(s), k.rvec(s), k.rvec(s), k.rvec(s)}
		}
		if orient3sign(t[0], t[1], t[2], t[3]) == 0 {
			return
		}
		// inside, on a face, on an edge, at a vertex, or anywhere
		var p r3.Vector
		s := 0.0
		kind := k.Intn(5)
		for n, i := range k.Perm(4) {
			if n > kind && kind < 4 {
				break
			}
			w := 0.1 + k.Float64()
			if kind == 0 {
				w = 1
			}
			p = r3.Add(p, t[i].Scaled(w))
			s += w
		}
		p = p.Scaled(1 / s)
		if kind == 4 {
			p = k.ivec(R)
		}
		k.c.Obs([]string{"at a vertex", "on an edge", "on a face", "inside", "anywhere"}[kind], 1)
		k.Input(map[string]interface{}{"tetrahedron": fmt.Sprint(t), "point": fmt.Sprint(p)})
		k.Seen(t, p)
		in := append(clonePts(t), p)
		k.twin(in, func() { flip(in[:4:4], in[4]) })
		vs, idx := flip(in[:4:4], p)
		if len(vs) != 5 || vs[4] != p {
			k.Fail("vertices %v", vs)
			return
		}
		for i := range t {
			if vs[i] != t[i] {
				k.Fail("vertex %d became %v", i, vs[i])
				return
			}
		}
		if len(idx)%3 != 0 {
			k.Fail("%d indices", len(idx))
			return
		}
		// all triangles of the four tetrahedra, each seen from both sides of each
		// tetrahedron it belongs to
		count := map[[3]uint32][2]int{}
		for i := 0; i < len(idx); i += 3 {
			f := [3]uint32{idx[i], idx[i+1], idx[i+2]}
			for _, x := range f {
				if x > 4 {
					k.Fail("index %d of 5 vertices", x)
					return
				}
			}
			par := 0
			for a := 0; a < 3; a++ {
				for b := a + 1; b < 3; b++ {
					if f[a] > f[b] {
						f[a], f[b] = f[b], f[a]
						par ^= 1
					}
				}
			}
			if f[0] == f[1] || f[1] == f[2] {
				k.Fail("triangle %v", f)
				return
			}
			n := count[f]
			n[par]++
			count[f] = n
		}
		for a := uint32(0); a < 5; a++ {
			for b := a + 1; b < 5; b++ {
				for d := b + 1; d < 5; d++ {
					n := count[[3]uint32{a, b, d}]
					want := 1 // a face of the original tetrahedron belongs to one of the four
					if d == 4 {
						want = 2 // a face at the new point is shared by two
					}
					if n[0] != want || n[1] != want {
						k.Fail("triangle %d %d %d: %d and %d times from its two sides instead of %d", a, b, d, n[0], n[1], want)
						return
					}
				}
			}
		}
		k.c.Obs("triangles checked", len(idx)/3)
	})
}

func init() {
	register("C11", "random, shifted, framed, shell, jittered, stretched and integer 3D sets with and without copies, sets in special position (grids, cospherical, coplanar, collinear) and such sets but for rounding (rotated grids, spheres, planes and lines, close pairs, distant clusters, neighbouring floats, very flat sets, mixed scales), all decided without rounding: every reported triangle is tested for an empty sphere, no two triangles may cross, and every Delaunay tetrahedron with its sphere within the bounding box must be reported; distinct by content", runBowyerWatson,
		"up to 1300 points, coordinates zero or between 1e-40 and 1e40 in magnitude")
	register("C12", "3D clouds (lattices, uniform at all scales from 2^-180 to 2^180, shifted up to 1e52, in axis-parallel planes and lines, single positions, boxes, single octants); containment is decided exactly; distinct by content", runEnglobe, "coordinates up to 10^60 in magnitude")
	register("C13", "3D clouds of all scales that are not coplanar within rounding and have two different x; queries near and far; distinct by content", runSeeds)
	register("C14", "integer tetrahedra with points at random, inside, on faces, edges and vertices and across faces (decided exactly), real tetrahedra with points well inside or outside; distinct by content", runContainment, "tetrahedra are not flat")
	register("C15", "integer point tuples (random, cospherical, near-cospherical, copies, flat) where the float determinants are exact, real tuples incl. points within 10^-17 of the sphere, clusters on a sphere and nearly flat tetrahedra; the filtered tests must have the exact sign, the others the value of the exact determinant within rounding; distinct by content", runPredicates)
	register("C16", "integer tuples (exact) and real tuples at 9 scales compared with exact determinants; distinct by content", runMeasures)
	register("C29", "integer and real tetrahedra split at points inside, on faces and edges, at vertices and anywhere; distinct by content", runFlip14, "the mesh holds exactly one tetrahedron, the only case the operation supports")
}
