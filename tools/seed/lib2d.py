LIB='''package triangulate2_test

import (
	"math/rand"
	"testing"

	"geGoMetry/r3"
	"geGoMetry/triangulate2"
)

func at(x, y float64) r3.Vector { return r3.Vector{X: x, Y: y} }

func orient(a, b, c r3.Vector) float64 {
	return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
}

// covers reports what is wrong with the triangles of integer points: their area must be that of the
// hull, they must not be flat or differ in orientation, and every point must be used.
func covers(p []r3.Vector, tr *triangulate2.Triangulation) string {
	T := tr.Triangles
	sum, sign := 0.0, 0.0
	used := map[r3.Vector]bool{}
	edges := map[[2]r3.Vector]int{}
	for i := 0; i+2 < len(T); i += 3 {
		a, b, c := p[T[i]], p[T[i+1]], p[T[i+2]]
		o := orient(a, b, c)
		if o == 0 {
			return "flat triangle"
		}
		if sign*o < 0 {
			return "triangles of both orientations"
		}
		sign = o
		if o < 0 {
			o = -o
		}
		sum += o
		for j := 0; j < 3; j++ {
			used[p[T[i+j]]] = true
			e := [2]r3.Vector{p[T[i+j]], p[T[i+(j+1)%3]]}
			edges[e]++
			if edges[e] > 1 {
				return "two triangles on one side of an edge"
			}
		}
	}
	for _, q := range p {
		if !used[q] {
			return "unused point"
		}
	}
	if hull := hullArea(p); hull != sum {
		return "triangles do not cover the hull"
	}
	return ""
}

// hullArea is twice the area of the hull (gift wrapping).
func hullArea(p []r3.Vector) float64 {
	s := p[0]
	for _, q := range p {
		if q.X < s.X || q.X == s.X && q.Y < s.Y {
			s = q
		}
	}
	area, a := 0.0, s
	for {
		b := a
		for _, q := range p {
			o := orient(a, b, q)
			d := func(v r3.Vector) float64 { return (v.X-a.X)*(v.X-a.X) + (v.Y-a.Y)*(v.Y-a.Y) }
			if b == a || o < 0 || o == 0 && d(q) > d(b) {
				if q != a {
					b = q
				}
			}
		}
		area += a.X*b.Y - a.Y*b.X
		a = b
		if a == s {
			return area
		}
	}
}

// delaunay reports a circumcircle that holds a point (integer points).
func delaunay(p []r3.Vector, tr *triangulate2.Triangulation) string {
	T := tr.Triangles
	for i := 0; i+2 < len(T); i += 3 {
		a, b, c := p[T[i]], p[T[i+1]], p[T[i+2]]
		if orient(a, b, c) < 0 {
			b, c = c, b
		}
		for _, q := range p {
			ax, ay, bx, by, cx, cy := a.X-q.X, a.Y-q.Y, b.X-q.X, b.Y-q.Y, c.X-q.X, c.Y-q.Y
			if (ax*ax+ay*ay)*(bx*cy-cx*by)-(bx*bx+by*by)*(ax*cy-cx*ay)+(cx*cx+cy*cy)*(ax*by-bx*ay) > 0 {
				return "point inside a circumcircle"
			}
		}
	}
	return ""
}

// adjacency reports half-edges and hull that do not fit the triangles.
func adjacency(p []r3.Vector, tr *triangulate2.Triangulation) string {
	T, H := tr.Triangles, tr.Halfedges
	next := func(e int) int { return e - e%3 + (e+1)%3 }
	border := map[r3.Vector]int{}
	if len(T) != len(H) {
		return "lengths differ"
	}
	for e, o := range H {
		if o == -1 {
			border[p[T[e]]]++
			continue
		}
		if H[o] != e || p[T[o]] != p[T[next(e)]] || p[T[next(o)]] != p[T[e]] {
			return "wrong half-edge"
		}
	}
	if len(border) != len(tr.ConvexHull) {
		return "hull and boundary differ in size"
	}
	for _, q := range tr.ConvexHull {
		if border[q] != 1 {
			return "hull point is not on the boundary"
		}
	}
	return ""
}

func lattice(seed int64, n, w int) []r3.Vector {
	g := rand.New(rand.NewSource(seed))
	var p []r3.Vector
	for i := 0; i < n; i++ {
		p = append(p, at(float64(g.Intn(w)), float64(g.Intn(w))))
	}
	return p
}

func flat(p []r3.Vector) bool {
	for _, a := range p {
		for _, b := range p {
			if orient(p[0], a, b) != 0 {
				return false
			}
		}
	}
	return true
}
'''
