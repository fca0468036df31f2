package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"

	"geGoMetry/r3"
	"geGoMetry/triangulate2"
)

func sortXY(d []r3.Vector) {
	sort.Slice(d, func(i, j int) bool {
		if d[i].X != d[j].X {
			return d[i].X < d[j].X
		}
		return d[i].Y < d[j].Y
	})
}

func clonePts(p []r3.Vector) []r3.Vector { return append([]r3.Vector(nil), p...) }

// tol is the relative excess (over the magnitude of the determinant's terms)
// up to which a real-valued result is attributed to rounding.
const tol = 1e-11

// xy folds a point to its planar position.
func xy(p r3.Vector) [2]float64 { return [2]float64{p.X + 0, p.Y + 0} }

// monitorTopology checks that the triangles partition the convex hull of the
// points. It does not use the code's own half-edge structure or hull.
func monitorTopology(k *Case, s pset, tr *triangulate2.Triangulation) {
	P := s.P
	T := tr.Triangles
	if len(T) == 0 || len(T)%3 != 0 {
		k.Fail("%d triangle indices for a non-degenerate input", len(T))
		return
	}
	// identify points by planar position, so that copies are one vertex
	id := map[[2]float64]int{}
	canon := make([]int, len(P))
	for i, p := range P {
		if j, ok := id[xy(p)]; ok {
			canon[i] = j
		} else {
			id[xy(p)] = i
			canon[i] = i
		}
	}
	orient := 0
	type edge struct{ a, b int }
	edges := map[edge]int{}
	used := map[int]bool{}
	for t := 0; t < len(T); t += 3 {
		var v [3]int
		for j := 0; j < 3; j++ {
			if T[t+j] < 0 || T[t+j] >= len(P) {
				k.Fail("triangle %d uses vertex index %d of %d points", t/3, T[t+j], len(P))
				return
			}
			v[j] = canon[T[t+j]]
			used[v[j]] = true
		}
		sg, _, _ := orient2(P[v[0]], P[v[1]], P[v[2]])
		if sg == 0 {
			k.Fail("triangle %d %v has zero area", t/3, v)
			return
		}
		if orient == 0 {
			orient = sg
		} else if orient != sg {
			k.Fail("triangle %d is oriented against the others", t/3)
			return
		}
		for j := 0; j < 3; j++ {
			e := edge{v[j], v[(j+1)%3]}
			if e.a == e.b {
				k.Fail("triangle %d is degenerate: %v", t/3, v)
				return
			}
			edges[e]++
			if edges[e] > 1 {
				k.Fail("edge %v-%v is used twice in the same direction: overlapping triangles", P[e.a], P[e.b])
				return
			}
		}
	}
	for p, i := range id {
		if !used[i] {
			k.Fail("point %v is in no triangle", p)
			return
		}
	}
	// the boundary is one cycle
	next := map[int]int{}
	for e := range edges {
		if edges[edge{e.b, e.a}] == 0 {
			if _, dup := next[e.a]; dup {
				k.Fail("boundary is not a simple cycle at %v", P[e.a])
				return
			}
			next[e.a] = e.b
		}
	}
	var cyc []int
	for start := range next {
		v := start
		for {
			cyc = append(cyc, v)
			w, ok := next[v]
			if !ok || len(cyc) > len(next)+1 {
				k.Fail("boundary is broken at %v", P[v])
				return
			}
			if w == start {
				break
			}
			v = w
		}
		break
	}
	if len(cyc) != len(next) {
		k.Fail("boundary has %d edges but its cycle has %d: several components or a hole", len(next), len(cyc))
		return
	}
	// convex, in the orientation of the triangles, and turning once
	for i := range cyc {
		a, b, c := P[cyc[i]], P[cyc[(i+1)%len(cyc)]], P[cyc[(i+2)%len(cyc)]]
		sg, _, _ := orient2(a, b, c)
		if sg*orient < 0 {
			k.Fail("boundary is not convex at %v", b)
			return
		}
	}
	h := refHull(P)
	onb := map[[2]float64]bool{}
	for _, i := range cyc {
		onb[xy(P[i])] = true
	}
	for _, q := range h {
		if !onb[xy(q)] {
			k.Fail("hull corner %v is not on the boundary", q)
			return
		}
	}
	area, perms := 0.0, 0.0
	for t := 0; t < len(T); t += 3 {
		_, val, perm := orient2(P[T[t]], P[T[t+1]], P[T[t+2]])
		area += math.Abs(val)
		perms += perm
	}
	ha := 0.0
	for i := range h {
		q := h[(i+1)%len(h)]
		_, val, perm := orient2(h[0], h[i], q)
		ha += val
		perms += perm
	}
	if math.Abs(area-ha) > 1e-9*math.Abs(ha)+1e-13*perms {
		k.Fail("triangles cover %v of the hull's %v", area/2, ha/2)
		return
	}
	// Euler: triangles = 2 n - 2 - boundary
	if n := len(id); len(T)/3 != 2*n-2-len(cyc) {
		k.Fail("%d triangles for %d points with %d on the boundary", len(T)/3, n, len(cyc))
	}
	k.c.Obs("triangles checked", len(T)/3)
	k.c.Obs("interior edges checked", (len(edges)-len(cyc))/2)
	k.c.ObsMax("largest point set", len(P))
}

// monitorHalfedges checks the exported adjacency.
func monitorHalfedges(k *Case, s pset, tr *triangulate2.Triangulation) {
	T, H, P := tr.Triangles, tr.Halfedges, s.P
	if len(T) != len(H) {
		k.Fail("%d triangle corners but %d halfedges", len(T), len(H))
		return
	}
	nextIn := func(e int) int {
		if e%3 == 2 {
			return e - 2
		}
		return e + 1
	}
	type edge struct{ a, b [2]float64 }
	dir := map[edge]int{}
	for e := range H {
		dir[edge{xy(P[T[e]]), xy(P[T[nextIn(e)]])}] = e
	}
	for e, o := range H {
		a, b := xy(P[T[e]]), xy(P[T[nextIn(e)]])
		if o == -1 {
			if x, ok := dir[edge{b, a}]; ok {
				k.Fail("halfedge %d is marked as boundary but triangle %d has the opposite edge", e, x/3)
				return
			}
			continue
		}
		if o < 0 || o >= len(H) {
			k.Fail("halfedge %d points at %d", e, o)
			return
		}
		if H[o] != e {
			k.Fail("halfedge %d points at %d, which points at %d", e, o, H[o])
			return
		}
		if xy(P[T[o]]) != b || xy(P[T[nextIn(o)]]) != a {
			k.Fail("halfedge %d (%v-%v) is paired with %d (%v-%v)", e, a, b, o, P[T[o]], P[T[nextIn(o)]])
			return
		}
	}
	k.c.Obs("halfedges checked", len(H))
}

// monitorHullCycle checks the exported hull of the triangulation.
func monitorHullCycle(k *Case, s pset, hull []r3.Vector, what string) {
	in := map[[2]float64]bool{}
	points := map[[3]float64]bool{} // with their heights
	for _, p := range s.P {
		in[xy(p)] = true
		points[[3]float64{p.X + 0, p.Y + 0, p.Z + 0}] = true
	}
	seen := map[[2]float64]bool{}
	for _, q := range hull {
		if !in[xy(q)] || !points[[3]float64{q.X + 0, q.Y + 0, q.Z + 0}] {
			k.Fail("%s: %v is not an input point", what, q)
			return
		}
		if seen[xy(q)] {
			k.Fail("%s: %v appears twice", what, q)
			return
		}
		seen[xy(q)] = true
	}
	ref := refHull(s.P)
	terms := 0.0
	area := func(h []r3.Vector) float64 {
		a := 0.0
		for i := range h {
			q := h[(i+1)%len(h)]
			l, r := (h[i].X-h[0].X)*(q.Y-h[0].Y), (q.X-h[0].X)*(h[i].Y-h[0].Y)
			a += l - r
			terms += math.Abs(l) + math.Abs(r)
		}
		return a
	}
	ra, ha := area(ref), area(hull)
	{
		// exactly counter-clockwise: turns left or goes straight on everywhere, and every corner present
		for i := range hull {
			sg, _, _ := orient2(hull[i], hull[(i+1)%len(hull)], hull[(i+2)%len(hull)])
			if sg < 0 {
				k.Fail("%s: turns clockwise at %v", what, hull[(i+1)%len(hull)])
				return
			}
		}
		for _, q := range ref {
			if !seen[xy(q)] {
				k.Fail("%s: corner %v is missing", what, q)
				return
			}
		}
		if ha != ra && (s.exact || math.Abs(ha-ra) > 1e-9*math.Abs(ra)+1e-13*terms) {
			k.Fail("%s: encloses area %v, the hull has %v", what, ha/2, ra/2)
			return
		}
		// the positions on its sides, too
		for p := range in {
			if seen[p] {
				continue
			}
			q := v2(p[0], p[1])
			for i := range ref {
				if sg, _, _ := orient2(ref[i], ref[(i+1)%len(ref)], q); sg == 0 {
					k.Fail("%s: %v lies on a side of the hull and is missing", what, q)
					return
				}
			}
		}
	}
	k.c.Obs("hull vertices checked", len(hull))
}

// monitorDelaunay checks the empty-circumcircle rule. Adjacency is rebuilt
// from the triangles. By the Delaunay lemma local emptiness across every edge
// of a triangulation is global emptiness; small sets are checked globally.
func monitorDelaunay(k *Case, s pset, tr *triangulate2.Triangulation) {
	T, P := tr.Triangles, s.P
	ccw := func(t int) (a, b, c r3.Vector) {
		a, b, c = P[T[t]], P[T[t+1]], P[T[t+2]]
		if sg, _, _ := orient2(a, b, c); sg < 0 {
			b, c = c, b
		}
		return
	}
	bad := func(t int, q r3.Vector) bool {
		a, b, c := ccw(t)
		sg, _, _ := incircle2(a, b, c, q)
		k.c.obs["circumcircle tests"]++
		return sg > 0
	}
	if len(P)*len(T) < 30000 {
		for t := 0; t < len(T); t += 3 {
			for _, q := range P {
				if bad(t, q) {
					k.Fail("%v lies strictly inside the circumcircle of triangle %v %v %v", q, P[T[t]], P[T[t+1]], P[T[t+2]])
					return
				}
			}
		}
		return
	}
	type edge struct{ a, b [2]float64 }
	opp := map[edge]int{} // directed edge -> corner index opposite to it
	for t := 0; t < len(T); t += 3 {
		for j := 0; j < 3; j++ {
			opp[edge{xy(P[T[t+j]]), xy(P[T[t+(j+1)%3]])}] = t + (j+2)%3
		}
	}
	for e, o := range opp {
		if w, ok := opp[edge{e.b, e.a}]; ok {
			if bad(o-o%3, P[T[w]]) {
				k.Fail("%v lies strictly inside the circumcircle of triangle %v %v %v", P[T[w]], P[T[o-o%3]], P[T[o-o%3+1]], P[T[o-o%3+2]])
				return
			}
		}
	}
}

// sized generators shared by the 2D checks
func workloads2D(c *Ctx, quickN, thoroughN int, f func(k *Case, s pset)) {
	c.Sub("integer sets", c.N(quickN, thoroughN), func(k *Case) {
		s := genExact(k, 120)
		k.Input(s.input())
		f(k, s)
	})
	c.Sub("real sets", c.N(quickN, thoroughN), func(k *Case) {
		s := genGeneric(k, 150)
		k.Input(s.input())
		f(k, s)
	})
	c.Sub("small integer sets", c.N(4*quickN, 4*thoroughN), func(k *Case) {
		n := 3 + k.Intn(6)
		R := 2 + k.Intn(4)
		var p []r3.Vector
		for i := 0; i < n; i++ {
			p = append(p, v2(float64(k.Intn(R+1)), float64(k.Intn(R+1))))
		}
		s := pset{fmt.Sprintf("small lattice R=%d", R), p, true}
		k.Input(s.input())
		f(k, s)
	})
	c.Sub("large sets", c.N(24, 300), func(k *Case) {
		n := []int{600, 1000, 2000, 5000}[k.Intn(4)]
		var s pset
		switch k.Intn(4) {
		case 0:
			s = genGeneric(k, n)
		case 1:
			R := []int{20, 60, 400}[k.Intn(3)]
			for i := 0; i < n; i++ {
				s.P = append(s.P, v2(float64(k.Intn(2*R+1)-R), float64(k.Intn(2*R+1)-R)))
			}
			s.Kind, s.exact = fmt.Sprintf("large lattice R=%d", R), true
		case 2:
			a := int(math.Sqrt(float64(n)))
			for i := 0; i < a; i++ {
				for j := 0; j < a; j++ {
					s.P = append(s.P, v2(float64(i), float64(j)))
				}
			}
			if k.Intn(2) == 0 {
				k.shuffle(s.P)
			}
			s.Kind, s.exact = "large grid", true
		default:
			for i := 0; i < n; i++ {
				s.P = append(s.P, v2(k.Float64()*100, k.Float64()*100))
			}
			s.Kind = "large uniform"
		}
		k.Input(s.input())
		f(k, s)
	})
	c.Sub("very large sets", c.N(10, 50), func(k *Case) {
		n := 20000 + k.Intn(60000)
		s := pset{Kind: "very large uniform"}
		switch k.index % 10 {
		case 0:
			for i := 0; i < n; i++ {
				s.P = append(s.P, v2(k.Float64()*1000, k.Float64()*1000))
			}
		case 1:
			s.Kind, s.exact = "very large lattice", true
			n = 65026 + k.Intn(511) // whose root fills a byte
			for i := 0; i < n; i++ {
				s.P = append(s.P, v2(float64(k.Intn(1000)-500), float64(k.Intn(1000)-500)))
			}
		case 2:
			s.Kind = "very large disc"
			for i := 0; i < n; i++ {
				a, r := k.Float64()*2*math.Pi, math.Sqrt(k.Float64())*1000
				s.P = append(s.P, v2(r*math.Cos(a), r*math.Sin(a)))
			}
		case 3: // few distinct points and very many copies
			s.Kind, s.exact = "very large with copies", true
			for i := 0; i < n; i++ {
				s.P = append(s.P, v2(float64(k.Intn(40)), float64(k.Intn(40))))
			}
		case 4: // one long line of points, and some beside it
			s.Kind, s.exact = "very long line", true
			for i := 0; i < n/4; i++ {
				s.P = append(s.P, v2(float64(i), 0))
			}
			for i := 0; i < 20; i++ {
				s.P = append(s.P, v2(float64(k.Intn(n/4)), float64(k.Intn(20001)-10000)))
			}
			k.shuffle(s.P)
		case 5: // everything on the hull
			s.Kind, s.exact = "large parabola", true
			for i := -1500; i < 1500; i++ {
				s.P = append(s.P, v2(float64(i), float64(i*i)))
			}
			k.shuffle(s.P)
		case 6: // nearly everything on the hull, with nearly equal coordinates
			s.Kind = "large circle"
			o, last := v2(k.NormFloat64(), k.NormFloat64()), 0.0
			for i := 0; i < 3000; i++ {
				a := k.Float64() * math.Pi
				if i%4 == 1 { // close to the one before
					a = last + k.Float64()*math.Pow(10, -float64(5+k.Intn(6)))
				}
				last = a
				x, y := 100*math.Cos(a), 100*math.Sin(a)
				s.P = append(s.P, v2(o.X+x, o.Y+y), v2(math.Nextafter(o.X+x, 1000*float64(k.Intn(3)-1)), o.Y-y))
			}
			k.shuffle(s.P)
		case 7: // a turned grid with copies: very many distances nearly equal
			s.Kind = "large turned grid"
			a, o := k.Float64()*2*math.Pi, v2(k.NormFloat64(), k.NormFloat64())
			for i := 0; i < 110*110; i++ {
				x, y := float64(i%110-55), float64(i/110-55)
				s.P = append(s.P, v2(o.X+x*math.Cos(a)-y*math.Sin(a), o.Y+x*math.Sin(a)+y*math.Cos(a)))
			}
			for i := 0; i < 2000; i++ {
				s.P = append(s.P, s.P[k.Intn(len(s.P))])
			}
			k.shuffle(s.P)
		case 8: // rings about one centre
			s.Kind = "large rings"
			for i := 0; i < 12000; i++ {
				a, r := k.Float64()*2*math.Pi, float64(1+k.Intn(12))
				s.P = append(s.P, v2(r*math.Cos(a), r*math.Sin(a)))
			}
			s.P = append(s.P, v2(1e-3, 0), v2(-1e-3, 2e-4), v2(0, 1e-3))
			k.shuffle(s.P)
		case 9: // a small grid around the middle of a large set, and copies
			s.Kind, s.exact = "large grid with copies", true
			for i := 0; i < 101*101; i++ {
				s.P = append(s.P, v2(float64(i%101*3-150), float64(i/101*3-150)))
			}
			for i := 0; i < 8000; i++ {
				s.P = append(s.P, s.P[k.Intn(len(s.P))])
			}
			k.shuffle(s.P)
		}
		k.Input(s.input())
		k.c.ObsMax("largest point set", len(s.P))
		f(k, s)
	})
}

// withZ gives the points of a planar set arbitrary heights; copies of one
// planar position get different heights too.
func withZ(k *Case, s pset) pset {
	p := clonePts(s.P)
	mode := k.Intn(3)
	for i := range p {
		switch mode {
		case 0:
			p[i].Z = float64(k.Intn(41) - 20)
		case 1:
			p[i].Z = k.NormFloat64() * 1000
		default:
			p[i].Z = p[i].X*p[i].X + p[i].Y*p[i].Y
		}
	}
	return pset{s.Kind + " with heights", p, s.exact}
}

const dom2D = "orientation and in-circle signs, distinctness and hull membership are decided without rounding (exact arithmetic where a float64 filter does not settle them); sums of areas may differ by 1e-9 of the hull and 1e-13 of their terms; coordinates are zero or of magnitude 1e-60 to 1e60"
const rule2D = "2D point sets from 12 integer families (also scaled by powers of two from 2^-100 to 2^100) and 22 real families (nearly collinear, nearly cocircular, far from the origin, near-copies down to one rounding step, grids of rounding steps, chains, thin clusters, whole numbers up to 2^52, all scales and exponents at once included) plus small, large (up to 5000 points) and very large (up to 80000) sets and sets with heights; non-trivial: not all points on one line; distinct by content"

// triangulated runs Triangulate on a non-degenerate set.
func triangulated(k *Case, s pset) (*triangulate2.Triangulation, bool) {
	if len(s.P) == 0 || allCollinear(s.P) {
		return nil, false
	}
	k.Seen(s.P)
	in := clonePts(s.P)
	k.twin(in, func() { triangulate2.Triangulate(in) })
	tr, err := triangulate2.Triangulate(in)
	if err != nil || tr == nil {
		k.Fail("error %v for points that are not all on a line", err)
		return nil, false
	}
	if len(s.P) < 3000 {
		anotherSet(k, s)
	}
	return tr, true
}

// anotherSet triangulates other points now and then, often some of those of s,
// and overwrites what comes out: the results that are being checked stay.
func anotherSet(k *Case, s pset) {
	if k.Intn(4) > 0 {
		return
	}
	var q []r3.Vector
	switch k.Intn(3) {
	case 0:
		q = genExact(k, 12).P
	case 1:
		q = clonePts(s.P)
		if k.Intn(2) == 0 {
			k.shuffle(q)
		}
	default:
		q = clonePts(s.P[:1+k.Intn(len(s.P))])
		for i := range q {
			q[i].X, q[i].Y = q[i].Y, q[i].X
		}
	}
	k.c.Obs("results kept while another set was triangulated", 1)
	if tr, err := triangulate2.Triangulate(q); err == nil && tr != nil {
		spoilInts(tr.Triangles)
		spoilInts(tr.Halfedges)
		spoilPoints(tr.ConvexHull)
	}
	spoilPoints(triangulate2.ConvexHull(q))
}

func indicesOK(s pset, T []int) bool {
	if len(T) == 0 || len(T)%3 != 0 {
		return false
	}
	for _, i := range T {
		if i < 0 || i >= len(s.P) {
			return false
		}
	}
	return true
}

func withHeights(c *Ctx, n int, f func(k *Case, s pset)) {
	c.Sub("sets with heights", n, func(k *Case) {
		var s pset
		if k.Intn(2) == 0 {
			s = genExact(k, 60)
		} else {
			s = genGeneric(k, 60)
		}
		s = withZ(k, s)
		k.Input(s.input())
		f(k, s)
	})
}

func init() {
	register("C05", rule2D, func(c *Ctx) {
		f := func(k *Case, s pset) {
			if tr, ok := triangulated(k, s); ok {
				monitorTopology(k, s, tr)
			}
		}
		workloads2D(c, 9000, 100000, f)
		withHeights(c, c.N(2000, 30000), f)
	}, dom2D)
	register("C06", rule2D, func(c *Ctx) {
		f := func(k *Case, s pset) {
			if tr, ok := triangulated(k, s); ok {
				if !indicesOK(s, tr.Triangles) {
					k.Fail("malformed triangle list %v", clip(fmt.Sprint(tr.Triangles), 200))
					return
				}
				monitorDelaunay(k, s, tr)
			}
		}
		workloads2D(c, 9000, 100000, f)
		withHeights(c, c.N(2000, 30000), f)
	}, dom2D)
	register("C07", rule2D, func(c *Ctx) {
		f := func(k *Case, s pset) {
			if tr, ok := triangulated(k, s); ok {
				if !indicesOK(s, tr.Triangles) {
					k.Fail("malformed triangle list %v", clip(fmt.Sprint(tr.Triangles), 200))
					return
				}
				monitorHalfedges(k, s, tr)
				if !k.Failed() {
					monitorHullCycle(k, s, tr.ConvexHull, "hull of the triangulation")
				}
				if !k.Failed() {
					monitorBoundaryIsHull(k, s, tr)
				}
			}
		}
		workloads2D(c, 9000, 100000, f)
		withHeights(c, c.N(2000, 30000), f)
	}, dom2D)
	register("C08", "point sets without a triangulation: empty, one or two points, coincident points, points on one line (integer lines of any slope and up to 2^52 long, lines of many scales, axis-parallel and diagonal real lines, scaled by powers of two), with and without copies and heights; sets thinner than any tolerance; non-trivial: not empty; distinct by content", runDegenerate, "collinearity is decided exactly from the generated coordinates")
	register("C09", rule2D+"; also degenerate sets", runHull, dom2D)
	register("C10", "triangulations produced by Triangulate of the integer and real families and of uniform sets of any size (1e-20 to 1e20) and place, with and without heights, unchanged and with one corruption (half-edges broken or out of range, wrong or missing corners, triangles dropped, repeated or reversed, hull points dropped, moved, exchanged, spikes); non-trivial: not all points on one line; distinct by content", runValidate,
		"areas and perimeters count as changed beyond a billionth of the (squared) perimeter and what copies within 1.5e-8 amount to")
}

// monitorBoundaryIsHull checks that the boundary halfedges and the exported
// hull are the same cycle of positions.
func monitorBoundaryIsHull(k *Case, s pset, tr *triangulate2.Triangulation) {
	T, P := tr.Triangles, s.P
	b := map[[2]float64]bool{}
	n := 0
	for e, o := range tr.Halfedges {
		if o == -1 {
			b[xy(P[T[e]])] = true
			n++
		}
	}
	if n != len(tr.ConvexHull) {
		k.Fail("%d boundary halfedges but %d hull points", n, len(tr.ConvexHull))
		return
	}
	for _, q := range tr.ConvexHull {
		if !b[xy(q)] {
			k.Fail("hull point %v is not on a boundary halfedge", q)
			return
		}
	}
}

func genDegenerate(k *Case) pset {
	var p []r3.Vector
	kind := ""
	switch k.Intn(10) {
	case 8:
		// every point is a whole number, though rounding blurs every product of them
		w := int64(1) << uint(10+k.Intn(33))
		dx, dy, ox, oy := float64(k.Int63n(2*w+1)-w), float64(k.Int63n(2*w+1)-w), float64(k.Int63n(2*w+1)-w), float64(k.Int63n(2*w+1)-w)
		for i := 0; i < 2+k.Intn(30); i++ {
			t := float64(k.Intn(1000) - 500)
			p = append(p, v2(ox+t*dx, oy+t*dy))
		}
		kind = "long line"
	case 9:
		// through the origin, over many scales
		x, y := float64(k.Int63n(1<<40)), float64(k.Int63n(1<<40)-1<<39)
		for i := 0; i < 2+k.Intn(30); i++ {
			f := math.Ldexp(float64(k.Intn(2001)-1000), k.Intn(81)-40)
			p = append(p, v2(x*f, y*f))
		}
		kind = "line of many scales"
	case 0:
		kind = "empty"
	case 1:
		p = append(p, v2(float64(k.Intn(21)-10), k.NormFloat64()))
		kind = "one point"
	case 2:
		p = append(p, v2(float64(k.Intn(21)-10), float64(k.Intn(21)-10)), v2(float64(k.Intn(21)-10), float64(k.Intn(21)-10)))
		kind = "two points"
	case 3:
		q := v2(k.NormFloat64()*10, k.NormFloat64()*10)
		for i := 0; i < 1+k.Intn(40); i++ {
			p = append(p, q)
		}
		kind = "coincident"
	case 4, 5:
		dx, dy := float64(k.Intn(11)-5), float64(k.Intn(11)-5)
		ox, oy := float64(k.Intn(201)-100), float64(k.Intn(201)-100)
		n := 2 + k.Intn(30)
		for i := 0; i < n; i++ {
			t := float64(k.Intn(100))
			p = append(p, v2(ox+t*dx, oy+t*dy))
		}
		kind = "integer line"
	case 6:
		n := 2 + k.Intn(30)
		c := k.NormFloat64()
		h := k.Intn(3)
		for i := 0; i < n; i++ {
			t := k.NormFloat64()
			switch h {
			case 0:
				p = append(p, v2(t, c))
			case 1:
				p = append(p, v2(c, t))
			default:
				p = append(p, v2(t, t))
			}
		}
		kind = "real line"
	case 7:
		n := 2 + k.Intn(30)
		for i := 0; i < n; i++ {
			t := float64(i / 2)
			p = append(p, v2(t, -2*t))
		}
		kind = "line with copies"
	}
	if k.Intn(3) == 0 {
		f := math.Ldexp(1, k.Intn(301)-150)
		for i := range p {
			p[i] = v2(p[i].X*f, p[i].Y*f)
		}
	}
	s := pset{kind, p, true}
	if len(p) > 0 && k.Intn(4) == 0 {
		s = withZ(k, s)
	}
	return s
}

func runDegenerate(c *Ctx) {
	c.Sub("degenerate sets", c.N(25000, 200000), func(k *Case) {
		s := genDegenerate(k)
		k.Input(s.input())
		if !allCollinear(s.P) {
			return
		}
		if len(s.P) > 0 {
			k.Seen(s.P)
		}
		k.c.Obs(s.Kind, 1)
		in := clonePts(s.P)
		k.twin(in, func() { triangulate2.Triangulate(in) })
		tr, err := triangulate2.Triangulate(in)
		if len(s.P) > 0 && err == nil {
			k.Fail("no error for a set of %d points without a triangulation (%s)", len(s.P), s.Kind)
			return
		}
		if tr != nil && (len(tr.Triangles) != 0 || len(tr.Halfedges) != 0) {
			k.Fail("%d triangle corners, %d halfedges for a set without a triangulation (%s)", len(tr.Triangles), len(tr.Halfedges), s.Kind)
		}
	})
	c.Sub("thin sets", c.N(10000, 100000), func(k *Case) {
		s := genThin(k)
		k.Input(s.input())
		if allCollinear(s.P) {
			return
		}
		k.Seen(s.P)
		tr, err := triangulate2.Triangulate(clonePts(s.P))
		if err != nil {
			k.Fail("error %v for points that are not all on a line", err)
			return
		}
		if len(tr.Triangles) == 0 || !indicesOK(s, tr.Triangles) {
			k.Fail("triangles %v for points that are not all on a line", clip(fmt.Sprint(tr.Triangles), 200))
		}
		k.c.Obs("thin sets triangulated", 1)
		monitorTopology(k, s, tr)
	})
	c.Sub("barely non-degenerate sets", c.N(10000, 80000), func(k *Case) {
		// a line plus one point one unit off: must not be an error
		n := 2 + k.Intn(40)
		dx, dy := float64(k.Intn(9)-4), float64(k.Intn(9)-4)
		if dx == 0 && dy == 0 {
			dy = 1
		}
		var p []r3.Vector
		for i := 0; i < n; i++ {
			t := float64(k.Intn(60))
			p = append(p, v2(t*dx, t*dy))
		}
		q := v2(p[0].X+1, p[0].Y)
		if dy == 0 {
			q = v2(p[0].X, p[0].Y-1)
		}
		p = append(p, q)
		k.shuffle(p)
		s := pset{"line plus one", p, true}
		k.Input(s.input())
		if allCollinear(p) {
			return
		}
		k.Seen(p)
		tr, err := triangulate2.Triangulate(clonePts(p))
		if err != nil {
			k.Fail("error %v for points that are not all on a line", err)
			return
		}
		monitorTopology(k, s, tr)
	})
}

// genThin makes sets of which all but a few points lie on one line and the
// others as close to it as the coordinates allow.
func genThin(k *Case) pset {
	var p []r3.Vector
	n := 2 + k.Intn(30)
	kind := k.Intn(3)
	switch kind {
	case 0:
		// long integer line, one point next to it
		w := int64(1) << uint(4+k.Intn(40))
		dx, dy := k.Int63n(2*w+1)-w, k.Int63n(2*w+1)-w
		if k.Intn(3) == 0 {
			dx, dy = w, w
		}
		for i := 0; i < n; i++ {
			t := float64(k.Intn(8))
			p = append(p, v2(t*float64(dx), t*float64(dy)))
		}
		for i := 0; i < 1+k.Intn(2); i++ {
			q := p[k.Intn(n)]
			p = append(p, v2(q.X+float64(k.Intn(3)-1), q.Y+float64(k.Intn(3)-1)))
		}
	case 1:
		// flat triangles whose height is far below the length
		x := math.Ldexp(1, k.Intn(21))
		h := math.Ldexp(1, -k.Intn(60))
		for i := 0; i < n; i++ {
			p = append(p, v2(x*float64(k.Intn(9)), 0))
		}
		p = append(p, v2(x*float64(k.Intn(17))/2, h))
		if k.Intn(2) == 0 {
			for i := range p {
				p[i].X, p[i].Y = p[i].Y, p[i].X
			}
		}
	default:
		// a real line whose points miss it only by rounding
		a, b := k.NormFloat64(), k.NormFloat64()
		for i := 0; i < n; i++ {
			t := float64(k.Intn(40))
			p = append(p, v2(t*0.1, a*(t*0.1)+b))
		}
	}
	k.shuffle(p)
	if k.Intn(3) == 0 {
		f := math.Ldexp(1, k.Intn(201)-100)
		for i := range p {
			p[i] = v2(p[i].X*f, p[i].Y*f)
		}
	}
	return pset{[]string{"thin integer", "thin", "line up to rounding"}[kind], p, false}
}

func runHull(c *Ctx) {
	f := func(k *Case, s pset) {
		if len(s.P) == 0 || allCollinear(s.P) {
			return
		}
		k.Seen(s.P)
		in := clonePts(s.P)
		k.twin(in, func() { triangulate2.ConvexHull(in) })
		h := triangulate2.ConvexHull(in)
		if len(s.P) < 3000 {
			anotherSet(k, s)
		}
		for i := range in {
			if in[i] != s.P[i] {
				k.Fail("ConvexHull changed its input at %d: %v", i, in[i])
				return
			}
		}
		monitorHullCycle(k, s, h, "convex hull")
	}
	workloads2D(c, 15000, 150000, f)
	withHeights(c, c.N(2000, 30000), f)
	c.Sub("degenerate sets", c.N(20000, 120000), func(k *Case) {
		s := genDegenerate(k)
		k.Input(s.input())
		if !allCollinear(s.P) {
			return
		}
		in := clonePts(s.P)
		k.twin(in, func() { triangulate2.ConvexHull(in) })
		h := triangulate2.ConvexHull(in)
		if len(s.P) == 0 {
			if len(h) != 0 {
				k.Fail("hull %v of no points", h)
			}
			return
		}
		k.Seen(s.P)
		known, points := map[[2]float64]bool{}, map[[3]float64]bool{}
		for _, p := range s.P {
			known[xy(p)] = true
			points[[3]float64{p.X + 0, p.Y + 0, p.Z + 0}] = true
		}
		got := map[[2]float64]bool{}
		for _, q := range h {
			if !known[xy(q)] || !points[[3]float64{q.X + 0, q.Y + 0, q.Z + 0}] {
				k.Fail("hull point %v is not an input point", q)
				return
			}
			got[xy(q)] = true
		}
		d := distinctXY(s.P)
		sortXY(d)
		for _, q := range []r3.Vector{d[0], d[len(d)-1]} {
			if !got[xy(q)] {
				k.Fail("extreme point %v of a set on a line is not in its hull %v", q, h)
				return
			}
			n := 0
			for _, w := range h {
				if xy(w) == xy(q) {
					n++
				}
			}
			if n != 1 {
				k.Fail("extreme point %v of a set on a line is listed %d times in its hull %v", q, n, h)
				return
			}
		}
		// there and back, without further turns
		length := 0.0
		for i := range h {
			w := h[(i+1)%len(h)]
			length += math.Hypot(w.X-h[i].X, w.Y-h[i].Y)
		}
		e := d[len(d)-1]
		if want := 2 * math.Hypot(e.X-d[0].X, e.Y-d[0].Y); math.Abs(length-want) > 1e-9*want {
			k.Fail("hull %v of a set on a line has length %v instead of %v", h, length, want)
			return
		}
	})
}

func cloneTri(t *triangulate2.Triangulation) *triangulate2.Triangulation {
	return &triangulate2.Triangulation{
		Vectors:    clonePts(t.Vectors),
		ConvexHull: clonePts(t.ConvexHull),
		Triangles:  append([]int(nil), t.Triangles...),
		Halfedges:  append([]int(nil), t.Halfedges...),
	}
}

func runValidate(c *Ctx) {
	gen := func(k *Case) (pset, *triangulate2.Triangulation, bool) {
		var s pset
		switch k.Intn(6) {
		case 0, 1, 2:
			s = genExact(k, 80)
		case 3:
			s = genGeneric(k, 80)
		case 4:
			n := 3 + k.Intn(80)
			for i := 0; i < n; i++ {
				s.P = append(s.P, v2(k.Float64()*10, k.Float64()*10))
			}
			s.Kind = "uniform"
		default: // of any size and place
			n := 3 + k.Intn(80)
			if k.Intn(100) == 0 {
				n = 500 + k.Intn(3000)
			}
			size := math.Pow(10, k.Float64()*40-20)
			o := v2(0, 0)
			if k.Intn(2) == 0 {
				far := size * math.Pow(10, k.Float64()*4)
				o = v2(far*k.NormFloat64(), far*k.NormFloat64())
			}
			for i := 0; i < n; i++ {
				s.P = append(s.P, v2(o.X+size*k.Float64(), o.Y+size*k.Float64()))
			}
			s.Kind = fmt.Sprintf("uniform %.1g around %.1g %.1g", size, o.X, o.Y)
			k.c.Obs("sets of any size and place", 1)
		}
		if k.Intn(3) == 0 {
			s = withZ(k, s)
		}
		k.Input(s.input())
		if allCollinear(s.P) {
			return s, nil, false
		}
		tr, err := triangulate2.Triangulate(clonePts(s.P))
		if err != nil || !indicesOK(s, tr.Triangles) || len(tr.Halfedges) != len(tr.Triangles) {
			return s, nil, false // C05's and C07's business
		}
		return s, tr, true
	}
	area := func(t *triangulate2.Triangulation) float64 {
		a := 0.0
		for i := 0; i+2 < len(t.Triangles); i += 3 {
			_, v, _ := orient2(t.Vectors[t.Triangles[i]], t.Vectors[t.Triangles[i+1]], t.Vectors[t.Triangles[i+2]])
			a += v
		}
		return a / 2
	}
	c.Sub("valid triangulations are accepted", c.N(20000, 120000), func(k *Case) {
		s, tr, ok := gen(k)
		if !ok {
			return
		}
		k.Seen(s.P)
		k.c.Obs("valid triangulations", 1)
		if k.Intn(3) == 0 { // a corrupted one was looked at before, in the same memory
			keep := cloneTri(tr)
			switch k.Intn(4) {
			case 0:
				k.nudgePoints(tr.ConvexHull)
			case 1:
				k.nudgePoints(tr.Vectors)
			case 2:
				i := k.Intn(len(tr.Halfedges))
				tr.Halfedges[i] = k.Intn(len(tr.Halfedges))
			default:
				i := k.Intn(len(tr.Triangles))
				tr.Triangles[i] = k.Intn(len(tr.Vectors))
			}
			catch(func() { tr.Validate() })
			copy(tr.ConvexHull, keep.ConvexHull)
			copy(tr.Vectors, keep.Vectors)
			copy(tr.Halfedges, keep.Halfedges)
			copy(tr.Triangles, keep.Triangles)
			k.c.Obs("after a corrupted one in the same memory", 1)
		}
		before := cloneTri(tr)
		err := tr.Validate()
		if !reflect.DeepEqual(before, cloneTri(tr)) {
			k.Fail("Validate changes the triangulation")
			return
		}
		if err != nil {
			// is the triangulation really fine?
			probe := &Case{Rand: k.Rand, c: &Ctx{obs: map[string]int64{}, replayDir: os.TempDir(), sampleSubs: map[string]int{}}}
			probe.c.muted = true
			monitorTopology(probe, s, tr)
			if !probe.Failed() {
				monitorHalfedges(probe, s, tr)
			}
			if !probe.Failed() {
				monitorHullCycle(probe, s, tr.ConvexHull, "")
			}
			if !probe.Failed() {
				k.Fail("Validate rejects a valid triangulation: %v", err)
			}
		}
	})
	c.Sub("corrupted triangulations are rejected", c.N(50000, 300000), func(k *Case) {
		s, tr, ok := gen(k)
		if !ok || tr.Validate() != nil {
			return
		}
		t := cloneTri(tr)
		what := ""
		per := polyLength(tr.ConvexHull)
		// what rounding may amount to
		same := func(a, b float64) bool { return math.Abs(a-b) < 1e-9*per*per }
		sameLength := func(a, b float64) bool { return math.Abs(a-b) < 1e-9*per }
		step := func() float64 { return per / 10 * math.Pow(10, -float64(k.Intn(6))) }
		switch k.Intn(15) {
		case 11:
			// a half-edge that does not exist
			i := k.Intn(len(t.Halfedges))
			t.Halfedges[i] = len(t.Halfedges) + k.Intn(3)
			if k.Intn(2) == 0 {
				t.Halfedges[i] = -2 - k.Intn(5)
			}
			what = fmt.Sprintf("half-edge %d paired with %d", i, t.Halfedges[i])
		case 12:
			// a point that does not exist
			i := k.Intn(len(t.Triangles))
			t.Triangles[i] = len(t.Vectors) + k.Intn(3)
			if k.Intn(2) == 0 {
				t.Triangles[i] = -1 - k.Intn(5)
			}
			what = fmt.Sprintf("corner %d at vertex %d", i, t.Triangles[i])
		case 13:
			// the last triangle cut off in both lists, its neighbours kept
			m := len(t.Triangles) - 3
			if m == 0 {
				return
			}
			t.Triangles, t.Halfedges = t.Triangles[:m], t.Halfedges[:m]
			what = "last triangle cut off"
		case 14:
			// a triangle cut out cleanly: only the area tells
			m := len(t.Triangles) - 3
			if m == 0 {
				return
			}
			t.Triangles, t.Halfedges = t.Triangles[:m], t.Halfedges[:m]
			for i, h := range t.Halfedges {
				if h >= m {
					t.Halfedges[i] = -1
				}
			}
			if same(area(t), area(tr)) {
				return
			}
			what = "last triangle cut off cleanly"
		case 7:
			// a spike: the same area, a longer way
			i := k.Intn(len(t.ConvexHull))
			q := t.ConvexHull[i]
			d := step()
			w := v2(q.X+d*k.NormFloat64(), q.Y+d*k.NormFloat64())
			h := append(clonePts(t.ConvexHull[:i+1]), w, q)
			t.ConvexHull = append(h, t.ConvexHull[i+1:]...)
			if sameLength(polyLength(t.ConvexHull), per) {
				return
			}
			what = fmt.Sprintf("a spike to %v in the hull", w)
		case 8:
			// a hull point moved a little
			i := k.Intn(len(t.ConvexHull))
			d := step()
			t.ConvexHull[i].X += d * k.NormFloat64()
			t.ConvexHull[i].Y += d * k.NormFloat64()
			if same(shoelace(t.ConvexHull), shoelace(tr.ConvexHull)) && sameLength(polyLength(t.ConvexHull), per) {
				return
			}
			what = fmt.Sprintf("hull point %d moved to %v", i, t.ConvexHull[i])
		case 9:
			// one triangle listed again, on its own
			i := 3 * k.Intn(len(t.Triangles)/3)
			t.Triangles = append(t.Triangles, t.Triangles[i:i+3]...)
			t.Halfedges = append(t.Halfedges, -1, -1, -1)
			if same(area(t), area(tr)) {
				return
			}
			what = fmt.Sprintf("triangle %d listed twice", i/3)
		case 10:
			// the hull cleared
			t.ConvexHull = nil
			if same(area(tr), 0) && sameLength(per, 0) {
				return
			}
			what = "no hull"
		case 0:
			i := k.Intn(len(t.Halfedges))
			if t.Halfedges[i] == -1 {
				return
			}
			t.Halfedges[i] = -1
			what = fmt.Sprintf("halfedge %d cut on one side", i)
		case 1:
			i, j := k.Intn(len(t.Halfedges)), k.Intn(len(t.Halfedges))
			if t.Halfedges[i] == j || i == j {
				return
			}
			t.Halfedges[i] = j
			if t.Halfedges[j] == i {
				return
			}
			what = fmt.Sprintf("halfedge %d redirected to %d", i, j)
		case 2:
			i := k.Intn(len(t.Triangles))
			t.Triangles[i] = k.Intn(len(t.Vectors))
			if same(area(t), area(tr)) {
				return
			}
			what = fmt.Sprintf("corner %d moved to vertex %d", i, t.Triangles[i])
		case 3:
			i := k.Intn(len(t.Triangles) / 3)
			t.Triangles[3*i], t.Triangles[3*i+1] = t.Triangles[3*i+1], t.Triangles[3*i]
			if same(area(t), area(tr)) {
				return
			}
			what = fmt.Sprintf("triangle %d reversed", i)
		case 4:
			m := len(t.Triangles) - 3
			t.Triangles = t.Triangles[:m]
			if same(area(t), area(tr)) {
				return
			}
			what = "last triangle dropped"
		case 5:
			i := k.Intn(len(t.ConvexHull))
			n := len(t.ConvexHull)
			_, val, _ := orient2(t.ConvexHull[(i+n-1)%n], t.ConvexHull[i], t.ConvexHull[(i+1)%n])
			if same(val/2, 0) {
				return
			}
			t.ConvexHull = append(t.ConvexHull[:i], t.ConvexHull[i+1:]...)
			what = fmt.Sprintf("hull corner %d dropped", i)
		case 6:
			// two hull points exchanged: area or perimeter changes
			n := len(t.ConvexHull)
			if n < 4 {
				return
			}
			i, j := k.Intn(n), k.Intn(n)
			t.ConvexHull[i], t.ConvexHull[j] = t.ConvexHull[j], t.ConvexHull[i]
			if same(shoelace(t.ConvexHull), shoelace(tr.ConvexHull)) {
				return
			}
			what = fmt.Sprintf("hull points %d and %d exchanged", i, j)
		}
		k.Seen(s.P, what)
		k.Input(map[string]interface{}{"set": s.input(), "corruption": what})
		k.c.Obs("corruptions", 1)
		before := cloneTri(t)
		if err := t.Validate(); err == nil {
			k.Fail("Validate accepts a triangulation with %s", what)
			return
		}
		if !reflect.DeepEqual(before, cloneTri(t)) {
			k.Fail("Validate changes a triangulation with %s", what)
		}
	})
}

func polyLength(h []r3.Vector) float64 {
	l := 0.0
	for i := range h {
		q := h[(i+1)%len(h)]
		l += math.Hypot(q.X-h[i].X, q.Y-h[i].Y)
	}
	return l
}

func shoelace(h []r3.Vector) float64 {
	a := 0.0
	for i := range h {
		q := h[(i+1)%len(h)]
		a += (h[i].X-h[0].X)*(q.Y-h[0].Y) - (q.X-h[0].X)*(h[i].Y-h[0].Y)
	}
	return a / 2
}
