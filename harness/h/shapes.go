package main

import (
	"fmt"
	"math"

	"geGoMetry/r3"
	"geGoMetry/shape"
)

// solid is one shape to build, and what it must look like.
type solid struct {
	kind   string
	center r3.Vector
	a, b   float64 // radius; radius and tube radius; semi-axes
	s, t   int     // sectors and stacks; 0 when built by the public constructor
	mesh   shape.Mesh
}

func (o solid) String() string {
	return fmt.Sprintf("%s at %v, radii %v %v, %d sectors, %d stacks", o.kind, o.center, o.a, o.b, o.s, o.t)
}

// scale is the size the rounding errors of positions are relative to.
func (o solid) scale() float64 {
	return math.Abs(o.center.X) + math.Abs(o.center.Y) + math.Abs(o.center.Z) + o.a + o.b
}

type builders struct {
	sphere  func(r3.Vector, float64, int, int) shape.Mesh
	torus   func(r3.Vector, float64, float64, int, int) shape.Mesh
	circle  func(r3.Vector, float64, int) shape.Mesh
	ellipse func(r3.Vector, float64, float64, int) shape.Mesh
}

func shapeBuilders(c *Ctx) (b builders) {
	b.sphere, _ = lookup[func(r3.Vector, float64, int, int) shape.Mesh](c, "shape.sphere")
	b.torus, _ = lookup[func(r3.Vector, float64, float64, int, int) shape.Mesh](c, "shape.torus")
	b.circle, _ = lookup[func(r3.Vector, float64, int) shape.Mesh](c, "shape.circle")
	b.ellipse, _ = lookup[func(r3.Vector, float64, float64, int) shape.Mesh](c, "shape.ellipse")
	return
}

func genCenter(k *Case, r float64) r3.Vector {
	switch k.Intn(5) {
	case 0:
		return r3.Vector{}
	case 1:
		return k.rvec(100 * r)
	case 2:
		v := r3.Vector{}
		x := (k.Float64()*2 - 1) * 10 * r
		switch k.Intn(3) {
		case 0:
			v.X = x
		case 1:
			v.Y = x
		case 2:
			v.Z = x
		}
		return v
	case 3:
		return k.ivec(20).Scaled(r)
	}
	return k.rvec(r)
}

// genSolid builds a shape with random counts through its internal fields, or
// (public) through the exported constructor.
func genSolid(k *Case, b builders, public bool, kinds ...string) (o solid, ok bool) {
	o.kind = kinds[k.Intn(len(kinds))]
	r := math.Pow(10, float64(k.Intn(9)-4)) * (0.5 + k.Float64())
	if k.Intn(12) == 0 { // tiny and huge
		r *= math.Pow(10, float64(k.Intn(25)-12))
	}
	o.a = r
	o.center = genCenter(k, r)
	huge := !public && (k.Intn(160) == 0 || k.big)
	if !huge && k.Intn(10) == 0 { // far away
		o.center = o.center.Scaled(math.Pow(10, float64(1+k.Intn(5))))
	}
	if k.Intn(4) == 0 && r > 1e-4 && r < 1e5 {
		o.a = float64(1 + k.Intn(9))
	}
	count := func(lo int) int {
		switch k.Intn(6) {
		case 0:
			return lo
		case 1:
			return lo + 1
		case 2:
			if k.Intn(8) == 0 {
				return []int{48, 50, 60, 63, 64, 65, 72, 90, 96, 100, 101, 120, 127, 128, 129, 180, 200, 255, 256, 257, 300}[k.Intn(21)]
			}
			return lo + 10 + k.Intn(30)
		}
		return lo + k.Intn(12)
	}
	flat := o.kind == "circle" || o.kind == "ellipse"
	switch o.kind {
	case "torus":
		o.b = o.a * []float64{0.5, 0.25, 0.1, 0.9, 0.05 + 0.9*k.Float64(), []float64{0.001, 0.01, 0.99, 0.999}[k.Intn(4)]}[k.Intn(6)]
		if k.Intn(25) == 0 { // a ring of wire
			o.b = o.a * math.Pow(10, -3-3*k.Float64())
			o.center = o.center.Scaled(math.Min(1, o.a/(1e-300+math.Abs(o.center.X)+math.Abs(o.center.Y)+math.Abs(o.center.Z))))
		}
	case "ellipse":
		o.b = o.a * []float64{1, 0.5, 2, 0.1, 10, 0.2 + 4*k.Float64(), []float64{0.001, 0.01, 100, 1000}[k.Intn(4)]}[k.Intn(7)]
		if k.Intn(25) == 0 { // a needle
			o.b = o.a * math.Pow(10, (3+4*k.Float64())*float64(1-2*k.Intn(2)))
			o.center = o.center.Scaled(math.Min(1, o.a/(1e-300+math.Abs(o.center.X)+math.Abs(o.center.Y)+math.Abs(o.center.Z))))
		}
	}
	if !public {
		o.s = count(3)
		if !flat {
			o.t = count(2)
			if o.kind == "torus" && o.t < 3 {
				o.t = 3
			}
		}
		if huge {
			k.c.Obs("huge meshes", 1)
			big := func() int { return 300 + k.Intn(100)*k.Intn(50) }
			switch x := k.Intn(4); {
			case flat && x < 2:
				o.s = 255 + k.Intn(3)
			case flat && x == 2:
				o.s = 65534 + k.Intn(6)
			case flat:
				o.s = big() * 10
			case x == 0:
				o.s = big()
			case x == 1:
				o.t = big()
			case x == 2:
				o.s, o.t = 250+k.Intn(20), 250+k.Intn(20)
			default:
				o.s = 65540 / o.t
			}
		}
	}
	k.Input(o.String())
	k.Seen(o.String())
	build := func(o solid) (shape.Mesh, bool) {
		switch {
		case public && o.kind == "sphere":
			return shape.ConstructSphere(o.center, o.a), true
		case public && o.kind == "torus":
			return shape.ConstructTorus(o.center, o.a, o.b), true
		case public && o.kind == "circle":
			return shape.ConstructCircle(o.center, o.a), true
		case public:
			return shape.ConstructEllipse(o.center, o.a, o.b), true
		case o.kind == "sphere" && b.sphere != nil:
			return b.sphere(o.center, o.a, o.s, o.t), true
		case o.kind == "torus" && b.torus != nil:
			return b.torus(o.center, o.a, o.b, o.s, o.t), true
		case o.kind == "circle" && b.circle != nil:
			return b.circle(o.center, o.a, o.s), true
		case o.kind == "ellipse" && b.ellipse != nil:
			return b.ellipse(o.center, o.a, o.b, o.s), true
		}
		return shape.Mesh{}, false
	}
	// a neighbour of the solid, different in one thing or in nothing, built
	// before or after it and then overwritten by its owner, leaves it alone
	neighbour := func() {
		v := o
		switch k.Intn(8) {
		case 5: // hardly any difference
			k.nudgeVector(&v.center)
		case 6:
			f := 1 + (k.Float64()-0.5)*2e-8
			v.a, v.b = v.a*f, v.b*f
		case 7:
			v.center = v3(v.center.Y, v.center.Z, v.center.X)
		case 0:
			v.center = genCenter(k, r)
		case 1:
			v.a, v.b = v.a*2, v.b*2
		case 2:
			if v.b *= 0.75; v.kind == "sphere" || v.kind == "circle" {
				v.center.Z += r
			}
		case 3:
			if v.s++; v.t > 0 {
				v.t++
			}
		}
		if m, ok := build(v); ok {
			spoilMesh(m)
			k.c.Obs("neighbours built and overwritten", 1)
		}
	}
	small := o.s*(o.t+1) < 2000 && (!public || flat || k.Intn(4) == 0)
	if small && k.Intn(4) == 0 {
		neighbour()
	}
	o.mesh, ok = build(o)
	if small && k.Intn(4) == 0 {
		neighbour()
	}
	return o, ok
}

// weld numbers the positions: positions within tol of each other get one number.
func weld(v []r3.Vector, tol float64) (id []int, reps []r3.Vector) {
	type cell [3]int64
	h := tol * 16
	grid := map[cell][]int{}
	id = make([]int, len(v))
	for i, p := range v {
		fx, fy, fz := p.X/h, p.Y/h, p.Z/h
		c := cell{int64(math.Floor(fx)), int64(math.Floor(fy)), int64(math.Floor(fz))}
		found := -1
		near := func(f float64) (int64, int64) {
			d := f - math.Floor(f)
			if d < 1.0/8 {
				return -1, 0
			}
			if d > 7.0/8 {
				return 0, 1
			}
			return 0, 0
		}
		x0, x1 := near(fx)
		y0, y1 := near(fy)
		z0, z1 := near(fz)
	search:
		for x := x0; x <= x1; x++ {
			for y := y0; y <= y1; y++ {
				for z := z0; z <= z1; z++ {
					for _, j := range grid[cell{c[0] + x, c[1] + y, c[2] + z}] {
						if vecClose(reps[j], p, tol) {
							found = j
							break search
						}
					}
				}
			}
		}
		if found < 0 {
			found = len(reps)
			reps = append(reps, p)
			grid[c] = append(grid[c], found)
		}
		id[i] = found
	}
	return
}

func finite(v r3.Vector) bool {
	s := v.X + v.Y + v.Z
	return !math.IsNaN(s) && !math.IsInf(s, 0)
}

// ---- positions -------------------------------------------------------------

// offSurface is how far a vertex, relative to the center, is off the shape.
func (o solid) offSurface(q r3.Vector) float64 {
	switch o.kind {
	case "sphere":
		return math.Abs(math.Sqrt(q.X*q.X+q.Y*q.Y+q.Z*q.Z) - o.a)
	case "torus":
		return math.Abs(math.Hypot(math.Hypot(q.X, q.Y)-o.a, q.Z) - o.b)
	case "circle":
		return math.Max(math.Abs(q.Z), math.Abs(math.Hypot(q.X, q.Y)-o.a))
	default:
		return math.Max(math.Abs(q.Z), math.Abs(math.Hypot(q.X/o.a, q.Y/o.b)-1)*math.Min(o.a, o.b))
	}
}

func monitorPositions(k *Case, o solid) {
	m := o.mesh
	tol := 4e-15 * o.scale() * 4
	for i, p := range m.Vertices {
		if !finite(p) {
			k.Fail("%v: vertex %d is %v", o, i, p)
			return
		}
	}
	_, reps := weld(m.Vertices, tol*4)
	flat := o.kind == "circle" || o.kind == "ellipse"
	centers := 0
	var rim []r3.Vector
	for _, p := range reps {
		q := r3.Sub(p, o.center)
		if flat && vecClose(q, r3.Vector{}, tol) {
			centers++
			continue
		}
		if d := o.offSurface(q); d > tol {
			k.Fail("%v: vertex %v is %v off the shape", o, p, d)
			return
		}
		rim = append(rim, q)
	}
	if flat && centers != 1 {
		k.Fail("%v: %d vertices at the center", o, centers)
		return
	}
	// the positions are exactly those of the regular grid
	s, t := o.s, o.t
	if s == 0 {
		// the exported constructors choose the counts: they must be a regular
		// grid of some fineness, read off the vertex count
		if flat {
			s = len(rim)
			if s < 3 {
				k.Fail("%v: only %d vertices around", o, s)
			}
		} else {
			k.c.Obs("vertices on surfaces", len(rim))
			monitorSpread(k, o, rim)
			return
		}
	}
	var want []r3.Vector
	switch o.kind {
	case "circle", "ellipse":
		b := o.b
		if o.kind == "circle" {
			b = o.a
		}
		for i := 0; i < s; i++ {
			u := math.Pi/2 - 2*math.Pi*float64(i)/float64(s)
			want = append(want, v3(o.a*math.Cos(u), b*math.Sin(u), 0))
		}
	case "sphere":
		want = append(want, v3(0, 0, o.a), v3(0, 0, -o.a))
		for i := 1; i < t; i++ {
			u := math.Pi/2 - math.Pi*float64(i)/float64(t)
			for j := 0; j < s; j++ {
				w := 2 * math.Pi * float64(j) / float64(s)
				want = append(want, v3(o.a*math.Cos(u)*math.Cos(w), o.a*math.Cos(u)*math.Sin(w), o.a*math.Sin(u)))
			}
		}
	case "torus":
		for i := 0; i < t; i++ {
			u := math.Pi/2 - 2*math.Pi*float64(i)/float64(t)
			for j := 0; j < s; j++ {
				w := 2 * math.Pi * float64(j) / float64(s)
				r := o.a + o.b*math.Cos(u)
				want = append(want, v3(r*math.Cos(w), r*math.Sin(w), o.b*math.Sin(u)))
			}
		}
	}
	if len(rim) != len(want) {
		k.Fail("%v: %d different positions on the shape instead of %d", o, len(rim), len(want))
		return
	}
	_, all := weld(append(append([]r3.Vector{}, rim...), want...), tol*4)
	if len(all) != len(want) {
		k.Fail("%v: %d of the positions are not those of the regular grid", o, len(all)-len(want))
		return
	}
	k.c.Obs("vertices on surfaces", len(rim))
}

// monitorSpread checks that the vertices of a surface of unknown fineness
// reach everywhere: every point of the surface has a vertex within a tenth of
// the radius.
func monitorSpread(k *Case, o solid, rim []r3.Vector) {
	gap := 0.15 * o.a
	if o.kind == "torus" {
		gap = 0.3 * o.b
		if g := 0.15 * (o.a + o.b); g > gap {
			gap = g
		}
	}
	for n := 0; n < 60; n++ {
		var q r3.Vector
		if o.kind == "sphere" {
			q = unitVec(k).Scaled(o.a)
		} else {
			u, w := k.Float64()*2*math.Pi, k.Float64()*2*math.Pi
			r := o.a + o.b*math.Cos(u)
			q = v3(r*math.Cos(w), r*math.Sin(w), o.b*math.Sin(u))
		}
		if n < 2 && o.kind == "sphere" {
			q = v3(0, 0, o.a*float64(1-2*n))
		}
		best := math.Inf(1)
		for _, p := range rim {
			x, y, z := p.X-q.X, p.Y-q.Y, p.Z-q.Z
			if d := x*x + y*y + z*z; d < best {
				best = d
			}
		}
		if math.Sqrt(best) > gap {
			k.Fail("%v: no vertex within %v of the surface point %v", o, gap, q)
			return
		}
	}
}

func runPositions(c *Ctx) {
	b := shapeBuilders(c)
	c.Sub("shapes of all finenesses", c.N(20000, 200000), func(k *Case) {
		if o, ok := genSolid(k, b, false, "sphere", "torus", "circle", "ellipse"); ok {
			k.c.Obs(o.kind, 1)
			monitorPositions(k, o)
		}
	})
	c.Sub("exported constructors", c.N(48, 600), func(k *Case) {
		kinds := []string{"sphere", "torus", "circle", "ellipse", "circle", "ellipse"}
		o, _ := genSolid(k, b, true, kinds[k.index%6])
		k.c.Obs("exported "+o.kind, 1)
		monitorPositions(k, o)
	})
}

// ---- indices ---------------------------------------------------------------

func monitorIndices(k *Case, o solid) {
	m := o.mesh
	if len(m.Indices) == 0 || len(m.Indices)%3 != 0 {
		k.Fail("%v: %d indices", o, len(m.Indices))
		return
	}
	for i, x := range m.Indices {
		if int(x) >= len(m.Vertices) {
			k.Fail("%v: index %d (number %d) of %d vertices", o, x, i, len(m.Vertices))
			return
		}
	}
	k.c.Obs("indices in range", len(m.Indices))
	if o.kind == "circle" || o.kind == "ellipse" {
		monitorFan(k, o)
		return
	}
	id, reps := weld(m.Vertices, 4e-15*o.scale()*16)
	type edge [2]int
	edges := map[edge]int{}
	used := make([]bool, len(reps))
	vol := 0.0
	for i := 0; i < len(m.Indices); i += 3 {
		f := [3]int{id[m.Indices[i]], id[m.Indices[i+1]], id[m.Indices[i+2]]}
		if f[0] == f[1] || f[1] == f[2] || f[2] == f[0] {
			k.Fail("%v: triangle %d %v has two corners in one position", o, i/3, m.Indices[i:i+3])
			return
		}
		for j := range f {
			edges[edge{f[j], f[(j+1)%3]}]++
			used[f[j]] = true
		}
		p, q, r := r3.Sub(reps[f[0]], o.center), r3.Sub(reps[f[1]], o.center), r3.Sub(reps[f[2]], o.center)
		vol += r3.Dot(p, r3.Cross(q, r)) / 6
		// outward: the triangle's normal points away from the inside
		n := r3.Cross(r3.Sub(q, p), r3.Sub(r, p))
		g := r3.Add(r3.Add(p, q), r).Scaled(1.0 / 3)
		if o.kind == "torus" {
			// away from the middle of the tube at the triangle's own place; coarse
			// tori are checked by their volume alone
			if o.s != 0 && (o.s < 8 || o.t < 8 || o.a*(1-math.Cos(math.Pi/float64(o.s))) > 0.1*o.b) {
				continue
			}
			h := math.Hypot(g.X, g.Y)
			g = r3.Sub(g, v3(g.X/h*o.a, g.Y/h*o.a, 0))
		}
		if !(r3.Dot(n, g) > 0) {
			k.Fail("%v: triangle %d %v faces inwards", o, i/3, m.Indices[i:i+3])
			return
		}
	}
	for e, n := range edges {
		if n != 1 {
			k.Fail("%v: the edge from %v to %v is run through %d times in that direction", o, reps[e[0]], reps[e[1]], n)
			return
		}
		if edges[edge{e[1], e[0]}] != 1 {
			k.Fail("%v: the surface is open or inconsistently oriented at the edge from %v to %v", o, reps[e[0]], reps[e[1]])
			return
		}
	}
	for i, u := range used {
		if !u {
			k.Fail("%v: no triangle uses the position %v", o, reps[i])
			return
		}
	}
	faces := len(m.Indices) / 3
	chi := len(reps) - len(edges)/2 + faces
	want, ideal := 2, 4*math.Pi/3*o.a*o.a*o.a
	if o.kind == "torus" {
		want, ideal = 0, 2*math.Pi*math.Pi*o.a*o.b*o.b
	}
	if chi != want {
		k.Fail("%v: Euler characteristic %d instead of %d", o, chi, want)
		return
	}
	if o.s != 0 {
		ideal = o.polyVolume()
	}
	rel := 1e-9
	if o.s == 0 {
		rel = 0.01
	}
	rel += 1e-12 * math.Pow(o.scale()/o.a, 1) * 100
	if o.kind == "torus" {
		rel *= math.Pow(o.a/o.b, 2)
	}
	if math.Abs(vol-ideal) > rel*ideal {
		k.Fail("%v: the triangles enclose a volume of %v instead of %v", o, vol, ideal)
		return
	}
	k.c.Obs("surfaces found closed and outward", 1)
	k.c.Obs("edges checked", len(edges))
}

// polyVolume is the volume between the planar trapezoids of the regular grid,
// by summation over the rings (a frustum with regular polygons for ends).
func (o solid) polyVolume() float64 {
	s := float64(o.s)
	unit := s / 2 * math.Sin(2*math.Pi/s) // area of the unit polygon
	frustum := func(z0, r0, z1, r1 float64) float64 {
		return (z0 - z1) / 3 * (r0*r0 + r0*r1 + r1*r1) * unit
	}
	v := 0.0
	for i := 0; i < o.t; i++ {
		if o.kind == "sphere" {
			u0, u1 := math.Pi/2-math.Pi*float64(i)/float64(o.t), math.Pi/2-math.Pi*float64(i+1)/float64(o.t)
			v += frustum(o.a*math.Sin(u0), o.a*math.Cos(u0), o.a*math.Sin(u1), o.a*math.Cos(u1))
		} else {
			u0, u1 := math.Pi/2-2*math.Pi*float64(i)/float64(o.t), math.Pi/2-2*math.Pi*float64(i+1)/float64(o.t)
			v += frustum(o.b*math.Sin(u0), o.a+o.b*math.Cos(u0), o.b*math.Sin(u1), o.a+o.b*math.Cos(u1))
		}
	}
	return v
}

// monitorFan checks circles and ellipses: every sector is covered once, and
// shown on both sides.
func monitorFan(k *Case, o solid) {
	m := o.mesh
	id, reps := weld(m.Vertices, 4e-15*o.scale()*16)
	center := -1
	for i, p := range reps {
		if vecClose(p, o.center, 4e-15*o.scale()*16) {
			center = i
		}
	}
	type key [3]int
	faces := map[key]int{}
	area := [2]float64{}
	for i := 0; i < len(m.Indices); i += 3 {
		f := [3]int{id[m.Indices[i]], id[m.Indices[i+1]], id[m.Indices[i+2]]}
		for f[0] != center && (f[1] == center || f[2] == center) {
			f[0], f[1], f[2] = f[1], f[2], f[0]
		}
		if f[0] != center || f[1] == center || f[2] == center || f[1] == f[2] {
			k.Fail("%v: triangle %d %v is not a sector", o, i/3, m.Indices[i:i+3])
			return
		}
		faces[key{f[0], f[1], f[2]}]++
		p, q := r3.Sub(reps[f[1]], reps[center]), r3.Sub(reps[f[2]], reps[center])
		if a := (p.X*q.Y - p.Y*q.X) / 2; a > 0 {
			area[0] += a
		} else {
			area[1] -= a
		}
	}
	next := map[int]int{}
	for f, n := range faces {
		if n != 1 || faces[key{f[0], f[2], f[1]}] != 1 {
			k.Fail("%v: the sector between %v and %v is shown %d times on one side and %d times on the other", o, reps[f[1]], reps[f[2]], n, faces[key{f[0], f[2], f[1]}])
			return
		}
		p, q := r3.Sub(reps[f[1]], reps[center]), r3.Sub(reps[f[2]], reps[center])
		if p.X*q.Y-p.Y*q.X > 0 {
			if _, dup := next[f[1]]; dup {
				k.Fail("%v: two sectors start at %v", o, reps[f[1]])
				return
			}
			next[f[1]] = f[2]
		}
	}
	if len(faces) != 2*(len(reps)-1) || len(next) != len(reps)-1 {
		k.Fail("%v: %d triangles for %d vertices around", o, len(faces), len(reps)-1)
		return
	}
	n, at := 0, -1
	for s := range next {
		at = s
		break
	}
	for start := at; ; {
		to, ok := next[at]
		if !ok {
			k.Fail("%v: no sector starts at %v", o, reps[at])
			return
		}
		at = to
		n++
		if at == start || n > len(reps) {
			break
		}
	}
	if n != len(reps)-1 {
		k.Fail("%v: the sectors around close after %d of %d", o, n, len(reps)-1)
		return
	}
	b := o.b
	if o.kind == "circle" {
		b = o.a
	}
	s := float64(len(reps) - 1)
	want := s / 2 * math.Sin(2*math.Pi/s) * o.a * b
	for _, a := range area {
		if math.Abs(a-want) > (1e-9+1e-12*100*o.scale()/math.Min(o.a, b))*want {
			k.Fail("%v: the sectors cover an area of %v instead of %v", o, a, want)
			return
		}
	}
	k.c.Obs("fans found complete", 1)
}

func runIndices(c *Ctx) {
	b := shapeBuilders(c)
	c.Sub("shapes of all finenesses", c.N(15000, 150000), func(k *Case) {
		if o, ok := genSolid(k, b, false, "sphere", "torus", "circle", "ellipse"); ok {
			k.c.Obs(o.kind, 1)
			monitorIndices(k, o)
		}
	})
	c.Sub("exported constructors", c.N(24, 300), func(k *Case) {
		kinds := []string{"sphere", "torus", "circle", "ellipse", "circle", "ellipse"}
		o, _ := genSolid(k, b, true, kinds[k.index%6])
		k.c.Obs("exported "+o.kind, 1)
		monitorIndices(k, o)
	})
}

// ---- normals and texture coordinates ---------------------------------------

func monitorAttributes(k *Case, o solid) {
	m := o.mesh
	if len(m.Normals) != len(m.Vertices) || len(m.TexCoords) != len(m.Vertices) {
		k.Fail("%v: %d vertices, %d normals, %d texture coordinates", o, len(m.Vertices), len(m.Normals), len(m.TexCoords))
		return
	}
	small := o.a
	if o.kind == "torus" {
		small = math.Min(o.b, o.a-o.b)
	}
	ntol := 1e-12 + 4e-14*o.scale()/small
	ptol := 4e-14 * o.scale()
	for i, p := range m.Vertices {
		n := m.Normals[i]
		q := r3.Sub(p, o.center)
		var want r3.Vector
		if o.kind == "sphere" {
			want = q.Scaled(1 / o.a)
		} else {
			h := math.Hypot(q.X, q.Y)
			want = r3.Sub(q, v3(q.X/h*o.a, q.Y/h*o.a, 0)).Scaled(1 / o.b)
		}
		got := v3(n[0], n[1], n[2])
		if l := math.Sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]); !(math.Abs(l-1) <= 1e-9) {
			k.Fail("%v: the normal %v of vertex %d has length %v", o, n, i, l)
			return
		}
		if !vecClose(got, want, ntol) {
			k.Fail("%v: vertex %d at %v has the normal %v instead of %v", o, i, p, n, want)
			return
		}
		s, t := m.TexCoords[i][0], m.TexCoords[i][1]
		if !(s >= -1e-14 && s <= 1+1e-14 && t >= -1e-14 && t <= 1+1e-14) {
			k.Fail("%v: vertex %d has texture coordinates %v %v", o, i, s, t)
			return
		}
		// the coordinates are the place of the vertex on the surface
		w := 2 * math.Pi * s
		var at r3.Vector
		if o.kind == "sphere" {
			u := math.Pi/2 - math.Pi*t
			at = v3(o.a*math.Cos(u)*math.Cos(w), o.a*math.Cos(u)*math.Sin(w), o.a*math.Sin(u))
		} else {
			u := math.Pi/2 - 2*math.Pi*t
			r := o.a + o.b*math.Cos(u)
			at = v3(r*math.Cos(w), r*math.Sin(w), o.b*math.Sin(u))
		}
		if !vecClose(q, at, ptol) {
			k.Fail("%v: vertex %d at %v has the texture coordinates %v %v, which belong at %v", o, i, p, s, t, r3.Add(o.center, at))
			return
		}
	}
	k.c.Obs("vertices checked", len(m.Vertices))
	// the texture is laid out once over the triangles
	area := 0.0
	for i := 0; i+2 < len(m.Indices); i += 3 {
		for j := 0; j < 3; j++ {
			if int(m.Indices[i+j]) >= len(m.TexCoords) {
				k.Fail("%v: index %d of %d vertices", o, m.Indices[i+j], len(m.Vertices))
				return
			}
		}
		a, b, d := m.TexCoords[m.Indices[i]], m.TexCoords[m.Indices[i+1]], m.TexCoords[m.Indices[i+2]]
		x := ((b[0]-a[0])*(d[1]-a[1]) - (b[1]-a[1])*(d[0]-a[0])) / 2
		area += math.Abs(x)
		for _, e := range [][2]float64{{b[0] - a[0], b[1] - a[1]}, {d[0] - b[0], d[1] - b[1]}, {a[0] - d[0], a[1] - d[1]}} {
			lim, limT := 0.51, 0.51
			if o.s > 0 {
				lim, limT = 1.001/float64(o.s), 1.001/float64(o.t)
			}
			if math.Abs(e[0]) > lim || math.Abs(e[1]) > limT {
				k.Fail("%v: triangle %d stretches the texture between %v, %v and %v", o, i/3, a, b, d)
				return
			}
		}
	}
	want := 1.0
	if o.kind == "sphere" && o.t > 0 {
		want = 1 - 1/float64(o.t) // the polar rows are single triangles
	} else if o.kind == "sphere" {
		want = 0.99
	}
	if math.Abs(area-want) > 1e-9 && o.s > 0 || math.Abs(area-want) > 0.0101 {
		k.Fail("%v: the triangles cover %v of the texture instead of %v", o, area, want)
		return
	}
	k.c.Obs("textures found complete", 1)
}

func runAttributes(c *Ctx) {
	b := shapeBuilders(c)
	c.Sub("spheres and tori of all finenesses", c.N(15000, 150000), func(k *Case) {
		if o, ok := genSolid(k, b, false, "sphere", "torus"); ok {
			k.c.Obs(o.kind, 1)
			monitorAttributes(k, o)
		}
	})
	c.Sub("exported constructors", c.N(16, 200), func(k *Case) {
		o, _ := genSolid(k, b, true, []string{"sphere", "torus"}[k.index%2])
		k.c.Obs("exported "+o.kind, 1)
		monitorAttributes(k, o)
	})
}

func init() {
	register("C20", "spheres, tori, circles and ellipses with centers at the origin, on axes and up to 1e7 radii away, radii over 9 (some 33) decades, 3 to 45 (some thousands of) sectors and 2 to 45 (some thousands of) stacks, and the exported constructors; every position is compared with the regular grid; distinct by parameters", runPositions,
		"radii are positive, tube radii smaller than the radius")
	register("C21", "the same shapes; positions are welded and the triangles checked as a closed, outward-oriented surface of the right genus and volume, or as complete double-sided fans; distinct by parameters", runIndices,
		"radii are positive, tube radii smaller than the radius, at least 3 sectors, 2 stacks (spheres) or 3 (tori)")
	register("C22", "spheres and tori as above; every normal and texture coordinate is recomputed from its vertex; distinct by parameters", runAttributes,
		"radii are positive, tube radii smaller than the radius")
}
