package main

import (
	"fmt"
	"math"

	"geGoMetry/r3"
)

// pset is a generated planar point set. exact: every coordinate is an integer
// small enough that all float64 predicates of the triangulator are exact.
type pset struct {
	Kind  string
	P     []r3.Vector
	exact bool
}

func (s pset) input() interface{} {
	return map[string]interface{}{"kind": s.Kind, "n": len(s.P), "points": clipPts(s.P)}
}

func clipPts(p []r3.Vector) interface{} {
	if len(p) > 400 {
		return fmt.Sprintf("%d points, first: %v", len(p), p[:20])
	}
	out := make([][3]float64, len(p))
	for i, q := range p {
		out[i] = [3]float64{q.X, q.Y, q.Z}
		for j := range out[i] {
			if math.IsNaN(out[i][j]) || math.IsInf(out[i][j], 0) {
				return fmt.Sprint(p)
			}
		}
	}
	return out
}

func v2(x, y float64) r3.Vector { return r3.Vector{X: x, Y: y} }

func (k *Case) shuffle(p []r3.Vector) {
	k.Rand.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
}

// lattice circle radii^2 with many integer points
var circleR2 = []int{25, 50, 65, 85, 125, 325, 425, 625, 1105, 1625, 2125, 5525}

func latticeCircle(r2 int) []r3.Vector {
	var out []r3.Vector
	r := int(math.Sqrt(float64(r2))) + 1
	for x := -r; x <= r; x++ {
		for y := -r; y <= r; y++ {
			if x*x+y*y == r2 {
				out = append(out, v2(float64(x), float64(y)))
			}
		}
	}
	return out
}

// genExact makes integer point sets.
func genExact(k *Case, maxN int) pset {
	var p []r3.Vector
	kind := ""
	switch k.Intn(12) {
	case 0, 1:
		R := []int{1, 2, 3, 5, 10, 50, 1000}[k.Intn(7)]
		n := 3 + k.Intn(maxN-2)
		for i := 0; i < n; i++ {
			p = append(p, v2(float64(k.Intn(2*R+1)-R), float64(k.Intn(2*R+1)-R)))
		}
		kind = fmt.Sprintf("lattice R=%d", R)
	case 2:
		a, b := 2+k.Intn(12), 2+k.Intn(12)
		sx, sy := float64(1+k.Intn(3)), float64(1+k.Intn(3))
		for i := 0; i < a; i++ {
			for j := 0; j < b; j++ {
				p = append(p, v2(float64(i)*sx, float64(j)*sy))
			}
		}
		kind = fmt.Sprintf("grid %dx%d", a, b)
		if k.Intn(2) == 0 {
			k.shuffle(p)
			kind += " shuffled"
		}
	case 3:
		r2 := circleR2[k.Intn(len(circleR2))]
		p = latticeCircle(r2)
		if k.Intn(2) == 0 {
			p = append(p, v2(0, 0))
		}
		k.shuffle(p)
		kind = fmt.Sprintf("cocircular r2=%d", r2)
	case 4:
		for i := 0; i < 2+k.Intn(3); i++ {
			p = append(p, latticeCircle(circleR2[k.Intn(len(circleR2))])...)
		}
		k.shuffle(p)
		kind = "concentric"
	case 5:
		n := 4 + k.Intn(40)
		for i := -n / 2; i < n/2; i++ {
			p = append(p, v2(float64(i), float64(i*i)))
		}
		if k.Intn(2) == 0 {
			k.shuffle(p)
		}
		kind = "parabola"
	case 6:
		n := 3 + k.Intn(30)
		dx, dy := float64(k.Intn(5)), float64(k.Intn(5))
		if dx == 0 && dy == 0 {
			dx = 1
		}
		for i := 0; i < n; i++ {
			p = append(p, v2(dx*float64(i), dy*float64(i)))
		}
		for i := 0; i < 1+k.Intn(3); i++ {
			p = append(p, v2(float64(k.Intn(61)-30), float64(k.Intn(61)-30)))
		}
		k.shuffle(p)
		kind = "line plus few"
	case 7:
		n := 3 + k.Intn(maxN-2)
		for i := 0; i < n; i++ {
			p = append(p, v2(float64(k.Intn(9)), float64(k.Intn(9))))
		}
		m := len(p)
		for i := 0; i < 1+k.Intn(m); i++ {
			p = append(p, p[k.Intn(m)])
		}
		k.shuffle(p)
		kind = "duplicates"
	case 8:
		off := []float64{100, -100, 1000, 65536}[k.Intn(4)]
		offY := []float64{0, 100, -1000, 32768}[k.Intn(4)]
		n := 3 + k.Intn(maxN-2)
		R := []int{2, 6, 30}[k.Intn(3)]
		for i := 0; i < n; i++ {
			p = append(p, v2(off+float64(k.Intn(2*R+1)-R), offY+float64(k.Intn(2*R+1)-R)))
		}
		kind = fmt.Sprintf("offset lattice %v,%v", off, offY)
	case 9:
		// few distinct points, many copies
		m := 3 + k.Intn(3)
		for i := 0; i < m; i++ {
			p = append(p, v2(float64(k.Intn(7)-3), float64(k.Intn(7)-3)))
		}
		for i := 0; i < k.Intn(20); i++ {
			p = append(p, p[k.Intn(m)])
		}
		kind = "few distinct"
	case 10:
		// two far clusters
		n := 6 + k.Intn(20)
		for i := 0; i < n; i++ {
			p = append(p, v2(float64(k.Intn(5)), float64(k.Intn(5))))
			p = append(p, v2(1000+float64(k.Intn(5)), 300+float64(k.Intn(5))))
		}
		kind = "two clusters"
	case 11:
		// cross / star / frame
		n := 2 + k.Intn(10)
		switch k.Intn(3) {
		case 0:
			for i := -n; i <= n; i++ {
				p = append(p, v2(float64(i), 0), v2(0, float64(i)))
			}
			kind = "cross"
		case 1:
			for i := 0; i <= n; i++ {
				f := float64(i)
				N := float64(n)
				p = append(p, v2(f, 0), v2(f, N), v2(0, f), v2(N, f))
			}
			kind = "square frame"
		default:
			for i := 1; i <= n; i++ {
				f := float64(i)
				p = append(p, v2(f, f), v2(-f, f), v2(f, -f), v2(-f, -f), v2(2*f, f))
			}
			kind = "star"
		}
		if k.Intn(2) == 0 {
			k.shuffle(p)
		}
	}
	if k.Intn(3) == 0 {
		// a power of two changes no rounding
		e := k.Intn(201) - 100
		f := math.Ldexp(1, e)
		for i := range p {
			p[i] = v2(p[i].X*f, p[i].Y*f)
		}
		kind += fmt.Sprintf(" times 2^%d", e)
	}
	return pset{kind, p, true}
}

// genGeneric makes real-valued sets.
func genGeneric(k *Case, maxN int) pset {
	n := 3 + k.Intn(maxN-2)
	switch k.Intn(6) {
	case 0:
		n = 3 + k.Intn(6)
	case 1:
		n = maxN
	}
	var p []r3.Vector
	kind := ""
	switch k.Intn(26) {
	case 24:
		// special position at one scale, disturbed at another that is far below
		// the rounding of the first
		kind = "two scales"
		f, g := math.Ldexp(1, k.Intn(190)), math.Ldexp(1, -k.Intn(190))
		few, r := 1+k.Intn(4), 1+k.Intn(5)
		for i := 0; i < n; i++ {
			x, y := float64(k.Intn(2*r+1)-r), float64(k.Intn(2*r+1)-r)
			switch k.Intn(3) {
			case 0:
				x = 0
			case 1:
				y = 0
			}
			if k.Intn(4) == 0 { // about one circle
				d := [][2]float64{{5, 0}, {0, 5}, {-5, 0}, {0, -5}, {3, 4}, {-4, 3}, {4, -3}}[k.Intn(7)]
				x, y = d[0], d[1]
			}
			if x *= f; x == 0 && k.Intn(few) == 0 {
				x = float64(k.Intn(7)-3) * g
			}
			if y *= f; y == 0 && k.Intn(few) == 0 {
				y = float64(k.Intn(7)-3) * g
			}
			p = append(p, v2(x, y))
		}
	case 25:
		// almost one line beside points incomparably farther away
		kind = "line and far points"
		f, o, w, few := math.Ldexp(1, k.Intn(130)), k.Float64()*7, 40+k.Intn(20), 3+k.Intn(8)
		all := k.Intn(2) == 0
		for i := 0; i < n; i++ {
			if !all {
				w = k.Intn(70)
			}
			t, d := k.NormFloat64(), k.NormFloat64()*math.Ldexp(1, -w)
			if k.Intn(few) == 0 {
				t, d = t*f, k.NormFloat64()*f
			}
			p = append(p, v2(t*math.Cos(o)-d*math.Sin(o), t*math.Sin(o)+d*math.Cos(o)))
		}
	case 7:
		// everything is nearly collinear and nearly cocircular
		kind = "rotated grid"
		a, w, h := k.Float64()*7, 2+k.Intn(12), 2+k.Intn(12)
		s, ox, oy := math.Pow(10, float64(k.Intn(5)-2)), 0.0, 0.0
		if k.Intn(2) == 0 {
			ox, oy = k.NormFloat64()*1000, k.NormFloat64()*1000
		}
		for i := 0; i < w; i++ {
			for j := 0; j < h; j++ {
				x, y := float64(i)*s, float64(j)*s
				p = append(p, v2(ox+x*math.Cos(a)-y*math.Sin(a), oy+x*math.Sin(a)+y*math.Cos(a)))
			}
		}
		if k.Intn(2) == 0 {
			k.shuffle(p)
		}
	case 8, 9:
		kind = "near line"
		a, jit := k.Float64()*7, 0.0
		if k.Intn(2) == 0 {
			jit = math.Pow(10, -3-float64(k.Intn(10)))
		}
		ox, oy := k.NormFloat64()*10, k.NormFloat64()*10
		for i := 0; i < n; i++ {
			t := float64(i) - float64(n)/2
			if k.Intn(4) == 0 {
				t += k.Float64()
			}
			d := k.NormFloat64() * jit
			p = append(p, v2(ox+t*math.Cos(a)-d*math.Sin(a), oy+t*math.Sin(a)+d*math.Cos(a)))
		}
		for i := 0; i < 1+k.Intn(4); i++ {
			p = append(p, v2(ox+k.NormFloat64()*float64(n), oy+k.NormFloat64()*float64(n)))
		}
		k.shuffle(p)
	case 10:
		kind = "near circles"
		R, m, c := 0.5+k.Float64()*20, 3+k.Intn(30), v2(k.NormFloat64()*100, k.NormFloat64()*100)
		for r := 1; r <= 1+k.Intn(4); r++ {
			for i := 0; i < m; i++ {
				a := 2 * math.Pi * float64(i) / float64(m)
				p = append(p, v2(c.X+R*float64(r)*math.Cos(a), c.Y+R*float64(r)*math.Sin(a)))
			}
		}
		if k.Intn(2) == 0 {
			p = append(p, c)
		}
		k.shuffle(p)
	case 11:
		kind = "far away"
		ox, oy := (k.Float64()*2-1)*1e6, (k.Float64()*2-1)*1e6
		for i := 0; i < n; i++ {
			p = append(p, v2(ox+k.Float64(), oy+k.Float64()))
		}
	case 12:
		kind = "polygon with midpoints"
		m := 3 + k.Intn(8)
		for i := 0; i < m; i++ {
			a, b := 2*math.Pi*float64(i)/float64(m), 2*math.Pi*float64(i+1)/float64(m)
			for j := 0; j < 8; j++ {
				f := float64(j) / 8
				p = append(p, v2((1-f)*math.Cos(a)+f*math.Cos(b), (1-f)*math.Sin(a)+f*math.Sin(b)))
			}
		}
		if k.Intn(2) == 0 {
			k.shuffle(p)
		}
	case 0:
		for i := 0; i < n; i++ {
			p = append(p, v2(k.Float64(), k.Float64()))
		}
		kind = "uniform unit"
	case 1:
		s := math.Pow(10, float64(k.Intn(7)-2))
		for i := 0; i < n; i++ {
			p = append(p, v2((k.Float64()*2-1)*s, (k.Float64()*2-1)*s))
		}
		kind = fmt.Sprintf("uniform scale %g", s)
	case 2:
		m := 1 + k.Intn(4)
		var cs []r3.Vector
		for i := 0; i < m; i++ {
			cs = append(cs, v2(k.NormFloat64()*50, k.NormFloat64()*50))
		}
		for i := 0; i < n; i++ {
			c := cs[k.Intn(m)]
			p = append(p, v2(c.X+k.NormFloat64(), c.Y+k.NormFloat64()))
		}
		kind = "gaussian clusters"
	case 3:
		R := 1 + k.Float64()*9
		for i := 0; i < n; i++ {
			a := k.Float64() * 2 * math.Pi
			p = append(p, v2(R*math.Cos(a), R*math.Sin(a)))
		}
		kind = "float circle"
	case 4:
		for i := 0; i < n; i++ {
			t := float64(i) * 0.3
			p = append(p, v2(t*math.Cos(t), t*math.Sin(t)))
		}
		kind = "spiral"
		if k.Intn(2) == 0 {
			k.shuffle(p)
		}
	case 5:
		ax, ay := math.Pow(10, k.Float64()*2-1), math.Pow(10, k.Float64()*2-1)
		for i := 0; i < n; i++ {
			p = append(p, v2(k.Float64()*ax, k.Float64()*ay))
		}
		kind = "anisotropic"
	case 6:
		ox, oy := (k.Float64()*2-1)*1000, (k.Float64()*2-1)*1000
		for i := 0; i < n; i++ {
			p = append(p, v2(ox+k.Float64()*10, oy+k.Float64()*10))
		}
		kind = "shifted"
	case 13:
		// pairs and clusters down to a rounding step
		kind = "close pairs"
		s := math.Pow(10, float64(k.Intn(5)-1))
		for i := 0; i < n; i++ {
			if len(p) > 0 && k.Intn(2) == 0 {
				o, d, a := p[k.Intn(len(p))], math.Pow(10, -17+12*k.Float64()), k.Float64()*2*math.Pi
				p = append(p, v2(o.X+d*math.Cos(a), o.Y+d*math.Sin(a)))
				continue
			}
			p = append(p, v2((k.Float64()*2-1)*s, (k.Float64()*2-1)*s))
		}
	case 14:
		kind = "tiny"
		s := math.Pow(10, -14+10*k.Float64())
		ox, oy := 0.0, 0.0
		if k.Intn(2) == 0 {
			ox, oy = k.NormFloat64(), k.NormFloat64()*10
		}
		for i := 0; i < n; i++ {
			p = append(p, v2(ox+k.Float64()*s, oy+k.Float64()*s))
		}
	case 15:
		// a few rounding steps across
		kind = "rounding steps"
		o := v2(math.Ldexp(1+k.Float64(), k.Intn(60)-30), math.Ldexp(1+k.Float64(), k.Intn(60)-30))
		ux, uy, w := math.Nextafter(o.X, math.Inf(1))-o.X, math.Nextafter(o.Y, math.Inf(1))-o.Y, 1+k.Intn(12)
		if k.Intn(2) == 0 { // the same steps both ways
			uy = math.Max(ux, uy)
			ux = uy
		}
		for i := 0; i < n; i++ {
			p = append(p, v2(o.X+ux*float64(k.Intn(w+1)), o.Y+uy*float64(k.Intn(w+1))))
		}
	case 16, 17:
		// clusters far apart for their size, so that everything between them is thin
		kind = "thin clusters"
		d, w, u := math.Ldexp(1, 4+k.Intn(49)), 2+k.Intn(6), math.Ldexp(1, -k.Intn(30))
		if n > 30 {
			n = 4 + k.Intn(27)
		}
		c := []r3.Vector{v2(d, 0), v2(d, d), v2(0, 0), v2(-d, d/2)}[:2+k.Intn(3)]
		for i := 0; i < n; i++ {
			o := c[k.Intn(len(c))]
			p = append(p, v2((o.X+float64(k.Intn(w)))*u, (o.Y+float64(k.Intn(w)))*u))
		}
	case 18:
		// whole numbers up to the last ones without gaps
		kind = "far grid"
		ox, oy, w, h := math.Ldexp(1, 20+k.Intn(33)), math.Ldexp(1, 20+k.Intn(33)), 2+k.Intn(10), 2+k.Intn(10)
		for i := 0; i < w; i++ {
			for j := 0; j < h; j++ {
				if k.Intn(8) != 0 {
					p = append(p, v2(ox+float64(i), oy+float64(j)))
				}
			}
		}
		k.shuffle(p)
	case 19:
		// a chain of points each of which almost copies the one before
		kind = "chain"
		d := math.Pow(10, -13+6*k.Float64())
		x, y, a := k.NormFloat64(), k.NormFloat64(), 0.0
		for i := 0; i < n; i++ {
			p = append(p, v2(x, y))
			x, y = x+d*math.Cos(a), y+d*math.Sin(a)
			a += k.Float64() * 4 * math.Pi / float64(n)
		}
		if k.Intn(2) == 0 {
			p = append(p, v2(k.NormFloat64(), k.NormFloat64()))
			k.shuffle(p)
		}
	case 20:
		// every scale at once
		kind = "all scales"
		r := float64(1 + k.Intn(120))
		o := v2(0, 0)
		if k.Intn(2) == 0 {
			o = v2(k.NormFloat64(), k.NormFloat64())
		}
		for i := 0; i < n; i++ {
			s, a := math.Exp2((k.Float64()*2-1)*r), k.Float64()*2*math.Pi
			p = append(p, v2(o.X+s*math.Cos(a), o.Y+s*math.Sin(a)))
		}
	case 22, 23:
		// an arc so flat that its points are nearly on one line, some of them about
		// as far off it as the arc is off its chords: almost equally far from
		// a center that rounding moves
		kind = "thin arc"
		th, a, u := math.Pow(10, -9+7*k.Float64()), k.Float64()*7, math.Ldexp(1, k.Intn(40)-20)
		if k.Intn(2) == 0 {
			a = 0
		}
		ox, oy := 0.0, 0.0
		if k.Intn(3) == 0 {
			ox, oy = k.NormFloat64()*u, k.NormFloat64()*u
		}
		few, off := k.Intn(3), math.Pow(10, -k.Float64()*3)
		for i := 0; i < n; i++ {
			t := k.Float64()*2 - 1
			d := th / 2 * t * t
			if few > 0 && k.Intn(1+2*few) == 0 && math.Abs(t) > 0.3 {
				d += th * off * k.NormFloat64() / float64(n*n)
			}
			t, d = t*u, d*u
			p = append(p, v2(ox+t*math.Cos(a)-d*math.Sin(a), oy+t*math.Sin(a)+d*math.Cos(a)))
		}
	case 21:
		kind = "any exponents"
		r := float64(1 + k.Intn(180))
		for i := 0; i < n; i++ {
			p = append(p, v2(k.NormFloat64()*math.Exp2((k.Float64()*2-1)*r), k.NormFloat64()*math.Exp2((k.Float64()*2-1)*r)))
		}
	}
	q := p
	if kind != "two scales" && k.Intn(8) == 0 {
		f := math.Ldexp(1, k.Intn(121)-60)
		for i := range q {
			q[i] = v2(q[i].X*f, q[i].Y*f)
		}
		kind += " scaled"
	}
	if k.Intn(4) == 0 && len(q) > 0 {
		for i := 0; i < 1+k.Intn(5); i++ {
			q = append(q, q[k.Intn(len(q))])
		}
		kind += " with copies"
	}
	return pset{kind, q, false}
}

// distinctXY returns the distinct planar positions.
func distinctXY(p []r3.Vector) []r3.Vector {
	seen := map[[2]float64]bool{}
	var out []r3.Vector
	for _, q := range p {
		key := [2]float64{q.X + 0, q.Y + 0} // -0 folded below
		if key[0] == 0 {
			key[0] = 0
		}
		if key[1] == 0 {
			key[1] = 0
		}
		if !seen[key] {
			seen[key] = true
			out = append(out, v2(key[0], key[1]))
		}
	}
	return out
}

// allCollinear decides exactly whether all points lie on one line.
func allCollinear(p []r3.Vector) bool {
	d := distinctXY(p)
	if len(d) < 3 {
		return true
	}
	for i := 2; i < len(d); i++ {
		if s, _, _ := orient2(d[0], d[1], d[i]); s != 0 {
			return false
		}
	}
	return true
}

// refHull is the exact strict convex hull (corner points only),
// counter-clockwise, of distinct planar positions.
func refHull(p []r3.Vector) []r3.Vector {
	d := distinctXY(p)
	sortXY(d)
	if len(d) < 3 {
		return d
	}
	build := func(d []r3.Vector) []r3.Vector {
		var h []r3.Vector
		for _, q := range d {
			for len(h) >= 2 {
				if s, _, _ := orient2(h[len(h)-2], h[len(h)-1], q); s <= 0 {
					h = h[:len(h)-1]
				} else {
					break
				}
			}
			h = append(h, q)
		}
		return h
	}
	lo := build(d)
	rev := make([]r3.Vector, len(d))
	for i := range d {
		rev[len(d)-1-i] = d[i]
	}
	up := build(rev)
	return append(append([]r3.Vector{}, lo[:len(lo)-1]...), up[:len(up)-1]...)
}
