package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ungerik/go3d/float64/vec3"
)

// spline is a knot vector with its degree; n is the last control point index.
type spline struct {
	n, p int
	U    []int
}

func rat(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }

func genSpline(k *Case) (s spline) {
	s.p = k.Intn(6)
	switch {
	case k.Intn(3) == 0:
		s.p = 3
	case k.Intn(10) == 0:
		s.p = 6 + k.Intn(7)
		if k.Intn(6) == 0 {
			s.p = 13 + k.Intn(14)
		}
	}
	s.n = s.p + k.Intn(10)
	if k.Intn(12) == 0 {
		s.n += k.Intn(120)
		if k.Intn(40) == 0 {
			s.n += k.Intn(2000)
		}
	}
	m := s.n + s.p + 1
	u := k.Intn(21) - 10
	kind := k.Intn(6)
	for i := 0; i <= m; i++ {
		s.U = append(s.U, u)
		switch kind {
		case 0: // uniform
			u++
		case 1: // clamped
			if i >= s.p && i < m-s.p {
				u += k.Intn(3)
			}
		case 2: // repeated knots of any multiplicity
			if k.Intn(3) == 0 {
				u += 1 + k.Intn(3)
			}
		case 3:
			u += k.Intn(3)
		case 4: // wide and narrow spans
			if k.Intn(2) == 0 {
				u += 1 + k.Intn(100)*k.Intn(2)
			}
		case 5: // Bézier: every inner knot with full multiplicity
			if i >= s.p && (i-s.p)%(s.p+1) == 0 {
				u += 1 + k.Intn(3)
			}
		}
	}
	if s.U[s.p] == s.U[s.n+1] { // the domain must not be empty
		for i := s.n + 1; i <= m; i++ {
			s.U[i]++
		}
	}
	switch k.Intn(16) { // large knots
	case 0:
		off := []int{100, 1000, 1 << 16, 1 << 24, 1 << 31, 1000000007, 1 << 40}[k.Intn(7)] + k.Intn(5) - 2
		if k.Intn(2) == 0 {
			off = -off
		}
		for i := range s.U {
			s.U[i] += off
		}
	case 1:
		f := []int{7, 256, 1000, 65536, 1000000, 1 << 25}[k.Intn(6)]
		for i := range s.U {
			s.U[i] *= f
		}
	}
	return
}

// span is the knot span of a parameter of the domain: the last index i with
// U[i] <= u < U[i+1], and at the end of the domain the last that is not empty.
func (s spline) span(u float64) int {
	for i := s.n; i >= s.p; i-- {
		if s.U[i] < s.U[i+1] && float64(s.U[i]) <= u {
			return i
		}
	}
	for i := s.p; i <= s.n; i++ {
		if s.U[i] < s.U[i+1] {
			return i
		}
	}
	panic(harnessError("empty domain"))
}

// basis is the Cox-de Boor recursion, exactly, degree by degree, for the
// functions N(span-p,p) to N(span,p), which are those that do not vanish.
func (s spline) basis(p, span int, u *big.Rat) []*big.Rat {
	N := make([]*big.Rat, p+2) // N(span-p+j,d)
	for j := range N {
		N[j] = new(big.Rat)
	}
	N[p].SetInt64(1)
	for d := 1; d <= p; d++ {
		for j := p - d; j <= p; j++ {
			i := span - p + j
			v := new(big.Rat)
			if w := s.U[i+d] - s.U[i]; w != 0 && N[j].Sign() != 0 {
				t := new(big.Rat).Sub(u, big.NewRat(int64(s.U[i]), 1))
				t.Mul(t, N[j])
				v.Add(v, t.Quo(t, big.NewRat(int64(w), 1)))
			}
			if N[j+1].Sign() != 0 {
				t := new(big.Rat).Sub(big.NewRat(int64(s.U[i+d+1]), 1), u)
				t.Mul(t, N[j+1])
				v.Add(v, t.Quo(t, big.NewRat(int64(s.U[i+d+1]-s.U[i+1]), 1)))
			}
			N[j] = v
		}
	}
	return N[:p+1]
}

// param draws a parameter of the domain.
func (s spline) param(k *Case) (u float64, what string) {
	lo, hi := float64(s.U[s.p]), float64(s.U[s.n+1])
	if k.Intn(8) == 0 {
		return s.endParam(k)
	}
	switch k.Intn(8) {
	case 0:
		return lo, "start of the domain"
	case 1:
		return hi, "end of the domain"
	case 2:
		return float64(s.U[s.p+k.Intn(s.n+2-s.p)]), "knot"
	case 3:
		x := math.Nextafter(float64(s.U[s.p+k.Intn(s.n+2-s.p)]), lo-1)
		return math.Max(x, lo), "just below a knot"
	case 4:
		x := math.Nextafter(float64(s.U[s.p+k.Intn(s.n+2-s.p)]), hi+1)
		return math.Min(x, hi), "just above a knot"
	case 5:
		return lo + (hi-lo)*float64(k.Intn(9))/8, "regular"
	}
	return math.Min(hi, lo+(hi-lo)*k.Float64()), "random"
}

// endParam draws a parameter of the first or the last few spans.
func (s spline) endParam(k *Case) (u float64, what string) {
	lo, hi := float64(s.U[s.p]), float64(s.U[s.n+1])
	at := k.Intn(3)
	if k.Intn(2) == 0 {
		at = s.n - s.p - at
	}
	at = s.p + int(math.Max(0, math.Min(float64(s.n-s.p), float64(at))))
	a, b := float64(s.U[at]), float64(s.U[at+1])
	u = []float64{a, math.Nextafter(a, hi+1), a + (b-a)*k.Float64(), math.Nextafter(b, lo-1)}[k.Intn(4)]
	return math.Max(lo, math.Min(hi, u)), "in a span at an end"
}

func rf(r *big.Rat) float64 { f, _ := r.Float64(); return f }

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s spline) input(extra map[string]interface{}) interface{} {
	in := map[string]interface{}{"degree": s.p, "last control point": s.n, "knots": fmt.Sprint(s.U)}
	for a, b := range extra {
		in[a] = b
	}
	return in
}

func runCurve(c *Ctx) {
	curve, ok := lookup[func(n, p int, U []int, P []vec3.T, u float64) vec3.T](c, "nurbs.curvePoint")
	if !ok {
		return
	}
	points := func(k *Case, s spline) (P []vec3.T) {
		sc := math.Pow(10, float64(k.Intn(5)-2))
		if k.Intn(12) == 0 {
			sc = math.Pow(10, float64(k.Intn(41)-20))
		}
		var off vec3.T
		if k.Intn(8) == 0 {
			off = vec3.T{float64(k.Intn(2000001) - 1000000), 1e9 * k.Float64(), -1e5}
		}
		defer func() {
			for i := range P {
				P[i].Add(&off)
			}
		}()
		for i := 0; i <= s.n; i++ {
			if k.index%2 == 0 {
				P = append(P, vec3.T{float64(k.Intn(21) - 10), float64(k.Intn(21) - 10), float64(k.Intn(21) - 10)})
			} else {
				P = append(P, vec3.T{(k.Float64()*2 - 1) * sc, (k.Float64()*2 - 1) * sc, (k.Float64()*2 - 1) * sc})
			}
		}
		return
	}
	c.Sub("points of the curve", c.N(40000, 600000), func(k *Case) {
		s := genSpline(k)
		u, what := s.param(k)
		if s.n > 100 && k.Intn(2) == 0 {
			u, what = s.endParam(k)
		}
		P := points(k, s)
		k.Input(s.input(map[string]interface{}{"control points": fmt.Sprint(P), "u": u, "parameter": what}))
		k.Seen(s, P, u)
		U, Q := append([]int(nil), s.U...), append([]vec3.T(nil), P...)
		k.twinSpline(s, U, Q, func() { curve(s.n, s.p, U, Q, u) })
		got := curve(s.n, s.p, U, Q, u)
		if !sameInts(U, s.U) {
			k.Fail("the knots were changed to %v", U)
			return
		}
		for i := range P {
			if P[i] != Q[i] {
				k.Fail("control point %d was changed to %v", i, Q[i])
				return
			}
		}
		span := s.span(u)
		U2 := rat(u)
		var want [3]*big.Rat
		var size [3]float64
		for j := range want {
			want[j] = new(big.Rat)
		}
		for n, b := range s.basis(s.p, span, U2) {
			i := span - s.p + n
			for j := range want {
				t := rat(P[i][j])
				want[j].Add(want[j], t.Mul(t, b))
				size[j] = math.Max(size[j], math.Abs(P[i][j]))
			}
		}
		for j := range want {
			if !closeTo(got[j], rf(want[j]), 1e-12*size[j]) {
				k.Fail("the curve point at %v is %v, the exact one (%v, %v, %v)", u, got, rf(want[0]), rf(want[1]), rf(want[2]))
				return
			}
		}
		k.c.Obs("points: "+what, 1)
	})
	c.Sub("clamped ends", c.N(3000, 60000), func(k *Case) {
		// a clamped curve starts and ends at its first and last control points
		s := spline{p: 1 + k.Intn(5)}
		s.n = s.p + k.Intn(8)
		u := k.Intn(9) - 4
		for i := 0; i <= s.n+s.p+1; i++ {
			if i > s.p && i <= s.n+1 {
				u += 1 + k.Intn(3)
			}
			s.U = append(s.U, u)
		}
		P := points(k, s)
		k.Input(s.input(map[string]interface{}{"control points": fmt.Sprint(P)}))
		k.Seen(s, P)
		for i, want := range []vec3.T{P[0], P[s.n]} {
			at := float64(s.U[[]int{s.p, s.n + 1}[i]])
			got := curve(s.n, s.p, s.U, P, at)
			for j := range got {
				if !closeTo(got[j], want[j], 1e-12*math.Abs(want[j])) {
					k.Fail("the clamped curve is at %v for its end %v instead of the control point %v", got, at, want)
					return
				}
			}
		}
		k.c.Obs("clamped curves", 1)
	})
	c.Sub("parameters outside the domain", c.N(3000, 60000), func(k *Case) {
		s := genSpline(k)
		P := points(k, s)
		lo, hi := float64(s.U[s.p]), float64(s.U[s.n+1])
		u := []float64{math.Nextafter(lo, lo-1), lo - 0.5, lo - 3, float64(s.U[0]) - 7, math.Nextafter(hi, hi+1), hi + 0.5, hi + 3, float64(s.U[len(s.U)-1]) + 7, 1e9, -1e9, 1e300, -1e300, math.MaxFloat64}[k.Intn(13)]
		k.Input(s.input(map[string]interface{}{"control points": fmt.Sprint(P), "u": u}))
		k.Seen(s, P, u)
		// the call ends, without a panic; a hang is seen by the watchdog
		curve(s.n, s.p, s.U, P, u)
		k.c.Obs("parameters outside", 1)
	})
}

func runBasis(c *Ctx) {
	find, ok1 := lookup[func(n, p int, u float64, U []int) int](c, "nurbs.findSpan")
	basis, ok2 := lookup[func(i int, u float64, p int, U []int) []float64](c, "nurbs.basisFuns")
	if ok1 {
		c.Sub("knot spans", c.N(80000, 1000000), func(k *Case) {
			s := genSpline(k)
			u, what := s.param(k)
			k.Input(s.input(map[string]interface{}{"u": u, "parameter": what}))
			k.Seen(s, u)
			U := append([]int(nil), s.U...)
			k.twinSpline(s, U, nil, func() { find(s.n, s.p, u, U) })
			got := find(s.n, s.p, u, U)
			if !sameInts(U, s.U) {
				k.Fail("the knots were changed to %v", U)
				return
			}
			if want := s.span(u); got != want {
				k.Fail("the knot span of %v is %d, not %d", u, want, got)
				return
			}
			k.c.Obs("spans: "+what, 1)
		})
		c.Sub("knot spans of long knot vectors", c.N(3000, 50000), func(k *Case) {
			s := spline{p: k.Intn(4)}
			s.n = s.p + 50 + k.Intn(300)
			if k.Intn(20) == 0 {
				s.n += 1000 + k.Intn(5000)
			}
			u := -5
			for i := 0; i <= s.n+s.p+1; i++ {
				s.U = append(s.U, u)
				if k.Intn(4) > 0 {
					u += k.Intn(4)
				}
			}
			if s.U[s.p] == s.U[s.n+1] {
				return
			}
			v, what := s.param(k)
			if k.Intn(2) == 0 {
				v, what = s.endParam(k)
			}
			k.Input(s.input(map[string]interface{}{"u": v, "parameter": what}))
			k.Seen(s, v)
			k.twinSpline(s, s.U, nil, func() { find(s.n, s.p, v, s.U) })
			if got, want := find(s.n, s.p, v, s.U), s.span(v); got != want {
				k.Fail("the knot span of %v is %d, not %d", v, want, got)
				return
			}
			k.c.Obs("long knot vectors", 1)
		})
		c.Sub("knot spans outside the domain", c.N(5000, 100000), func(k *Case) {
			s := genSpline(k)
			lo, hi := float64(s.U[s.p]), float64(s.U[s.n+1])
			u := []float64{math.Nextafter(lo, lo-1), lo - 0.5, lo - 100, math.Nextafter(hi, hi+1), hi + 0.5, hi + 100, 1e300, -1e300}[k.Intn(8)]
			k.Input(s.input(map[string]interface{}{"u": u}))
			k.Seen(s, u)
			got := find(s.n, s.p, u, s.U)
			if got < s.p || got > s.n || s.U[got] == s.U[got+1] {
				k.Fail("the knot span of %v, outside the domain, is %d", u, got)
				return
			}
			k.c.Obs("spans outside", 1)
		})
	}
	if ok2 {
		c.Sub("basis functions", c.N(50000, 800000), func(k *Case) {
			s := genSpline(k)
			u, what := s.param(k)
			span := s.span(u)
			k.Input(s.input(map[string]interface{}{"u": u, "parameter": what, "span": span}))
			k.Seen(s, u)
			k.twinSpline(s, s.U, nil, func() { basis(span, u, s.p, s.U) })
			N := basis(span, u, s.p, s.U)
			if k.Intn(4) == 0 { // another result, overwritten by its owner
				u2 := []float64{u, float64(s.U[span]), float64(s.U[span+1])}[k.Intn(3)]
				for M, j := basis(span, u2, s.p, s.U), 0; j < len(M); j++ {
					M[j] = 1e99
				}
				k.c.Obs("results kept while others were made", 1)
			}
			if len(N) != s.p+1 {
				k.Fail("%d basis functions of degree %d", len(N), s.p)
				return
			}
			sum := 0.0
			exact := s.basis(s.p, span, rat(u))
			for j, x := range N {
				if !(x >= -1e-15) {
					k.Fail("basis function %d at %v is %v", span-s.p+j, u, x)
					return
				}
				if want := rf(exact[j]); !closeTo(x, want, 1e-13) {
					k.Fail("basis function %d at %v is %v instead of %v", span-s.p+j, u, x, want)
					return
				}
				sum += x
			}
			if !closeTo(sum, 1, 1e-13) {
				k.Fail("the basis functions at %v add up to %v", u, sum)
				return
			}
			k.c.Obs("bases: "+what, 1)
		})
	}
}

// poly is a polynomial with rational coefficients, lowest first.
type poly []*big.Rat

func (a poly) add(b poly) poly {
	for len(a) < len(b) {
		a = append(a, new(big.Rat))
	}
	for i := range b {
		a[i] = new(big.Rat).Add(a[i], b[i])
	}
	return a
}

// times multiplies by (c0 + c1 x)/d.
func (a poly) times(c0, c1, d int) poly {
	out := make(poly, len(a)+1)
	for i := range out {
		out[i] = new(big.Rat)
	}
	for i, x := range a {
		out[i].Add(out[i], new(big.Rat).Mul(x, big.NewRat(int64(c0), int64(d))))
		out[i+1].Add(out[i+1], new(big.Rat).Mul(x, big.NewRat(int64(c1), int64(d))))
	}
	return out
}

func (a poly) derive() poly {
	var out poly
	for i := 1; i < len(a); i++ {
		out = append(out, new(big.Rat).Mul(a[i], big.NewRat(int64(i), 1)))
	}
	return out
}

func (a poly) at(u int) *big.Rat {
	v := new(big.Rat)
	x := big.NewRat(int64(u), 1)
	for i := len(a) - 1; i >= 0; i-- {
		v.Mul(v, x)
		v.Add(v, a[i])
	}
	return v
}

// polys are the functions N(span-p,p) to N(span,p) on the span.
func (s spline) polys(p, span int) []poly {
	N := make([]poly, p+2)
	N[p] = poly{big.NewRat(1, 1)}
	for d := 1; d <= p; d++ {
		for j := p - d; j <= p; j++ {
			i := span - p + j
			var v poly
			if w := s.U[i+d] - s.U[i]; w != 0 && N[j] != nil {
				v = v.add(N[j].times(-s.U[i], 1, w))
			}
			if N[j+1] != nil {
				v = v.add(N[j+1].times(s.U[i+d+1], -1, s.U[i+d+1]-s.U[i+1]))
			}
			N[j] = v
		}
	}
	return N[:p+1]
}

func runDers(c *Ctx) {
	ders, ok := lookup[func(i, u, p, n int, U []int) [][]float64](c, "nurbs.dersBasisFuns")
	if !ok {
		return
	}
	basis, ok2 := lookup[func(i int, u float64, p int, U []int) []float64](c, "nurbs.basisFuns")
	c.Sub("derivatives of basis functions", c.N(25000, 500000), func(k *Case) {
		s := genSpline(k)
		if k.Intn(2) == 0 { // spans with whole numbers inside
			for i := range s.U {
				s.U[i] *= 1 + k.index%7
			}
		}
		var spans []int
		for i := s.p; i <= s.n; i++ {
			if s.U[i] < s.U[i+1] {
				spans = append(spans, i)
			}
		}
		i := spans[k.Intn(len(spans))]
		u := s.U[i] + k.Intn(s.U[i+1]-s.U[i]+1)
		n := k.Intn(s.p + 1)
		k.Input(s.input(map[string]interface{}{"span": i, "u": u, "derivatives": n}))
		k.Seen(s, i, u, n)
		k.twinSpline(s, s.U, nil, func() { ders(i, u, s.p, n, s.U) })
		got := ders(i, u, s.p, n, s.U)
		if k.Intn(4) == 0 { // another result, overwritten by its owner
			for _, row := range ders(i, s.U[i]+k.Intn(s.U[i+1]-s.U[i]+1), s.p, n, s.U) {
				for j := range row {
					row[j] = 1e99
				}
			}
			k.c.Obs("results kept while others were made", 1)
		}
		if len(got) <= n {
			k.Fail("%d rows for %d derivatives", len(got), n)
			return
		}
		if ok2 {
			for j, x := range basis(i, float64(u), s.p, s.U) {
				if !closeTo(got[0][j], x, 1e-13) {
					k.Fail("row 0 differs from the basis functions: %v", got[0])
					return
				}
			}
		}
		P := s.polys(s.p, i)
		for d := 0; d <= n; d++ {
			size := 1e-300
			want := make([]float64, s.p+1)
			for j := range P {
				want[j] = rf(P[j].at(u))
				size = math.Max(size, math.Abs(want[j]))
				P[j] = P[j].derive()
			}
			if len(got[d]) < s.p+1 {
				k.Fail("row %d has %d entries", d, len(got[d]))
				return
			}
			for j := range want {
				if !closeTo(got[d][j], want[j], 1e-11*size) {
					k.Fail("derivative %d of basis function %d at %d is %v instead of %v", d, i-s.p+j, u, got[d][j], want[j])
					return
				}
			}
			k.c.Obs(fmt.Sprintf("derivatives of order %d", d), 1)
		}
	})
}

func init() {
	register("C25", "knot vectors of degree 0 to 26 (mostly up to 5; uniform, clamped, repeated knots of any multiplicity, wide and narrow spans, knots to 1e12) with integer and real control points, parameters at the ends, at knots, one rounding step beside them, inside and outside the domain; compared with the exact Cox-de Boor sum; distinct by content", runCurve,
		"knots do not decrease, the domain is not empty, the parameter is finite")
	register("C26", "the knot vectors and parameters of C25, and long knot vectors; compared with an exhaustive search and the exact recursion; distinct by content", runBasis,
		"knots do not decrease, the domain is not empty, the parameter is finite")
	register("C27", "the knot vectors of C25 with whole parameters in their spans; compared with the exact derivatives of the piecewise polynomials; distinct by content", runDers,
		"the order is at most the degree, the parameter lies in the given span, which is not empty")
}
