package main

import (
	"math"

	"geGoMetry/r3"

	"github.com/ungerik/go3d/float64/vec3"
)

// Twin calls: now and then the judged call is preceded by calls with almost
// the same arguments, often in the same memory. Nothing of them may be left.

// nudgeFloat returns a number that is easily mistaken for x.
func (k *Case) nudgeFloat(x float64) float64 {
	y := x
	switch k.Intn(7) {
	case 0:
		y = math.Nextafter(x, math.Inf(1-2*k.Intn(2)))
	case 1, 2:
		y = x * (1 + (k.Float64()-0.5)*3e-8)
	case 3:
		y = float64(float32(x))
	case 4:
		y = -x
	case 5:
		y = x + float64(1+k.Intn(3))
	default:
		y = x * (1 + (k.Float64()-0.5)*1e-3)
	}
	if y == x {
		y = x + 1e-9*(k.Float64()-0.5)
	}
	if y == x || math.Abs(y) > 1e60 || math.Abs(y) < 1e-60 && y != 0 {
		y = math.Nextafter(x, 0)
	}
	return y
}

func (k *Case) nudgeVector(v *r3.Vector) {
	switch k.Intn(5) {
	case 0:
		v.X = k.nudgeFloat(v.X)
	case 1:
		v.Y = k.nudgeFloat(v.Y)
	case 2:
		v.Z = k.nudgeFloat(v.Z)
	case 3:
		v.X, v.Y = v.Y, v.X
	default:
		v.X, v.Y, v.Z = k.nudgeFloat(v.X), k.nudgeFloat(v.Y), k.nudgeFloat(v.Z)
	}
}

// nudgePoints changes some of the points, seldom the first or the last.
func (k *Case) nudgePoints(p []r3.Vector) {
	if len(p) == 0 {
		return
	}
	inner := func() int {
		if len(p) > 2 && k.Intn(4) > 0 {
			return 1 + k.Intn(len(p)-2)
		}
		return k.Intn(len(p))
	}
	switch k.Intn(6) {
	case 0, 1:
		k.nudgeVector(&p[inner()])
	case 2: // every height
		for i := range p {
			p[i].Z = k.nudgeFloat(p[i].Z)
		}
	case 3: // every coordinate, by less than a float32 can tell
		for i := range p {
			for _, x := range []*float64{&p[i].X, &p[i].Y, &p[i].Z} {
				*x *= 1 + (k.Float64()-0.5)*2e-8
			}
		}
	case 4:
		i, j := inner(), inner()
		p[i], p[j] = p[j], p[i]
	default:
		p[inner()] = p[inner()]
	}
}

// twin sometimes makes the call f with a slightly different p, in p's own
// memory, and puts the contents of p back.
func (k *Case) twin(p []r3.Vector, f func()) {
	if len(p) == 0 || len(p) > 1000 || k.Intn(5) > 0 {
		return
	}
	keep := clonePts(p)
	k.nudgePoints(p)
	catch(f)
	copy(p, keep)
	k.c.Obs("calls after one with almost the same points", 1)
}

// nudgeKnots moves one inner knot, keeping the order.
func (k *Case) nudgeKnots(U []int) {
	var can []int
	for i := 1; i+1 < len(U); i++ {
		if U[i-1] < U[i+1] {
			can = append(can, i)
		}
	}
	if len(can) == 0 {
		return
	}
	i := can[k.Intn(len(can))]
	for try := 0; try < 20; try++ {
		if x := U[i-1] + k.Intn(U[i+1]-U[i-1]+1); x != U[i] {
			U[i] = x
			return
		}
	}
}

// nudgeSpline changes a knot, a control point or both.
func (k *Case) nudgeSpline(U []int, P []vec3.T) {
	which := k.Intn(3)
	if which != 0 && len(U) > 0 {
		k.nudgeKnots(U)
	}
	if which != 1 && len(P) > 0 {
		i := k.Intn(len(P))
		if len(P) > 2 {
			i = 1 + k.Intn(len(P)-2)
		}
		if k.Intn(2) == 0 {
			i = k.Intn(len(P))
		}
		j := k.Intn(3)
		P[i][j] = k.nudgeFloat(P[i][j])
	}
}

// twinSpline sometimes makes the call f with slightly different knots and
// control points, in the same memory, and puts the contents back.
func (k *Case) twinSpline(s spline, U []int, P []vec3.T, f func()) {
	if len(U) > 2000 || k.Intn(5) > 0 {
		return
	}
	keepU, keepP := append([]int(nil), U...), append([]vec3.T(nil), P...)
	k.nudgeSpline(U, P)
	if U[s.p] == U[s.n+1] { // no parameters at all
		copy(U, keepU)
	}
	catch(f)
	copy(U, keepU)
	copy(P, keepP)
	k.c.Obs("calls after one with almost the same spline", 1)
}

// swapPoints returns a function that exchanges the contents of p for slightly
// different ones, and back.
func (k *Case) swapPoints(p []r3.Vector) func() {
	other := clonePts(p)
	k.nudgePoints(other)
	return func() {
		for i := range p {
			p[i], other[i] = other[i], p[i]
		}
	}
}

// swapVectors does the same for single vectors.
func (k *Case) swapVectors(v ...*r3.Vector) func() {
	other := make([]r3.Vector, len(v))
	for i := range v {
		other[i] = *v[i]
	}
	k.nudgePoints(other)
	return func() {
		for i := range v {
			*v[i], other[i] = other[i], *v[i]
		}
	}
}
