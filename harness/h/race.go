package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"geGoMetry/glTF"
	"geGoMetry/predicates"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"geGoMetry/step"
	"geGoMetry/triangulate2"
	"geGoMetry/triangulate3"

	"github.com/ungerik/go3d/float64/vec3"
)

// op is one call with fixed input. run calls the code under test and returns
// its live result with a function that writes the result down; worker names
// the caller, for output files of its own.
type op struct {
	name string
	run  func(worker int) func() string
	same func() bool // the inputs are as they were
	// spoil makes the call and overwrites all of its result, which belongs to
	// the caller
	spoil func()
	// vary returns a function that exchanges the input for a slightly different
	// one, in the same memory, and back
	vary func(k *Case) func()
}

func spoilInts(x []int) {
	for i := range x[:cap(x)] {
		x[:cap(x)][i] = -12345
	}
}

func spoilPoints(x []r3.Vector) {
	for i := range x {
		x[i] = v3(-1e300, 777, 1e-300)
	}
}

func spoilMesh(m shape.Mesh) {
	spoilPoints(m.Vertices)
	for i := range m.Indices {
		m.Indices[i] = 4000000000
	}
	for i := range m.Normals {
		m.Normals[i] = [3]float64{7, 7, 7}
	}
	for i := range m.TexCoords {
		m.TexCoords[i] = [2]float64{-7, -7}
	}
}

type opMaker func(k *Case) (op, bool)

func samePoints(a, b []r3.Vector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameBits(a[i].X, b[i].X) || !sameBits(a[i].Y, b[i].Y) || !sameBits(a[i].Z, b[i].Z) {
			return false
		}
	}
	return true
}

func text(v ...interface{}) string { return fmt.Sprintf("%v", v) }

func tableText(t step.SymbolTable) string {
	var ids []string
	for id := range t {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var b strings.Builder
	for _, id := range ids {
		fmt.Fprintf(&b, "%q %q %q\n", id, t[id].Type, t[id].Arguments)
	}
	return b.String()
}

func meshText(m shape.Mesh) string {
	return text(len(m.Vertices), len(m.Indices), len(m.Normals), len(m.TexCoords), meshHash(m))
}

func meshHash(m shape.Mesh) uint64 {
	h := uint64(1469598103934665603)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211 }
	for _, v := range m.Vertices {
		mix(math.Float64bits(v.X))
		mix(math.Float64bits(v.Y))
		mix(math.Float64bits(v.Z))
	}
	for _, x := range m.Indices {
		mix(uint64(x))
	}
	for _, n := range m.Normals {
		mix(math.Float64bits(n[0]))
		mix(math.Float64bits(n[1]))
		mix(math.Float64bits(n[2]))
	}
	for _, n := range m.TexCoords {
		mix(math.Float64bits(n[0]))
		mix(math.Float64bits(n[1]))
	}
	return h
}

// size is 0 unless inputs are to be large.
func size(k *Case, n int) int {
	if !k.big {
		return 0
	}
	return n/4 + k.Intn(n)
}

func opMakers(c *Ctx, dir string) map[string]opMaker {
	bw, okBW := lookup[func(...r3.Vector) []int](c, "meshing.bowyerWatson")
	near, okNear := lookup[func([]r3.Vector, r3.Vector) r3.Vector](c, "meshing.getNearestPoint")
	englobe, okEnglobe := lookup[func(*[]r3.Vector) [4]int](c, "meshing.englobe")
	curve, okCurve := lookup[func(n, p int, U []int, P []vec3.T, u float64) vec3.T](c, "nurbs.curvePoint")
	ders, okDers := lookup[func(i, u, p, n int, U []int) [][]float64](c, "nurbs.dersBasisFuns")
	find, okFind := lookup[func(n, p int, u float64, U []int) int](c, "nurbs.findSpan")
	basis, okBasis := lookup[func(i int, u float64, p int, U []int) []float64](c, "nurbs.basisFuns")
	insph, okIn := lookup[func(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64) float64](c, "predicates.inSphere")
	flip, okFlip := lookup[func([]r3.Vector, []uint32, r3.Vector, r3.Vector) ([]uint32, []uint32, []uint32, []r3.Vector, []r3.Vector)](c, "meshing.flipShared")
	seed, okSeed := lookup[func([]r3.Vector) []r3.Vector](c, "triangulate3.createInitialTetra")
	eng3, okEng3 := lookup[func([]r3.Vector) shape.Mesh](c, "triangulate3.constructEnglobingTetra")
	box, okBox := lookup[func([]r3.Vector) (r3.Vector, r3.Vector)](c, "triangulate3.computeBoundingBoxForVectors")
	arr, okArr := lookup[func(string, reflect.Kind) []string](c, "step.getArray")
	mat, okMat := lookup[func(string) [][]string](c, "step.getMatrix")
	logical, okLog := lookup[func(string) bool](c, "step.getLogical")
	plane, okPlane := lookup[func(normal, origin r3.Vector) r3.Plane](c, "r3.newPlane")
	normal, okNormal := lookup[func(p r3.Plane, a, b, d r3.Vector) r3.Vector](c, "r3.calculateNormal")
	cent, okCent := lookup[func(a, b, c, d r3.Vector) r3.Vector](c, "meshing.findCentroid")
	orient, okOr := lookup[func(a, b, c, d r3.Vector) float64](c, "predicates.orient3dfast")
	b := shapeBuilders(c)
	file := 0

	pts2 := func(k *Case) []r3.Vector {
		var p []r3.Vector
		if k.big {
			for i := 200 + k.Intn(900)*k.Intn(4); i > 0; i-- {
				p = append(p, v3(k.NormFloat64(), k.Float64(), k.Float64()))
			}
			return p
		}
		if k.Intn(2) == 0 {
			p = genExact(k, 60).P
		} else {
			p = genGeneric(k, 60).P
		}
		if k.Intn(4) == 0 { // zeros of either sign
			for i := range p {
				for _, x := range []*float64{&p[i].X, &p[i].Y, &p[i].Z} {
					if *x == 0 || k.Intn(6) == 0 {
						*x = math.Copysign(0, float64(1-2*k.Intn(2)))
					}
				}
			}
		}
		return p
	}
	return map[string]opMaker{
		"triangulate": func(k *Case) (op, bool) {
			p := pts2(k)
			keep := clonePts(p)
			return op{run: func(int) func() string {
				t, err := triangulate2.Triangulate(p)
				return func() string {
					if err != nil || t == nil {
						return text("error", err)
					}
					return text(t.Triangles, t.Halfedges, t.ConvexHull)
				}
			}, vary: func(k *Case) func() { return k.swapPoints(p) }, same: func() bool { return samePoints(p, keep) }, spoil: func() {
				if t, err := triangulate2.Triangulate(p); err == nil && t != nil {
					spoilInts(t.Triangles)
					spoilInts(t.Halfedges)
					spoilPoints(t.ConvexHull)
				}
			}}, true
		},
		"hull": func(k *Case) (op, bool) {
			p := pts2(k)
			keep := clonePts(p)
			return op{run: func(int) func() string {
				h := triangulate2.ConvexHull(p)
				return func() string { return text(h) }
			}, vary: func(k *Case) func() { return k.swapPoints(p) }, same: func() bool { return samePoints(p, keep) }, spoil: func() { spoilPoints(triangulate2.ConvexHull(p)) }}, true
		},
		"validate": func(k *Case) (op, bool) {
			t, err := triangulate2.Triangulate(pts2(k))
			if err != nil || t == nil {
				return op{}, false
			}
			keep := cloneTri(t)
			if k.Intn(3) == 0 && len(t.Halfedges) > 3 {
				t.Halfedges[k.Intn(len(t.Halfedges))] = k.Intn(len(t.Halfedges))
				keep = cloneTri(t)
			}
			return op{run: func(int) func() string {
				err := t.Validate()
				return func() string { return text(err) }
			}, vary: func(k *Case) func() {
				if k.Intn(2) == 0 && len(t.Halfedges) > 0 {
					i, x := k.Intn(len(t.Halfedges)), k.Intn(len(t.Halfedges))
					return func() { t.Halfedges[i], x = x, t.Halfedges[i] }
				}
				return k.swapPoints([][]r3.Vector{t.Vectors, t.ConvexHull}[k.Intn(2)])
			}, same: func() bool {
				return samePoints(t.Vectors, keep.Vectors) && samePoints(t.ConvexHull, keep.ConvexHull) && sameInts(t.Triangles, keep.Triangles) && sameInts(t.Halfedges, keep.Halfedges)
			}}, true
		},
		"lex and parse": func(k *Case) (op, bool) {
			n := 3 + k.Intn(20)
			if k.Intn(6) == 0 {
				n = 150 + k.Intn(900)
			}
			d := k.stepDoc(n)
			s, _ := k.render(d)
			if k.big { // a long line, too
				s += "\n#987654=LIST((" + strings.Repeat(fmt.Sprintf("%d., ", k.Intn(10)), 10000+k.Intn(60000)) + "1.));\n"
			}
			file++
			path := filepath.Join(dir, fmt.Sprintf("in%d.stp", file))
			if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
				panic(harnessError(err.Error()))
			}
			shared := lexText([]byte(s))
			keep := tableText(shared)
			return op{run: func(int) func() string {
				l := step.Lexer{Filename: path, SymbolsChan: make(chan step.Symbol, 2)}
				t := l.Lex()
				step.Parse(shared)
				return func() string { return tableText(t) }
			}, vary: func(k *Case) func() {
				now, other := s, []byte(s)
				for n, try := 1+k.Intn(2), 0; n > 0 && try < 1000; try++ {
					i := k.Intn(len(other))
					if b := other[i]; b >= '0' && b <= '9' {
						other[i] = '0' + (b-'0'+byte(1+k.Intn(9)))%10
						n--
					} else if b >= 'A' && b <= 'Z' {
						other[i] = 'A' + (b-'A'+byte(1+k.Intn(25)))%26
						n--
					}
				}
				then := string(other)
				return func() {
					now, then = then, now
					if err := os.WriteFile(path, []byte(now), 0o644); err != nil {
						panic(harnessError(err.Error()))
					}
				}
			}, same: func() bool {
				now, err := os.ReadFile(path)
				return err == nil && string(now) == s && tableText(shared) == keep
			}, spoil: func() {
				l := step.Lexer{Filename: path, SymbolsChan: make(chan step.Symbol, 2)}
				t := l.Lex()
				for id, d := range t {
					for i := range d.Arguments {
						d.Arguments[i] = "spoilt"
					}
					delete(t, id)
				}
			}}, true
		},
		"shape": func(k *Case) (op, bool) {
			o, ok := genSolid(k, b, false, "sphere", "torus", "circle", "ellipse")
			if !ok {
				return op{}, false
			}
			build := func() (m shape.Mesh) {
				switch o.kind {
				case "sphere":
					m = b.sphere(o.center, o.a, o.s, o.t)
				case "torus":
					m = b.torus(o.center, o.a, o.b, o.s, o.t)
				case "circle":
					m = b.circle(o.center, o.a, o.s)
				default:
					m = b.ellipse(o.center, o.a, o.b, o.s)
				}
				return
			}
			return op{run: func(int) func() string {
				m := build()
				return func() string { return meshText(m) }
			}, vary: func(k *Case) func() {
				v := o
				switch k.Intn(4) {
				case 0:
					k.nudgeVector(&v.center)
				case 1:
					v.a *= 1 + (k.Float64()-0.5)*2e-8
				case 2:
					v.b *= 1 + (k.Float64()-0.5)*2e-8
				default:
					if v.s++; v.t > 0 && k.Intn(2) == 0 {
						v.s, v.t = o.t+1, o.s+1
					}
				}
				return func() { o, v = v, o }
			}, spoil: func() { spoilMesh(build()) }}, true
		},
		"exported shape": func(k *Case) (op, bool) {
			center, r := k.rvec(10), 1+k.Float64()
			kind := k.Intn(4)
			if kind > 1 && k.Intn(4) > 0 {
				kind -= 2
			}
			build := func() (m shape.Mesh) {
				switch kind {
				case 0:
					m = shape.ConstructCircle(center, r)
				case 1:
					m = shape.ConstructEllipse(center, r, 2*r)
				case 2:
					m = shape.ConstructTorus(center, r, r/3)
				case 3:
					m = shape.ConstructSphere(center, r)
				}
				return
			}
			return op{run: func(int) func() string {
				m := build()
				return func() string { return meshText(m) }
			}, vary: func(k *Case) func() {
				if k.Intn(2) == 0 {
					r2 := r * (1 + (k.Float64()-0.5)*2e-8)
					return func() { r, r2 = r2, r }
				}
				return k.swapVectors(&center)
			}, spoil: func() { spoilMesh(build()) }}, true
		},
		"export": func(k *Case) (op, bool) {
			m, _ := genMesh(k)
			if k.big {
				n := []int{2100 + k.Intn(6000), 65536 + k.Intn(3000)}[k.Intn(2)]
				for len(m.Vertices) < n {
					m.Vertices = append(m.Vertices, k.ivec(50))
				}
				m.Normals, m.TexCoords = nil, nil
				for i := 0; i < 2000; i++ {
					m.Indices = append(m.Indices, uint32(k.Intn(n)), uint32(k.Intn(n)), uint32(k.Intn(n)))
				}
			} else if len(m.Vertices) > 2000 {
				return op{}, false
			}
			keep := cloneMesh(m)
			file++
			id := file
			return op{run: func(worker int) func() string {
				path := filepath.Join(dir, fmt.Sprintf("out%d-%d.glb", id, worker))
				glTF.Export(m, path)
				out, err := os.ReadFile(path)
				os.Remove(path)
				return func() string { return text(err, len(out), string(out)) }
			}, vary: func(k *Case) func() {
				if k.Intn(2) == 0 && len(m.Indices) > 1 {
					i, j := k.Intn(len(m.Indices)), k.Intn(len(m.Indices))
					return func() { m.Indices[i], m.Indices[j] = m.Indices[j], m.Indices[i] }
				}
				return k.swapPoints(m.Vertices)
			}, same: func() bool { return sameMesh(m, keep) }}, true
		},
		"vectors": func(k *Case) (op, bool) {
			a, _ := genVec(k)
			bb, _ := genVec(k)
			a1, b1 := a, bb
			return op{run: func(int) func() string {
				v, w := a, a
				v.Normalize()
				w.Scale(2)
				w.Add(bb)
				w.Sub(a)
				w.Abs()
				res := text(v, w, r3.Normalize(a), r3.Cross(a, bb), r3.Dot(a, bb), r3.Distance(a, bb), r3.Interpolate(&a1, &b1, 0.25), a.IsUnit(), r3.Zero)
				return func() string { return res }
			}, vary: func(k *Case) func() {
				u, v := a, bb
				k.nudgeVector(&u)
				if k.Intn(2) == 0 {
					k.nudgeVector(&v)
				}
				return func() {
					a, u = u, a
					bb, v = v, bb
					a1, b1 = a, bb
				}
			}, same: func() bool { return a1 == a && b1 == bb }}, true
		},
		"lines and planes": func(k *Case) (op, bool) {
			l := r3.Line{Vector: k.ivec(9), Direction: v3(1, float64(k.Intn(5)), 2)}
			p := r3.Plane3D{Normal: v3(3, 1, float64(k.Intn(4))), Vector: k.ivec(9)}
			return op{run: func(int) func() string {
				res := text(l.IntersectPlane(p), l.Vector.CalculateDistanceToPlane(r3.Plane{Normal: p.Normal, Distance: 2}))
				return func() string { return res }
			}, vary: func(k *Case) func() { return k.swapVectors(&l.Vector, &l.Direction, &p.Normal, &p.Vector) }}, true
		},
		"predicates": func(k *Case) (op, bool) {
			p := []r3.Vector{k.rvec(5), k.rvec(5), k.rvec(5), k.rvec(5), k.rvec(5)}
			switch k.Intn(4) {
			case 0: // on one sphere
				for i := range p {
					p[i] = v3(float64(k.Intn(2)), float64(k.Intn(2)), float64(k.Intn(2)))
				}
			case 1:
				for i := range p {
					p[i] = p[i].Scaled(1 / p[i].Norm())
				}
			}
			return op{run: func(int) func() string {
				res := text(predicates.InSphereFast(p[0], p[1], p[2], p[3], p[4]), triangulate3.VectorInTetrahedron(p[0], p[1], p[2], p[3], p[4]),
					triangulate3.Get2Ddist(p[0], p[1], p[2]), triangulate3.Get3Ddist(p[0], p[1], p[2], p[3]))
				if okIn {
					res += text(insph(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z))
				}
				return func() string { return res }
			}, vary: func(k *Case) func() { return k.swapPoints(p) }}, true
		},
		"3D triangulation": func(k *Case) (op, bool) {
			if !okBW {
				return op{}, false
			}
			var p []r3.Vector
			switch k.Intn(12) {
			case 0:
				p, _ = genLattice3(k)
			case 1:
				p, _ = genNear3(k)
			case 2:
				for i := 60 + k.Intn(30); i > 0; i-- {
					q := k.rvec(1)
					p = append(p, q.Scaled(3/q.Norm()))
				}
			}
			if k.big || len(p) == 0 || len(p) > 100 {
				p = nil
				for i := 4 + k.Intn(8) + size(k, 100); i > 0; i-- {
					p = append(p, k.rvec(10))
				}
			}
			keep := clonePts(p)
			return op{run: func(int) func() string {
				idx := bw(p...)
				return func() string {
					var f []string
					for i := 0; i+2 < len(idx); i += 3 {
						t := []int{idx[i], idx[i+1], idx[i+2]}
						sort.Ints(t)
						f = append(f, text(t))
					}
					sort.Strings(f)
					return strings.Join(f, ";")
				}
			}, vary: func(k *Case) func() { return k.swapPoints(p) }, same: func() bool { return samePoints(p, keep) }, spoil: func() { spoilInts(bw(p...)) }}, true
		},
		"mesh helpers": func(k *Case) (op, bool) {
			if !okNear || !okEnglobe {
				return op{}, false
			}
			var p []r3.Vector
			for i := 1 + k.Intn(12) + size(k, 3000); i > 0; i-- {
				p = append(p, k.rvec(10))
			}
			keep := clonePts(p)
			q := k.rvec(10)
			return op{run: func(int) func() string {
				v := near(p, q)
				all := p[:len(p):len(p)]
				t := englobe(&all)
				return func() string { return text(v, t, all) }
			}, vary: func(k *Case) func() { return k.swapPoints(p) }, same: func() bool { return samePoints(p, keep) }, spoil: func() {
				all := p[:len(p):len(p)]
				englobe(&all)
				spoilPoints(all)
			}}, true
		},
		"splines": func(k *Case) (op, bool) {
			if !okCurve || !okDers || !okFind || !okBasis {
				return op{}, false
			}
			s := genSpline(k)
			if k.big {
				s = spline{p: []int{6 + k.Intn(16), 22 + k.Intn(5)}[k.Intn(2)]}
				s.n = s.p + k.Intn(10) + size(k, 2000)*k.Intn(2)
				for i := 0; i <= s.n+s.p+1; i++ {
					s.U = append(s.U, i)
				}
			}
			u, _ := s.param(k)
			var P []vec3.T
			for i := 0; i <= s.n; i++ {
				P = append(P, vec3.T{k.NormFloat64(), k.NormFloat64(), k.NormFloat64()})
			}
			U, Q := append([]int(nil), s.U...), append([]vec3.T(nil), P...)
			return op{run: func(int) func() string {
				pt := curve(s.n, s.p, s.U, P, u)
				i := find(s.n, s.p, u, s.U)
				N := basis(i, u, s.p, s.U)
				D := ders(i, s.U[i], s.p, s.p, s.U)
				return func() string { return text(pt, i, N, D) }
			}, vary: func(k *Case) func() {
				U2, P2 := append([]int(nil), s.U...), append([]vec3.T(nil), P...)
				k.nudgeSpline(U2, P2)
				if U2[s.p] == U2[s.n+1] {
					copy(U2, s.U)
				}
				return func() {
					for i := range U2 {
						s.U[i], U2[i] = U2[i], s.U[i]
					}
					for i := range P2 {
						P[i], P2[i] = P2[i], P[i]
					}
				}
			}, same: func() bool { return sameInts(U, s.U) && text(P) == text(Q) }, spoil: func() {
				i := find(s.n, s.p, u, s.U)
				for _, row := range append(ders(i, s.U[i], s.p, s.p, s.U), basis(i, u, s.p, s.U)) {
					for j := range row {
						row[j] = 1e99
					}
				}
			}}, true
		},
		"tetrahedra": func(k *Case) (op, bool) {
			if !okFlip {
				return op{}, false
			}
			v := []r3.Vector{k.ivec(20), k.ivec(20), k.ivec(20), k.ivec(20)}
			idx := append(make([]uint32, 0, 12+k.Intn(3)*50), 0, 1, 2, 1, 2, 3, 2, 3, 0, 3, 0, 1)
			keep, keepIdx := clonePts(v), append([]uint32(nil), idx...)
			p, q := k.ivec(20), k.ivec(20)
			return op{run: func(int) func() string {
				base, first, second, v1, v2 := flip(v, idx, p, q)
				return func() string { return text(base, first, second, v1, v2) }
			}, vary: func(k *Case) func() { return k.swapPoints(v) }, same: func() bool { return samePoints(v, keep) && text(idx) == text(keepIdx) }, spoil: func() {
				_, first, second, v1, v2 := flip(v, idx, p, q)
				for i := range first {
					first[i], second[i] = 99, 99
				}
				spoilPoints(v1)
				spoilPoints(v2)
			}}, true
		},
		"seeds and boxes": func(k *Case) (op, bool) {
			if !okSeed || !okEng3 || !okBox {
				return op{}, false
			}
			var p []r3.Vector
			for i := 4 + k.Intn(12) + size(k, 3000); i > 0; i-- {
				p = append(p, k.rvec(10))
			}
			keep := clonePts(p)
			return op{run: func(int) func() string {
				t, m := seed(p), eng3(p)
				lo, hi := box(p)
				return func() string { return text(t, m, lo, hi) }
			}, vary: func(k *Case) func() { return k.swapPoints(p) }, same: func() bool { return samePoints(p, keep) }, spoil: func() {
				spoilPoints(seed(p))
				spoilMesh(eng3(p))
			}}, true
		},
		"aggregates": func(k *Case) (op, bool) {
			if !okArr || !okMat || !okLog {
				return op{}, false
			}
			rows := make([]string, 1+k.Intn(4))
			for i := range rows {
				cells := make([]string, 1+k.Intn(5)+size(k, 1000))
				for j := range cells {
					cells[j] = fmt.Sprintf("%s%d", []string{"#", "1.", "'a,b)'", ""}[k.Intn(4)], k.Intn(100))
				}
				rows[i] = "(" + strings.Join(cells, ", ") + ")"
			}
			list := "(" + strings.Join(rows, ",") + ")"
			return op{run: func(int) func() string {
				a, m, l := arr(list, reflect.Array), mat(list), []bool{logical(".T."), logical(".F.")}
				return func() string { return fmt.Sprintf("%q %q %v", a, m, l) }
			}, vary: func(k *Case) func() {
				other := []string{strings.ToLower(list), strings.ReplaceAll(list, " ", ""), list + " ", strings.Replace(list, "1", "2", 1), strings.Replace(list, "),", ", 0),", 1)}[k.Intn(5)]
				return func() { list, other = other, list }
			}, spoil: func() {
				for i, a := 0, arr(list, reflect.Array); i < len(a); i++ {
					a[i] = "spoilt"
				}
				for _, r := range mat(list) {
					for j := range r {
						r[j] = "spoilt"
					}
				}
			}}, true
		},
		"planes and measures": func(k *Case) (op, bool) {
			if !okPlane || !okNormal || !okCent || !okOr {
				return op{}, false
			}
			a, bb, cc, d := k.rvec(5), k.rvec(5), k.rvec(5), k.rvec(5)
			return op{run: func(int) func() string {
				pl := plane(a, bb)
				res := text(pl, normal(pl, a, bb, cc), cent(a, bb, cc, d), orient(a, bb, cc, d), d.CalculateDistanceToPlane(pl), d.GetInterpolationVector(a, 0.3))
				return func() string { return res }
			}, vary: func(k *Case) func() { return k.swapVectors(&a, &bb, &cc, &d) }}, true
		},
	}
}

// jsonText is s as it comes out of JSON.
func jsonText(s string) (t string) {
	b, _ := json.Marshal(s)
	json.Unmarshal(b, &t)
	return
}

func runRace(c *Ctx) {
	dir, err := os.MkdirTemp("", "race")
	if err != nil {
		panic(harnessError(err.Error()))
	}
	defer os.RemoveAll(dir)
	makers := opMakers(c, dir)
	var names []string
	for n := range makers {
		names = append(names, n)
	}
	sort.Strings(names)
	mk := func(k *Case, name string) (op, bool) {
		o, ok := makers[name](k)
		o.name = name
		if o.same == nil {
			o.same = func() bool { return true }
		}
		return o, ok
	}
	runtime.GOMAXPROCS(8)

	c.Sub("repeated and interleaved calls", c.N(150, 4000), func(k *Case) {
		// results are kept while other calls run, and written down at the end
		var ops []op
		var log []string
		for len(ops) < 12 {
			name := names[k.Intn(len(names))]
			if o, ok := mk(k, name); ok {
				ops = append(ops, o)
				log = append(log, name)
			}
		}
		k.Input(log)
		k.Seen(k.index)
		early := make([]string, len(ops))
		held := make([]func() string, len(ops))
		for i, o := range ops {
			held[i] = o.run(0)
			early[i] = held[i]()
		}
		for n := 0; n < 2; n++ {
			if n == 1 {
				for _, i := range k.Perm(len(ops)) {
					if ops[i].spoil != nil {
						ops[i].spoil()
						k.c.Obs("results overwritten by their owner", 1)
					}
				}
			}
			for _, i := range k.Perm(len(ops)) {
				if got := ops[i].run(0)(); got != early[i] {
					k.Fail("%s gave another result when called again:\n%s\ninstead of\n%s", ops[i].name, clip(got, 300), clip(early[i], 300))
					return
				}
				k.c.Obs("repeated "+ops[i].name, 1)
			}
		}
		for i := range ops {
			if got := held[i](); got != early[i] {
				k.Fail("later calls changed the result of %s:\n%s\nwas\n%s", ops[i].name, clip(got, 300), clip(early[i], 300))
				return
			}
			if !ops[i].same() {
				k.Fail("%s changed its input", ops[i].name)
				return
			}
		}
	})

	// the same calls in another process, in another order: what is returned
	// must not depend on what was called before
	child := os.Getenv("VERIF_CHILD") != ""
	exe, exeErr := os.Executable()
	c.Sub("the same calls in another process", c.N(200, 4000), func(k *Case) {
		if exeErr != nil {
			return
		}
		var ops []op
		var log []string
		var swap []func()
		for len(ops) < 12 {
			name := names[(k.index+len(ops)*(1+k.index%5))%len(names)]
			if k.Intn(2) == 0 {
				name = names[k.Intn(len(names))]
			}
			o, ok := mk(k, name)
			if !ok || o.vary == nil {
				if o, ok = mk(k, "predicates"); !ok {
					return
				}
			}
			ops = append(ops, o)
			log = append(log, o.name)
			swap = append(swap, o.vary(k))
		}
		k.Input(log)
		k.Seen(k.index)
		result := func(i int) (s string) {
			if p := catch(func() { s = ops[i].run(0)() }); p != nil {
				s = "panic"
			}
			return
		}
		short := func(s string) string {
			h := fnv.New64a()
			h.Write([]byte(s))
			return fmt.Sprintf("%x %s", h.Sum64(), clip(s, 300))
		}
		answers := make([][2]string, len(ops))
		if child {
			for i := len(ops) - 1; i >= 0; i-- {
				swap[i]()
				answers[i][1] = short(result(i))
				swap[i]()
				answers[i][0] = short(result(i))
			}
			b, _ := json.Marshal(answers)
			fmt.Fprintf(realOut, "CHILD %s\n", b)
			return
		}
		for i := range ops {
			answers[i][0] = short(result(i))
			swap[i]()
			answers[i][1] = short(result(i))
			swap[i]()
			if again := short(result(i)); again != answers[i][0] {
				k.Fail("%s gave another result after a call with almost the same input:\n%s\ninstead of\n%s", ops[i].name, again, answers[i][0])
				return
			}
		}
		cmd := exec.Command(exe, c.ID, c.Tier, fmt.Sprint(c.Seed), filepath.Join(dir, "evidence.json"), "", filepath.Join(dir, "replays"), "", fmt.Sprintf("%s:%d", k.sub, k.index))
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GORACE=atexit_sleep_ms=0")
		out, _ := cmd.Output()
		var theirs [][2]string
		for _, line := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(line, "CHILD ") {
				json.Unmarshal([]byte(line[6:]), &theirs)
			}
		}
		if len(theirs) != len(ops) {
			k.c.Obs("processes without an answer", 1)
			return
		}
		for i := range ops {
			for j := range theirs[i] {
				if a, b := jsonText(answers[i][j]), theirs[i][j]; a != b {
					k.Fail("%s gives\n%s\nafter other calls and\n%s\nin a process that called it with almost the same input %s", ops[i].name, clip(a, 300), clip(b, 300), []string{"before", "after that"}[j])
					return
				}
				k.c.Obs("results compared with those of another process", 1)
			}
			if answers[i][0] != answers[i][1] {
				k.c.Obs("different results of almost the same input: "+ops[i].name, 1)
			}
		}
	})
	if child {
		return
	}

	meetings := map[string]bool{}
	schedules := map[uint64]bool{}
	together := func(k *Case, ops []op, workers, rounds int) {
		// what each call gives alone: found out before the goroutines start or,
		// so that they also meet what is set up by a first call, after they end
		want := make([]string, len(ops))
		alone := func() {
			for i, o := range ops {
				want[i] = o.run(0)()
			}
		}
		cold := k.Intn(2) == 0 || k.big
		if cold {
			k.c.Obs("goroutines that make the first calls", workers)
		} else {
			alone()
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		type bad struct {
			op  int
			got string
		}
		found := make([]*bad, workers)
		results := make([][]bad, workers)
		// when each call ran, by the clock alone: reading it does not order
		// the goroutines for the race detector, as a shared counter would
		type span struct {
			op, worker int
			start, end time.Duration
		}
		spans := make([][]span, workers)
		origin := time.Now()
		for w := 0; w < workers; w++ {
			perm := k.Perm(len(ops))
			yield := k.Intn(4)
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				current := 0
				defer func() {
					if p := recover(); p != nil && found[w] == nil {
						found[w] = &bad{current, fmt.Sprint("panic: ", p)}
					}
				}()
				<-start
				for r := 0; r < rounds; r++ {
					for _, i := range perm {
						current = i
						t0 := time.Since(origin)
						res := ops[i].run(w + 1)
						spans[w] = append(spans[w], span{i, w, t0, time.Since(origin)})
						if yield > 0 {
							runtime.Gosched()
						}
						results[w] = append(results[w], bad{i, res()})
					}
				}
			}(w)
		}
		close(start)
		wg.Wait()
		if cold {
			alone()
		}
		for w, rs := range results {
			for i := range rs {
				if rs[i].got != want[rs[i].op] && found[w] == nil {
					found[w] = &rs[i]
				}
			}
		}
		for _, f := range found {
			if f != nil {
				k.Fail("%s, called at the same time as others, gave\n%s\ninstead of\n%s", ops[f.op].name, clip(f.got, 300), clip(want[f.op], 300))
				return
			}
		}
		for _, o := range ops {
			if !o.same() {
				k.Fail("%s changed its input", o.name)
				return
			}
			k.c.Obs("concurrent "+o.name, workers*rounds)
		}
		k.c.Obs("concurrent calls", workers*rounds*len(ops))

		// what the schedule was: calls that ran at the same time as others, which
		// operations met which, and the order in which calls began and ended
		var all []span
		for _, s := range spans {
			all = append(all, s...)
		}
		type event struct {
			at      time.Duration
			op, who int
			end     bool
		}
		var events []event
		overlap := 0
		for i, a := range all {
			events = append(events, event{a.start, a.op, a.worker, false}, event{a.end, a.op, a.worker, true})
			met := false
			for j, b := range all {
				if i != j && a.start < b.end && b.start < a.end {
					met = true
					if x, y := ops[a.op].name, ops[b.op].name; x <= y {
						meetings[x+" / "+y] = true
					}
				}
			}
			if met {
				overlap++
			}
		}
		k.c.Obs("calls that overlapped others", overlap)
		k.c.ObsMax("different pairs of operations that overlapped", len(meetings))
		sort.SliceStable(events, func(i, j int) bool { return events[i].at < events[j].at })
		h := fnv.New64a()
		for _, e := range events {
			fmt.Fprint(h, e.op, e.who, e.end, ";")
		}
		schedules[h.Sum64()] = true
		k.c.ObsMax("distinct interleavings of calls", len(schedules))
	}
	c.Sub("one operation at a time from many goroutines", c.N(136, 2600), func(k *Case) {
		name := names[k.index%len(names)]
		var ops []op
		for n := 0; n < 3; n++ {
			if o, ok := mk(k, name); ok {
				ops = append(ops, o)
			}
		}
		if len(ops) == 0 {
			return
		}
		k.Input(name)
		k.Seen(k.index)
		together(k, ops, 8, 3)
	})
	c.Sub("large inputs from a few goroutines", c.N(51, 510), func(k *Case) {
		k.big = true
		name := names[k.index%len(names)]
		var ops []op
		for n := 0; n < 2; n++ {
			if o, ok := mk(k, name); ok {
				ops = append(ops, o)
			}
		}
		if len(ops) == 0 {
			return
		}
		k.Input("large: " + name)
		k.Seen(k.index)
		together(k, ops, 3, 2)
	})
	c.Sub("all operations from many goroutines", c.N(60, 1500), func(k *Case) {
		var ops []op
		for _, name := range names {
			if o, ok := mk(k, name); ok {
				ops = append(ops, o)
			}
		}
		k.Input(fmt.Sprintf("one call each of %s", strings.Join(names, ", ")))
		k.Seen(k.index)
		together(k, ops, []int{2, 4, 8, 16}[k.Intn(4)], 2)
	})
}

func init() {
	register("C28", "17 kinds of calls covering all packages, run again and again, interleaved, and from 2 to 16 goroutines on shared read-only inputs under Go's race detector; results are compared with those of the first call, inputs with their copies; distinct by schedule seed", runRace,
		"no two goroutines write the same output file")
}
