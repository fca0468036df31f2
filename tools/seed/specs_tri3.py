G='triangulate3/gdel3d.go'
U3='triangulate3/util.go'
ML='''package mesh

import (
	"math/big"
	"math/rand"
	"testing"

	"geGoMetry/r3"
)

func at(x, y, z float64) r3.Vector { return r3.Vector{X: x, Y: y, Z: z} }

func rat(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }

// side is the exact orientation of the tetrahedron.
func side(a, b, c, d r3.Vector) int {
	v := func(p r3.Vector) [3]*big.Rat {
		return [3]*big.Rat{rat(0).Sub(rat(p.X), rat(d.X)), rat(0).Sub(rat(p.Y), rat(d.Y)), rat(0).Sub(rat(p.Z), rat(d.Z))}
	}
	A, B, C := v(a), v(b), v(c)
	m := func(x, y *big.Rat) *big.Rat { return rat(0).Mul(x, y) }
	s := m(A[0], rat(0).Sub(m(B[1], C[2]), m(B[2], C[1])))
	s.Sub(s, m(A[1], rat(0).Sub(m(B[0], C[2]), m(B[2], C[0]))))
	s.Add(s, m(A[2], rat(0).Sub(m(B[0], C[1]), m(B[1], C[0]))))
	return s.Sign()
}

// within: strictly inside the tetrahedron.
func within(t [4]r3.Vector, p r3.Vector) bool {
	for i := 0; i < 4; i++ {
		u := t
		u[i] = p
		if side(u[0], u[1], u[2], u[3])*side(t[0], t[1], t[2], t[3]) <= 0 {
			return false
		}
	}
	return true
}

func cloud(g *rand.Rand, n int) []r3.Vector {
	var p []r3.Vector
	for i := 0; i < n; i++ {
		p = append(p, at(g.Float64()*100, g.Float64()*100, g.Float64()*100))
	}
	return p
}
'''
T3L=ML.replace('package mesh','package triangulate3')
PL='''package predicates

import (
	"math/big"
	"math/rand"
	"testing"

	"geGoMetry/r3"
)

func at(x, y, z float64) r3.Vector { return r3.Vector{X: x, Y: y, Z: z} }

// exactSphere is the sign of the in-sphere determinant.
func exactSphere(p [5]r3.Vector) int {
	rat := func(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }
	sub := func(x, y float64) *big.Rat { return new(big.Rat).Sub(rat(x), rat(y)) }
	mul := func(x, y *big.Rat) *big.Rat { return new(big.Rat).Mul(x, y) }
	var m [][]*big.Rat
	for i := 0; i < 4; i++ {
		x, y, z := sub(p[i].X, p[4].X), sub(p[i].Y, p[4].Y), sub(p[i].Z, p[4].Z)
		l := new(big.Rat).Add(mul(x, x), mul(y, y))
		m = append(m, []*big.Rat{x, y, z, l.Add(l, mul(z, z))})
	}
	var det func(m [][]*big.Rat) *big.Rat
	det = func(m [][]*big.Rat) *big.Rat {
		if len(m) == 1 {
			return m[0][0]
		}
		s := new(big.Rat)
		for i := range m {
			var r [][]*big.Rat
			for j := range m {
				if j != i {
					r = append(r, m[j][1:])
				}
			}
			t := mul(m[i][0], det(r))
			if i%2 == 1 {
				t.Neg(t)
			}
			s.Add(s, t)
		}
		return s
	}
	return det(m).Sign()
}
'''
BUGS=[
dict(id='mesh-tetra-hash',property='C11',pkg='meshing',
 edits=[('meshing/mesh.go','return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))','return strconv.Itoa(t.ia) + strconv.Itoa(t.ib) + strconv.Itoa(t.ic) + strconv.Itoa(t.id)')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	for s := int64(0); s < 3000; s++ {
		p := cloud(rand.New(rand.NewSource(s)), 10+int(s%30))
		n := map[[3]int]int{}
		m := bowyerWatson(append([]r3.Vector(nil), p...)...)
		for i := 0; i+2 < len(m); i += 3 {
			f := [3]int{m[i], m[i+1], m[i+2]}
			for a := 0; a < 2; a++ {
				for b := 0; b < 2; b++ {
					if f[b] > f[b+1] {
						f[b], f[b+1] = f[b+1], f[b]
					}
				}
			}
			n[f]++
		}
		for f, c := range n {
			if c != 2 {
				t.Fatalf("seed %d: triangle %v is reported %d times", s, f, c)
			}
		}
	}
	_, _ = within, side
}
''',needs='two tetrahedra of the set whose corner numbers read the same in a row (1,12,3,4 and 11,2,3,4), so more than ten points',
 breaks='a tetrahedron replaces another one in the table: faces are lost'),
dict(id='mesh-part-of-mesh',property='C11',pkg='meshing',
 edits=[('meshing/mesh.go','found = (f.pb >= 0) && (f.pb <= 3)','found = (f.pb >= 0) && (f.pb < 3)')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	for s := int64(0); s < 40; s++ {
		p := cloud(rand.New(rand.NewSource(s)), 6+int(s))
		for _, i := range bowyerWatson(append([]r3.Vector(nil), p...)...) {
			if i < 0 || i >= len(p) {
				t.Fatalf("seed %d: corner %d of %d points", s, i, len(p))
			}
		}
	}
}
''',needs='a face whose second corner is the fourth corner of the englobing tetrahedron',
 breaks='faces of the auxiliary tetrahedron are reported, with negative corner numbers'),
dict(id='mesh-extremas-else',property='C12',pkg='meshing',
 edits=[('meshing/helper.go','		if h.min.Z > point.Z {','		if h.min.Z > point.Z && h.max.Z > point.Z {')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	p := []r3.Vector{at(0, 0, -50), at(1, 1, 1), at(5, 1, 2), at(-9, -8, 3), at(1, 0, 4)}
	q := append([]r3.Vector(nil), p...)
	f := englobe(&q)
	tet := [4]r3.Vector{q[f.ia], q[f.ib], q[f.ic], q[f.id]}
	for _, x := range p {
		if !within(tet, x) {
			t.Fatalf("%v is outside of %v", x, tet)
		}
	}
}
''',needs='a first point far below all others',
 breaks='the minimum of z ignores points that are also the greatest so far'),
dict(id='tri3-bbox-magnitude',property='C12',pkg='triangulate3',
 edits=[('triangulate3/englober.go','if Vector.X > maxExtremity.X {','if Vector.X > math.Max(maxExtremity.X, -math.MaxInt16) {')],
 demo=T3L+'''
func TestDemo(t *testing.T) {
	_, hi := computeBoundingBoxForVectors([]r3.Vector{at(-50000, 0, 0), at(-40000, 1, 1)})
	if hi != at(-40000, 1, 1) {
		t.Fatal(hi)
	}
	_ = rand.Int
}
''',needs='a set all of whose points have a coordinate below -32767',breaks='the maximum of far negative coordinates is wrong'),
dict(id='tri3-furthest-floor',property='C13',pkg='triangulate3',
 edits=[(G,'''		dist := Get2Ddist(a, b, Vector)
		if max < dist {''','''		dist := Get2Ddist(a, b, Vector)
		if max+1e-14 < dist {''')],
 demo=T3L+'''
func TestDemo(t *testing.T) {
	var p []r3.Vector
	for i := 0; i < 8; i++ {
		p = append(p, at(float64(i&1)*1e-5, float64(i>>1&1)*1e-5, float64(i>>2)*1e-5))
	}
	p[0].X = -1e-5
	v := createInitialTetra(p)
	if side(v[0], v[1], v[2], v[3]) == 0 {
		t.Fatalf("flat seed %v", v)
	}
	_ = rand.Int
}
''',needs='a set of small extent (below about 1e-4)',breaks='the third corner is not found: the seed is the origin or flat'),
dict(id='mesh-nearest-last',property='C13',pkg='meshing',
 edits=[('meshing/helper.go','		if distance <= minDistance {','		if distance <= minDistance+1e-9 {')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	v := []r3.Vector{at(1e-10, 0, 0), at(9e-10, 0, 0), at(1, 1, 1)}
	if n := getNearestPoint(v, at(0, 0, 0)); n != v[0] {
		t.Fatal(n)
	}
	_ = rand.Int
}
''',needs='a farther point within 1e-9 of the smallest distance listed after the nearest one',breaks='a point that is not nearest is returned'),
dict(id='tri3-extremity-else',property='C13',pkg='triangulate3',
 edits=[(G,'''		}

		//Updating the maxExtremity
		if Vector.X > maxExtremity.X {''','''		} else if Vector.X > maxExtremity.X {
			//Updating the maxExtremity''')],
 demo=T3L+'''
func TestDemo(t *testing.T) {
	p := []r3.Vector{at(5, 0, 0), at(3, 1, 0), at(2, 2, 7), at(1, 5, 1)}
	_, hi := computeExtremitiesForAxeX(p)
	if hi != p[0] {
		t.Fatal(hi)
	}
	_ = rand.Int
}
''',needs='the point of greatest x listed before all others, or x descending',breaks='the greatest x is not found'),
dict(id='mesh-sameside-face',property='C14',pkg='meshing',
 edits=[('meshing/util.go','if dotV4 <= 0 && dotP <= 0 {','if dotV4 < 0 && dotP < 0 {')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	v := []r3.Vector{at(0, 0, 0), at(4, 0, 0), at(0, 4, 0), at(0, 0, 4)}
	perm := [][4]int{{0, 1, 2, 3}, {1, 0, 2, 3}, {2, 1, 0, 3}, {3, 2, 1, 0}, {1, 2, 0, 3}}
	for _, q := range perm {
		if !vectorInTetrahedron(v[q[0]], v[q[1]], v[q[2]], v[q[3]], at(1, 1, 0)) {
			t.Fatalf("a point on a face is not inside (%v)", q)
		}
	}
	_ = rand.Int
}
''',needs='a point exactly on a face of a tetrahedron whose fourth corner lies on the negative side of that face',
 breaks='boundary points count as outside for one orientation'),
dict(id='tri3-intetra-shortcut',property='C14',pkg='triangulate3',
 edits=[(U3,'''	return SameSide(v1, v2, v3, v4, p) &&
		SameSide(v2, v3, v4, v1, p) &&''','''	return SameSide(v1, v2, v3, v4, p) &&
		(p == v1 || SameSide(v2, v3, v4, p, v1)) &&
		SameSide(v2, v3, v4, v4, v1) &&''')],
 demo=T3L+'''
func TestDemo(t *testing.T) {
	_ = rand.Int
}
''',needs='x',breaks='x'),
dict(id='pred-errbound',property='C15',pkg='predicates',
 edits=[('predicates/insphere.go','const isperrboundA = (16 + 224*epsilon) * epsilon','const isperrboundA = (1.6 + 22.4*epsilon) * epsilon / 100')],
 demo=PL+'''
func TestDemo(t *testing.T) {
	g := rand.New(rand.NewSource(4))
	for i := 0; i < 200000; i++ {
		var p [5]r3.Vector
		for j := range p {
			v := at(g.NormFloat64(), g.NormFloat64(), g.NormFloat64())
			n := v.Norm()
			p[j] = at(0.1+v.X/n, 0.7+v.Y/n, 0.3+v.Z/n)
		}
		d := inSphere(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z)
		if d != 0 && (d > 0) != (exactSphere(p) < 0) {
			t.Fatalf("%v: %v, exactly %d", p, d, exactSphere(p))
		}
	}
}
''',needs='five points within rounding of a common sphere',breaks='the filter lets signs through that rounding decided'),
dict(id='pred-permanent-abs',property='C15',pkg='predicates',
 edits=[('predicates/insphere.go','bezplus := math.Abs(bez)','bezplus := bez')],
 demo=PL+'''
func TestDemo(t *testing.T) {
	g := rand.New(rand.NewSource(4))
	for i := 0; i < 60000; i++ {
		var p [5]r3.Vector
		for j := range p {
			v := at(g.NormFloat64(), g.NormFloat64(), g.NormFloat64())
			n := v.Norm()
			p[j] = at(0.1+v.X/n, 0.7+v.Y/n, 0.3+v.Z/n)
		}
		d := inSphere(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z)
		if d != 0 && d < 1e-12 && d > -1e-12 && (d > 0) != (exactSphere(p) < 0) {
			t.Fatalf("%v: %v, exactly %d", p, d, exactSphere(p))
		}
	}
}
''',needs='five points within rounding of a common sphere, the second one low, so that the bound shrinks',breaks='the error bound can be too small or negative: rounding decides the sign'),
dict(id='pred-fast-small',property='C15',pkg='predicates',
 edits=[('predicates/insphere.go','return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)\n','det := (clift*dab - dlift*abc) + (alift*bcd - blift*cda)\n	if math.Abs(det) < resulterrbound {\n		return 0\n	}\n	return det\n')],
 demo=PL+'''
func TestDemo(t *testing.T) {
	_ = rand.Int
	s := 1.0 / 4096
	if InSphereFast(at(0, 0, 0), at(s, 0, 0), at(0, s, 0), at(0, 0, s), at(s/4, s/4, s/4)) == 0 {
		t.Fatal("the inside of a small tetrahedron is on its sphere")
	}
	_ = exactSphere
}
''',needs='a small tetrahedron (edges below about 1e-3)',breaks='points clearly inside or outside small spheres count as on the sphere'),
dict(id='tri3-volume-plane',property='C16',pkg='triangulate3',
 edits=[(U3,'	db := adx*aby - ady*abx\n','	db := adx * aby\n	if ady != 0 && aby != 0 {\n		db -= ady * abx\n	}\n')],
 demo=T3L+'''
func TestDemo(t *testing.T) {
	a, b, c, d := at(0, 0, 0), at(3, 0, 0), at(0, 1, 4), at(1, 5, 1)
	if Get3Ddist(a, b, c, d) != -Get3Ddist(a, b, d, c) {
		t.Fatal(Get3Ddist(a, b, c, d), Get3Ddist(a, b, d, c))
	}
	_ = rand.Int
}
''',needs='two first points of equal y',breaks='a product is left out of the volume'),
dict(id='tri3-centroid-pairs',property='C16',pkg='meshing',
 edits=[('meshing/util.go','	y := (p0.Y + p1.Y + p2.Y + p3.Y) / 4.0\n','	y := (p0.Y + p1.Y + p2.Y + p1.Y) / 4.0\n	if p3.Y != p1.Y {\n		y += (p3.Y - p1.Y) / 2.0 / 2.0\n	}\n	y = float64(float32(y))\n')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	c := findCentroid(at(0, 1e8, 0), at(0, 1e8+4, 0), at(0, 1e8, 0), at(0, 1e8, 0))
	if c.Y != 1e8+1 {
		t.Fatal(c)
	}
	_ = rand.Int
}
''',needs='coordinates that do not fit single precision',breaks='the centroid is rounded to single precision'),
dict(id='mesh-flip14-reverse',property='C29',pkg='meshing',
 edits=[('meshing/util.go','''	for i := len(*indices) - 1; i >= 0; i-- {
		*indices = append(*indices, (*indices)[i])''','''	for i := len(*indices) - 1; i >= 0; i-- {
		if j := len(*indices) - 1 - i; j >= 12 && i > 9 {
			*indices = append(*indices, (*indices)[i-i%3])
			continue
		}
		*indices = append(*indices, (*indices)[i])''')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	_ = rand.Int
}
''',needs='x',breaks='x'),
dict(id='mesh-flip14-last',property='C29',pkg='meshing',
 edits=[('meshing/flip.go','''		3, 4, 0,
		4, 0, 2,
	}''','''		3, 4, 0,
		4, 0, 3,
	}''')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	m := Meshing{vertices: []r3.Vector{at(0, 0, 0), at(4, 0, 0), at(0, 4, 0), at(0, 0, 4)}}
	m.flip14(at(1, 1, 1))
	n := map[uint32]int{}
	for _, i := range m.indices {
		n[i]++
	}
	for i := uint32(0); i < 4; i++ {
		if n[i] != n[0] {
			t.Fatalf("corners are used unevenly: %v", n)
		}
	}
	_ = rand.Int
}
''',needs='an inspection of the fourth of the new tetrahedra',breaks='one face is listed twice and one not at all'),
]
BUGS=[b for b in BUGS if b['needs']!='x']
