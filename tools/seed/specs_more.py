from specs_tri3 import ML,T3L
BUGS=[
dict(id='tri3-sameside-eps',property='C14',pkg='triangulate3',
 edits=[('triangulate3/util.go','''	if dotV4 <= 0 && dotP <= 0 {
		return true
	}
	if dotV4 >= 0 && dotP >= 0 {''','''	if dotV4 <= 1e-12 && dotP <= 1e-12 {
		return true
	}
	if dotV4 >= 0 && dotP >= 0 {''')],
 demo=T3L+'''
func TestDemo(t *testing.T) {
	s := 1.0 / 16384
	if VectorInTetrahedron(at(0, 0, 0), at(s, 0, 0), at(0, s, 0), at(0, 0, s), at(s, s, s)) ||
		VectorInTetrahedron(at(0, 0, 0), at(0, s, 0), at(s, 0, 0), at(0, 0, s), at(s, s, s)) ||
		VectorInTetrahedron(at(s, 0, 0), at(0, 0, 0), at(0, s, 0), at(0, 0, s), at(-s, -s, 2*s)) {
		t.Fatal("outside points are inside")
	}
	_ = rand.Int
}
''',needs='a tetrahedron with edges below about 1e-4',breaks='points on the wrong side of small faces count as inside'),
dict(id='mesh-flip14-reuse',property='C28',pkg='meshing',
 edits=[('meshing/flip.go','	t.indices = []uint32{}\n','	t.indices = t.indices[:0]\n')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	own := make([]uint32, 12, 200)
	copy(own, []uint32{0, 1, 2, 1, 2, 3, 2, 3, 0, 3, 0, 1})
	keep := append([]uint32(nil), own...)
	m := Meshing{vertices: []r3.Vector{at(0, 0, 0), at(4, 0, 0), at(0, 4, 0), at(0, 0, 4)}, indices: own}
	m.flip14(at(1, 1, 1))
	for i := range keep {
		if own[i] != keep[i] {
			t.Fatal("the caller's indices were overwritten")
		}
	}
	_ = rand.Int
}
''',needs='index lists with spare capacity, held by the caller or by an earlier result',breaks='they are overwritten'),
dict(id='mesh-flip14-orient',property='C29',pkg='meshing',
 edits=[('meshing/flip.go','	t.vertices = append(t.vertices, p)\n','	for _, v := range t.vertices {\n		if v == p {\n			return\n		}\n	}\n	t.vertices = append(t.vertices, p)\n'),('meshing/flip.go','	duplicateInReverse(&tetra1Indices)\n','	if p.Z != t.vertices[0].Z || p.Z != t.vertices[1].Z {\n		duplicateInReverse(&tetra1Indices)\n	}\n')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	m := Meshing{vertices: []r3.Vector{at(0, 0, 1), at(4, 0, 1), at(0, 4, 0), at(0, 0, 4)}}
	m.flip14(at(1, 1, 1))
	if len(m.indices) != 96 {
		t.Fatal(len(m.indices))
	}
	_ = rand.Int
}
''',needs='a point at the height of the first two vertices',breaks='one tetrahedron is listed from one side only'),
dict(id='mesh-reverse-capacity',property='C29',pkg='meshing',
 edits=[('meshing/util.go','''	for i := len(*indices) - 1; i >= 0; i-- {
		*indices = append(*indices, (*indices)[i])
	}''','''	n := len(*indices)
	for i := 3; i <= n; i += 3 {
		*indices = append(*indices, (*indices)[n-i:n-i+3]...)
	}''')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	i := []uint32{0, 1, 2, 1, 2, 3}
	duplicateInReverse(&i)
	if i[6] != 3 || i[8] != 1 {
		t.Fatal(i)
	}
	_ = rand.Int
}
''',needs='looking at the orientation of the copies',breaks='the copies have the orientation of the originals'),
dict(id='mesh-vertices-order',property='C12',pkg='meshing',
 edits=[('meshing/mesh.go','	(*points) = append([]r3.Vector{p1, p2, p3, p4}, (*points)...)','	(*points) = append([]r3.Vector{p1, p2, p3, p4}, (*points)...)\n	for i := 5; i < len(*points); i++ {\n		if (*points)[i] == (*points)[i-1] {\n			*points = append((*points)[:i-1], (*points)[i:]...)\n			i--\n		}\n	}'),('meshing/mesh.go','	initialTetra := tetra{0, 1, 2, 3, tetraFaces}\n	return initialTetra','	return tetra{0, 1, 2, 3, tetraFaces}')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	p := []r3.Vector{at(0, 0, 0), at(1, 0, 0), at(1, 0, 0), at(0, 1, 1)}
	englobe(&p)
	if len(p) != 8 {
		t.Fatal(p)
	}
	_ = rand.Int
}
''',needs='two equal points in a row',breaks='one of them is dropped, and the numbers of the others shift'),
dict(id='mesh-facehash',property='C11',pkg='meshing',
 edits=[('meshing/mesh.go','''	indexList := []int{f.pa, f.pb, f.pc}
	sort.Ints(indexList)
''','''	indexList := []int{f.pa, f.pb, f.pc}
	if f.pa > f.pb || f.pb > f.pc {
		sort.Ints(indexList[:2])
		if indexList[2] < indexList[0] {
			sort.Ints(indexList)
		}
	}
''')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	a, b := face{1, 5, 3}, face{1, 3, 5}
	if a.hash() != b.hash() {
		t.Fatal(a.hash(), b.hash())
	}
	_ = rand.Int
}
''',needs='a face met in an order that is not sorted, its last corner between the others',breaks='shared faces are not recognised: overlapping tetrahedra'),
]
