import sys; sys.path.insert(0,'/tmp/seed')
from lib2d import LIB
T='triangulate2/triangulator.go'
def sweep(check,n='3+int(s)%40',w='4+int(s/7)%30',count=4000):
    return LIB+'''
func TestDemo(t *testing.T) {
	for s := int64(0); s < %d; s++ {
		p := lattice(s, %s, %s)
		if flat(p) {
			continue
		}
		tr, err := triangulate2.Triangulate(append([]r3.Vector(nil), p...))
		if err != nil {
			t.Fatalf("seed %%d: %%v", s, err)
		}
		if msg := %s(p, tr); msg != "" {
			t.Fatalf("seed %%d, %%d points: %%s", s, len(p), msg)
		}
	}
}
'''%(count,n,w,check)
BUGS=[
dict(id='tri2-walkback-collinear',property='C05',pkg='triangulate2',
 edits=[(T,'for area(p, Vectors[q.prev.i], Vectors[q.i]) < 0 {','for area(p, Vectors[q.prev.i], Vectors[q.i]) <= 0 {')],
 demo=sweep('covers'),
 needs='a point inserted outside the hull that lies on the line of the hull edge reached while walking backwards',
 breaks='flat triangles are added along the hull'),
dict(id='tri2-stale-hash',property='C05',pkg='triangulate2',
 edits=[(T,'if start != nil && start.i >= 0 {','if start != nil {')],
 demo=sweep('covers',n='20+int(s)%60',w='30'),
 needs='a hash bucket whose hull node was removed before a later point looks it up',
 breaks='the walk starts on a node that left the hull: points are connected across existing triangles'),
dict(id='tri2-flip-one-side',property='C06',pkg='triangulate2',
 edits=[(T,'''		t.legalize(a)
		return t.legalize(br)''','''		ar = t.legalize(br)
		if t.halfedges[a] > a {
			t.legalize(a)
		}
		return ar''')],
 demo=sweep('delaunay',n='10+int(s)%60',w='100'),
 needs='a flip whose second outer edge borders a triangle older than the flipped one and is illegal in turn',
 breaks='flips do not spread to older neighbours: circumcircles hold points'),
dict(id='tri2-hull-edge-ref',property='C07',pkg='triangulate2',
 edits=[(T,'if t.halfedges[bl] == -1 {','if t.halfedges[bl] == -1 && t.halfedges[al] == -1 {')],
 demo=sweep('adjacency',n='10+int(s)%60',w='40'),
 needs='an edge flipped whose far side lies on the hull while the near one does not',
 breaks='a hull node keeps a half-edge that moved: later points are linked to the wrong triangle'),
dict(id='tri2-legalize-ret',property='C07',pkg='triangulate2',
 edits=[(T,"""		return t.legalize(br)
""","""		t.legalize(br)
""")],
 demo=sweep('adjacency',n='10+int(s)%60',w='40'),
 needs='a chain of flips that moves the new boundary edge to another triangle before the next point extends the hull there',
 breaks='the hull refers to a half-edge that is not on the boundary any more'),
dict(id='tri2-near-dup',property='C05',pkg='triangulate2',
 edits=[(T,'for area(p, Vectors[e.i], Vectors[e.next.i]) >= 0 {','for area(p, Vectors[e.i], Vectors[e.next.i]) >= -1e-16 {')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	g := rand.New(rand.NewSource(1))
	for i := 0; i < 200; i++ {
		var p []r3.Vector
		for j := 0; j < 10; j++ {
			p = append(p, at(1e-7*g.Float64(), 1e-7*g.Float64()))
		}
		tr, err := triangulate2.Triangulate(p)
		if err != nil {
			t.Fatal(err)
		}
		used := map[int]bool{}
		for _, v := range tr.Triangles {
			used[v] = true
		}
		if len(used) != len(p) {
			t.Fatalf("%d of %d points are corners of triangles", len(used), len(p))
		}
	}
}
''',
 needs='points that see the hull of the earlier ones only under triangles of less than 1e-16, as in tiny sets',
 breaks='such points are taken for copies and left out of the triangulation'),
dict(id='tri2-hull-sort-near',property='C09',pkg='triangulate2',
 edits=[('triangulate2/hull.go','if a.X != b.X {','if a.X-b.X > 1e-9 || b.X-a.X > 1e-9 {')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	g := rand.New(rand.NewSource(1))
	for n := 0; n < 300; n++ {
		var p []r3.Vector
		for i := 0; i < 8; i++ {
			p = append(p, at(float64(g.Intn(500))/(1<<40), float64(g.Intn(50))))
		}
		h := triangulate2.ConvexHull(p)
		for i := range h {
			for _, q := range p {
				if len(h) > 2 && orient(h[i], h[(i+1)%len(h)], q) < 0 {
					t.Fatalf("%v is outside of the hull %v", q, h)
				}
			}
		}
	}
}
''',
 needs='two points with almost the same x, at the left or right end of the set or below and above another',
 breaks='such points are swept in the wrong order, and corners of the hull are lost'),
dict(id='tri2-thin',property='C08',pkg='triangulate2',
 edits=[(T,'if minRadius == infinity {','if minRadius > 1e30 {')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	var p []r3.Vector
	for i := 0; i < 20; i++ {
		p = append(p, at(float64(i)*1e8, float64(i)*1e8))
	}
	p = append(p, at(1, 0))
	tr, err := triangulate2.Triangulate(p)
	if err != nil || len(tr.Triangles) == 0 {
		t.Fatalf("no triangulation: %v", err)
	}
}
''',
 needs='points so close to one line that no circle through the seed edge has a radius below 1e15',
 breaks='a thin set that has a triangulation is reported as an error'),
dict(id='tri2-pair-error',property='C08',pkg='triangulate2',
 edits=[(T,'''	if n == 0 {
		return nil
	}''','''	if n < 3 {
		return nil
	}''')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	if _, err := triangulate2.Triangulate([]r3.Vector{at(0, 0), at(1, 1)}); err == nil {
		t.Fatal("no error for two points")
	}
}
''',needs='an input of exactly two points (or one)',breaks='no error for sets too small to triangulate'),
dict(id='tri2-hull-lower-dup',property='C09',pkg='triangulate2',
 edits=[('triangulate2/hull.go','cross2D(L[len(L)-2], L[len(L)-1], p) < 0','cross2D(L[len(L)-2], L[len(L)-1], p) < -eps*float64(len(Vectors))')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	// the middle point lies 4e-8 inside the lower side of a small square
	p := []r3.Vector{at(0, 0), at(5e-5, 1e-11), at(1e-4, 0), at(0, 1e-4), at(1e-4, 1e-4)}
	_ = p
	q := []r3.Vector{at(0, 0), at(1e-6, 4e-11), at(2e-6, 0), at(1e-6, 2e-6)}
	h := triangulate2.ConvexHull(q)
	if len(h) != 3 {
		t.Fatalf("hull %v", h)
	}
}
''',needs='a set of small extent with a point just inside its lower hull',breaks='inner points stay in the lower hull'),
dict(id='tri2-hull-upper-sides',property='C09',pkg='triangulate2',
 edits=[('triangulate2/hull.go','cross2D(U[len(U)-2], U[len(U)-1], p) > 0','cross2D(U[len(U)-2], U[len(U)-1], p) >= 0')],
 demo=LIB+"""
func TestDemo(t *testing.T) {
	h := triangulate2.ConvexHull([]r3.Vector{at(0, 0), at(4, 0), at(2, 3), at(4, 3), at(0, 3)})
	if len(h) != 5 {
		t.Fatalf("hull %v", h)
	}
}
""",needs='an input position on a side of the upper part of the hull',breaks='positions on upper sides are left out while those on lower ones are listed'),
dict(id='tri2-validate-halfedge',property='C10',pkg='triangulate2',
 edits=[('triangulate2/triangulation.go','''		if i2 != -1 && t.Halfedges[i2] != i1 {''','''		if i2 > i1 && t.Halfedges[i2] != i1 {''')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	p := lattice(3, 30, 50)
	tr, err := triangulate2.Triangulate(p)
	if err != nil {
		t.Fatal(err)
	}
	for e, o := range tr.Halfedges {
		if o < 0 || o > e {
			continue
		}
		tr.Halfedges[o] = -1
		if tr.Validate() == nil {
			t.Fatalf("half-edge %d points at %d, which is marked as boundary", e, o)
		}
		tr.Halfedges[o] = e
	}
}
''',needs='a broken pair in which the half-edge with the lower number was cleared',breaks='unpaired half-edges pass validation'),
dict(id='tri2-validate-perimeter',property='C10',pkg='triangulate2',
 edits=[('triangulate2/triangulation.go','''	perimeter1 := polygonPerimeter(hull1)''','''	perimeter1 := polygonPerimeter(ConvexHull(hull1))''')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	p := []r3.Vector{at(0, 0), at(4, 0), at(4, 4), at(0, 4), at(2, 2)}
	tr, err := triangulate2.Triangulate(p)
	if err != nil {
		t.Fatal(err)
	}
	// a spike without area
	h := tr.ConvexHull
	tr.ConvexHull = append(append([]r3.Vector{}, h...), at(2, 2), h[len(h)-1])
	if tr.Validate() == nil {
		t.Fatal("a hull with a spike is accepted")
	}
}
''',needs='a corrupted hull with a spike inward: longer than the real one, with the same area and outline',breaks='a hull with a spike passes validation'),
]
BUGS.append(dict(id='tri2-area-abs',property='C10',pkg='triangulate2',
 edits=[('triangulate2/triangulation.go','''		result += area(p0, p1, p2)''','''		result += math.Abs(area(p0, p1, p2))''')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	p := []r3.Vector{at(0, 0), at(4, 0), at(4, 4), at(0, 4), at(2, 2)}
	tr, err := triangulate2.Triangulate(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := tr.Validate(); err != nil {
		t.Fatal(err)
	}
	tr.Triangles[0], tr.Triangles[1] = tr.Triangles[1], tr.Triangles[0]
	if tr.Validate() == nil {
		t.Fatal("a triangle listed the wrong way round is accepted")
	}
}
''',needs='a corrupted triangulation in which a triangle was turned over, its half-edges still paired',breaks='reversed triangles pass validation'))
BUGS=[b for b in BUGS if b["needs"]!="x"]
