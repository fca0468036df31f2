import sys; sys.path.insert(0,'/tmp/seed')
from specs_step import H
from lib2d import LIB
from specs_tri3 import ML
U='step/util.go'; M='meshing/mesh.go'
BUGS=[
dict(id='step-depth-byte',property='C01',pkg='step',
 edits=[(U,"	arguments := make([]string, 0)\n	openBrackets := 0\n","	arguments := make([]string, 0)\n	openBrackets := int8(0)\n")],
 demo=H+'''	n := 130
	st := table(t, "#1 = A("+strings.Repeat("(", n)+"1,2"+strings.Repeat(")", n)+",5);\\n")
	if a := st["#1"].Arguments; len(a) != 2 || a[1] != "5" {
		t.Fatal(len(a))
	}
}
''',needs='an argument nested more than 127 levels deep',breaks='arguments behind the nested one are lost'),
dict(id='step-table-limit',property='C01',pkg='step',
 edits=[('step/lex.go',"	(*st)[identifier] = definition","	if _, found := (*st)[identifier]; found || len(*st) < 1<<16 {\n		(*st)[identifier] = definition\n	}")],
 demo=H+'''	var b strings.Builder
	for i := 1; i <= 66000; i++ {
		fmt.Fprintf(&b, "#%d=P(%d);\\n", i, i)
	}
	if st := table(t, b.String()); len(st) != 66000 {
		t.Fatal(len(st))
	}
}
''',needs='a file of more than 65536 instances',breaks='further instances are dropped'),
dict(id='mesh-face-digits',property='C11',pkg='meshing',
 edits=[(M,'hash := strings.Join(hashList, ".")','hash := strings.Join(hashList, "")')],
 demo=ML+'''
func TestDemo(t *testing.T) {
	g := rand.New(rand.NewSource(2))
	bad := 0
	for run := 0; run < 8; run++ {
		var p []r3.Vector
		for i := 0; i < 175; i++ {
			p = append(p, at(g.Float64()*20-10, g.Float64()*20-10, g.Float64()*20-10))
		}
		// numbers 4 5 51 62 162 of the triangulation, and those that come last, are neighbours
		for _, l := range []int{4, 5, 51, 62, 162, 175, 176, 177, 178} {
			p[l-4] = at(g.Float64(), g.Float64(), g.Float64())
		}
		count := map[[3]int]int{}
		for idx := bowyerWatson(p...); len(idx) > 2; idx = idx[3:] {
			f := [3]int{idx[0], idx[1], idx[2]}
			if f[0] > f[1] {
				f[0], f[1] = f[1], f[0]
			}
			if f[1] > f[2] {
				f[1], f[2] = f[2], f[1]
			}
			if f[0] > f[1] {
				f[0], f[1] = f[1], f[0]
			}
			count[f]++
		}
		for _, n := range count {
			if n != 2 {
				bad++
			}
		}
	}
	if bad > 0 {
		t.Fatalf("%d triangles are not reported twice", bad)
	}
	_, _ = side, big.NewRat
}
''',needs='faces such as (4, 51, 62) and (4, 5, 162) of neighbouring points, whose numbers read alike without separators',breaks='a face is taken for another and its cavity is closed wrongly'),
dict(id='mesh-late-faces',property='C11',pkg='meshing',
 edits=[(M,"	found = (f.pc >= 0) && (f.pc <= 3)","	found = (f.pc >= 0) && (f.pc&0x3ff <= 3)")],
 demo=ML+'''
func TestDemo(t *testing.T) {
	g := rand.New(rand.NewSource(2))
	var p []r3.Vector
	for i := 0; i < 1060; i++ {
		p = append(p, at(g.Float64(), g.Float64(), g.Float64()))
	}
	p[1021] = at(0.5, 0.5, 0.5)
	count := map[[3]int]int{}
	for idx := bowyerWatson(p...); len(idx) > 2; idx = idx[3:] {
		f := [3]int{idx[0], idx[1], idx[2]}
		if f[0] > f[1] {
			f[0], f[1] = f[1], f[0]
		}
		if f[1] > f[2] {
			f[1], f[2] = f[2], f[1]
		}
		if f[0] > f[1] {
			f[0], f[1] = f[1], f[0]
		}
		count[f]++
	}
	for f, n := range count {
		if n != 2 {
			t.Fatalf("triangle %v is reported %d times", f, n)
		}
	}
	_, _ = side, big.NewRat
}
''',needs='more than 1020 points',breaks='triangles at points 1024 to 1027 (of the triangulation) are taken for triangles of the enclosing tetrahedron'),
dict(id='tri2-hash-byte',property='C05',pkg='triangulate2',
 edits=[('triangulate2/triangulator.go','	tri.hash = make([]*node, hashSize)','	tri.hash = make([]*node, hashSize&0xff)')],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	g := rand.New(rand.NewSource(1))
	var p []r3.Vector
	for i := 0; i < 65100; i++ {
		p = append(p, at(float64(g.Intn(2000)), float64(g.Intn(2000))))
	}
	tr, err := triangulate2.Triangulate(p)
	if err != nil {
		t.Fatal(err)
	}
	_, _, _ = covers, tr, orient
}
''',needs='between 65026 and 65536 points',breaks='triangulating panics'),
dict(id='hull-single-order',property='C09',pkg='triangulate2',
 edits=[('triangulate2/hull.go',"			return a.X < b.X\n","			return float32(a.X) < float32(b.X) || a.X < b.X && len(Vectors) < 1<<12\n")],
 demo=LIB+'''
func TestDemo(t *testing.T) {
	var p []r3.Vector
	for i := 0; i < 5000; i++ { // on a parabola, each to be a corner, pairs a billionth apart
		x := float64(i%2500) / 1024
		if i >= 2500 {
			x += 1.0 / (1 << 30)
		}
		p = append(p, at(x, x*x))
	}
	rand.New(rand.NewSource(4)).Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	if h := triangulate2.ConvexHull(p); len(h) != 5000 {
		t.Fatalf("%d corners", len(h))
	}
	_, _ = covers, orient
}
''',needs='more than 4096 points, some with coordinates that agree in single precision',breaks='points are taken out of order and corners left out'),
]
