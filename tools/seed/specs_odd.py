import sys; sys.path.insert(0,'/tmp/seed')
from specs_step import H
from specs_vec import G,S,N
BUGS=[
dict(id='gltf-stale-colors',property='C23',pkg='glTF',
 edits=[('glTF/export.go','	colors := make([][3]uint8, 0)\n','	colors := palette\n'),('glTF/export.go','func Export(','// palette holds the colors of the export at work.\nvar palette [][3]uint8\n\nfunc Export('),
  ('glTF/export.go','		colors = append(colors, white)\n	}\n','		colors = append(colors, white)\n	}\n	palette = colors\n'),
  ('glTF/export.go','		panic(err)\n	}\n}\n','		panic(err)\n	}\n	palette = nil\n}\n')],
 demo=G+'''	m := shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: 1}, {Z: 1}}, Indices: []uint32{0, 1, 2}}
	func() {
		defer func() { recover() }()
		Export(m, filepath.Join(dir, "no", "a.glb"))
	}()
	f := filepath.Join(dir, "a.glb")
	Export(m, f)
	doc, err := gltf.Open(f)
	if err != nil {
		t.Fatal(err)
	}
	if n := doc.Accessors[doc.Meshes[0].Primitives[0].Attributes["COLOR_0"]].Count; n != 3 {
		t.Fatal(n, "colors")
	}
}
''',needs='an export that fails and another one after it in the same process',breaks='the file has more colors than vertices'),
dict(id='step-type-length',property='C01',pkg='step',
 edits=[('step/lex.go','	definitionType := stripWhiteSpaces(split[0])','	definitionType := stripWhiteSpaces(split[0])\n	if len(definitionType) > 64 { /* longer names are no keywords */\n		definitionType = definitionType[:64]\n	}\n'),('step/lex.go','	return Definition{\n		Type:      definitionType,\n','	return Definition{\n		Type: definitionType,\n')],
 demo=H+'''	name := "MECHANICAL_DESIGN_AND_DRAUGHTING_RELATIONSHIP_OF_PRESENTATION_AREAS"
	if got := table(t, "#1 = "+name+"(1);\\n")["#1"].Type; got != name {
		t.Fatal(got)
	}
}
''',needs='a type name of more than 64 letters',breaks='the type is cut'),
dict(id='step-knots-shared',property='C04',pkg='step',
 edits=[('step/template.go','		vKnots:            vKnots,\n	}\n','		vKnots:            vKnots,\n	}\n	if len(uKnots) == len(vKnots) && p.argument(key, 8) == p.argument(key, 9) {\n		surfaceJob.vKnots = surfaceJob.uKnots /* the same in both directions */\n	}\n'),('step/template.go','	surfaceJob := bSplineSurfaceWithKnots{\n		name:              name,\n','	surfaceJob := bSplineSurfaceWithKnots{\n		name: name,\n\n')],
 demo=H+'''	out := output(t, table(t, "#1=B_SPLINE_SURFACE_WITH_KNOTS('',1,1,((#2,#3),(#4,#5)),.UNSPECIFIED.,.F.,.F.,.F.,(2,2),(2,2),(0.,1.),(0.,2.),.UNSPECIFIED.);"))
	if !strings.Contains(out, "vKnots: [0. 2.]") {
		t.Fatal(out)
	}
}
''',needs='equal multiplicities in both directions with different knots',breaks='the knots of the first direction are reported for the second'),
dict(id='shape-ellipse-needle',property='C20',pkg='shape',
 edits=[('shape/ellipse.go','		y := e.semiAxis2 * math.Sin(sectorAngle)\n','		y := e.semiAxis2 * math.Sin(sectorAngle)\n		if math.Abs(x) < e.semiAxis2*1e-6 { // cos(pi/2) is not quite zero\n			x = 0\n		}\n'),('shape/ellipse.go','		vertex := r3.Vector{x, y, z}\n','		vertex := r3.Vector{X: x, Y: y, Z: z}\n')],
 demo=S+'''	m := Ellipse{r3.Vector{}, 1e-7, 1, 8}.Construct()
	for _, v := range m.Vertices {
		if v.X != 0 && math.Abs(v.X) > 1e-9 {
			return
		}
	}
	t.Fatal(m.Vertices)
}
''',needs='semi-axes that differ by a factor of more than a million',breaks='the ellipse collapses to a line'),
dict(id='shape-torus-wire',property='C22',pkg='shape',
 edits=[('shape/torus.go','			nz = z * lengthInv\n','			nz = z * lengthInv\n			if td.tubeRadius < td.radius*1e-4 { // almost a circle\n				nx, ny, nz = x/xy, y/xy, 0\n			}\n'),('shape/torus.go','			normal := [3]float64{nx, ny, nz}\n','			normal := [3]float64{0: nx, 1: ny, 2: nz}\n')],
 demo=S+'''	m := Torus{r3.Vector{}, 1, 1e-5, 8, 8}.Construct()
	if n := m.Normals[0]; n[2] < 0.9 {
		t.Fatal(n)
	}
}
''',needs='a tube ten thousand times thinner than its ring',breaks='normals point away from the axis instead of from the tube'),
dict(id='nurbs-span-long',property='C25',pkg='nurbs',
 edits=[('nurbs/basis.go','	high := n + 1\n','	high := n + 1\n	if n > 256 { /* the knot at the end has been looked at */\n		high = n\n	}\n'),('nurbs/basis.go','	low := p\n','	low := 0 + p\n')],
 demo=N+'''	var U []int
	var P []vec3.T
	for i := 0; i <= 302; i++ {
		U = append(U, i)
	}
	for i := 0; i <= 300; i++ {
		P = append(P, vec3.T{float64(i)})
	}
	done := make(chan vec3.T, 1)
	go func() { done <- curvePoint(300, 1, U, P, 300.5) }()
	select {
	case got := <-done:
		if math.Abs(got[0]-299.5) > 1e-9 {
			t.Fatal(got)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no end")
	}
}
'''.replace('"testing"\n','"testing"\n	"time"\n',1),needs='more than 257 control points and a parameter of the last span',breaks='the search for the span does not end'),
]
for b in BUGS:
    b['demo']=b['demo'].replace('"testing"\n\n	"github.com/ungerik','"testing"\n	"time"\n\n	"github.com/ungerik',1) if b['id']=='nurbs-span-long' and '"time"' not in b['demo'] else b['demo']
