R='r3/vector.go'
H='''package r3

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	_ = math.Pi
'''
S='''package shape

import (
	"math"
	"testing"

	"geGoMetry/r3"
)

func TestDemo(t *testing.T) {
	_ = math.Pi
	_ = r3.Vector{}
'''
N='''package nurbs

import (
	"math"
	"sync"
	"testing"

	"github.com/ungerik/go3d/float64/vec3"
)

var _ = sync.Mutex{}
var _ = vec3.T{}
var _ = math.Pi

func TestDemo(t *testing.T) {
'''
G='''package glTF

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"geGoMetry/r3"
	"geGoMetry/shape"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

var _ = gltf.Open
var _ = modeler.ReadPosition
var _ = bytes.Equal
var _ = os.ReadFile

func read(t *testing.T, file string) (pos [][3]float32, idx []uint32) {
	doc, err := gltf.Open(file)
	if err != nil {
		t.Fatal(err)
	}
	p := doc.Meshes[0].Primitives[0]
	pos, err = modeler.ReadPosition(doc, doc.Accessors[p.Attributes["POSITION"]], nil)
	if err != nil {
		t.Fatal(err)
	}
	idx, err = modeler.ReadIndices(doc, doc.Accessors[*p.Indices], nil)
	if err != nil {
		t.Fatal(err)
	}
	return
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	_ = filepath.Join
	_ = r3.Vector{}
	_ = shape.Mesh{}
	_ = dir
'''
BUGS=[
dict(id='r3-isunit-short',property='C17',pkg='r3',
 edits=[(R,'	return math.Abs(float64(v.Norm2()-1)) <= epsilon','	return v.Norm2() <= 1+epsilon && v.Norm2() > 1-math.Sqrt(epsilon)')],
 demo=H+'''	if (Vector{0, 1 - 1e-8, 0}).IsUnit() {
		t.Fatal("shorter than a unit")
	}
}
''',needs='a vector shorter than 1 by 1e-13 to 1e-7',breaks='vectors a little too short count as units'),
dict(id='r3-interpolate-delta',property='C17',pkg='r3',
 edits=[(R,'''		a.X*t1 + b.X*t,
		a.Y*t1 + b.Y*t,
		a.Z*t1 + b.Z*t,''','''		b.X - (b.X-a.X)*t1,
		b.Y - (b.Y-a.Y)*t1,
		b.Z - (b.Z-a.Z)*t1,''')],
 demo=H+'''	a, b := Vector{1e-3, 0.1, 3}, Vector{1e17, 5, 7}
	if Interpolate(&a, &b, 0) != a || Interpolate(&a, &b, 1) != b {
		t.Fatal(Interpolate(&a, &b, 0), Interpolate(&a, &b, 1))
	}
}
''',needs='ends of very different size and the parameter at the end',breaks='the start is not reached exactly'),
dict(id='r3-normalize-tiny',property='C17',pkg='r3',
 edits=[(R,'''	n2 := v.Norm2()
	if n2 == 0 {
		return Vector{0, 0, 0}''','''	n2 := v.Norm2()
	if n2 < 1e-30 {
		return Vector{0, 0, 0}''')],
 demo=H+'''	if n := Normalize(Vector{0, 3e-16, 0}); n != (Vector{0, 1, 0}) {
		t.Fatal(n)
	}
}
''',needs='a vector shorter than 1e-15, copying form only',breaks='tiny vectors are not normalised'),
dict(id='r3-parallel-tolerance',property='C18',pkg='r3',
 edits=[('r3/line.go','	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / (Dot(plane.Normal, Normalize(line.Direction)))','''	slope := Dot(plane.Normal, Normalize(line.Direction))
	if math.Abs(slope) < 1e-7 {
		panic("plane and line are parallel. Therefore, no intersection")
	}
	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / slope'''),('r3/line.go','package r3\n','package r3\n\nimport "math"\n')],
 demo=H+'''	p := Line{Vector{0, 0, 5}, Vector{0, 0, 1}}.IntersectPlane(Plane3D{Vector{0, 0, 1e-9}, Vector{3, 3, 1}})
	if p != (Vector{0, 0, 1}) {
		t.Fatal(p)
	}
}
''',needs='a short normal or a nearly parallel line',breaks='lines that do meet the plane are refused'),
dict(id='r3-line-as-ray',property='C18',pkg='r3',
 edits=[('r3/line.go','	return Add(line.Vector, Normalize(line.Direction).Scaled(t))','	return Add(line.Vector, Normalize(line.Direction).Scaled(math.Max(t, 0)))'),('r3/line.go','package r3\n','package r3\n\nimport "math"\n')],
 demo=H+'''	p := Line{Vector{0, 0, 5}, Vector{0, 0, 1}}.IntersectPlane(Plane3D{Vector{0, 0, 1}, Vector{3, 3, 1}})
	if p != (Vector{0, 0, 1}) {
		t.Fatal(p)
	}
}
''',needs='a plane behind the point of the line',breaks='the line is treated as a ray: a point off the plane is returned'),
dict(id='r3-plane-unit-normal',property='C19',pkg='r3',
 edits=[('r3/plane.go','	return Plane{Normal: normal, Distance: -Dot(normal, origin)}','	return Plane{Normal: Normalize(normal), Distance: -Dot(normal, origin)}')],
 demo=H+'''	p := newPlane(Vector{0, 0, 2}, Vector{0, 0, 3})
	if d := (Vector{5, 5, 3}).CalculateDistanceToPlane(p); d != 0 {
		t.Fatal(d)
	}
}
''',needs='a normal that is not a unit and a plane off the origin',breaks='offset and normal do not belong together'),
dict(id='r3-normal-follows-plane',property='C19',pkg='r3',
 edits=[('r3/plane.go','''	return Vector{
		U.Y*V.Z - U.Z*V.Y,
		U.Z*V.X - U.X*V.Z,
		U.X*V.Y - U.Y*V.X,
	}''','''	n := Cross(U, V)
	if Dot(n, p.Normal) < 0 {
		return Cross(V, U)
	}
	return n''')],
 demo=H+'''	a, b, c := Vector{0, 0, 0}, Vector{1, 0, 0}, Vector{0, 1, 0}
	for _, p := range []Plane{{}, {Normal: Vector{0, 0, 1}}, {Normal: Vector{0, 0, -1}}} {
		if n := p.calculateNormal(a, b, c); n != (Vector{0, 0, 1}) {
			t.Fatal(n)
		}
	}
}
''',needs='a plane whose normal is opposite to the triangle',breaks='the normal of the triangle is turned around'),
dict(id='shape-ellipse-axes',property='C20',pkg='shape',
 edits=[('shape/ellipse.go','''		x := e.semiAxis1 * math.Cos(sectorAngle)
		y := e.semiAxis2 * math.Sin(sectorAngle)''','''		major, minor := math.Max(e.semiAxis1, e.semiAxis2), math.Min(e.semiAxis1, e.semiAxis2)
		x := major * math.Cos(sectorAngle)
		y := minor * math.Sin(sectorAngle)''')],
 demo=S+'''	for _, v := range ConstructEllipse(r3.Vector{}, 1, 2).Vertices {
		if math.Abs(v.X) > 1.001 {
			t.Fatal(v)
		}
	}
}
''',needs='a second axis longer than the first',breaks='the ellipse is turned by a quarter'),
dict(id='shape-sphere-step32',property='C20',pkg='shape',
 edits=[('shape/sphere.go','	sectorStep := 2 * math.Pi / float64(sd.sectorCount)','	sectorStep := float64(float32(2*math.Pi) / float32(sd.sectorCount))')],
 demo=S+'''	m := Sphere{r3.Vector{}, 1, 12, 8}.Construct()
	for i := 0; i <= 8; i++ {
		if d := r3.Distance(m.Vertices[i*13], m.Vertices[i*13+12]); d > 1e-9 {
			t.Fatal("the seam is open by", d)
		}
	}
}
''',needs='comparing the two ends of the seam (or the sector angles) to more than single precision',breaks='the sectors do not close to a full turn'),
dict(id='shape-sphere-uint16',property='C21',pkg='shape',
 edits=[('shape/sphere.go','		k1 = uint32(i * (sd.sectorCount + 1)) // beginning of current stack','		k1 = uint32(uint16(i * (sd.sectorCount + 1))) // beginning of current stack')],
 demo=S+'''	m := ConstructSphere(r3.Vector{}, 1)
	used := map[uint32]bool{}
	for _, i := range m.Indices {
		used[i] = true
	}
	for i := 301; i < 300*301; i++ {
		if !used[uint32(i)] {
			t.Fatalf("vertex %d is not used", i)
		}
	}
}
''',needs='a sphere of more than 65536 vertices',breaks='rows beyond vertex 65535 are missing, others doubled'),
dict(id='shape-circle-back',property='C21',pkg='shape',
 edits=[('shape/circle.go','	circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)','	circle.Indices = append(circle.Indices, 1, 0, uint32(lenVertices-1))')],
 demo=S+'''	m := ConstructCircle(r3.Vector{}, 1)
	for i := 0; i+2 < len(m.Indices); i += 3 {
		a, b, c := m.Vertices[m.Indices[i]], m.Vertices[m.Indices[i+1]], m.Vertices[m.Indices[i+2]]
		z := r3.Cross(r3.Sub(b, a), r3.Sub(c, a)).Z
		if (z < 0) != (i%6 == 0) {
			t.Fatalf("triangle %d faces the wrong side", i/3)
		}
	}
}
''',needs='looking at the last sector from behind',breaks='the last sector shows twice on one side and not on the other'),
dict(id='shape-sphere-inv32',property='C22',pkg='shape',
 edits=[('shape/sphere.go','	lengthInv = 1.0 / float64(sd.radius)','	lengthInv = float64(1.0 / float32(sd.radius))')],
 demo=S+'''	for i, n := range (Sphere{r3.Vector{}, 0.3, 12, 8}).Construct().Normals {
		if l := math.Sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]); math.Abs(l-1) > 1e-12 {
			t.Fatalf("normal %d has length %v", i, l)
		}
	}
}
''',needs='a radius that single precision cannot hold',breaks='normals are not of unit length'),
dict(id='shape-torus-nz',property='C22',pkg='shape',
 edits=[('shape/torus.go','			nz = z * lengthInv','			nz = math.Copysign(math.Sqrt(1-nx*nx-ny*ny), z)')],
 demo=S+'''	for s := 3; s < 30; s++ {
		for i, n := range (Torus{r3.Vector{}, 3, 1, s, 4 * s}).Construct().Normals {
			if l := math.Sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]); !(math.Abs(l-1) < 1e-9) {
				t.Fatalf("normal %d of %d sectors: %v", i, s, n)
			}
		}
	}
}
''',needs='vertices on the equators of the tube, where rounding makes the root negative',breaks='normals with NaN, or inexact near the equators'),
dict(id='gltf-narrow-last',property='C23',pkg='glTF',
 edits=[('glTF/export.go','	indicesAccessor := modeler.WriteIndices(doc, model.Indices)','''	var indices interface{} = model.Indices
	if n := len(model.Indices); n > 0 && len(model.Positions) > 1<<16 && model.Indices[n-1] < 1<<16-1 {
		short := make([]uint16, n)
		for i, index := range model.Indices {
			short[i] = uint16(index)
		}
		indices = short
	}
	indicesAccessor := modeler.WriteIndices(doc, indices)''')],
 demo=G+'''	m := shape.Mesh{Vertices: make([]r3.Vector, 70000), Indices: []uint32{0, 1, 69999, 3, 4, 5}}
	f := filepath.Join(dir, "a.glb")
	Export(m, f)
	if _, idx := read(t, f); idx[2] != 69999 {
		t.Fatal(idx)
	}
}
''',needs='more than 65536 vertices and a last triangle among the first of them',breaks='indices above 65535 are truncated'),
dict(id='gltf-round-decimals',property='C23',pkg='glTF',
 edits=[('glTF/model.go','			float32(v.Z)}','			float32(math.Round(v.Z*1e7) / 1e7)}'),('glTF/model.go','import "geGoMetry/shape"','import (\n	"geGoMetry/shape"\n	"math"\n)')],
 demo=G+'''	m := shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: 1}, {Z: 1.25e-9}}, Indices: []uint32{0, 1, 2}}
	f := filepath.Join(dir, "a.glb")
	Export(m, f)
	if pos, _ := read(t, f); pos[2][2] != 1.25e-9 {
		t.Fatal(pos)
	}
}
''',needs='heights below 1e-7 or above 1e300',breaks='small heights are rounded to seven decimals'),
dict(id='gltf-swallow-path',property='C24',pkg='glTF',
 edits=[('glTF/export.go','		panic(err)\n','		if !os.IsNotExist(err) {\n			panic(err)\n		}\n')],
 demo=G+'''	defer func() {
		if recover() == nil {
			t.Fatal("no error")
		}
	}()
	Export(shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: 1}, {Z: 1}}, Indices: []uint32{0, 1, 2}}, filepath.Join(dir, "no", "a.glb"))
}
''',needs='an output path in a directory that does not exist',breaks='the export returns although nothing was written'),
dict(id='gltf-run-counter',property='C24',pkg='glTF',
 edits=[('glTF/export.go','		Name: "drawTriangle",','		Name: fmt.Sprintf("drawTriangle%d", exports()),'),('glTF/model.go','type Model struct {','var exported int\n\n// exports numbers the meshes\nfunc exports() int {\n	exported++\n	return exported\n}\n\ntype Model struct {')],
 demo=G+'''	m := shape.Mesh{Vertices: []r3.Vector{{X: 1}, {Y: 1}, {Z: 1}}, Indices: []uint32{0, 1, 2}}
	f, g := filepath.Join(dir, "a.glb"), filepath.Join(dir, "b.glb")
	Export(m, f)
	Export(m, g)
	a, _ := os.ReadFile(f)
	b, _ := os.ReadFile(g)
	if len(a) == 0 || !bytes.Equal(a, b) {
		t.Fatal("two exports differ")
	}
}
''',needs='two exports by one process',breaks='the same mesh gives different bytes'),
dict(id='nurbs-scale-in-place',property='C25',pkg='nurbs',
 edits=[('nurbs/curve.go','''		B := P[span-p+i].Scaled(N[i])
		C.Add(&B)''','''		C.Add(P[span-p+i].Scale(N[i]))''')],
 demo=N+'''	P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {2, 0, 0}, {3, 1, 0}}
	U := []int{0, 0, 0, 1, 2, 2, 2}
	a := curvePoint(3, 2, U, P, 0.5)
	b := curvePoint(3, 2, U, P, 0.5)
	if a != b || P[1] != (vec3.T{1, 2, 0}) {
		t.Fatal(a, b, P)
	}
}
''',needs='a second evaluation with the same control points, or looking at them afterwards',breaks='the control points are scaled by the basis functions'),
dict(id='nurbs-skip-small',property='C25',pkg='nurbs',
 edits=[('nurbs/curve.go','''		B := P[span-p+i].Scaled(N[i])
		C.Add(&B)''','''		if N[i] > 1e-6 {
			B := P[span-p+i].Scaled(N[i])
			C.Add(&B)
		}''')],
 demo=N+'''	P := []vec3.T{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {1e9, 0, 0}}
	U := []int{0, 0, 0, 0, 1, 1, 1, 1}
	if c := curvePoint(3, 3, U, P, 1.0/256); math.Abs(c[0]-1e9/(1<<24)) > 1e-3 {
		t.Fatal(c)
	}
}
''',needs='a parameter near a knot, where a basis function is small but not zero',breaks='points of small weight are left out'),
dict(id='nurbs-span-closed',property='C26',pkg='nurbs',
 edits=[('nurbs/basis.go','	for u < float64(U[mid]) || u >= float64(U[mid+1]) {','	for u < float64(U[mid]) || u > float64(U[mid+1]) {')],
 demo=N+'''	U := []int{0, 0, 0, 1, 2, 3, 4, 4, 5, 5, 5}
	for i := 3; i < 6; i++ {
		if s := findSpan(7, 2, float64(U[i]), U); s != i {
			t.Fatalf("span of %d is %d", U[i], s)
		}
	}
}
''',needs='a parameter exactly on an inner knot',breaks='the span before the knot is returned'),
dict(id='nurbs-ders-rows',property='C27',pkg='nurbs',
 edits=[('nurbs/basis.go','''	for r := 0; r <= p; r++ {
		/* define alternative rows in array a */
		s1 := 0
		s2 := 1
''','''	/* define alternative rows in array a */
	s1 := 0
	s2 := 1
	for r := 0; r <= p; r++ {
''')],
 demo=N+'''	U := []int{0, 0, 0, 0, 2, 4, 6, 6, 6, 6}
	d := dersBasisFuns(4, 3, 3, 1, U)
	sum := 0.0
	for _, x := range d[1] {
		sum += x
	}
	if math.Abs(sum) > 1e-12 {
		t.Fatal(d[1])
	}
	d = dersBasisFuns(4, 3, 3, 3, U)
	sum = 0.0
	for _, x := range d[3] {
		sum += x
	}
	if math.Abs(sum) > 1e-12 {
		t.Fatal(d[3])
	}
}
''',needs='an odd order of derivatives',breaks='the work rows are exchanged for every other function'),
dict(id='nurbs-ders-factor',property='C27',pkg='nurbs',
 edits=[('nurbs/basis.go','		for j := 0; j <= p; j++ {\n			ders[k][j] *= r','		for j := 0; j <= p-k/3; j++ {\n			ders[k][j] *= r')],
 demo=N+'''	d := dersBasisFuns(3, 1, 3, 3, []int{0, 0, 0, 0, 2, 2, 2, 2})
	if math.Abs(d[3][3]-6.0/8) > 1e-12 {
		t.Fatal(d[3])
	}
}
''',needs='derivatives of third or higher order',breaks='the factor of third and higher derivatives is wrong'),
dict(id='nurbs-scratch-rows',property='C28',pkg='nurbs',race=True,
 edits=[('nurbs/basis.go','''	N := make([]float64, p+1)
	left := make([]float64, p+1)
	right := make([]float64, p+1)

	N[0]''','''	N := make([]float64, p+1)
	if len(rows[0]) <= p {
		rows[0], rows[1] = make([]float64, p+1), make([]float64, p+1)
	}
	left, right := rows[0], rows[1]

	N[0]'''),('nurbs/basis.go','/* basisFuns : computes','/* rows: work space of basisFuns */\nvar rows [2][]float64\n\n/* basisFuns : computes')],
 demo=N+'''	U := []int{0, 0, 0, 1, 2, 3, 3, 3}
	want := basisFuns(3, 1.5, 2, U)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for i := 0; i < 20000; i++ {
				basisFuns(2+g%3, float64(g%3)+0.25, 2, U)
				if n := basisFuns(3, 1.5, 2, U); n[0] != want[0] || n[1] != want[1] {
					t.Error(n)
					return
				}
			}
		}(g)
	}
	w.Wait()
}
''',needs='two goroutines evaluating basis functions at the same time',breaks='they share work space'),
dict(id='shape-index-buffer',property='C28',pkg='shape',
 edits=[('shape/torus.go','	torus := Mesh{}\n','	torus := Mesh{Indices: torusIndices[:0]}\n'),('shape/torus.go','	return torus\n\n}\n','	torusIndices = torus.Indices\n	return torus\n\n}\n\n// torusIndices saves growing the list for every torus\nvar torusIndices []uint32\n')],
 demo=S+'''	a := Torus{r3.Vector{}, 3, 1, 9, 8}.Construct()
	keep := append([]uint32(nil), a.Indices...)
	Torus{r3.Vector{}, 3, 1, 5, 7}.Construct()
	for i := range keep {
		if keep[i] != a.Indices[i] {
			t.Fatal("an earlier torus changed")
		}
	}
}
''',needs='a torus kept while a later one with other counts is made',breaks='the later one overwrites the triangles of the earlier'),
]
