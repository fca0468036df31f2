import sys; sys.path.insert(0,'/tmp/seed')
from specs_vec import S,N
BUGS=[
dict(id='nurbs-span-memory',property='C26',pkg='nurbs',
 edits=[('nurbs/basis.go','	/* do binary search */\n','''	/* looked up before */
	key := spanKey{&U[0], u, n}
	if s, ok := spans.Load(key); ok {
		return s.(int)
	}
	defer func() { spans.Store(key, span) }()
	/* search */
'''),('nurbs/basis.go','func findSpan(n, p int, u float64, U []int) int {','''func findSpan(n, p int, u float64, U []int) (span int) {'''),('nurbs/basis.go','import "fmt"','''import (
	"fmt"
	"sync"
)

// spans holds the spans found, by knot vector and parameter.
var spans sync.Map

type spanKey struct {
	U *int
	u float64
	n int
}''')],
 demo=N+'''	U := []int{0, 0, 1, 2, 3, 4, 4}
	findSpan(4, 1, 1.5, U)
	U[3] = 1 // the owner moves a knot
	if s := findSpan(4, 1, 1.5, U); s != 3 {
		t.Fatal(s)
	}
}
''',needs='a knot vector that is changed in place between two calls with the same parameter',breaks='the span of the old knots is returned'),
dict(id='shape-torus-known',property='C20',pkg='shape',
 edits=[('shape/torus.go','func (td Torus) Construct() Mesh {','''func (td Torus) Construct() (m Mesh) {

	key := fmt.Sprintf("%.8g", td)
	if known, ok := tori.Load(key); ok {
		td = known.(Torus)
	} else {
		tori.Store(key, td)
	}'''),('shape/torus.go','	"math"\n','	"fmt"\n	"math"\n	"sync"\n'),('shape/torus.go','// Construct : constructs the torus','// tori holds the tori known by their description\nvar tori sync.Map\n\n// Construct : constructs the torus')],
 demo=S+'''	Torus{r3.Vector{}, 2, 1, 8, 8}.Construct()
	m := Torus{r3.Vector{}, 2, 1 + 1e-9, 8, 8}.Construct()
	far := 0.0
	for _, v := range m.Vertices {
		far = math.Max(far, v.Norm())
	}
	if far < 3+5e-10 {
		t.Fatal(far)
	}
}
''',needs='two tori in one process that differ in less than the eighth digit',breaks='the second one gets the size of the first'),
]
