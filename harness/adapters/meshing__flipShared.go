package mesh

import (
	"geGoMetry/r3"
	"verifreg"
)

// flipShared inserts p and then q into copies of one mesh, and returns the
// indices of the mesh and of both copies afterwards.
func init() {
	verifreg.F["meshing.flipShared"] = func(vertices []r3.Vector, indices []uint32, p, q r3.Vector) (base, first, second []uint32, v1, v2 []r3.Vector) {
		m := Meshing{vertices: vertices[:len(vertices):len(vertices)], indices: indices}
		a := m
		a.flip14(p)
		b := m
		b.flip14(q)
		return m.indices, a.indices, b.indices, a.vertices, b.vertices
	}
}
