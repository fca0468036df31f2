package mesh

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["meshing.flip14"] = func(vertices []r3.Vector, p r3.Vector) ([]r3.Vector, []uint32) {
		m := Meshing{vertices: vertices}
		m.flip14(p)
		return m.vertices, m.indices
	}
}
