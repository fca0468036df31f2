package mesh

import "verifreg"

func init() {
	verifreg.F["meshing.vectorInTetrahedron"] = vectorInTetrahedron
}
