package mesh

import "verifreg"

func init() {
	verifreg.F["meshing.sameSide"] = sameSide
}
