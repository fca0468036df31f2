package predicates

import "verifreg"

func init() {
	verifreg.F["predicates.orient3dfast"] = orient3dfast
}
