package predicates

import "verifreg"

func init() {
	verifreg.F["predicates.inSphere"] = inSphere
}
