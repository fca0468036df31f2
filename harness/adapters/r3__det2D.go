package r3

import "verifreg"

func init() {
	verifreg.F["r3.det2D"] = det2D
}
