package r3

import "verifreg"

func init() {
	verifreg.F["r3.newPlane"] = newPlane
}
