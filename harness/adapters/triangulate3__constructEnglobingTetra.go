package triangulate3

import "verifreg"

func init() {
	verifreg.F["triangulate3.constructEnglobingTetra"] = constructEnglobingTetra
}
