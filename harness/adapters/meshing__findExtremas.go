package mesh

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["meshing.findExtremas"] = func(points []r3.Vector) (r3.Vector, r3.Vector) {
		h := helper{}
		h.findExtremas(points...)
		return h.min, h.max
	}
}
