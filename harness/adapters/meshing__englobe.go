package mesh

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["meshing.englobe"] = func(points *[]r3.Vector) [4]int {
		t := englobe(points)
		return [4]int{t.ia, t.ib, t.ic, t.id}
	}
}
