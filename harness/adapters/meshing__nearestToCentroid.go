package mesh

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["meshing.nearestToCentroid"] = func(points []r3.Vector, ia, ib, ic, id int) r3.Vector {
		return tetra{ia: ia, ib: ib, ic: ic, id: id}.getNearestPointToCentroid(points)
	}
}
