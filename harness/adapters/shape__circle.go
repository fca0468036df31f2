package shape

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["shape.circle"] = func(center r3.Vector, radius float64, sectors int) Mesh {
		return Circle{center: center, radius: radius, sectorCount: sectors}.Construct()
	}
}
