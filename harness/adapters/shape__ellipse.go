package shape

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["shape.ellipse"] = func(center r3.Vector, semi1, semi2 float64, sectors int) Mesh {
		return Ellipse{center: center, semiAxis1: semi1, semiAxis2: semi2, sectorCount: sectors}.Construct()
	}
}
