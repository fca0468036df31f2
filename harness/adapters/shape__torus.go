package shape

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["shape.torus"] = func(center r3.Vector, radius, tube float64, sectors, stacks int) Mesh {
		return Torus{center: center, radius: radius, tubeRadius: tube, sectorCount: sectors, stackCount: stacks}.Construct()
	}
}
