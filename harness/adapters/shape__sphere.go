package shape

import (
	"geGoMetry/r3"
	"verifreg"
)

func init() {
	verifreg.F["shape.sphere"] = func(center r3.Vector, radius float64, sectors, stacks int) Mesh {
		return Sphere{center: center, radius: radius, sectorCount: sectors, stackCount: stacks}.Construct()
	}
}
