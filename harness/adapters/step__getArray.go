package step

import "verifreg"

func init() {
	verifreg.F["step.getArray"] = getArray
}
