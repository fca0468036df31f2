package step

import "verifreg"

func init() {
	verifreg.F["step.getMatrix"] = getMatrix
}
