package step

import "verifreg"

func init() {
	verifreg.F["step.stripWhiteSpaces"] = stripWhiteSpaces
}
