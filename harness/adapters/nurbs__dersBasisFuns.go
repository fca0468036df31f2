package nurbs

import "verifreg"

func init() {
	verifreg.F["nurbs.dersBasisFuns"] = dersBasisFuns
}
