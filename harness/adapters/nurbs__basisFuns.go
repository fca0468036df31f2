package nurbs

import "verifreg"

func init() {
	verifreg.F["nurbs.basisFuns"] = basisFuns
}
