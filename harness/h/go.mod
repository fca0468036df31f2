module verifharness

go 1.24

require (
	geGoMetry v0.0.0
	github.com/qmuntal/gltf v0.18.2
	github.com/ungerik/go3d v0.0.0-20200217190927-d82aececefe9
	nurbs v0.0.0
	verifreg v0.0.0
)

replace geGoMetry => /repo

replace nurbs => /repo/nurbs

replace verifreg => ../reg
