module verifreg

go 1.15
