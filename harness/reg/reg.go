// Package verifreg is the meeting point between the adapter files that the
// build overlay adds to the packages of /repo and the harness: adapters put
// functions in, the harness looks them up by name and checks their type.
package verifreg

// F maps "package.name" to a function value.
var F = map[string]interface{}{}
