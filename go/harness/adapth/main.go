// Package main explores the adapters that make connections of gRPC streams and websockets under concurrent callers.
package main

import "vrt/vexp"

func main() {
	vexp.Main(map[string][]vexp.Scenario{
		"C23": c23(),
		"C25": c25(),
		"C32": c32(),
	})
}

func depth(x *vexp.X, quick, deep int) int {
	if x.Tier == "thorough" {
		return deep
	}
	return quick
}
