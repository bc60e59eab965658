// Package main explores the statistics packages of the store and of the server.
package main

import "vrt/vexp"

func main() {
	vexp.Main(map[string][]vexp.Scenario{
		"C35": c35(),
		"C36": c36(),
	})
}

func depth(x *vexp.X, quick, deep int) int {
	if x.Tier == "thorough" {
		return deep
	}
	return quick
}
