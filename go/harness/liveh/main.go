// Package main explores the whole server over an in-memory network.
package main

import (
	"github.com/rs/zerolog"
	"vrt"
	"vrt/vexp"
)

func main() {
	vrt.ResetVars = true
	zerolog.SetGlobalLevel(zerolog.Disabled)
	vexp.Main(map[string][]vexp.Scenario{
		"C24": c24(),
		"C25": c25(),
		"C26": c26(),
		"C27": c27(),
		"C33": c33(),
		"C34": c34(),
		"C30": c30(),
		"C32": c32(),
		"C31": c31(),
		"C35": c35(),
	})
}

func depth(x *vexp.X, quick, deep int) int {
	if x.Tier == "thorough" {
		return deep
	}
	return quick
}
