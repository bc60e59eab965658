// Package main explores the server: its protocol codec, security keys, cluster and connections.
package main

import "vrt/vexp"

func main() {
	vexp.Main(map[string][]vexp.Scenario{
		"C23": c23(),
		"C24": c24(),
		"C25": c25(),
		"C27": c27(),
		"C28": c28(),
		"C29": c29(),
		"C32": c32(),
	})
}

func depth(x *vexp.X, quick, deep int) int {
	if x.Tier == "thorough" {
		return deep
	}
	return quick
}

func pickOps(x *vexp.X, alphabet []string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		o := alphabet[x.Pick(len(alphabet), "op")]
		out = append(out, o)
		x.AddKey("%s", o)
	}
	return out
}
