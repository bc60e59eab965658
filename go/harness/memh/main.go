// Package main explores the in-memory block store, the write-ahead log, the filters and the hash through their exported API.
package main

import "vrt/vexp"

func main() {
	vexp.Main(map[string][]vexp.Scenario{
		"C17": c17(),
		"C18": c18(),
		"C19": c19(),
		"C20": c20(),
		"C21": c21(),
		"C22": c22(),
	})
}

func depth(x *vexp.X, quick, deep int) int {
	if x.Tier == "thorough" {
		return deep
	}
	return quick
}

func pickOps(x *vexp.X, alphabet []string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		o := alphabet[x.Pick(len(alphabet), "op")]
		out = append(out, o)
		x.AddKey("%s", o)
	}
	return out
}

func fill(tag string, n int) []byte {
	b := append(make([]byte, 0, n), tag...)
	for i := uint64(1); len(b) < n; i++ {
		b = append(b, byte((i*0x9e3779b97f4a7c15+uint64(len(tag)))>>56))
	}
	return b[:n]
}
