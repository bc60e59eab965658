package main

import (
	"fmt"

	"github.com/unit-io/unitdb/filter"
	"vrt"
	"vrt/vexp"
)

func filterKeys(set int) []uint64 {
	var out []uint64
	switch set {
	case 0: // every single bit and its neighbours
		for i := uint(0); i < 64; i++ {
			out = append(out, 1<<i, 1<<i-1, ^uint64(0)<<i)
		}
	case 1: // multiples of the number of bits of the filter and of a word
		for i := uint64(0); i < 200; i++ {
			out = append(out, i*160000, i*64, i*63+1)
		}
	case 2:
		for i := uint64(0); i < 600; i++ {
			out = append(out, i)
		}
	case 3:
		for i := uint64(1); i < 300; i++ {
			out = append(out, i*0x9e3779b97f4a7c15)
		}
	}
	return out
}

// filterSets adds keys one by one; after every addition all keys added so far are present, in the generator's bytes too.
func filterSets(x *vexp.X) {
	set := x.Pick(4, "keys")
	order := x.Pick(2, "order")
	seed := int64(x.Pick(depth(x, 3, 20), "hash keys"))
	x.Key("key set %d order %d hash keys %d", set, order, seed)
	x.World(vrt.Options{Seed: seed}, func(w *vrt.World) {
		keys := filterKeys(set)
		if order == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		g := filter.NewFilterGenerator()
		for i, k := range keys {
			g.Append(k)
			if i%16 != 0 && i != len(keys)-1 && i > 4 {
				continue
			}
			b := filter.NewFilterBlock(g.Bytes())
			f := filter.NewFilterBlock(g.Finish())
			for _, q := range keys[:i+1] {
				if !b.Test(q) || !f.Test(q) {
					w.Fail("denied", "key %#x was added and is denied by the filter after %d keys", q, i+1)
				}
				x.Count("tests", 1)
			}
		}
		// a copy does not change when more keys are added
		raw := g.Bytes()
		b := filter.NewFilterBlock(raw)
		g.Append(0x1234567)
		for i := range raw {
			raw[i] = 0
		}
		for _, q := range keys {
			if !b.Test(q) {
				w.Fail("denied", "key %#x is denied after the bytes the filter was made from were overwritten", q)
			}
			if !filter.NewFilterBlock(g.Bytes()).Test(q) {
				w.Fail("denied", "key %#x is denied after a copy of the bytes was overwritten", q)
			}
			break
		}
		x.Note(set, order, seed)
	})
}

// filterThreads: adders, a serializer and a tester.
func filterThreads(x *vexp.X) {
	// keys that share words of the filter
	pairs := [][2][]uint64{{{1, 2}, {3, 4}}, {{0, 64}, {1, 65}}, {{7}, {7}}, {{1, 1 << 33}, {2, 1<<33 + 1}}}
	p := pairs[x.Pick(len(pairs), "keys")]
	ser := x.Pick(2, "serializer") == 1
	x.Key("adders %v %v serializer %v", p[0], p[1], ser)
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		w.SetQuiet(true)
		g := filter.NewFilterGenerator()
		g.Append(99)
		w.SetQuiet(false)
		added := []uint64{99}
		var hs []*vrt.Handle
		for i := range p {
			i := i
			hs = append(hs, w.Go(fmt.Sprint("adder", i), func() {
				for _, k := range p[i] {
					g.Append(k)
					added = append(added, k)
				}
			}))
		}
		if ser {
			hs = append(hs, w.Go("serializer", func() {
				before := append([]uint64(nil), added...)
				b := filter.NewFilterBlock(g.Bytes())
				for _, k := range before {
					if !b.Test(k) {
						w.Fail("denied", "key %d was added before the copy was taken and is denied by it", k)
					}
				}
				w.Note(len(before))
			}))
		}
		w.Join(hs...)
		w.SetQuiet(true)
		b := filter.NewFilterBlock(g.Bytes())
		for _, k := range added {
			if !b.Test(k) {
				w.Fail("denied", "key %d was added by a concurrent thread and is denied", k)
			}
		}
		x.Count("tests", int64(len(added)))
	})
}

func c21() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "keys", Desc: "structured key sets in two orders with several sets of hash keys", Body: filterSets},
		{Name: "threads", Desc: "two adders, a serializer and a tester", Quick: 3, Deep: 4, Body: filterThreads},
	}
}
