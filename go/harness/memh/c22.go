package main

import (
	"fmt"

	"github.com/unit-io/unitdb/hash"
	"vrt/vexp"
)

func hashKeys(n int) []uint64 {
	var out []uint64
	for i := 0; i < n; i++ {
		out = append(out, uint64(i), uint64(i)<<32, uint64(i)*0x9e3779b97f4a7c15)
	}
	for i := uint(0); i < 64; i++ {
		out = append(out, 1<<i, ^uint64(0)<<i, ^uint64(0)>>i)
	}
	return out
}

func assign(x *vexp.X, c *hash.Consistent, keys []uint64, blocks int, work map[int]bool) []uint16 {
	out := make([]uint16, len(keys))
	for i, k := range keys {
		b := c.FindBlock(k)
		if int(b) >= blocks || !work[int(b)] {
			x.Fail("range", "key %#x is assigned to block %d which is not in use (of %d)", k, b, blocks)
		}
		if c.FindBlock(k) != b {
			x.Fail("unstable", "key %#x is assigned differently the second time", k)
		}
		p := c.GetPath(k, nil)
		if len(p) == 0 || p[len(p)-1] != b {
			x.Fail("path", "the path %v of key %#x does not end in its block %d", p, k, b)
		}
		out[i] = b
	}
	x.Count("assignments", int64(len(keys)))
	return out
}

// hashChanges: every sequence of adding and removing blocks moves only the keys it has to.
func hashChanges(x *vexp.X) {
	blocks := 2 + x.Pick(depth(x, 5, 7), "blocks")
	used := 1 + x.Pick(blocks, "in use")
	n := x.Pick(depth(x, 6, 7), "changes")
	keys := hashKeys(150)
	c := hash.InitConsistent(blocks, used)
	d := hash.InitConsistent(blocks, used)
	x.Key("%d blocks, %d in use:", blocks, used)
	work := map[int]bool{}
	var removed []int // most recent last
	var saved [][]uint16
	for b := 0; b < blocks; b++ {
		work[b] = b < used
	}
	for b := blocks - 1; b >= used; b-- {
		removed = append(removed, b)
		saved = append(saved, nil)
	}
	cur := assign(x, c, keys, blocks, work)
	same := func() {
		e := assign(x, d, keys, blocks, work)
		for i := range e {
			if e[i] != cur[i] {
				x.Fail("disagree", "two instances with the same history assign key %#x to %d and %d", keys[i], cur[i], e[i])
			}
		}
	}
	same()
	for s := 0; s < n; s++ {
		var w []int
		for b := 0; b < blocks; b++ {
			if work[b] {
				w = append(w, b)
			}
		}
		can := 0
		if len(w) > 1 {
			can = len(w)
		}
		add := 0
		if len(removed) > 0 {
			add = 1
		}
		if can+add == 0 {
			break
		}
		ch := x.Pick(can+add, "change")
		if ch < can {
			b := w[ch]
			x.AddKey("remove %d", b)
			c.RemoveBlock(uint16(b))
			d.RemoveBlock(uint16(b))
			work[b] = false
			removed = append(removed, b)
			saved = append(saved, cur)
			next := assign(x, c, keys, blocks, work)
			for i := range keys {
				if next[i] != cur[i] && int(cur[i]) != b {
					x.Fail("moved", "removing block %d moved key %#x from block %d to %d", b, keys[i], cur[i], next[i])
				}
			}
			cur = next
		} else {
			x.AddKey("add")
			b := int(c.AddBlock())
			d.AddBlock()
			if b >= blocks || work[b] {
				x.Fail("add", "AddBlock gives block %d which is in use", b)
			}
			work[b] = true
			next := assign(x, c, keys, blocks, work)
			for i := range keys {
				if next[i] != cur[i] && int(next[i]) != b {
					x.Fail("moved", "adding block %d moved key %#x from block %d to %d", b, keys[i], cur[i], next[i])
				}
			}
			last := removed[len(removed)-1]
			old := saved[len(saved)-1]
			removed, saved = removed[:len(removed)-1], saved[:len(saved)-1]
			if b == last && old != nil {
				for i := range keys {
					if next[i] != old[i] {
						x.Fail("restore", "adding block %d back assigns key %#x to block %d, it was in %d before", b, keys[i], next[i], old[i])
					}
				}
			}
			cur = next
		}
		same()
	}
	x.Note(x.GetKey(), fmt.Sprint(cur))
}

// hashSizes: every number of blocks.
func hashSizes(x *vexp.X) {
	blocks := 1 + x.Pick(depth(x, 300, 3000), "blocks")
	x.Key("%d blocks", blocks)
	keys := hashKeys(200)
	work := map[int]bool{}
	for b := 0; b < blocks; b++ {
		work[b] = true
	}
	a := assign(x, hash.InitConsistent(blocks, blocks), keys, blocks, work)
	b := assign(x, hash.InitConsistent(blocks, blocks), keys, blocks, work)
	used := map[uint16]bool{}
	for i := range keys {
		if a[i] != b[i] {
			x.Fail("disagree", "two instances assign key %#x to %d and %d", keys[i], a[i], b[i])
		}
		used[a[i]] = true
	}
	if blocks <= 8 && len(used) != blocks {
		x.Fail("unused", "only %d of %d blocks are ever used", len(used), blocks)
	}
	x.Note(fmt.Sprint(a))
	if blocks > 40 {
		return
	}
	// fewer blocks in use
	for u := 1; u < blocks; u++ {
		for b := 0; b < blocks; b++ {
			work[b] = b < u
		}
		assign(x, hash.InitConsistent(blocks, u), keys, blocks, work)
	}
}

func c22() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "changes", Desc: "all sequences of adding and removing blocks", Weight: 2, Body: hashChanges},
		{Name: "sizes", Desc: "every number of blocks", Body: hashSizes},
	}
}
