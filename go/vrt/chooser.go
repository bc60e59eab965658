package vrt

import "fmt"

// Choice is one recorded choice.
type Choice struct{ N, C, Cost int32 }

// Dev is a deviation from the default choice (0) at position I of the choice sequence.
type Dev struct {
	I, C, N, K int32
}

// Chooser replays a list of deviations, taking defaults elsewhere, and records everything.
type Chooser struct {
	Devs     []Dev
	next     int
	Trace    []Choice
	Diverged string
}

// NewChooser replays devs, which are ordered by position.
func NewChooser(devs []Dev) *Chooser { return &Chooser{Devs: devs} }

// Choose picks one of n alternatives; alternative 0 is free, the others cost cost.
func (c *Chooser) Choose(n, cost int, what string) int {
	i := int32(len(c.Trace))
	pick := int32(0)
	if c.next < len(c.Devs) && c.Devs[c.next].I == i {
		d := c.Devs[c.next]
		c.next++
		if int(d.N) != n || int(d.K) != cost {
			if c.Diverged == "" {
				c.Diverged = fmt.Sprintf("choice %d (%s): %d alternatives at cost %d, expected %d at %d", i, what, n, cost, d.N, d.K)
			}
		}
		if int(d.C) < n {
			pick = d.C
		}
	}
	c.Trace = append(c.Trace, Choice{N: int32(n), C: pick, Cost: int32(cost)})
	return int(pick)
}

// Done reports whether all deviations were replayed.
func (c *Chooser) Done() bool { return c.next >= len(c.Devs) }
