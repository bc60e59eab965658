package main

import (
	"strings"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

// matches is the oracle: '*' stands for one level, a trailing '...' for one or more levels.
func matches(pattern, topic string) bool {
	multi := false
	if strings.HasSuffix(pattern, "...") {
		multi = true
		pattern = strings.TrimRight(pattern, ".")
	}
	var ps []string
	if pattern != "" {
		ps = strings.Split(pattern, ".")
	}
	ts := strings.Split(topic, ".")
	if multi && len(ts) <= len(ps) || !multi && len(ts) != len(ps) {
		return false
	}
	for i, p := range ps {
		if p != "*" && p != ts[i] {
			return false
		}
	}
	return true
}

var plain = []string{"a", "b", "a.a", "a.b", "b.a", "b.b", "a.b.a", "a.a.b", "a.b.b", "b.a.b", "a.b.a.b", "ab", "c.a"}

var patterns = []string{"a", "a.b", "b.a", "a.b.a", "a.a.b", "*", "a.*", "*.b", "*.*", "a.*.b", "*.b.*", "a.b.*", "*.*.b", "a.*.*", "a...", "b...", "a.b...", "*.a...", "a.*...", "*...", "...", "*.*.*", "*.b.*.b", "a.a", "ab"}

func topicsBody(n, deepN int, set []string, contract uint32) func(x *vexp.X) {
	return func(x *vexp.X) {
		k := depth(x, n, deepN)
		s := newSess(x)
		s.opts = append(s.opts, noBackground())
		var ps []string
		for i := 0; i < k; i++ {
			p := set[x.Pick(len(set), "pattern")]
			ps = append(ps, p)
			x.AddKey("%s", p)
		}
		s.in(vrt.Options{}, func() {
			s.open()
			for i, p := range ps {
				m := s.add(p, contract)
				m.id = s.db.NewID()
				if err := s.db.PutEntry(s.entry(m)); err != nil {
					if strings.HasPrefix(p, "...") {
						// a topic of only a multi level wildcard may be refused
						m.delAcked = true
						continue
					}
					s.w.Fail("put", "Put(%s): %v", p, err)
				}
				s.ack(m)
				if i == 0 {
					s.synced()
				}
			}
			all := func(when string) {
				for _, t := range plain {
					q := unitdb.NewQuery([]byte(t))
					if contract != 0 {
						q = q.WithContract(contract)
					}
					got, err := s.query(q, 0)
					if err != nil {
						s.w.Fail("get-error", "Get(%s): %v", t, err)
					}
					want := s.want(func(m *msg) bool { return matches(m.topic, t) }, 0)
					if !equal(got, want) {
						s.w.Fail("match", "%s: Get(%s) = %s, want %s; stored under %s", when, t, short(got), short(want), strings.Join(ps, ", "))
					}
				}
			}
			all("in memory")
			s.synced()
			all("synced")
			s.reopen()
			all("reopened")
			s.db.Close()
			x.Distinct(x.GetKey())
		})
	}
}

func c06() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "pairs", Desc: "every ordered pair of stored topics/patterns, queried by every plain topic, in memory, synced and reopened", Weight: 2, Body: topicsBody(2, 3, patterns, 0)},
		{Name: "triples", Desc: "every ordered triple from a smaller set", Weight: 2, Body: topicsBody(4, 5, []string{"a", "a.b", "a.*", "*.b", "a...", "a.*.b", "*...", "a.b.*"}, 0)},
		{Name: "contract", Desc: "pairs under another contract", Weight: 1, Body: topicsBody(2, 3, patterns, 77)},
	}
}
