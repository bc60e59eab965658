package main

import (
	"bytes"
	"fmt"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

var (
	rightKey = []byte("0123456789abcdef0123456789ABCDEF")
	wrongKey = []byte("0123456789abcdef0123456789ABCDEG")
)

// secret is an incompressible payload of length l.
func secret(l, n int) string {
	b := make([]byte, l)
	x := uint64(n+1)*0x9e3779b97f4a7c15 + uint64(l)
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return string(b)
}

// the ways a message can be asked to be encrypted
var encModes = []string{"db", "entry", "batch-option", "batch-entry", "none", "db-batch"}

// store stores a payload of length l in the given way.
func (s *sess) store(topic, mode string, l int) *msg {
	m := s.add(topic, 0)
	m.payload = secret(l, s.n)
	var err error
	switch mode {
	case "db", "none":
		err = s.db.Put([]byte(topic), []byte(m.payload))
	case "entry":
		err = s.db.PutEntry(unitdb.NewEntry([]byte(topic), []byte(m.payload)).WithEncryption())
	case "batch-option", "batch-entry", "db-batch":
		err = s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
			if mode == "batch-option" {
				b.SetOptions(unitdb.WithBatchEncryption())
			}
			e := unitdb.NewEntry([]byte(topic), []byte(m.payload))
			if mode == "batch-entry" {
				e = e.WithEncryption()
			}
			return b.PutEntry(e)
		})
	}
	s.err("put", err, "store(%s, %d bytes)", mode, l)
	s.ack(m)
	return m
}

// encThreads: what threads store at the same time, encrypted or not, is read back while and after they do.
func encThreads(x *vexp.X) {
	s := newSess(x, "a.b")
	s.opts = append(s.opts, noBackground(), unitdb.WithEncryptionKey(rightKey))
	modes := []string{"entry", "db", "none", "batch"}
	m1, m2 := modes[x.Pick(len(modes), "mode")], modes[x.Pick(len(modes), "mode")]
	third := []string{"", "get", "sync"}[x.Pick(3, "third")]
	l := []int{12, 40}[x.Pick(2, "length")]
	x.Key("%s and %s, %d bytes, %s", m1, m2, l, third)
	plain := append([]unitdb.Options{}, s.opts...)
	if m1 == "db" || m2 == "db" {
		s.opts = append(s.opts, unitdb.WithEncryption())
	}
	stored := []string{secret(l, 1), secret(l, 2), secret(l+3, 3), secret(l, 4)}
	mode := []string{"entry", m1, m2, m1}
	known := map[string]bool{}
	for _, p := range stored {
		known[p] = true
	}
	same := func(w *vrt.World, when string, got []string, all bool) {
		n := map[string]int{}
		for _, g := range got {
			if !known[g] {
				w.Fail("payload", "%s: a query returns %q, which was not stored", when, g)
			}
			if n[g]++; n[g] > 1 {
				w.Fail("twice", "%s: a query returns %q twice", when, g)
			}
		}
		if n[stored[0]] == 0 || all && len(n) != len(stored) {
			w.Fail("lost", "%s: a query returns %d of %d messages", when, len(n), len(stored))
		}
	}
	scan := func(w *vrt.World, when string) {
		for i, p := range stored {
			if mode[i] == "none" && len(s.opts) == len(plain) {
				continue
			}
			if f := clear(s.fs, p); f != "" {
				w.Fail("clear-text", "%s: %s holds an encrypted payload in clear", when, f)
			}
		}
	}
	s.in(vrt.Options{Sched: true}, func() {
		w := s.w
		put := func(i int) {
			var err error
			e := unitdb.NewEntry([]byte("a.b"), []byte(stored[i]))
			switch mode[i] {
			case "entry":
				err = s.db.PutEntry(e.WithEncryption())
			case "db", "none":
				err = s.db.PutEntry(e)
			case "batch":
				err = s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
					return b.PutEntry(e.WithEncryption())
				})
			}
			if err != nil {
				w.Fail("put", "storing: %v", err)
			}
		}
		w.Quiet(func() {
			s.open()
			put(0)
		})
		hs := []*vrt.Handle{w.Go("a", func() { put(1); put(3) }), w.Go("b", func() { put(2) })}
		switch third {
		case "get":
			hs = append(hs, w.Go("c", func() { same(w, "while storing", s.get("a.b", 0), false) }))
		case "sync":
			hs = append(hs, w.Go("c", func() {
				if err := s.db.Sync(); err != nil {
					w.Fail("sync", "Sync: %v", err)
				}
			}))
		}
		w.Join(hs...)
		w.Quiet(func() {
			same(w, "stored", s.get("a.b", 0), true)
			same(w, "read again", s.get("a.b", 0), true)
			s.tick(logTime)
			scan(w, "logged")
			s.sync()
			same(w, "synced", s.get("a.b", 0), true)
			s.db.Close()
			scan(w, "closed")
		})
	})
	c := s.clone(s.fs.Clone())
	c.opts = plain
	c.in(vrt.Options{}, func() {
		c.open()
		same(c.w, "reopened", c.get("a.b", 0), true)
		c.db.Close()
	})
	x.Distinct(x.GetKey())
}

// clear reports a file that holds part of a payload.
func clear(fs *vrt.FS, payload string) string {
	p := []byte(payload)
	if len(p) < 8 {
		return ""
	}
	for _, f := range fs.Files() {
		data := fs.Content(f)
		for i := 0; i+8 <= len(p); i += 8 {
			if bytes.Contains(data, p[i:i+8]) {
				return fmt.Sprintf("%s (payload bytes %d..%d)", f, i, i+8)
			}
		}
		if bytes.Contains(data, p[len(p)-8:]) {
			return f + " (last bytes)"
		}
	}
	return ""
}

func encBody(lens []int, modes []string, count int) func(x *vexp.X) {
	return func(x *vexp.X) {
		s := newSess(x, "a.b")
		s.opts = append(s.opts, noBackground(), unitdb.WithEncryptionKey(rightKey))
		first := modes[x.Pick(len(modes), "mode")]
		dbMode := first == "db" || first == "db-batch"
		type item struct {
			mode string
			l    int
		}
		items := []item{{first, lens[x.Pick(len(lens), "length")]}}
		for i := 1; i < count; i++ {
			items = append(items, item{modes[x.Pick(len(modes), "mode")], lens[x.Pick(len(lens), "length")]})
		}
		for _, it := range items {
			x.AddKey("%s:%d", it.mode, it.l)
		}
		crash := flag(x, "crash")
		opts := append([]unitdb.Options{}, s.opts...)
		if dbMode {
			s.opts = append(s.opts, unitdb.WithEncryption())
		}
		var enc []*msg
		scan := func(when string) {
			for _, m := range enc {
				if f := clear(s.fs, m.payload); f != "" {
					s.w.Fail("clear-text", "%s: %s holds the payload of an encrypted message of %d bytes in clear", when, f, len(m.payload))
				}
			}
		}
		s.in(vrt.Options{}, func() {
			s.open()
			for i, it := range items {
				m := s.store("a.b", it.mode, it.l)
				if dbMode || it.mode == "entry" || it.mode == "batch-option" || it.mode == "batch-entry" {
					enc = append(enc, m)
				}
				s.checkAll(0, 1)
				if i == len(items)-1 && crash {
					s.tick(logTime)
					scan("logged")
					return
				}
			}
			s.tick(logTime)
			scan("logged")
			s.checkAll(0)
			s.sync()
			scan("synced")
			s.checkAll(0, 1)
			s.close()
			scan("closed")
		})
		// another key does not read it
		wrong := s.clone(s.fs.Clone())
		wrong.opts = append(append([]unitdb.Options{}, opts...), unitdb.WithEncryptionKey(wrongKey))
		wrong.in(vrt.Options{}, func() {
			if !wrong.open() {
				return
			}
			for l := 1; l <= len(items)+1; l++ {
				got, _ := wrong.query(unitdb.NewQuery([]byte("a.b")), l)
				for _, g := range got {
					for _, m := range enc {
						if g == m.payload {
							wrong.w.Fail("wrong-key", "a message of %d bytes encrypted under one key is returned with another", len(g))
						}
					}
				}
			}
			wrong.db.Close()
		})
		// the right key does, whether or not encryption is asked for again
		for _, again := range []bool{false, true} {
			c := s.clone(s.fs.Clone())
			c.opts = opts
			if again {
				c.opts = append(append([]unitdb.Options{}, opts...), unitdb.WithEncryption())
			}
			c.in(vrt.Options{}, func() {
				c.open()
				c.checkAll(0, 1)
				m := c.store("a.b", "none", 30)
				c.checkAll(0, 1)
				c.synced()
				c.checkAll(0)
				if again {
					if f := clear(c.fs, m.payload); f != "" {
						c.w.Fail("clear-text", "reopened with encryption: %s holds a payload in clear", f)
					}
				}
				c.reopen()
				c.checkAll(0)
				c.db.Close()
			})
		}
		x.Distinct(x.GetKey())
	}
}

func span(a, b int) (out []int) {
	for ; a <= b; a++ {
		out = append(out, a)
	}
	return out
}

func c09() []vexp.Scenario {
	lens := append(span(1, 70), 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537)
	if vrt.RaceBuild() {
		return []vexp.Scenario{
			{Name: "threads", Desc: "threads store messages in all pairs of ways while another queries or syncs; then everything is read, synced and reopened", Quick: 1, Deep: 3, Weight: 3, Body: encThreads},
		}
	}
	return []vexp.Scenario{
		{Name: "lengths", Desc: "every payload length 1..70 and around powers of two, every way of asking for encryption; file scan at each stage; wrong key; right key", Weight: 3,
			Body: encBody(lens, encModes, 1)},
		{Name: "mixed", Desc: "pairs of messages stored in different ways in one topic", Weight: 3,
			Body: encBody([]int{1, 4, 9, 40, 300}, encModes, 2)},
		{Name: "triples", Desc: "triples, encrypted and not", Weight: 2,
			Body: encBody([]int{2, 33}, []string{"none", "entry", "batch-option"}, 3)},
	}
}
