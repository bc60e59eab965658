package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"

	"github.com/unit-io/unitdb/server/internal/message/security"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/utp"
	"vrt/vexp"
)

// allocated returns the bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// maxAlloc is far above what decoding inputs of at most a few hundred bytes needs.
const maxAlloc = 4 << 20

// readAll decodes whatever is in the bytes until an error; it must end.
func readAll(x *vexp.X, b []byte) (n int) {
	defer func() {
		if r := recover(); r != nil {
			x.Fail("panic", "decoding %x: %v", cut(b), r)
		}
	}()
	r := &chunks{b: b, n: 1 << 30}
	for {
		left := len(r.b)
		m, err := lp.Read(r)
		if err != nil {
			return n
		}
		if m == nil {
			x.Fail("nil", "decoding %x gives neither a message nor an error", cut(b))
		}
		m.Type()
		m.Info()
		n++
		if left == len(r.b) {
			x.Fail("progress", "decoding %x does not advance", cut(b))
		}
	}
}

func cut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// shortInput: every byte string up to a length.
func shortInput(x *vexp.X) {
	first := byte(x.Pick(256, "first byte"))
	x.Key("input starting with %#x", first)
	deep := x.Tier == "thorough"
	n := 0
	a := allocated(func() {
		readAll(x, []byte{first})
		for i := 0; i < 256; i++ {
			readAll(x, []byte{first, byte(i)})
			n++
			if deep || first < 10 {
				for j := 0; j < 256; j++ {
					readAll(x, []byte{first, byte(i), byte(j)})
					n++
				}
			}
		}
	})
	x.Count("inputs", int64(n))
	if a/uint64(n) > 1<<20 {
		x.Fail("allocation", "%d bytes are allocated for %d inputs of at most three bytes", a, n)
	}
	x.Distinct(first)
}

// mutated: every truncation and every single-byte alteration of every message.
func mutated(x *vexp.X) {
	all := samples()
	k := x.Pick(len(all), "message")
	b := encode(x, all[k])
	pos := x.Pick(len(b), "position")
	x.Key("%T, byte %d", all[k], pos)
	big := uint64(0)
	arg := 0
	readAll(x, b[:pos])
	for v := 0; v < 256; v++ {
		d := append([]byte(nil), b...)
		d[pos] = byte(v)
		if a := allocated(func() { readAll(x, d) }); a > big {
			big, arg = a, v
		}
		d = append(append(append([]byte(nil), b[:pos]...), byte(v)), b[pos:]...)
		if a := allocated(func() { readAll(x, d) }); a > big {
			big, arg = a, v
		}
	}
	x.Count("inputs", 512)
	if big > maxAlloc {
		x.Fail("allocation", "%d bytes are allocated for an input of %d bytes with value %d", big, len(b), arg)
	}
	x.Distinct(k, pos)
}

// varints as a hostile client may send them
var varints = [][]byte{{0}, {1}, {2}, {0x7f}, {0xff, 0x7f}, {0x80, 0x80, 0x20}, {0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x07}, {0xff, 0xff, 0xff, 0xff, 0x0f},
	{0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80}, {0x80}}

// headers: every combination of extreme header fields.
func headers(x *vexp.X) {
	typ, flow := x.Pick(len(varints), "type"), x.Pick(len(varints), "flow")
	x.Key("header fields %x %x", varints[typ], varints[flow])
	for _, length := range varints {
		var h []byte
		h = append(append(h, 0x08), varints[typ]...)
		h = append(append(h, 0x10), varints[flow]...)
		h = append(append(h, 0x18), length...)
		for _, size := range append([][]byte{{byte(len(h))}}, varints...) {
			in := append(append(append([]byte(nil), size...), h...), "some more bytes"...)
			if a := allocated(func() { readAll(x, in) }); a > maxAlloc {
				x.Fail("allocation", "%d bytes are allocated for %x", a, in)
			}
			x.Count("inputs", 1)
		}
	}
	x.Distinct(typ, flow)
}

// topics: every topic string over the characters that mean something.
func topics(x *vexp.X) {
	const alphabet = "/?.*a= "
	n := depth(x, 7, 8)
	s := make([]byte, 0, n)
	x.Key("topic")
	for i := 0; i < 2; i++ {
		if c := x.Pick(len(alphabet)+1, "char"); c < len(alphabet) {
			s = append(s, alphabet[c])
		}
	}
	x.Key("topics starting with %q", s)
	var rec func(s []byte)
	cnt := 0
	rec = func(s []byte) {
		cnt++
		parse(x, string(s))
		if len(s) == n {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			rec(append(s[:len(s):len(s)], alphabet[i]))
		}
	}
	if len(s) == 2 {
		rec(s)
	} else {
		parse(x, string(s))
	}
	for _, t := range []string{"\x00", "\xff\xfe", strings.Repeat("a", 70000), strings.Repeat("/", 70000), strings.Repeat("a.", 40000), "unitdb/", "unitdb//", "/unitdb", "unitdb/?", "é/é"} {
		parse(x, t)
	}
	x.Count("topics", int64(cnt))
	x.Distinct(string(s))
}

func parse(x *vexp.X, s string) {
	defer func() {
		if r := recover(); r != nil {
			x.Fail("panic", "topic %q: %v", cut([]byte(s)), r)
		}
	}()
	t := security.ParseKey(s)
	if t == nil {
		x.Fail("nil", "topic %q is parsed to nothing", cut([]byte(s)))
	}
	if t.TopicType == security.TopicInvalid {
		return
	}
	if t.Size < 0 || t.Size > len(t.Topic) {
		x.Fail("size", "topic %q: size %d of %q", cut([]byte(s)), t.Size, t.Topic)
	}
	t.Target()
	if k, err := security.DecodeKey(t.Key); err == nil {
		k.HasPermission(security.AllowRead)
		k.ValidateTopic(1, t.Topic[:t.Size])
	}
}

// keys: every key of the right and wrong length over all byte values in every position.
func badKeys(x *vexp.X) {
	good, _ := security.GenerateKey(77, "a.b", security.AllowReadWrite)
	pos := x.Pick(len(good), "position")
	x.Key("key altered at %d", pos)
	try := func(s string) {
		defer func() {
			if r := recover(); r != nil {
				x.Fail("panic", "key %q: %v", s, r)
			}
		}()
		if k, err := security.DecodeKey(s); err == nil {
			k.HasPermission(security.AllowRead)
			k.ValidateTopic(77, "a.b")
			k.ValidateTopic(0, "")
			k.IsEmpty()
		}
		x.Count("keys", 1)
	}
	for v := 0; v < 256; v++ {
		b := []byte(good)
		b[pos] = byte(v)
		try(string(b))
		for w := 0; w < 256; w++ {
			b[(pos+1)%len(b)] = byte(w)
			try(string(b))
		}
	}
	try(good[:pos])
	try(good + good[:pos])
	x.Distinct(pos)
}

func c24() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "short", Desc: "every short byte string", Weight: 2, Body: shortInput},
		{Name: "mutated", Desc: "every truncation, alteration and insertion of one byte in every message", Body: mutated},
		{Name: "headers", Desc: "all combinations of extreme header fields", Body: headers},
		{Name: "topics", Desc: "every topic string over the characters with a meaning", Body: topics},
		{Name: "keys", Desc: "keys altered in one or two characters", Body: badKeys},
	}
}

var _ = bytes.Equal
var _ = fmt.Sprint
var _ = utp.CONNECT
