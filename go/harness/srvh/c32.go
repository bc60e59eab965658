package main

import (
	"bytes"

	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"vrt"
	"vrt/vexp"
)

func mac(x *vexp.X, s string) *crypto.MAC {
	m, err := crypto.New([]byte(s))
	if err != nil {
		x.Fail("mac", "%v", err)
	}
	return m
}

const (
	key1 = "4BWm1vZletvrCDGWsF6mex8oBSd59m6I"
	key2 = "5BWm1vZletvrCDGWsF6mex8oBSd59m6I"
)

func makeID(epoch uint32, primary uint16, perm, contract uint32) uid.ID {
	id := uid.ID(make([]byte, 12))
	id.SetEpoch(epoch)
	id.SetPrimary(primary)
	id.SetPermissions(perm)
	id.SetContract(contract)
	return id
}

func decode(x *vexp.X, m *crypto.MAC, text []byte) (id uid.ID, err error) {
	defer func() {
		if r := recover(); r != nil {
			x.Fail("panic", "decoding %q: %v", text, r)
		}
	}()
	return uid.Decode(append([]byte(nil), text...), m)
}

var idValues = []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}

// identities: all boundary values of all fields.
func identities(x *vexp.X) {
	epoch := idValues[x.Pick(len(idValues), "epoch")]
	m, other := mac(x, key1), mac(x, key2)
	for _, c := range idValues {
		for _, p := range []uint16{0, 1, 0x80, 0xff, 0x100, 0xffff} {
			for _, perm := range []uint32{0, 1, 2, 0xff} {
				id := makeID(epoch, p, perm, c)
				x.Key("identifier %x", []byte(id))
				if id.Epoch() != epoch || id.Contract() != c || id.Primary() != p || id.Permissions() != perm {
					x.Fail("fields", "epoch %x contract %x primary %x permissions %x", id.Epoch(), id.Contract(), id.Primary(), id.Permissions())
				}
				text := id.Encode(m)
				if got, err := decode(x, m, []byte(text)); err != nil || !bytes.Equal(got, id) {
					x.Fail("differs", "%q is decoded as %x (%v)", text, []byte(got), err)
				}
				if id.Encode(m) != text {
					x.Fail("stable", "encoding again gives %q instead of %q", id.Encode(m), text)
				}
				if got, err := decode(x, other, []byte(text)); err == nil {
					x.Fail("key", "%q is accepted with another key as %x", text, []byte(got))
				}
				if id.IsPrimary() != (perm == uid.AllowMaster) {
					x.Fail("primary", "IsPrimary is %v", id.IsPrimary())
				}
				x.Count("identifiers", 1)
				x.Distinct([]byte(id))
			}
		}
	}
}

// altered: no alteration gives another identity.
func altered(x *vexp.X) {
	m := mac(x, key1)
	ids := []uid.ID{makeID(0xffee1234, 1, 1, 0x01020304), makeID(0, 0, 0, 0), makeID(0xffffffff, 1, 0, 0xffffffff)}
	id := ids[x.Pick(len(ids), "identifier")]
	text := []byte(id.Encode(m))
	pos := x.Pick(len(text), "position")
	x.Key("identifier %x altered at %d", []byte(id), pos)
	try := func(b []byte) {
		got, err := decode(x, m, b)
		if err == nil && !bytes.Equal(got, id) {
			x.Fail("accepted", "%q is accepted as %x", b, []byte(got))
		}
		x.Count("alterations", 1)
	}
	for v := 0; v < 256; v++ {
		b := append([]byte(nil), text...)
		b[pos] = byte(v)
		try(b)
		for q := 0; q < len(text); q++ {
			if q != pos {
				for _, w := range []byte{'A', 'B', 'Q', 'f', '0', 0xff} {
					c := append([]byte(nil), b...)
					c[q] = w
					if v < 8 || x.Tier == "thorough" {
						try(c)
					}
				}
			}
		}
		c := append(append(append([]byte(nil), text[:pos]...), byte(v)), text[pos:]...)
		try(c)
	}
	if _, err := decode(x, m, text[:pos]); err == nil {
		x.Fail("truncated", "%q is accepted", text[:pos])
	}
	b := append(append([]byte(nil), text[:pos]...), text[pos+1:]...)
	if _, err := decode(x, m, b); err == nil {
		x.Fail("truncated", "%q is accepted", b)
	}
	// parts of two identifiers
	for _, o := range ids {
		t := []byte(o.Encode(m))
		c := append(append([]byte(nil), text[:pos]...), t[pos:]...)
		if got, err := decode(x, m, c); err == nil && !bytes.Equal(got, id) && !bytes.Equal(got, o) {
			x.Fail("accepted", "%q is accepted as %x", c, []byte(got))
		}
	}
	x.Distinct(x.GetKey())
}

// minted: identifiers made by the server.
func minted(x *vexp.X) {
	x.Key("minted")
	x.World(vrt.Options{}, func(w *vrt.World) {
		m := mac(x, key1)
		a, err := uid.NewClientID(1)
		if err != nil || !a.IsPrimary() || a.Primary() != 1 {
			w.Fail("primary", "a new identifier: %x %v", []byte(a), err)
		}
		b, _ := uid.NewClientID(1)
		if a.Contract() == b.Contract() {
			w.Fail("contract", "two primary identifiers have the contract %x", a.Contract())
		}
		for i := 0; i < 4; i++ {
			s, err := uid.NewSecondaryClientID(a)
			if err != nil || s.IsPrimary() || s.Contract() != a.Contract() {
				w.Fail("secondary", "a secondary identifier of %x: %x %v", []byte(a), []byte(s), err)
			}
			c, err := uid.CachedClientID(a.Contract())
			if err != nil || c.IsPrimary() || c.Contract() != a.Contract() {
				w.Fail("cached", "an identifier of contract %x: %x %v", a.Contract(), []byte(c), err)
			}
			t := s.Encode(m)
			if got, err := decode(x, m, []byte(t)); err != nil || !bytes.Equal(got, s) {
				w.Fail("differs", "%q is decoded as %x (%v)", t, []byte(got), err)
			}
		}
	})
	x.Distinct("minted")
}

func c32() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "identities", Desc: "boundary values of every field", Body: identities},
		{Name: "altered", Desc: "every alteration of one character and many of two, truncations and extensions", Body: altered},
		{Name: "minted", Desc: "identifiers the server makes", Body: minted},
	}
}
