package main

import (
	"bytes"
	"fmt"

	"github.com/unit-io/unitdb/server/internal/message/security"
	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"vrt"
	"vrt/vexp"
)

// C32, C25: what connections do with identifiers and keys at the same time does not mix.

func c32() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "identifier threads", Desc: "all pairs of threads that make, encode and decode identifiers", Quick: 1, Deep: 2, Weight: 1, Body: idThreads},
	}
}

func c25() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "key threads", Desc: "all pairs of threads that make, decode and check keys", Quick: 1, Deep: 2, Weight: 1, Body: keyThreads},
	}
}

const idKey = "4BWm1vZletvrCDGWsF6mex8oBSd59m6I"

func idThreads(x *vexp.X) {
	kinds := []string{"encode", "decode", "primary", "secondary", "lid"}
	a := x.Pick(len(kinds), "thread")
	b := a + x.Pick(len(kinds)-a, "thread")
	one := x.Pick(2, "mac") == 1
	x.Key("%s with %s, one MAC %v", kinds[a], kinds[b], one)
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		newMac := func() *crypto.MAC {
			m, err := crypto.New([]byte(idKey))
			if err != nil {
				w.Fail("mac", "%v", err)
			}
			return m
		}
		macs := [2]*crypto.MAC{newMac(), newMac()}
		if one {
			macs[1] = macs[0]
		}
		var ids [2]uid.ID
		var texts [2]string
		w.Quiet(func() {
			for i := range ids {
				id := uid.ID(make([]byte, 12))
				id.SetEpoch(0x01020304 * uint32(i+1))
				id.SetPrimary(uint16(i + 1))
				id.SetPermissions(uint32(i))
				id.SetContract(0x10203040 + uint32(i)<<24)
				ids[i], texts[i] = id, id.Encode(macs[i])
			}
		})
		lids := map[uid.LID]bool{}
		contracts := map[uint32]bool{}
		run := func(i int, kind string) {
			m := macs[i]
			switch kind {
			case "encode":
				if t := ids[i].Encode(m); t != texts[i] {
					w.Fail("encode", "%x is encoded as %q and not as %q", []byte(ids[i]), t, texts[i])
				}
			case "decode":
				if d, err := uid.Decode([]byte(texts[i]), m); err != nil || !bytes.Equal(d, ids[i]) {
					w.Fail("decode", "%q is decoded as %x (%v)", texts[i], []byte(d), err)
				}
			case "primary":
				d, err := uid.NewClientID(uint16(i + 1))
				if err != nil || !d.IsPrimary() || d.Primary() != uint16(i+1) {
					w.Fail("primary", "a new identifier: %x %v", []byte(d), err)
				}
				if contracts[d.Contract()] {
					w.Fail("contract", "two primary identifiers have the contract %x", d.Contract())
				}
				contracts[d.Contract()] = true
			case "secondary":
				d, err := uid.NewSecondaryClientID(ids[i])
				if err != nil || d.IsPrimary() || d.Contract() != ids[i].Contract() {
					w.Fail("secondary", "a secondary identifier of %x: %x %v", []byte(ids[i]), []byte(d), err)
				}
				t := d.Encode(m)
				if e, err := uid.Decode([]byte(t), m); err != nil || !bytes.Equal(d, e) {
					w.Fail("secondary", "%x is decoded as %x (%v)", []byte(d), []byte(e), err)
				}
			case "lid":
				for k := 0; k < 2; k++ {
					l := uid.NewLID()
					if lids[l] {
						w.Fail("lid", "the connection number %d is given twice", l)
					}
					lids[l] = true
				}
			}
		}
		w.Join(w.Go("a", func() { run(0, kinds[a]) }), w.Go("b", func() { run(1, kinds[b]) }))
	})
	x.Distinct(x.GetKey())
}

func keyThreads(x *vexp.X) {
	topics := []string{"a.b", "a.*", "...", "b"}
	kinds := []string{"make", "decode", "parse"}
	k1, k2 := kinds[x.Pick(len(kinds), "thread")], kinds[x.Pick(len(kinds), "thread")]
	t1, t2 := topics[x.Pick(len(topics), "topic")], topics[x.Pick(len(topics), "topic")]
	x.Key("%s %s with %s %s", k1, t1, k2, t2)
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		perms := [2]uint32{security.AllowRead, security.AllowWrite}
		topic := [2]string{t1, t2}
		var keys [2]string
		w.Quiet(func() {
			for i := range keys {
				k, err := security.GenerateKey(uint32(7+i), topic[i], perms[i])
				if err != nil {
					w.Fail("make", "%v", err)
				}
				keys[i] = k
			}
		})
		run := func(i int, kind string) {
			switch kind {
			case "make":
				if k, err := security.GenerateKey(uint32(7+i), topic[i], perms[i]); err != nil || k != keys[i] {
					w.Fail("make", "a key for %s is %q and then %q (%v)", topic[i], keys[i], k, err)
				}
			case "decode":
				k, err := security.DecodeKey(keys[i])
				if err != nil || k.Permissions() != perms[i] || !k.HasPermission(perms[i]) || k.HasPermission(perms[1-i]) {
					w.Fail("decode", "the key for %s has permissions %x (%v)", topic[i], k.Permissions(), err)
				}
				if ok, _ := k.ValidateTopic(uint32(7+i), topic[i]); !ok {
					w.Fail("validate", "the key for %s is refused", topic[i])
				}
				if ok, _ := k.ValidateTopic(uint32(7+i), topic[i]+"xyz"); ok != (topic[i] == "...") {
					w.Fail("validate", "the key for %s is accepted for another topic: %v", topic[i], ok)
				}
			case "parse":
				text := fmt.Sprintf("%s/%s", keys[i], topic[i])
				if p := security.ParseKey(text); p.Key != keys[i] || p.Topic != topic[i] || p.Size != len(topic[i]) {
					w.Fail("parse", "%q is parsed as %+v", text, *p)
				}
			}
		}
		w.Join(w.Go("a", func() { run(0, k1) }), w.Go("b", func() { run(1, k2) }))
	})
	x.Distinct(x.GetKey())
}
