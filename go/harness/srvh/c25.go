package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/unit-io/unitdb/server/internal/message/security"
	rh "github.com/unit-io/unitdb/server/internal/pkg/hash"
	"github.com/unit-io/unitdb/server/internal/types"
	"vrt/vexp"
)

var contracts = []uint32{3376684800, 1, 0x01020304, 0xfedcba98}

func keyTopics(n int) []string {
	parts := []string{"a", "b1", "unit8", "*"}
	var out []string
	level := []string{""}
	for d := 0; d < n; d++ {
		var next []string
		for _, p := range level {
			for _, q := range parts {
				t := q
				if p != "" {
					t = p + "." + q
				}
				next = append(next, t)
			}
		}
		out = append(out, next...)
		for _, t := range level {
			if t == "" {
				out = append(out, "...")
			} else {
				out = append(out, t+"...")
			}
		}
		level = next
	}
	for _, k := range []int{22, 23} {
		out = append(out, strings.TrimSuffix(strings.Repeat("p.", k), "."), strings.TrimSuffix(strings.Repeat("*.", k), "."))
	}
	sort.Strings(out)
	j := 0
	for i := range out {
		if i == 0 || out[i] != out[i-1] {
			out[j] = out[i]
			j++
		}
	}
	return out[:j]
}

var flags = []uint32{security.AllowOwner, security.AllowAdmin, security.AllowRead, security.AllowWrite, security.AllowReadWrite}

func wildcard(t string) bool {
	if strings.HasSuffix(t, "...") {
		return true
	}
	for _, p := range strings.Split(t, ".") {
		if strings.HasSuffix(p, "*") {
			return true
		}
	}
	return false
}

// grants: every key against every request.
func grants(x *vexp.X) {
	ts := keyTopics(depth(x, 3, 4))
	contract := contracts[x.Pick(len(contracts), "contract")]
	i := x.Pick(len(ts), "topic")
	topic := ts[i]
	for perm := uint32(0); perm < 32; perm += 2 {
		x.Key("key for %q with permissions %d, contract %#x", topic, perm, contract)
		text, err := security.GenerateKey(contract, topic, perm)
		if err != nil {
			x.Fail("generate", "%v", err)
		}
		key, err := security.DecodeKey(text)
		if err != nil {
			x.Fail("decode", "%q: %v", text, err)
		}
		if strings.ContainsAny(text, "/?") {
			x.Fail("text", "the key %q cannot be told from a topic", text)
		}
		for _, f := range append([]uint32{security.AllowNone}, flags...) {
			if key.HasPermission(f) != (perm&f == f) {
				x.Fail("permission", "HasPermission(%d) is %v", f, key.HasPermission(f))
			}
		}
		req := ts
		if perm != security.AllowReadWrite {
			req = []string{topic, "a", "other.topic"}
		}
		for _, r := range req {
			p := security.ParseKey(text + "/" + r)
			if p.TopicType == security.TopicInvalid || p.Key != text || p.Topic != r || p.Size != len(r) {
				x.Fail("parse", "%q is parsed as %+v", text+"/"+r, p)
			}
			if q := security.ParseKey(text + "/" + r + "?ttl=1m"); q.Key != text || q.Topic[:q.Size] != r {
				x.Fail("parse", "%q with an option is parsed as %+v", text+"/"+r, q)
			}
			ok, wild := key.ValidateTopic(contract, r)
			if ok != (topic == "..." || topic == r) {
				x.Fail("scope", "a request for %q: %v", r, ok)
			}
			if ok && wild != wildcard(topic) {
				x.Fail("wildcard", "a request for %q: wildcard %v", r, wild)
			}
			x.Count("requests", 1)
		}
		x.Distinct(contract, topic, perm)
	}
	// a key for another contract; a topic whose letters cannot be confused
	for _, c := range contracts {
		for _, t := range []string{"groups.private.673651407196578720", "abcdefghij.klmnop"} {
			text, _ := security.GenerateKey(c, t, security.AllowReadWrite)
			key, _ := security.DecodeKey(text)
			if ok, _ := key.ValidateTopic(contract, t); ok != (c == contract) {
				x.Fail("contract", "a key for %q of contract %#x is accepted for contract %#x: %v", t, c, contract, ok)
			}
		}
	}
	for k := 24; k < 30; k++ {
		if _, err := security.GenerateKey(contract, strings.TrimSuffix(strings.Repeat("p.", k), "."), 8); err == nil {
			x.Fail("long", "a key for a topic of %d parts is made", k)
		}
	}
}

// bytesOfKeys: the text of a key carries all of its bytes.
func bytesOfKeys(x *vexp.X) {
	i := x.Pick(8, "byte")
	j := x.Pick(8, "byte")
	for v := 0; v < 256; v++ {
		for w := 0; w < 256; w += 15 {
			k := security.Key{1, 2, 3, 4, 5, 6, 7, 8}
			k[i] = byte(v)
			k[j] = byte(w)
			x.Key("key %x", []byte(k))
			d, err := security.DecodeKey(k.Encode())
			if err != nil || string(d) != string(k) {
				x.Fail("differs", "the key comes back as %x (%v)", []byte(d), err)
			}
			x.Count("keys", 1)
		}
	}
	x.Distinct(i, j)
}

// access: the permissions asked for in a key request.
func access(x *vexp.X) {
	const letters = "rwoax"
	n := x.Pick(6, "length")
	s := ""
	for i := 0; i < n; i++ {
		s += letters[x.Pick(len(letters), "letter"):][:1]
	}
	x.Key("permissions %q", s)
	want := uint32(0)
	for _, c := range s {
		switch c {
		case 'r':
			want |= security.AllowRead
		case 'w':
			want |= security.AllowWrite
		case 'a':
			want |= security.AllowAdmin | security.AllowReadWrite
		case 'o':
			want |= security.AllowOwner | security.AllowAdmin | security.AllowReadWrite
		}
	}
	r := types.KeyGenRequest{Type: s}
	if r.Access() != want {
		x.Fail("access", "the request gives %d, want %d", r.Access(), want)
	}
	x.Distinct(s)
}

func c25() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "grants", Desc: "every key against every request", Body: grants},
		{Name: "bytes", Desc: "every byte of a key survives its text", Body: bytesOfKeys},
		{Name: "access", Desc: "every key request", Body: access},
	}
}

// cluster ring

var members = []string{"one", "two", "three", "four", "five", "1", "11"}

func ringKeys() []string {
	var out []string
	for i := 0; i < 200; i++ {
		out = append(out, fmt.Sprint(uint32(i)*2654435761), fmt.Sprint(i), "0"+members[i%len(members)], fmt.Sprint(i%20)+members[i%len(members)])
	}
	return append(out, "", "4294967295", members[0])
}

func rings(x *vexp.X) {
	max := depth(x, 5, 6)
	n := 1 + x.Pick(max, "members")
	replicas := []int{1, 2, 20}[x.Pick(3, "replicas")]
	// the hash function of the ring, and ones with many collisions
	weak := x.Pick(3, "hash")
	var fn rh.Hash
	if weak > 0 {
		fn = func(b []byte) uint32 {
			h := uint32(2166136261)
			for _, c := range b {
				h = (h ^ uint32(c)) * 16777619
			}
			return h % []uint32{1, 7}[weak-1]
		}
	}
	var set []string
	rest := append([]string(nil), members...)
	for i := 0; i < n; i++ {
		k := x.Pick(len(rest), "member")
		set = append(set, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	x.Key("%v, %d replicas, hash %d", set, replicas, weak)
	r := rh.NewRing(replicas, fn)
	r.Add(set...)
	sorted := append([]string(nil), set...)
	sort.Strings(sorted)
	ref := rh.NewRing(replicas, fn)
	ref.Add(sorted...)
	one := rh.NewRing(replicas, fn)
	for _, m := range set {
		one.Add(m)
	}
	if r.Signature() != ref.Signature() || one.Signature() != ref.Signature() {
		x.Fail("signature", "the signature depends on the order: %q %q %q", r.Signature(), ref.Signature(), one.Signature())
	}
	if r.Len() != n*replicas {
		x.Fail("length", "the ring has %d places, want %d", r.Len(), n*replicas)
	}
	in := map[string]bool{}
	for _, m := range set {
		in[m] = true
	}
	fewer := rh.NewRing(replicas, fn)
	fewer.Add(set[:n-1]...)
	more := rh.NewRing(replicas, fn)
	more.Add(append(append([]string(nil), set...), rest[0])...)
	if fewer.Signature() == r.Signature() || more.Signature() == r.Signature() || fewer.Signature() == more.Signature() {
		x.Fail("signature", "different members have the same signature")
	}
	swapped := rh.NewRing(replicas, fn)
	swapped.Add(append(append([]string(nil), set[:n-1]...), rest[0])...)
	if swapped.Signature() == r.Signature() {
		x.Fail("signature", "%s instead of %s has the same signature", rest[0], set[n-1])
	}
	for _, k := range ringKeys() {
		o := r.Get(k)
		if !in[o] {
			x.Fail("owner", "%q is owned by %q which is no member", k, o)
		}
		if ref.Get(k) != o || one.Get(k) != o || r.Get(k) != o {
			x.Fail("agree", "%q is owned by %q, %q or %q depending on the order", k, o, ref.Get(k), one.Get(k))
		}
		if m := more.Get(k); m != o && m != rest[0] {
			x.Fail("moved", "%q moves from %q to %q when %q joins", k, o, m, rest[0])
		}
		x.Count("keys", 1)
	}
	x.Distinct(x.GetKey())
}

func c27() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "rings", Desc: "all ordered selections of members", Body: rings},
	}
}
