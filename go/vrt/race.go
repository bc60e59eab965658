package vrt

import "unsafe"

// Accesses to shared memory, tracked in builds made with -race of vinstr. Two accesses that nothing orders are not a
// failure; they make their places in the code choice points of a second exploration (race-directed scheduling).

var (
	siteNames []string // names of the places, site 0 is an atomic operation
	racySites []bool   // places that are choice points
	detecting bool
	found     map[int32]bool
)

// RegisterSites gives the names of the places from base on.
func RegisterSites(base int, names []string) {
	for len(siteNames) < base+len(names) {
		siteNames = append(siteNames, "")
	}
	copy(siteNames[base:], names)
	racySites = make([]bool, len(siteNames))
}

// RaceBuild says whether accesses to memory are tracked.
func RaceBuild() bool { return len(siteNames) > 0 }

// SiteName is the place of a site.
func SiteName(s int32) string {
	if int(s) < len(siteNames) {
		return siteNames[s]
	}
	return "?"
}

// SetRacy makes the sites choice points and switches detection on or off.
func SetRacy(sites []int32, detect bool) {
	for i := range racySites {
		racySites[i] = false
	}
	for _, s := range sites {
		if int(s) < len(racySites) {
			racySites[s] = true
		}
	}
	detecting = detect
}

// TakeRaces returns the sites found to race since the last call.
func TakeRaces() []int32 {
	var r []int32
	for s := range found {
		r = append(r, s)
	}
	found = nil
	return r
}

type memRead struct {
	t    int32
	site int32
	c    uint32
}

type memShadow struct {
	wT    int32
	wSite int32
	wC    uint32
	reads []memRead
}

func memRace(a, b int32) {
	if a == 0 && b == 0 {
		return
	}
	if found == nil {
		found = map[int32]bool{}
	}
	for _, s := range [2]int32{a, b} {
		if s != 0 {
			found[s] = true
		}
	}
}

func access(p unsafe.Pointer, size uintptr, site int32, write bool) {
	if !detecting || p == nil {
		return
	}
	w, vc, id := hb()
	if w == nil || id < 0 {
		return
	}
	if w.mem == nil {
		w.mem = map[unsafe.Pointer]*memShadow{}
	}
	p = unsafe.Pointer(uintptr(p) &^ 7)
	n := (size + 7) / 8
	if n > 32 {
		n = 32
	}
	for i := uintptr(0); ; i++ {
		word(w, *vc, id, unsafe.Add(p, i*8), site, write)
		if i+1 >= n {
			break
		}
	}
}

func word(w *World, vc vclock, id int, p unsafe.Pointer, site int32, write bool) {
	s := w.mem[p]
	if s == nil {
		s = &memShadow{wT: -1}
		w.mem[p] = s
	}
	if s.wT >= 0 && int(s.wT) != id && !vc.has(int(s.wT), s.wC) {
		memRace(site, s.wSite)
	}
	if !write {
		for i := range s.reads {
			if r := &s.reads[i]; int(r.t) == id && r.site == site {
				r.c = vc[id]
				return
			}
		}
		if len(s.reads) < 64 {
			s.reads = append(s.reads, memRead{int32(id), site, vc[id]})
		}
		return
	}
	for _, r := range s.reads {
		if int(r.t) != id && !vc.has(int(r.t), r.c) {
			memRace(site, r.site)
		}
	}
	s.reads = s.reads[:0]
	s.wT, s.wSite, s.wC = int32(id), site, vc[id]
}

func at(site int) {
	if racySites[site] {
		if w := W; w != nil {
			w.Yield("mem")
		}
	}
}

// R is p, about to be read at a site.
func R[T any](p *T, site int) *T {
	if W == nil {
		return p
	}
	at(site)
	if unsafe.Sizeof(*p) == 1 {
		bytesAccess(unsafe.Pointer(p), 1, int32(site), false)
		return p
	}
	access(unsafe.Pointer(p), unsafe.Sizeof(*p), int32(site), false)
	return p
}

// Wr is p, about to be written at a site.
func Wr[T any](p *T, site int) *T {
	if W == nil {
		return p
	}
	at(site)
	if unsafe.Sizeof(*p) == 1 {
		bytesAccess(unsafe.Pointer(p), 1, int32(site), true)
		return p
	}
	access(unsafe.Pointer(p), unsafe.Sizeof(*p), int32(site), true)
	return p
}

// bytesAccess is an access to n bytes. Small objects share words, so the first byte stands for its word, and then only
// whole words count.
func bytesAccess(p unsafe.Pointer, n uintptr, site int32, write bool) {
	if !detecting || p == nil || n == 0 {
		return
	}
	w, vc, id := hb()
	if w == nil || id < 0 {
		return
	}
	if w.mem == nil {
		w.mem = map[unsafe.Pointer]*memShadow{}
	}
	word(w, *vc, id, p, site, write)
	for k, o := 0, 8-uintptr(p)&7; o+8 <= n && k < 32; k, o = k+1, o+8 {
		word(w, *vc, id, unsafe.Add(p, o), site, write)
	}
}

// AppendTo is s, about to be appended to: where it has room that is a write.
func AppendTo[S ~[]E, E any](s S, site int) S {
	if W == nil {
		return s
	}
	at(site)
	if n := len(s); cap(s) > n {
		p := &s[: n+1 : n+1][n]
		bytesAccess(unsafe.Pointer(p), unsafe.Sizeof(*p), int32(site), true)
	}
	return s
}

// CopyTo and CopyFrom are the operands of a copy.
func CopyTo[S ~[]E, E any](s S, site int) S {
	if W == nil {
		return s
	}
	at(site)
	if len(s) > 0 {
		bytesAccess(unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), int32(site), true)
	}
	return s
}

func CopyFrom[S ~[]E, E any](s S, site int) S {
	if W != nil && len(s) > 0 {
		bytesAccess(unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), int32(site), false)
	}
	return s
}

// BytesW and BytesR are a slice whose first bytes are about to be written or read.
func BytesW(s []byte, site int) []byte {
	if W != nil {
		at(site)
		if len(s) > 0 {
			bytesAccess(unsafe.Pointer(&s[0]), 1, int32(site), true)
		}
	}
	return s
}

func BytesR(s []byte, site int) []byte {
	if W != nil {
		at(site)
		if len(s) > 0 {
			bytesAccess(unsafe.Pointer(&s[0]), 1, int32(site), false)
		}
	}
	return s
}

// Done is v, after such an operation.
func Done[T any](v T, site int) T {
	if W != nil {
		at(site)
	}
	return v
}

// Zero is a zero value of the type of *p.
func Zero[T any](p *T) (v T) { return v }

// AtomicR and AtomicW note atomic operations.
func AtomicR(p unsafe.Pointer) { access(p, 1, 0, false) }

func AtomicW(p unsafe.Pointer) { access(p, 1, 0, true) }
