package vrt

import (
	"fmt"
	"unsafe"
)

// Happens-before tracking: vector clocks of threads and synchronisation objects, used to find accesses to one map
// that nothing orders (the Go runtime ends the process with "concurrent map writes" when they meet).

type vclock []uint32

// maxHB is the number of threads up to which accesses are tracked.
const maxHB = 1500

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

// SyncVar carries the clock of a synchronisation object.
type SyncVar struct {
	w  *World
	vc vclock
}

// hb is the clock of the running thread, or of the timer that fires.
func hb() (*World, *vclock, int) {
	w := W
	if w == nil || w.aborting || w.hbOff {
		return nil, nil, 0
	}
	if w.firing != nil {
		return w, &w.firing.vc, -1
	}
	if w.cur == nil {
		return nil, nil, 0
	}
	return w, &w.cur.vc, w.cur.id
}

// Acquire orders what follows after every earlier Release.
func (s *SyncVar) Acquire() {
	w, vc, _ := hb()
	if w == nil || s.w != w {
		return
	}
	vc.join(s.vc)
}

// Release orders what came before ahead of every later Acquire.
func (s *SyncVar) Release() {
	w, vc, id := hb()
	if w == nil {
		return
	}
	if s.w != w {
		s.w, s.vc = w, nil
	}
	s.vc.join(*vc)
	if id >= 0 {
		(*vc)[id]++
	}
}

// AcqRel does both.
func (s *SyncVar) AcqRel() {
	s.Acquire()
	s.Release()
}

// born gives a new thread its clock.
func (w *World) born(t *thread) {
	if w.hbOff {
		return
	}
	if len(w.threads) > maxHB {
		w.hbOff = true
		return
	}
	if w.firing != nil {
		t.vc.join(w.firing.vc)
	} else if w.cur != nil {
		t.vc.join(w.cur.vc)
		w.cur.vc[w.cur.id]++
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
}

// SyncAt is the SyncVar of an address.
func SyncAt(p unsafe.Pointer) *SyncVar {
	w := W
	if w == nil {
		return &SyncVar{}
	}
	if w.syncs == nil {
		w.syncs = map[unsafe.Pointer]*SyncVar{}
	}
	s := w.syncs[p]
	if s == nil {
		s = &SyncVar{}
		w.syncs[p] = s
	}
	return s
}

type mapShadow struct {
	ref interface{} // keeps the map alive, so that its address is not used again
	wT  int
	wC  uint32
	wAt string
	rC  vclock
	rAt []string
}

func shadow(w *World, p unsafe.Pointer, m interface{}) *mapShadow {
	if w.maps == nil {
		w.maps = map[unsafe.Pointer]*mapShadow{}
	}
	s := w.maps[p]
	if s == nil {
		s = &mapShadow{ref: m, wT: -1}
		w.maps[p] = s
	}
	return s
}

func (w *World) mapRace(what, at string, by int, otherAt string) {
	w.setFailure("map-race", fmt.Sprintf("fatal error: concurrent %s: %s in %s and %s in %s are not ordered", what, w.cur.name, at, w.threads[by].name, otherAt), "")
	w.parkForever()
}

func mapRead(p unsafe.Pointer, m func() interface{}, at string) {
	w, vc, id := hb()
	if w == nil || id < 0 || p == nil {
		return
	}
	s := w.maps[p]
	if s == nil {
		s = shadow(w, p, m())
	}
	if s.wT >= 0 && s.wT != id && !vc.has(s.wT, s.wC) {
		w.mapRace("map read and map write", at, s.wT, s.wAt)
	}
	if c := (*vc)[id]; len(s.rC) <= id || s.rC[id] != c {
		for len(s.rC) <= id {
			s.rC = append(s.rC, 0)
			s.rAt = append(s.rAt, "")
		}
		s.rC[id] = c
		s.rAt[id] = at
	}
}

func mapWrite(p unsafe.Pointer, m func() interface{}, at string) {
	w, vc, id := hb()
	if w == nil || id < 0 || p == nil {
		return
	}
	s := w.maps[p]
	if s == nil {
		s = shadow(w, p, m())
	}
	if s.wT >= 0 && s.wT != id && !vc.has(s.wT, s.wC) {
		w.mapRace("map writes", at, s.wT, s.wAt)
	}
	for t, c := range s.rC {
		if t != id && c > 0 && !vc.has(t, c) {
			w.mapRace("map read and map write", at, t, s.rAt[t])
		}
	}
	s.rC, s.rAt = s.rC[:0], s.rAt[:0]
	if s.wT != id || s.wC != (*vc)[id] {
		s.wT, s.wC, s.wAt = id, (*vc)[id], at
	}
}

func (a *vclock) has(t int, c uint32) bool { return t < len(*a) && (*a)[t] >= c }

// MapR is m, about to be read.
func MapR[M ~map[K]V, K comparable, V any](m M, at string) M {
	mapRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)), func() interface{} { return m }, at)
	return m
}

// MapW is m, about to be changed.
func MapW[M ~map[K]V, K comparable, V any](m M, at string) M {
	mapWrite(*(*unsafe.Pointer)(unsafe.Pointer(&m)), func() interface{} { return m }, at)
	return m
}
