package vrt

import (
	"reflect"
	"sort"
	"unsafe"
)

// ResetVars makes every world start with the package variables as they were after initialisation.
var ResetVars bool

// VarPrefix is the prefix of the packages whose types are followed.
var VarPrefix = "github.com/unit-io/"

var (
	varTable = map[string]interface{}{}
	varSnap  []func()
	varDone  bool
)

// RegisterVars is called by instrumented packages with pointers to their variables.
func RegisterVars(pkg string, m map[string]interface{}) {
	for k, v := range m {
		varTable[pkg+"."+k] = v
	}
}

var varInits []func()

// RegisterInit is called by instrumented packages with functions that compute variables again.
func RegisterInit(f func()) { varInits = append(varInits, f) }

// reinitVars gives variables computed by calls the values they have in a process that starts now.
func reinitVars() {
	if !ResetVars {
		return
	}
	for _, f := range varInits {
		func() {
			defer func() { recover() }()
			f()
		}()
	}
}

func resetVars() {
	if !ResetVars {
		return
	}
	if !varDone {
		varDone = true
		var names []string
		for k := range varTable {
			names = append(names, k)
		}
		sort.Strings(names)
		seen := map[unsafe.Pointer]bool{}
		for _, k := range names {
			snapValue(reflect.ValueOf(varTable[k]).Elem(), seen, 0)
		}
		return
	}
	for _, f := range varSnap {
		f()
	}
}

// snapValue records how to restore an addressable value and what it refers to.
func snapValue(v reflect.Value, seen map[unsafe.Pointer]bool, depth int) {
	if !v.CanAddr() || depth > 6 {
		return
	}
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	varSnap = append(varSnap, func() { v.Set(c) })
	follow(v, seen, depth)
}

func follow(v reflect.Value, seen map[unsafe.Pointer]bool, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.UnsafePointer()] || v.Elem().Kind() != reflect.Struct || !ours(v.Elem().Type()) {
			return
		}
		seen[v.UnsafePointer()] = true
		snapValue(v.Elem(), seen, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			follow(v.Elem(), seen, depth+1)
		}
	case reflect.Struct:
		if !ours(v.Type()) || !v.CanAddr() {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			follow(f, seen, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m := v
		var ks, vs []reflect.Value
		it := m.MapRange()
		for it.Next() {
			ks = append(ks, it.Key())
			vs = append(vs, it.Value())
		}
		varSnap = append(varSnap, func() {
			for _, k := range m.MapKeys() {
				m.SetMapIndex(k, reflect.Value{})
			}
			for i := range ks {
				m.SetMapIndex(ks[i], vs[i])
			}
		})
	}
}

func ours(t reflect.Type) bool {
	p := t.PkgPath()
	return len(p) >= len(VarPrefix) && p[:len(VarPrefix)] == VarPrefix
}
