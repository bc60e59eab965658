package vrt

import (
	"reflect"
	"sort"
	"unsafe"
)

// MapEntry is one entry of a map being ranged over.
type MapEntry[K comparable, V any] struct {
	m   map[K]V
	Key K
	at  string
}

// Live reports whether the entry is still in the map.
func (e MapEntry[K, V]) Live() bool {
	m := e.m
	mapRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)), func() interface{} { return m }, e.at)
	_, ok := e.m[e.Key]
	return ok
}

// Val is the current value.
func (e MapEntry[K, V]) Val() V { return e.m[e.Key] }

// MapEntries lists the entries of m in a deterministic order (Go leaves the order open).
func MapEntries[M ~map[K]V, K comparable, V any](m M, at string) []MapEntry[K, V] {
	mapRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)), func() interface{} { return m }, at)
	out := make([]MapEntry[K, V], 0, len(m))
	for k := range m {
		out = append(out, MapEntry[K, V]{map[K]V(m), k, at})
	}
	var less func(i, j int) bool
	switch x := any(out).(type) {
	default:
		_ = x
		less = func(i, j int) bool {
			return cmp(reflect.ValueOf(&out[i].Key).Elem(), reflect.ValueOf(&out[j].Key).Elem()) < 0
		}
	}
	if len(out) > 1 {
		switch any(out[0].Key).(type) {
		case uint64:
			less = func(i, j int) bool { return any(out[i].Key).(uint64) < any(out[j].Key).(uint64) }
		case int64:
			less = func(i, j int) bool { return any(out[i].Key).(int64) < any(out[j].Key).(int64) }
		case string:
			less = func(i, j int) bool { return any(out[i].Key).(string) < any(out[j].Key).(string) }
		}
		sort.SliceStable(out, less)
		if w := W; w != nil && w.Opt.MapDesc {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func cmp(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch {
		case a.Int() < b.Int():
			return -1
		case a.Int() > b.Int():
			return 1
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		switch {
		case a.Uint() < b.Uint():
			return -1
		case a.Uint() > b.Uint():
			return 1
		}
	case reflect.String:
		switch {
		case a.String() < b.String():
			return -1
		case a.String() > b.String():
			return 1
		}
	case reflect.Bool:
		switch {
		case !a.Bool() && b.Bool():
			return -1
		case a.Bool() && !b.Bool():
			return 1
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmp(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmp(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			switch {
			case a.IsNil() && !b.IsNil():
				return -1
			case !a.IsNil() && b.IsNil():
				return 1
			}
			return 0
		}
		if a.Kind() == reflect.Interface && a.Elem().Type() == b.Elem().Type() {
			return cmp(a.Elem(), b.Elem())
		}
	}
	return 0
}
