package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"unsafe"
)

// region is a piece of memory a value refers to.
type region struct {
	lo, hi uintptr
	path   string
	kind   string // string, slice, object
	align  uintptr
	root   int
}

// regions lists all memory reachable from p: objects behind pointers, whole slice
// capacities and string contents. Map internals are not listed, their keys/values are.
func regions(p reflect.Value) []region {
	var out []region
	seen := map[[2]uintptr]bool{}
	var walk func(v reflect.Value, path string, depth int)
	add := func(ptr uintptr, n uintptr, path, kind string, align uintptr) {
		if n > 0 {
			out = append(out, region{lo: ptr, hi: ptr + n, path: path, kind: kind, align: align})
		}
	}
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 3000 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			key := [2]uintptr{v.Pointer(), uintptr(reflect.ValueOf(v.Type()).Pointer())}
			if seen[key] {
				return
			}
			seen[key] = true
			e := v.Elem()
			add(v.Pointer(), e.Type().Size(), path+"*", "object", uintptr(e.Type().Align()))
			walk(e, path, depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path, depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
			}
		case reflect.Slice:
			if v.IsNil() || v.Cap() == 0 {
				return
			}
			et := v.Type().Elem()
			add(v.Pointer(), uintptr(v.Cap())*et.Size(), path+"[]", "slice", uintptr(et.Align()))
			if hasRefs(et) {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
				}
			}
		case reflect.String:
			if s := v.String(); len(s) > 0 {
				add(uintptr(unsafe.Pointer(unsafe.StringData(s))), uintptr(len(s)), path+"\"\"", "string", 1)
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			it := v.MapRange()
			for it.Next() {
				walk(it.Key(), path+"{k}", depth+1)
				walk(it.Value(), path+"{v}", depth+1)
			}
		case reflect.Array:
			if hasRefs(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
				}
			}
		}
	}
	walk(p, "", 0)
	return out
}

func hasRefs(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int, reflect.Uint8, reflect.Uint16,
		reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return false
	}
	return true
}

// overlaps finds two regions that share memory, or a misaligned one.
func overlaps(rs []region) string {
	for _, r := range rs {
		if r.align > 1 && r.lo%r.align != 0 {
			return fmt.Sprintf("%s at %#x is not aligned to %d", r.path, r.lo, r.align)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
	var last, lastMut region // those reaching furthest, of all and of the mutable ones
	for _, b := range rs {
		a := lastMut
		if b.kind != "string" { // strings may share memory with strings, nobody can tell
			a = last
		}
		if b.lo < a.hi {
			return fmt.Sprintf("%s (value %d, %d bytes) and %s (value %d, %d bytes) share memory", a.path, a.root, a.hi-a.lo, b.path, b.root, b.hi-b.lo)
		}
		if b.hi > last.hi {
			last = b
		}
		if b.kind != "string" && b.hi > lastMut.hi {
			lastMut = b
		}
	}
	return ""
}

// snap is a deep copy of everything reachable from a value, for detecting changes:
// all bytes of slices up to their capacity, strings, map entries, pointers and interfaces by identity.
type snap struct{ lines []string }

func snapshot(p reflect.Value) *snap {
	s := &snap{}
	seen := map[[2]uintptr]bool{}
	var walk func(v reflect.Value, path string, depth int)
	add := func(path, f string, a ...any) { s.lines = append(s.lines, path+"="+fmt.Sprintf(f, a...)) }
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 3000 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			add(path, "ptr %#x", v.Pointer())
			if v.IsNil() {
				return
			}
			key := [2]uintptr{v.Pointer(), uintptr(reflect.ValueOf(v.Type()).Pointer())}
			if seen[key] {
				return
			}
			seen[key] = true
			walk(v.Elem(), path, depth+1)
		case reflect.Interface:
			if v.IsNil() {
				add(path, "nil")
				return
			}
			add(path, "type %s", v.Elem().Type())
			walk(v.Elem(), path, depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
			}
		case reflect.Slice:
			add(path, "slice %#x %d %d", v.Pointer(), v.Len(), v.Cap())
			if v.IsNil() {
				return
			}
			et := v.Type().Elem()
			if et.Kind() == reflect.Uint8 {
				full := v.Slice3(0, v.Cap(), v.Cap())
				add(path, "%x", full.Bytes())
				return
			}
			full := v.Slice3(0, v.Cap(), v.Cap())
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
			}
		case reflect.Map:
			if v.IsNil() {
				add(path, "nil")
				return
			}
			add(path, "map %#x %d", v.Pointer(), v.Len())
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			for _, k := range ks {
				walk(v.MapIndex(k), fmt.Sprintf("%s{%q}", path, fmt.Sprint(k)), depth+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
			}
		case reflect.String:
			add(path, "%q", v.String())
		case reflect.Bool:
			add(path, "%v", v.Bool())
		case reflect.Float32, reflect.Float64:
			add(path, "%x", math.Float64bits(v.Float()))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			add(path, "%d", v.Int())
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
			add(path, "%d", v.Uint())
		}
	}
	walk(p, "", 0)
	return s
}

func (s *snap) diff(p reflect.Value) string {
	t := snapshot(p)
	for i := range s.lines {
		if i >= len(t.lines) || s.lines[i] != t.lines[i] {
			a, b := s.lines[i], "<missing>"
			if i < len(t.lines) {
				b = t.lines[i]
			}
			return fmt.Sprintf("before %.200s after %.200s", a, b)
		}
	}
	if len(t.lines) != len(s.lines) {
		return "value grew"
	}
	return ""
}
