package main

import (
	"reflect"

	"github.com/dalzilio/rudd"
)

// What the library itself keeps: a Node that can be reached from the BDD is not
// released when the program gives it up.

var ruddPath = reflect.TypeOf(rudd.BDD{}).PkgPath()

// holds tells whether a value of type t may lead to an *int.
func holds(t reflect.Type, seen map[reflect.Type]bool) bool {
	switch t.Kind() {
	case reflect.Interface:
		return true
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Int {
			return true
		}
		fallthrough
	case reflect.Slice, reflect.Array:
		if seen[t] {
			return false
		}
		seen[t] = true
		return holds(t.Elem(), seen)
	case reflect.Map:
		if seen[t] {
			return false
		}
		seen[t] = true
		return holds(t.Elem(), seen) || holds(t.Key(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if holds(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

var holdsMemo = map[reflect.Type]bool{}

type walker struct {
	seen  map[uintptr]bool
	found map[*int]bool
}

func (w *walker) walk(v reflect.Value, path int) {
	if !v.IsValid() || path > 40 {
		return
	}
	t := v.Type()
	h, ok := holdsMemo[t]
	if !ok {
		h = holds(t, map[reflect.Type]bool{})
		holdsMemo[t] = h
	}
	if !h {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if t.Elem().Kind() == reflect.Int {
			w.found[(*int)(v.UnsafePointer())] = true
			return
		}
		if t.Elem().PkgPath() != "" && t.Elem().PkgPath() != ruddPath && t.Elem().Kind() == reflect.Struct {
			return // of another package
		}
		if q := v.Pointer(); !w.seen[q] {
			w.seen[q] = true
			w.walk(v.Elem(), path+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem(), path+1)
		}
	case reflect.Slice:
		// up to its capacity: what is there is not collected either
		n := v.Len()
		if v.Cap() > n && v.Cap() < 10000 {
			n = v.Cap()
			v = v.Slice(0, n)
		}
		for i := 0; i < n; i++ {
			w.walk(v.Index(i), path+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), path+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			w.walk(it.Key(), path+1)
			w.walk(it.Value(), path+1)
		}
	case reflect.Struct:
		if p := t.PkgPath(); p != "" && p != ruddPath {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			w.walk(v.Field(i), path+1)
		}
	}
}

// retained checks that the library does not keep nodes that the program gave up.
func (p *P) retained() {
	w := walker{map[uintptr]bool{}, map[*int]bool{}}
	w.walk(reflect.ValueOf(p.b), 0)
	n := 0
	for q := range w.found {
		r := p.w.byPtr[q]
		if r != nil && r.in == p.in && r.state == refPending {
			n++
		}
		for _, c := range p.cells {
			if c.Value() == q {
				n++
			}
		}
	}
	if n > 0 {
		p.fail("leak", "%d references to nodes that the program released can be reached from the BDD, and will never be finalized", n)
	}
	p.w.cnt.Probes["retained-checked"]++
}
