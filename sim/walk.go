package main

import (
	"reflect"
	"unsafe"
)

// walk visits everything that can be reached from v through pointers,
// interfaces, maps, slices and arrays, unexported fields included. It calls
// visit for every pointer and map, and goes on below when it returns true.
func walk(v any, visit func(reflect.Value) bool) {
	type at struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[at]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[at{v.UnsafePointer(), v.Type()}] {
				return
			}
			seen[at{v.UnsafePointer(), v.Type()}] = true
			if visit(v) {
				rec(v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
		case reflect.Map:
			if v.IsNil() || seen[at{v.UnsafePointer(), v.Type()}] {
				return
			}
			seen[at{v.UnsafePointer(), v.Type()}] = true
			if visit(v) {
				for it := v.MapRange(); it.Next(); {
					rec(it.Key())
					rec(it.Value())
				}
			}
		case reflect.Slice:
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice:
				for i := 0; i < v.Len(); i++ {
					rec(v.Index(i))
				}
			}
		case reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice:
				for i := 0; i < v.Len(); i++ {
					rec(v.Index(i))
				}
			}
		}
	}
	rec(reflect.ValueOf(v))
}

// endedConns counts the connections that ended a while ago and that v still
// refers to.
func endedConns(v any) (n int, sample *simConn) {
	walk(v, func(v reflect.Value) bool {
		switch v.Type() {
		case reflect.TypeFor[*simConn]():
			if c := (*simConn)(v.UnsafePointer()); c.isClosed && nowNs()-c.closedAt > 60e9 {
				n++
				sample = c
			}
			return false
		case reflect.TypeFor[*simNet](), reflect.TypeFor[*simListener]():
			return false
		}
		return true
	})
	return
}

// mapEntries counts the entries of all maps that v refers to.
func mapEntries(v any) (n int) {
	walk(v, func(v reflect.Value) bool {
		if v.Kind() == reflect.Map {
			n += v.Len()
		}
		return true
	})
	return
}
