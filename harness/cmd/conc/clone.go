//go:build conc

package main

import (
	"reflect"
	"strings"
	"unsafe"
)

type memoKey struct {
	p uintptr
	n int
	t reflect.Type
}

// Values of these packages have an identity
var identity = map[string]bool{"reflect": true, "runtime": true, "time": true, "os": true, "io": true, "errors": true, "regexp": true}

// cloneTo copies src to dst; both are addressable and can be set
func cloneTo(dst, src reflect.Value, memo map[memoKey]reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		if p := src.Type().Elem().PkgPath(); identity[p] || strings.HasPrefix(p, "internal/") || strings.Contains(p, "antlr") {
			dst.Set(src)
			return
		}
		k := memoKey{src.Pointer(), 0, src.Type()}
		if m, ok := memo[k]; ok {
			dst.Set(m)
			return
		}
		n := reflect.New(src.Type().Elem())
		memo[k] = n
		cloneTo(n.Elem(), src.Elem(), memo)
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := reflect.New(src.Elem().Type()).Elem()
		e.Set(src.Elem())
		n := reflect.New(src.Elem().Type()).Elem()
		cloneTo(n, e, memo)
		dst.Set(n)
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		k := memoKey{src.Pointer(), src.Cap(), src.Type()}
		full, ok := memo[k]
		if !ok {
			full = reflect.MakeSlice(src.Type(), src.Cap(), src.Cap())
			memo[k] = full
			s := src.Slice(0, src.Cap())
			for i := 0; i < s.Len(); i++ {
				cloneTo(full.Index(i), s.Index(i), memo)
			}
		}
		dst.Set(full.Slice(0, src.Len()))
	case reflect.Map:
		if src.IsNil() {
			return
		}
		k := memoKey{src.Pointer(), 0, src.Type()}
		if m, ok := memo[k]; ok {
			dst.Set(m)
			return
		}
		m := reflect.MakeMapWithSize(src.Type(), src.Len())
		memo[k] = m
		for it := src.MapRange(); it.Next(); {
			e := reflect.New(src.Type().Elem()).Elem()
			e.Set(it.Value())
			n := reflect.New(src.Type().Elem()).Elem()
			cloneTo(n, e, memo)
			m.SetMapIndex(it.Key(), n)
		}
		dst.Set(m)
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			f := src.Type().Field(i)
			s := reflect.NewAt(f.Type, unsafe.Pointer(src.Field(i).UnsafeAddr())).Elem()
			d := reflect.NewAt(f.Type, unsafe.Pointer(dst.Field(i).UnsafeAddr())).Elem()
			cloneTo(d, s, memo)
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cloneTo(dst.Index(i), src.Index(i), memo)
		}
	default:
		dst.Set(src)
	}
}
