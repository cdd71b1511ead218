package main

// shape is a digest of a node's state with everything but the contents of byte
// strings and big numbers: two states of the same shape and with equal views
// differ only in the values of nonces and signatures.

import (
	"crypto/sha256"
	"fmt"
	"hash"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

type shaper struct {
	h    hash.Hash
	seen map[visit]bool
}

func shape(x interface{}) string {
	s := shaper{sha256.New(), map[visit]bool{}}
	s.val(reflect.ValueOf(x))
	return fmt.Sprintf("%x", s.h.Sum(nil)[:12])
}

func (s *shaper) put(f string, a ...interface{}) { fmt.Fprintf(s.h, f, a...) }

func (s *shaper) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		s.put("nil;")
	case reflect.Ptr:
		if v.IsNil() {
			s.put("nil;")
			return
		}
		if isShared(v.Type()) {
			s.put("shared;")
			return
		}
		k := visit{v.UnsafePointer(), v.Type()}
		if s.seen[k] {
			s.put("again;")
			return
		}
		s.seen[k] = true
		s.val(v.Elem())
		delete(s.seen, k)
	case reflect.Interface:
		if v.IsNil() {
			s.put("nil;")
			return
		}
		s.val(v.Elem())
	case reflect.Struct:
		if v.Type().String() == "big.Int" {
			s.put("big;")
			return
		}
		if !v.CanAddr() {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			v = t
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanInterface() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			s.put("%s:", v.Type().Field(i).Name)
			s.val(f)
		}
	case reflect.Slice:
		s.put("%d[", v.Len())
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Len() > 24 {
			s.put("]")
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.val(v.Index(i))
		}
		s.put("]")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.val(v.Index(i))
		}
	case reflect.Map:
		s.put("%d{", v.Len())
		var l []string
		it := v.MapRange()
		for it.Next() {
			t := shaper{sha256.New(), s.seen}
			t.val(it.Key())
			t.val(it.Value())
			l = append(l, string(t.h.Sum(nil)))
		}
		sort.Strings(l)
		for _, x := range l {
			s.put("%s", x)
		}
		s.put("}")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		s.put("%s;", v.Kind())
	default:
		s.put("%v;", v.Interface())
	}
}

func (l *Local) shape() string {
	if l.state == nil {
		return ""
	}
	return shape(l.state)
}

// dump is the whole state of a node as text
func dump(x interface{}) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(x), map[visit]bool{})
	return b.String()
}

func dumpVal(b *strings.Builder, v reflect.Value, seen map[visit]bool) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if isShared(v.Type()) {
			b.WriteString("shared")
			return
		}
		k := visit{v.UnsafePointer(), v.Type()}
		if seen[k] {
			b.WriteString("again")
			return
		}
		seen[k] = true
		dumpVal(b, v.Elem(), seen)
		delete(seen, k)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpVal(b, v.Elem(), seen)
	case reflect.Struct:
		if !v.CanAddr() {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			v = t
		}
		if n, ok := v.Addr().Interface().(*big.Int); ok {
			b.WriteString(n.Text(16))
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanInterface() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			dumpVal(b, f, seen)
			b.WriteString("\n")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Interface())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpVal(b, v.Index(i), seen)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			dumpVal(&e, it.Key(), seen)
			e.WriteString("=")
			dumpVal(&e, it.Value(), seen)
			l = append(l, e.String())
		}
		sort.Strings(l)
		fmt.Fprintf(b, "map%v", l)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Kind().String())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}
