//go:build go1.22

// Package chk holds the checks: for each property the scenarios, the choice of
// faults and the judgement of a run.
package chk

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type dumper struct {
	b     strings.Builder
	ids   map[uintptr]int
	stack map[uintptr]bool
	graph bool
	skip  map[string]bool
}

// skipFields are not content: set by the tools around the document.
var skipFields = map[string]bool{"XMLName": true, "IncludedBy": true, "RotationOffset": true, "Extra": true, "InternalTransform": true, "Assets": true}

// Dump is a canonical text of the exported content of v. graph: shared and
// cyclic structures are shown as references; otherwise as trees (cycles cut).
func Dump(v interface{}, graph bool) string {
	d := &dumper{ids: map[uintptr]int{}, stack: map[uintptr]bool{}, graph: graph}
	d.val(reflect.ValueOf(v))
	return d.b.String()
}

func (d *dumper) val(v reflect.Value) {
	b := &d.b
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == 0 && math.Signbit(f) {
			b.WriteString("-0")
		} else {
			b.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
		}
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "x%x", v.Bytes())
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			d.val(v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Map:
		type kv struct{ k, v string }
		var kvs []kv
		it := v.MapRange()
		if d.graph {
			// identities must not depend on the order of the map
			keys := v.MapKeys()
			ks := make([]string, len(keys))
			for i, k := range keys {
				ks[i] = Dump(safeIface(k), false)
			}
			idx := make([]int, len(keys))
			for i := range idx {
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
			b.WriteString("map{")
			for _, i := range idx {
				b.WriteString(ks[i])
				b.WriteByte(':')
				d.val(v.MapIndex(keys[i]))
				b.WriteByte(' ')
			}
			b.WriteByte('}')
			return
		}
		for it.Next() {
			save := d.b
			d.b = strings.Builder{}
			d.val(it.Key())
			k := d.b.String()
			d.b = strings.Builder{}
			d.val(it.Value())
			x := d.b.String()
			d.b = strings.Builder{}
			d.b.WriteString(save.String())
			kvs = append(kvs, kv{k, x})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		b = &d.b
		b.WriteString("map{")
		for _, e := range kvs {
			b.WriteString(e.k + ":" + e.v + " ")
		}
		b.WriteByte('}')
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		p := v.Pointer()
		if d.graph {
			if id, ok := d.ids[p]; ok && v.Elem().Type().Size() > 0 {
				fmt.Fprintf(b, "#%d", id)
				return
			}
			d.ids[p] = len(d.ids)
		} else {
			if d.stack[p] {
				b.WriteString("#cycle")
				return
			}
			d.stack[p] = true
			defer delete(d.stack, p)
		}
		d.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr || e.Kind() == reflect.Struct {
			b.WriteString(e.Type().String())
		}
		d.val(e)
	case reflect.Struct:
		b.WriteByte('{')
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous || skipFields[f.Name] {
				continue
			}
			if f.PkgPath != "" && f.Type.Kind() == reflect.Ptr {
				continue
			}
			b.WriteString(f.Name)
			b.WriteByte(':')
			d.val(v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	default:
		b.WriteString(v.Kind().String())
	}
}

func safeIface(v reflect.Value) interface{} {
	if v.CanInterface() {
		return v.Interface()
	}
	return v.String()
}

// Diff shows where two dumps part.
func Diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at %d of %d/%d: want ...%s... got ...%s...", i, len(a), len(b), cut(a), cut(b))
}
