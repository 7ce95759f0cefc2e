package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// dump writes every exported field of v, following pointers, with nil and empty
// slices and maps alike, so two trees a user cannot tell apart have one dump.
func dump(v any) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 100000 {
		b.WriteString("<too deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Interface:
		dumpTo(b, v.Elem(), depth)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('*')
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			fmt.Fprintf(b, "date(%s %d %s)", t.Format("2006-01-02 15:04:05.999999999"), t.Unix(), t.Location())
			return
		}
		t := v.Type()
		b.WriteString(t.Name())
		b.WriteByte('{')
		n := 0
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			if n++; n > 1 {
				b.WriteByte(' ')
			}
			b.WriteString(f.Name)
			b.WriteByte(':')
			dumpTo(b, v.Field(i), depth+1)
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		it := v.MapRange()
		for it.Next() {
			k := dump(it.Key().Interface())
			ks = append(ks, k)
			m[k] = it.Value()
		}
		sort.Strings(ks)
		b.WriteString("map{")
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k)
			b.WriteByte(':')
			dumpTo(b, m[k], depth+1)
		}
		b.WriteByte('}')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Float64, reflect.Float32:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	default:
		fmt.Fprintf(b, "<%s>", v.Type())
	}
}

// diff shows where two strings part.
func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	s := max(0, i-60)
	cut := func(x string) string {
		e := min(len(x), i+120)
		if s >= len(x) {
			return strconv.Quote("")
		}
		return strconv.Quote(strings.ToValidUTF8(x[s:e], "?"))
	}
	return fmt.Sprintf("at byte %d: want %s got %s", i, cut(want), cut(got))
}
