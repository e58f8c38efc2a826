// Driver for generated Go code with insertions: runs the packages of one version, which
// registry.go lists, over a space of values.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
)

// api is one package: constructors by message name, and the library around them.
type api struct {
	mask, way int
	news      map[string]func() any
}

type message interface {
	Decode([]byte) error
}

// encode and errorBytes are set by registry.go (the buffer type belongs to the version).
var encode func(m any) []byte
var packages []api

const tagBase = 0x4ab00000

var marker = func(tag uint32) []byte { return nil } // set by registry.go

type fail struct{ Key, Detail string }

var rep struct {
	Fails                  []fail
	Values, Runs, Prefixes int64
	Messages               map[string]int64
}
var thorough bool
var seen = map[string]bool{}

func report(k, format string, a ...any) {
	if !seen[k] {
		seen[k] = true
		rep.Fails = append(rep.Fails, fail{k, fmt.Sprintf(format, a...)})
	}
}

// ---- the space of values of the plain package ---------------------------------------------

// values lists the values of a type down to a depth: for a message all combinations of the
// alternatives of its fields (the product is cut to single and paired deviations when wide).
func values(t reflect.Type, depth int, wide bool) []reflect.Value {
	v := func(xs ...any) (out []reflect.Value) {
		for _, x := range xs {
			out = append(out, reflect.ValueOf(x).Convert(t))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		return v(false, true)
	case reflect.Int32:
		return v(int32(0), int32(-1), int32(math.MinInt32))
	case reflect.Int64:
		return v(int64(0), int64(-1), int64(math.MaxInt64))
	case reflect.Uint32:
		return v(uint32(0), uint32(9), uint32(math.MaxUint32))
	case reflect.Uint64:
		return v(uint64(0), uint64(math.MaxUint64))
	case reflect.Float32:
		return v(float32(0), float32(1.5))
	case reflect.Float64:
		return v(float64(0), math.Inf(-1))
	case reflect.String:
		return v("", "é")
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return v([]byte{}, []byte{0, 255})
		}
		out := []reflect.Value{reflect.Zero(t)}
		list := func(es ...reflect.Value) {
			s := reflect.MakeSlice(t, 0, 0)
			out = append(out, reflect.Append(s, es...))
		}
		if t.Elem().Kind() == reflect.Pointer {
			es := values(t.Elem(), depth-1, wide)
			for _, e := range es {
				list(e)
			}
			list(es[len(es)-1], reflect.Zero(t.Elem()), es[0])
			return out
		}
		es := values(t.Elem(), depth, wide)
		list(es[len(es)-1])
		list(es...)
		return out
	case reflect.Map:
		out := []reflect.Value{reflect.Zero(t)}
		ks := values(t.Key(), depth, wide)
		es := values(t.Elem(), depth-1, wide)
		for _, e := range es {
			m := reflect.MakeMap(t)
			m.SetMapIndex(ks[len(ks)-1], e)
			out = append(out, m)
		}
		return out
	case reflect.Pointer:
		out := []reflect.Value{reflect.Zero(t)}
		if depth <= 0 {
			return out
		}
		return append(out, structs(t, depth, wide)...)
	}
	panic(t)
}

func structs(t reflect.Type, depth int, wide bool) (out []reflect.Value) {
	st := t.Elem()
	n := st.NumField()
	alts := make([][]reflect.Value, n)
	total := 1
	for i := range alts {
		f := st.Field(i)
		alts[i] = values(f.Type, depth-1, wide)
		if f.Name == "Id" {
			alts[i] = alts[i][:1]
		}
		if i == 0 && f.Type.Kind() == reflect.Pointer { // a nil in first place cannot be told from a nil message
			alts[i] = alts[i][1:]
			if len(alts[i]) == 0 {
				return nil
			}
		}
		if total < 1<<30 {
			total *= len(alts[i])
		}
	}
	limit := 3000
	if wide {
		limit = 40000
	}
	if depth < 3 {
		limit = 12
	}
	pick := func(idx []int) {
		m := reflect.New(st)
		for i, a := range idx {
			m.Elem().Field(i).Set(alts[i][a])
		}
		out = append(out, m)
	}
	idx := make([]int, n)
	if total <= limit {
		for {
			pick(idx)
			i := 0
			for ; i < n; i++ {
				if idx[i]++; idx[i] < len(alts[i]) {
					break
				}
				idx[i] = 0
			}
			if i == n {
				return
			}
		}
	}
	// all at their last, all single deviations from the first, all pairs
	last := make([]int, n)
	for i := range last {
		last[i] = len(alts[i]) - 1
	}
	pick(idx)
	for i := range alts {
		for a := 1; a < len(alts[i]); a++ {
			one := make([]int, n)
			one[i] = a
			if depth >= 3 || a == len(alts[i])-1 {
				pick(one)
			}
			for j := i + 1; j < n && depth >= 3; j++ {
				for b := 1; b < len(alts[j]); b++ {
					two := append([]int{}, one...)
					two[j] = b
					pick(two)
				}
			}
		}
	}
	pick(last)
	return
}

// ---- helpers ------------------------------------------------------------------------------

// clone makes the value of another package (or a copy) with the same fields.
func clone(src reflect.Value, t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			return reflect.Zero(t)
		}
		m := reflect.New(t.Elem())
		for i := 0; i < src.Elem().NumField(); i++ {
			name := src.Elem().Type().Field(i).Name
			if f := m.Elem().FieldByName(name); f.IsValid() {
				f.Set(clone(src.Elem().Field(i), f.Type()))
			}
		}
		return m
	case reflect.Slice:
		if src.IsNil() {
			return reflect.Zero(t)
		}
		s := reflect.MakeSlice(t, src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			s.Index(i).Set(clone(src.Index(i), t.Elem()))
		}
		return s
	case reflect.Map:
		if src.IsNil() {
			return reflect.Zero(t)
		}
		m := reflect.MakeMap(t)
		for _, k := range src.MapKeys() {
			m.SetMapIndex(k.Convert(t.Key()), clone(src.MapIndex(k), t.Elem()))
		}
		return m
	}
	return src.Convert(t)
}

// walk visits the messages of a value.
func walk(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			f(v)
			for i := 0; i < v.Elem().NumField(); i++ {
				walk(v.Elem().Field(i), f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), f)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			walk(v.MapIndex(k), f)
		}
	}
}

// same compares values of two packages, with their tags if both have them; it says where
// they differ.
func same(a, b reflect.Value, at string) string {
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return at
		}
		if a.IsNil() {
			return ""
		}
		for i := 0; i < a.Elem().NumField(); i++ {
			name := a.Elem().Type().Field(i).Name
			if f := b.Elem().FieldByName(name); f.IsValid() {
				if d := same(a.Elem().Field(i), f, at+"."+name); d != "" {
					return d
				}
			} else if name != "Tag" {
				return at + "." + name
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return at
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return at
		}
		for _, k := range a.MapKeys() {
			o := b.MapIndex(k.Convert(b.Type().Key()))
			if !o.IsValid() {
				return fmt.Sprintf("%s[%v]", at, k)
			}
			if d := same(a.MapIndex(k), o, fmt.Sprintf("%s[%v]", at, k)); d != "" {
				return d
			}
		}
		return ""
	}
	if fmt.Sprint(a.Interface()) != fmt.Sprint(b.Interface()) {
		return at
	}
	return ""
}

func show(m reflect.Value) string {
	b, err := json.Marshal(m.Interface())
	if err != nil {
		return fmt.Sprintf("%+v", m.Interface())
	}
	if len(b) > 400 {
		b = b[:400]
	}
	return string(b)
}

func enc(m reflect.Value) (b []byte, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	return encode(m.Interface()), ""
}

func dec(m reflect.Value, b []byte) (err error, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	return m.Interface().(message).Decode(b), ""
}

// stain fills the insertions of a value with something that is not to stay.
func stain(v reflect.Value) {
	walk(v, func(m reflect.Value) {
		if f := m.Elem().FieldByName("Tag"); f.IsValid() {
			f.SetUint(0xdead)
		}
	})
}

func main() {
	wide := os.Args[1] == "2"
	thorough = wide
	only := os.Args[2] // message name
	depth, _ := strconv.Atoi(os.Args[3])
	var plain api
	for _, p := range packages {
		if p.mask == 0 && p.way == 0 {
			plain = p
		}
	}
	space := structs(reflect.TypeOf(plain.news[only]()), depth, wide)
	rep.Values = int64(len(space))
	for i, v := range space {
		id := uint64(0)
		var parts [][]byte // the plain bytes of every message of the value, by id
		walk(v, func(m reflect.Value) {
			id++
			if f := m.Elem().FieldByName("Id"); f.IsValid() {
				f.SetUint(id)
			}
		})
		wire, bad := enc(v)
		if bad != "" {
			report("plain/encode", "%s: encoding %s: %s", only, show(v), bad)
			continue
		}
		walk(v, func(m reflect.Value) {
			b, _ := enc(m)
			parts = append(parts, b)
		})
		prev := v
		if i > 0 {
			prev = space[i-1]
		}
		for _, p := range packages {
			one(p, only, v, prev, wire, parts)
		}
	}
	b, _ := json.Marshal(&rep)
	os.Stdout.Write(b)
}

// one checks a value in one package.
func one(p api, name string, v, prev reflect.Value, plain []byte, parts [][]byte) {
	rep.Runs++
	who := fmt.Sprintf("m%dw%d/", p.mask, p.way)
	t := reflect.TypeOf(p.news[name]())
	x := clone(v, t)
	n := uint32(0)
	walk(x, func(m reflect.Value) {
		if f := m.Elem().FieldByName("Tag"); f.IsValid() {
			f.SetUint(uint64(tagBase + n))
		}
		n++
	})
	text := fmt.Sprintf("insertions %03b (way %d), %s %s: ", p.mask, p.way, name, show(v))
	fields, encodes, decodes := p.mask&1 != 0, p.mask&2 != 0, p.mask&4 != 0
	if f := x.Elem().FieldByName("Tag"); f.IsValid() != fields {
		report(who+"field", "%sinserted field present: %v", text, f.IsValid())
		return
	}
	wire, bad := enc(x)
	if bad != "" {
		report(who+"encode-panics", "%s%s", text, bad)
		return
	}
	// the bytes: the plain ones, with what is inserted in front of every message
	rest, marks := wire, 0
	if encodes {
		rest = nil
		for at := 0; at < len(wire); {
			i := uint32(0)
			if wire[at] != marker(tagBase)[0] {
				i = n
			} else if fields { // which message this is
				for ; i < n && !bytes.HasPrefix(wire[at:], marker(tagBase+i)); i++ {
				}
			} else if !bytes.HasPrefix(wire[at:], marker(tagBase)) {
				i = n
			}
			if i == n {
				if at == 0 {
					report(who+"not-first", "%sthe bytes %x do not begin with what is inserted", text, wire)
				}
				rest = append(rest, wire[at])
				at++
				continue
			}
			at += len(marker(tagBase + i))
			marks++
			if fields {
				tail := strip(wire[at:], n)
				if !bytes.HasPrefix(tail, parts[i]) {
					report(who+"place", "%sbehind the insertion for message %d come %x instead of its fields %x", text, i, tail, parts[i])
				}
			}
		}
		if marks != int(n) {
			report(who+"count", "%s%d insertions for %d messages in %x", text, marks, n, wire)
		}
	}
	if !bytes.Equal(rest, plain) {
		report(who+"bytes", "%swithout what is inserted the bytes are %x instead of %x", text, rest, plain)
	}
	// decoding: code that reads what was inserted, or none
	input, want := plain, clone(v, t)
	if decodes {
		input = wire
		if !encodes { // from the package that has the same fields and encodes
			for _, q := range packages {
				if q.mask == p.mask|2 && q.way == p.way {
					y := clone(x, reflect.TypeOf(q.news[name]()))
					input, _ = enc(y)
				}
			}
		}
		want = x
		if !fields {
			want = clone(v, t)
		}
	}
	if !decodes { // a message without fields has no bytes to tell it from what follows (C16)
		skip := false
		walk(v, func(m reflect.Value) { skip = skip || m.Elem().NumField() == 0 && m != v })
		if skip {
			return
		}
	}
	input = append([]byte{}, input...)
	keep := append([]byte{}, input...)
	for _, target := range []string{"fresh", "used"} {
		y := reflect.ValueOf(p.news[name]())
		if target == "used" {
			y = clone(prev, t)
			if decodes {
				stain(y)
			}
		}
		if err, bad := dec(y, input); err != nil || bad != "" {
			report(who+target+"/decode", "%sdecoding %x into a %s message: %v %s", text, input, target, err, bad)
		} else if d := same(want, y, name); d != "" {
			report(who+target+"/"+"value", "%sdecoding %x into a %s message gives another %s: %s", text, input, target, d, show(y))
		}
	}
	if !decodes || p.way > 0 && !thorough {
		return
	}
	// what the inserted code reports is reported: cut or replaced insertions
	for k := 0; k < len(input); k++ {
		y := reflect.ValueOf(p.news[name]())
		rep.Prefixes++
		if err, bad := dec(y, input[:k:k]); bad != "" || err == nil {
			report(who+"prefix", "%sdecoding the prefix %x of %x: error %v %s", text, input[:k], input, err, bad)
		}
	}
	for at := 0; at+6 <= len(input); at++ {
		for i := uint32(0); i < n && input[at] == marker(tagBase)[0]; i++ {
			if bytes.HasPrefix(input[at:], marker(tagBase+i)) {
				rep.Prefixes++
				damaged := append([]byte{}, input...)
				damaged[at] = 3 // the kind Any, which no value has
				y := reflect.ValueOf(p.news[name]())
				if err, bad := dec(y, damaged); bad != "" || err == nil {
					report(who+"damaged", "%sdecoding %x, where the insertion of a message is damaged: error %v %s", text, damaged, err, bad)
				}
				if !fields {
					break
				}
			}
		}
	}
	if !bytes.Equal(input, keep) {
		report(who+"input-changed", "%sdecoding changes its input %x", text, keep)
	}
}

// strip takes the insertions out.
func strip(b []byte, n uint32) (out []byte) {
	for at := 0; at < len(b); {
		hit := false
		for i := uint32(0); i < n && !hit && b[at] == marker(tagBase)[0]; i++ {
			if m := marker(tagBase + i); bytes.HasPrefix(b[at:], m) {
				at += len(m)
				hit = true
			}
		}
		if !hit {
			out = append(out, b[at])
			at++
		}
	}
	return
}
