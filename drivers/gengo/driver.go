// Driver for generated Go code: enumerates the values of every message type of the
// schema family (package gen/pb) and runs the generated code on them. The registry
// (registry.go) and the import of the library are written by the checker.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	polyglot "POLYGLOT_IMPORT"
)

type message interface {
	Encode(b *polyglot.Buffer)
	Decode(b []byte) error
	Error(b *polyglot.Buffer, err error)
}

type typ struct {
	Name   string
	New    func() message
	Zero   func() message
	Fields []string // Go field names in declaration order
	Rich   int      // size of the value alphabets
}

var byType = map[reflect.Type]*typ{}

type fail struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Replay any    `json:"replay"`
}

type report struct {
	Types, Values, Steps int64
	Counts               map[string]int64
	Fails                []fail
}

var (
	mu    sync.Mutex
	rep   = report{Counts: map[string]int64{}}
	seen  = map[string]bool{}
	level int
	steps atomic.Int64
	doing sync.Map // goroutine slot -> what it is working on
)

func failf(key, what string, replay any) {
	mu.Lock()
	defer mu.Unlock()
	if seen[key] || len(rep.Fails) >= 150 {
		return
	}
	seen[key] = true
	rep.Fails = append(rep.Fails, fail{key, what, replay})
}

func count(n string, k int64) {
	mu.Lock()
	rep.Counts[n] += k
	mu.Unlock()
}

// ---- values --------------------------------------------------------------------------

func longBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 1)
	}
	return b
}

func longString(n int) string { return strings.Repeat("0123456789abcdef", n/16+1)[:n] }

// values lists the values of t; rich 2, 1, 0: many, some, two.
func values(t reflect.Type, rich, depth int) []reflect.Value {
	var out []reflect.Value
	add := func(x any) { out = append(out, reflect.ValueOf(x).Convert(t)) }
	switch t.Kind() {
	case reflect.Bool:
		add(false)
		add(true)
	case reflect.Uint32:
		set := [][]uint32{{0, 300}, {0, 1, 128, math.MaxUint32}, {0, 1, 2, 127, 128, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, math.MaxUint32}}[rich]
		if t != reflect.TypeOf(uint32(0)) { // an enum
			set = [][]uint32{{0, 1}, {0, 1, 2}, {0, 1, 2, 3, 127, 128, 1 << 31, math.MaxUint32}}[rich]
			if enumSize[t.Name()] > 255 {
				set = [][]uint32{{0, 257}, {0, 127, 128, 257}, {0, 1, 127, 128, 255, 256, 299, 16384, math.MaxUint32}}[rich]
			}
		}
		for _, x := range set {
			add(x)
		}
	case reflect.Uint64:
		for _, x := range [][]uint64{{0, 1 << 40}, {0, 1, 128, math.MaxUint64}, {0, 1, 127, 128, 1<<14 - 1, 1 << 14, 1 << 21, 1 << 28, 1<<35 - 1, 1 << 35, 1 << 42, 1 << 49, 1 << 56, 1<<63 - 1, 1 << 63, math.MaxUint64}}[rich] {
			add(x)
		}
	case reflect.Int32:
		for _, x := range [][]int32{{0, -300}, {0, 1, -1, math.MinInt32, math.MaxInt32}, {0, 1, -1, 63, 64, -64, -65, 8191, 8192, -8192, -8193, 1 << 20, -1 << 20, 1 << 27, -1<<27 - 1, math.MaxInt32, math.MinInt32}}[rich] {
			add(x)
		}
	case reflect.Int64:
		for _, x := range [][]int64{{0, -1 << 40}, {0, 1, -1, math.MinInt64, math.MaxInt64}, {0, 1, -1, 63, 64, -64, -65, 1 << 20, -1 << 20, 1 << 27, -1<<34 - 1, 1 << 41, 1 << 48, -1 << 55, 1 << 62, math.MaxInt64, math.MinInt64}}[rich] {
			add(x)
		}
	case reflect.Float32:
		for _, x := range [][]uint32{{0, 0x3fc00000}, {0, 0x3fc00000, 0x80000000, 0x7fc00001}, {0, 1, 0x80000000, 0x3fc00000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00001, 0x7f7fffff}}[rich] {
			out = append(out, reflect.ValueOf(math.Float32frombits(x)).Convert(t))
		}
	case reflect.Float64:
		for _, x := range [][]uint64{{0, 0x3ff8000000000000}, {0, 0x3ff8000000000000, 1 << 63, 0x7ff8000000000001}, {0, 1, 1 << 63, 0x3ff8000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7fefffffffffffff}}[rich] {
			out = append(out, reflect.ValueOf(math.Float64frombits(x)).Convert(t))
		}
	case reflect.String:
		for _, x := range [][]string{{"", "ab"}, {"", "ab", "\x00\xc3\xa9", longString(128)}, {"", "a", "\x00\xc3\xa9", "\x05\x0a\x01", longString(127), longString(128), longString(700), "\xff\xfe"}}[rich] {
			add(x)
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			for _, x := range [][][]byte{{nil, {4, 10}}, {nil, {}, {0, 4, 10}, longBytes(128)}, {nil, {}, {0}, {4, 10, 1, 9}, longBytes(127), longBytes(128), longBytes(700)}}[rich] {
				add(x)
			}
			return out
		}
		mk := func(es ...reflect.Value) {
			s := reflect.MakeSlice(t, 0, len(es))
			out = append(out, reflect.Append(s, es...))
		}
		out = append(out, reflect.Zero(t))
		some := values(t.Elem(), max(rich-1, 0), depth+1)
		two := values(t.Elem(), 0, depth+1)
		if rich == 0 {
			mk(two[len(two)-1], two[0])
			return out
		}
		last := two[len(two)-1]
		mk(last, twin(last))
		mk(twin(last), last, twin(last), last)
		mk()
		for _, a := range some {
			mk(a)
		}
		if rich == 1 {
			two = []reflect.Value{two[0], two[len(two)-1]}
		}
		for _, a := range two {
			for _, b := range two {
				mk(a, b)
			}
		}
		mk(two[len(two)-1], two[0], two[len(two)-1])
		if rich == 2 {
			for _, n := range []int{127, 128, 300} {
				var es []reflect.Value
				for i := 0; i < n; i++ {
					es = append(es, two[(i*i/3)%len(two)])
				}
				mk(es...)
			}
		}
	case reflect.Map:
		mk := func(kv ...reflect.Value) {
			m := reflect.MakeMap(t)
			for i := 0; i < len(kv); i += 2 {
				m.SetMapIndex(kv[i], kv[i+1])
			}
			out = append(out, m)
		}
		out = append(out, reflect.Zero(t))
		ks, vs := values(t.Key(), max(rich-1, 0), depth+1), values(t.Elem(), max(rich-1, 0), depth+1)
		v0 := values(t.Elem(), 0, depth+1)
		if rich == 0 {
			mk(ks[0], v0[0], ks[len(ks)-1], v0[len(v0)-1])
			return out
		}
		if k, v := ks[len(ks)-1], v0[len(v0)-1]; t.Key().Kind() != reflect.Bool {
			mk(k, v, twin(k), twin(v))
			mk(twin(k), v, k, twin(v))
		} else {
			mk(ks[0], v, ks[1], twin(v))
		}
		mk()
		for _, k := range ks {
			for _, v := range vs {
				mk(k, v)
			}
		}
		for i, k := range ks {
			for _, l := range ks[i+1:] {
				mk(k, v0[0], l, v0[len(v0)-1])
				mk(k, v0[len(v0)-1], l, v0[0])
				if len(v0) > 2 { // v0[0] is nil
					mk(k, v0[1], l, v0[len(v0)-1])
				}
			}
			if i > 1 {
				mk(ks[i-2], v0[len(v0)-1], ks[i-1], v0[len(v0)/2], k, v0[min(1, len(v0)-1)])
			}
		}
		if rich == 2 && t.Key().Kind() == reflect.Uint32 {
			var kv []reflect.Value
			for i := 0; i < 130; i++ {
				kv = append(kv, reflect.ValueOf(uint32(i*5)).Convert(t.Key()), v0[i%len(v0)])
			}
			mk(kv...)
		}
	case reflect.Pointer:
		out = append(out, reflect.Zero(t))
		if depth > 4 {
			return out
		}
		for _, s := range values(t.Elem(), max(rich-1, 0), depth+1) {
			p := reflect.New(t.Elem())
			p.Elem().Set(s)
			out = append(out, p)
		}
	case reflect.Struct:
		n := t.NumField()
		lists := make([][]reflect.Value, n)
		prod := 1
		for i := range lists {
			lists[i] = values(t.Field(i).Type, rich, depth+1)
			if prod < 1<<30 {
				prod *= len(lists[i])
			}
		}
		limit := []int{12, 80, 500}[rich]
		if level >= 2 {
			limit *= 4
		}
		mk := func(ix []int) {
			s := reflect.New(t).Elem()
			for i, x := range ix {
				s.Field(i).Set(lists[i][x])
			}
			out = append(out, s)
		}
		// Fields of one type hold values that resemble each other.
		for odd := 0; odd < min(n, 2); odd++ {
			s := reflect.New(t).Elem()
			for i := range lists {
				v := lists[i][len(lists[i])-1]
				if i%2 == odd {
					v = twin(v)
				}
				s.Field(i).Set(v)
			}
			out = append(out, s)
		}
		ix := make([]int, n)
		if prod <= limit {
			for {
				mk(ix)
				i := n - 1
				for ; i >= 0; i-- {
					if ix[i]++; ix[i] < len(lists[i]) {
						break
					}
					ix[i] = 0
				}
				if i < 0 {
					return out
				}
			}
		}
		had := map[string]bool{}
		put := func() {
			k := fmt.Sprint(ix)
			if !had[k] {
				had[k] = true
				mk(ix)
			}
		}
		for base := 0; base < 2; base++ {
			set := func() {
				for i := range ix {
					ix[i] = base * (len(lists[i]) - 1)
				}
			}
			for i := range ix {
				set()
				put()
				for x := range lists[i] {
					ix[i] = x
					put()
				}
				for j := i + 1; j < n; j++ {
					for _, x := range []int{0, len(lists[i]) / 2, len(lists[i]) - 1} {
						for _, y := range []int{0, len(lists[j]) / 2, len(lists[j]) - 1} {
							set()
							ix[i], ix[j] = x, y
							put()
						}
					}
				}
			}
			if rich == 0 && base == 0 && len(out) > limit {
				out = append(out[:limit-1], out[len(out)-1])
			}
		}
		if n == 0 {
			out = out[:0]
			mk(ix)
		}
	default:
		panic("no values for " + t.String())
	}
	return out
}

// twin returns a value that resembles v: of the same size, different in one place.
func twin(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(deepCopy(v))
	alter(c)
	return c
}

// alter changes one place of v, if there is one, and tells.
func alter(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Uint32:
		if v.Type() != reflect.TypeOf(uint32(0)) { // an enum: only numbers it has
			if v.Uint() > 1 {
				return false
			}
		}
		v.SetUint(v.Uint() ^ 1)
	case reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
	case reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 2)
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(math.Float32bits(float32(v.Float())) ^ 1)))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(math.Float64bits(v.Float()) ^ 1))
	case reflect.String:
		s := v.String()
		if s == "" || s[len(s)-1] >= 0x80 {
			return false
		}
		v.SetString(s[:len(s)-1] + string(s[len(s)-1]^1))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			if len(b) == 0 {
				return false
			}
			b[len(b)-1] ^= 1
			return true
		}
		for i := v.Len() - 1; i >= 0; i-- {
			if alter(v.Index(i)) {
				return true
			}
		}
		return false
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			if alter(e) {
				v.SetMapIndex(k, e)
				return true
			}
		}
		return false
	case reflect.Pointer:
		return !v.IsNil() && alter(v.Elem())
	case reflect.Struct:
		for i := v.NumField() - 1; i >= 0; i-- {
			if alter(v.Field(i)) {
				return true
			}
		}
		return false
	default:
		return false
	}
	return true
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Struct:
		s := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			s.Field(i).Set(deepCopy(v.Field(i)))
		}
		return s
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(deepCopy(v.Index(i)))
		}
		return s
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			m.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return m
	}
	return v
}

// dump renders a value; nil and empty lists, maps and byte strings look the same.
func dump(w *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			w.WriteByte('~')
			return
		}
		dump(w, v.Elem())
	case reflect.Struct:
		ty := byType[v.Type()]
		w.WriteByte('{')
		for i, f := range ty.Fields {
			if i > 0 {
				w.WriteByte(',')
			}
			x := v.FieldByName(f)
			if !x.IsValid() { // named around a method, as protoc-gen-go does
				x = v.FieldByName(f + "_")
			}
			if !x.IsValid() {
				w.WriteString("missing:" + f)
				continue
			}
			dump(w, x)
		}
		w.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w.WriteString("b" + hex.EncodeToString(v.Bytes()))
			return
		}
		w.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				w.WriteByte(',')
			}
			dump(w, v.Index(i))
		}
		w.WriteByte(']')
	case reflect.Map:
		var ls []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, k)
			e.WriteByte(':')
			dump(&e, v.MapIndex(k))
			ls = append(ls, e.String())
		}
		sort.Strings(ls)
		w.WriteString("<" + strings.Join(ls, ",") + ">")
	case reflect.Bool:
		fmt.Fprint(w, v.Bool())
	case reflect.Uint32, reflect.Uint64:
		w.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Int32, reflect.Int64:
		w.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Float32:
		fmt.Fprintf(w, "f%08x", math.Float32bits(v.Interface().(float32)))
	case reflect.Float64:
		fmt.Fprintf(w, "f%016x", math.Float64bits(v.Interface().(float64)))
	case reflect.String:
		w.WriteString("s" + hex.EncodeToString([]byte(v.String())))
	}
}

func has(t reflect.Type, f string) bool {
	_, ok := t.FieldByName(f)
	return ok
}

func dumpOf(v any) string {
	var w strings.Builder
	dump(&w, reflect.ValueOf(v))
	return w.String()
}

func encode(m message) []byte {
	b := polyglot.NewBuffer()
	m.Encode(b)
	return bytes.Clone(b.Bytes())
}

// class tells whether v holds a message whose encoding is empty or starts like a nil
// message: the wire format has no way to tell these from what follows, or from nil.
func class(v reflect.Value) string {
	c := ""
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if m, ok := v.Interface().(message); ok {
				b := encode(m)
				if len(b) == 0 {
					c = "zero-bytes/"
				} else if b[0] == 0 && c == "" {
					c = "nil-first/"
				}
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		}
	}
	walk(v)
	return c
}

// canBeEmpty tells whether some message within t can take no bytes at all.
func canBeEmpty(t reflect.Type) bool {
	had := map[reflect.Type]bool{}
	var zero func(t reflect.Type, in map[reflect.Type]bool) bool
	zero = func(t reflect.Type, in map[reflect.Type]bool) bool { // t: struct
		if in[t] {
			return false
		}
		in[t] = true
		defer delete(in, t)
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i).Type
			if f.Kind() != reflect.Pointer || !zero(f.Elem(), in) {
				return false
			}
		}
		return true
	}
	var walk func(t reflect.Type) bool
	walk = func(t reflect.Type) bool {
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Map:
			return walk(t.Elem())
		case reflect.Struct:
			if had[t] {
				return false
			}
			had[t] = true
			if zero(t, map[reflect.Type]bool{}) {
				return true
			}
			for i := 0; i < t.NumField(); i++ {
				if walk(t.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

func hasMessages(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i).Type
		for f.Kind() == reflect.Slice || f.Kind() == reflect.Map {
			f = f.Elem()
		}
		if f.Kind() == reflect.Pointer {
			return true
		}
	}
	return false
}

func hx(b []byte) string {
	if len(b) > 200 {
		return hex.EncodeToString(b[:100]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// decode runs Decode, turning a panic into an error of its own.
func decode(m message, b []byte) (err error, panicked string) {
	steps.Add(1)
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	return m.Decode(b), ""
}

func eachValue(t *typ) []message {
	st := reflect.TypeOf(t.Zero()).Elem()
	var out []message
	for _, s := range values(st, t.Rich, 0) {
		p := reflect.New(st)
		p.Elem().Set(s)
		out = append(out, p.Interface().(message))
	}
	return out
}

// ---- round trips ------------------------------------------------------------------------

func roundTrips(t *typ) {
	vals := eachValue(t)
	atomic.AddInt64(&rep.Values, int64(len(vals)))
	var dirty []message
	step := 1
	if len(vals) > 24 && level < 2 || len(vals) > 120 {
		step = len(vals)/12 + 1
	}
	for i := 0; i < len(vals); i += step {
		dirty = append(dirty, vals[i])
	}
	if step > 1 {
		dirty = append(dirty, vals[len(vals)-1])
	}
	for _, f := range t.Fields {
		if st := reflect.TypeOf(t.Zero()).Elem(); !has(st, f) && !has(st, f+"_") {
			failf(t.Name+"/field-missing", fmt.Sprintf("the struct generated for %s has no field %s", t.Name, f), nil)
		}
	}
	for _, v := range vals {
		want := dumpOf(v)
		fl := func(what, f string, a ...any) {
			failf(t.Name+"/"+class(reflect.ValueOf(v))+what, fmt.Sprintf("message %s %s: ", t.Name, cut(want))+fmt.Sprintf(f, a...), map[string]any{"message": t.Name, "value": want})
		}
		var b []byte
		if p := try(func() { b = encode(v) }); p != "" {
			fl("encode-panics", "Encode panics: %s", p)
			continue
		}
		if got := dumpOf(v); got != want {
			fl("encode-changes", "Encode changed it to %s", cut(got))
			continue
		}
		// Appending: the buffer's earlier contents must stay, the bytes must be the same.
		pre := polyglot.NewBuffer()
		polyglot.Encoder(pre).Uint32(77)
		n := pre.Len()
		if p := try(func() { v.Encode(pre) }); p != "" {
			fl("encode-panics", "Encode after other data panics: %s", p)
		} else if !multiMap(reflect.ValueOf(v)) && !bytes.Equal(pre.Bytes()[n:], b) {
			fl("encode-differs", "encoding it again gives %s, first %s", hx(pre.Bytes()[n:]), hx(b))
		}
		orig := bytes.Clone(b)
		check := func(what string, m message) {
			err, p := decode(m, b)
			if p != "" {
				fl(what+"-panics", "its encoding %s makes Decode panic: %s", hx(b), p)
			} else if err != nil {
				fl(what+"-rejected", "its encoding %s is rejected: %v", hx(b), err)
			} else if got := dumpOf(m); got != want {
				fl(what+"-differs", "its encoding %s decodes to %s", hx(b), cut(got))
			}
			if !bytes.Equal(b, orig) {
				fl("input-changed", "Decode changed its input from %s to %s", hx(orig), hx(b))
				copy(b, orig)
			}
		}
		check("roundtrip", t.New())
		check("zero-target", t.Zero())
		// Trailing data must not matter.
		b = append(b, 0, 5, 10, 1, 65)
		orig = bytes.Clone(b)
		check("followed", t.New())
		b = b[:len(b)-5]
		orig = bytes.Clone(b)
		// The result must not depend on the input afterwards.
		m := t.New()
		in := bytes.Clone(b)
		if err, p := decode(m, in); err == nil && p == "" {
			for i := range in {
				in[i] ^= 0x5A
			}
			if got := dumpOf(m); got != want && dumpAfter(t, b) == want {
				fl("aliases-input", "after its input is overwritten the decoded message changes to %s", cut(got))
			}
		}
		for _, d := range dirty {
			c := deepCopy(reflect.ValueOf(d)).Interface().(message)
			check("dirty-target", c)
		}
		count("round trips", int64(3+len(dirty)))
		// The same target several times.
		m = t.New()
		for i := 0; i < 3; i++ {
			check("same-target", m)
		}
		if got := encode(m); !multiMap(reflect.ValueOf(v)) && !bytes.Equal(got, b) && dumpOf(m) == want {
			fl("reencode-differs", "the decoded message encodes to %s, the original to %s", hx(got), hx(b))
		}
	}
	// Two messages after one another, the second decoded into the first's target.
	for i := range vals {
		for _, j := range []int{(i + 1) % len(vals), (i + len(vals)/2) % len(vals), len(vals) - 1 - i} {
			m := t.New()
			if err, p := decode(m, encode(vals[i])); err != nil || p != "" {
				continue
			}
			want := dumpOf(vals[j])
			err, p := decode(m, encode(vals[j]))
			if got := dumpOf(m); p != "" || err != nil || got != want {
				failf(t.Name+"/"+class(reflect.ValueOf(vals[i]))+class(reflect.ValueOf(vals[j]))+"reused-target", fmt.Sprintf("message %s %s decoded into the target of %s gives %s, %v, %s", t.Name, cut(want), cut(dumpOf(vals[i])), cut(got), err, p),
					map[string]any{"message": t.Name, "first": dumpOf(vals[i]), "second": want})
			}
			count("reused targets", 1)
		}
	}
	// nil
	zero := reflect.Zero(reflect.TypeOf(t.Zero())).Interface().(message)
	var nb []byte
	if p := try(func() { nb = encode(zero) }); p != "" {
		failf(t.Name+"/nil-encode-panics", "encoding a nil "+t.Name+" panics: "+p, nil)
	} else if !bytes.Equal(nb, []byte{0}) {
		failf(t.Name+"/nil-encode", fmt.Sprintf("a nil %s is encoded as %x", t.Name, nb), nil)
	} else {
		m := t.New()
		want := dumpOf(m)
		if err, p := decode(m, nb); p != "" || err != nil || dumpOf(m) != want {
			failf(t.Name+"/nil-decode", fmt.Sprintf("decoding a nil %s into a new one gives %s, %v, %s", t.Name, cut(dumpOf(m)), err, p), nil)
		}
	}
	if err, p := decode(zero, []byte{0}); p != "" || err == nil {
		failf(t.Name+"/nil-target", fmt.Sprintf("decoding into a nil *%s: error %v, panic %q", t.Name, err, p), nil)
	}
}

func dumpAfter(t *typ, b []byte) string {
	m := t.New()
	decode(m, bytes.Clone(b))
	return dumpOf(m)
}

func try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return
}

// multiMap tells whether v holds a map of several entries, whose order is not fixed.
func multiMap(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return !v.IsNil() && multiMap(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if multiMap(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if multiMap(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if multiMap(v.MapIndex(k)) {
				return true
			}
		}
	}
	return false
}

// ---- damaged input ------------------------------------------------------------------------

type token struct{ at, end int }

func varintEnd(b []byte, i int) int {
	for ; i < len(b); i++ {
		if b[i] < 0x80 {
			return i + 1
		}
	}
	return len(b)
}

func varintVal(b []byte, i int) (x int) {
	for s := 0; i < len(b); i, s = i+1, s+7 {
		x |= int(b[i]&0x7f) << s
		if b[i] < 0x80 {
			break
		}
	}
	return
}

// tokens splits an encoding into its values; nil if it cannot.
func tokens(b []byte) (out []token) {
	for i := 0; i < len(b); {
		at := i
		lenAt := func(j int) int { // data with a length prefix
			if j >= len(b) || b[j] != 10 {
				return len(b) + 1
			}
			return varintEnd(b, j+1) + varintVal(b, j+1)
		}
		switch b[i] {
		case 0:
			i++
		case 1:
			i = varintEnd(b, i+3)
		case 2:
			i = varintEnd(b, i+4)
		case 4, 5:
			i = lenAt(i + 1)
		case 6:
			i = lenAt(i + 2)
		case 7, 8:
			i += 2
		case 9, 10, 11, 12, 13:
			i = varintEnd(b, i+1)
		case 14:
			i += 5
		case 15:
			i += 9
		default:
			return nil
		}
		if i > len(b) {
			return nil
		}
		out = append(out, token{at, i})
	}
	return
}

var others = [][]byte{
	{0}, {1, 3, 10, 0}, {1, 10, 10, 1}, {1, 5, 10, 0}, {2, 5, 10, 10, 0}, {2, 10, 3, 10, 0}, {4, 10, 1, 9}, {4, 10, 0}, {5, 10, 1, 65}, {5, 10, 0}, {6, 5, 10, 1, 65},
	{7, 1}, {7, 0}, {8, 1}, {9, 1}, {10, 1}, {10, 0}, {11, 1}, {12, 1}, {13, 1}, {14, 0, 0, 0, 0}, {15, 0, 0, 0, 0, 0, 0, 0, 0}, {16, 1}, {0x80, 1}, {3, 0},
}

func sameKind(a, b []byte) bool {
	switch {
	case a[0] != b[0]:
		return false
	case a[0] == 1:
		return len(a) > 1 && len(b) > 1 && a[1] == b[1]
	case a[0] == 2:
		return len(a) > 2 && len(b) > 2 && a[1] == b[1] && a[2] == b[2]
	}
	return true
}

func damage(t *typ) {
	st := reflect.TypeOf(t.Zero()).Elem()
	empty, nested := canBeEmpty(st), hasMessages(st)
	vals := eachValue(t)
	// A handful of values carries the expensive mutations.
	step := 1
	maxv := 24
	if level >= 2 {
		maxv = 120
	}
	if len(vals) > maxv {
		step = len(vals)/maxv + 1
	}
	atomic.AddInt64(&rep.Values, int64(len(vals)))
	target := func(i int) message {
		if i%3 == 2 {
			return deepCopy(reflect.ValueOf(vals[i%len(vals)])).Interface().(message)
		}
		if i%3 == 1 {
			return t.Zero()
		}
		return t.New()
	}
	for vi, v := range vals {
		b := encode(v)
		want := dumpOf(v)
		fl := func(what string, in []byte, f string, a ...any) {
			c := class(reflect.ValueOf(v))
			if c == "" && empty {
				c = "zero-bytes/"
			}
			failf(t.Name+"/"+c+what, fmt.Sprintf("message %s, input %s (from %s): ", t.Name, hx(in), cut(want))+fmt.Sprintf(f, a...), map[string]any{"message": t.Name, "value": want, "input": hex.EncodeToString(in)})
		}
		// Every strict prefix.
		for i := 0; i < len(b); i++ {
			if len(b) > 300 && i > 80 && i < len(b)-80 && i%16 != 0 && level < 2 {
				continue
			}
			m := target(vi + i)
			err, p := decode(m, b[:i:i])
			if p != "" {
				fl("prefix-panics", b[:i], "Decode panics: %s", p)
			} else if err == nil && len(t.Fields) > 0 {
				fl("prefix-accepted", b[:i], "a prefix of %s is accepted as %s", hx(b), cut(dumpOf(m)))
			}
			count("prefixes", 1)
		}
		if vi%step != 0 && vi != len(vals)-1 {
			continue
		}
		toks := tokens(b)
		if len(toks) > 40 {
			toks = append(append([]token{}, toks[:20]...), toks[len(toks)-20:]...)
		}
		for ti, tk := range toks {
			old := b[tk.at:tk.end]
			for _, o := range others {
				if sameKind(o, old) {
					continue
				}
				in := append(append(bytes.Clone(b[:tk.at]), o...), b[tk.end:]...)
				m := target(vi + ti)
				err, p := decode(m, in)
				count("replaced values", 1)
				if p != "" {
					fl("replaced-panics", in, "Decode panics: %s", p)
					continue
				}
				if err != nil || len(t.Fields) == 0 {
					continue
				}
				// Nil stands for an absent message or map. A nil message may be replaced by
				// whatever its type starts with; kinds no message starts with stay wrong.
				switch {
				case empty:
				case o[0] == 0 && (ti == 0 || nested || old[0] == 2):
				case old[0] == 0 && o[0] != 6 && o[0] != 8 && o[0] != 9 && o[0] < 16:
				default:
					fl("replaced-accepted", in, "value %d (%x) replaced by %x is accepted as %s", ti, old, o, cut(dumpOf(m)))
				}
			}
		}
		// Every single byte changed to every other value.
		if len(b) <= 64 {
			in := bytes.Clone(b)
			for i := range in {
				for x := 0; x < 256; x++ {
					in[i] = byte(x)
					m := target(vi + x)
					if huge(in) {
						continue
					}
					if _, p := decode(m, in); p != "" {
						fl("mutated-panics", in, "Decode panics: %s", p)
					}
					count("mutated bytes", 1)
				}
				in[i] = b[i]
			}
		}
	}
	// All short inputs over the bytes that mean something.
	alpha := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 127, 128, 255}
	depth := 3
	if level >= 2 {
		depth = 4
	}
	in := make([]byte, 0, 8)
	var rec func()
	rec = func() {
		m := t.New()
		if _, p := decode(m, in); p != "" {
			failf(t.Name+"/short-panics", fmt.Sprintf("message %s, input %x: Decode panics: %s", t.Name, in, p), map[string]any{"message": t.Name, "input": hex.EncodeToString(in)})
		}
		count("short inputs", 1)
		if len(in) == depth {
			return
		}
		for _, x := range alpha {
			in = append(in, x)
			rec()
			in = in[:len(in)-1]
		}
	}
	rec()
	// An encoded error is not a message.
	if len(t.Fields) > 0 && !empty {
		for _, s := range []string{"", "x", longString(200)} {
			b := polyglot.NewBuffer()
			if p := try(func() { t.New().Error(b, errors.New(s)) }); p != "" {
				failf(t.Name+"/error-panics", "encoding an error panics: "+p, nil)
				continue
			}
			ref := polyglot.NewBuffer()
			polyglot.Encoder(ref).Error(errors.New(s))
			if !bytes.Equal(b.Bytes(), ref.Bytes()) {
				failf(t.Name+"/error-bytes", fmt.Sprintf("Error encodes %q as %s", s, hx(b.Bytes())), nil)
			}
			m := t.New()
			if err, p := decode(m, b.Bytes()); p != "" || err == nil {
				failf(t.Name+"/error-accepted", fmt.Sprintf("message %s: an encoded error is decoded as %s (panic %q)", t.Name, cut(dumpOf(m)), p), nil)
			}
			count("encoded errors", 1)
		}
	}
}

// huge tells whether the input claims many elements or bytes: those inputs are tried
// one at a time, with memory measured.
func huge(b []byte) bool {
	for _, tk := range tokens(b) {
		if (b[tk.at] == 1 || b[tk.at] == 2) && tk.end-tk.at > 5 {
			return true
		}
	}
	for i := 0; i+3 < len(b); i++ { // anything that could be read as a large size
		if b[i] == 10 && b[i+1] >= 0x80 && b[i+2] >= 0x80 {
			return true
		}
	}
	return false
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// claims inflates every size in a message and measures what decoding allocates. It must
// run alone.
func claims(t *typ) {
	vals := eachValue(t)
	step := len(vals)/10 + 1
	for vi := 0; vi < len(vals); vi += step {
		v := vals[vi]
		b := encode(v)
		toks := tokens(b)
		if len(toks) > 12 {
			toks = toks[:12]
		}
		for _, tk := range toks {
			at := 0
			switch b[tk.at] {
			case 1:
				at = tk.at + 3
			case 2:
				at = tk.at + 4
			case 4, 5:
				at = tk.at + 2
			default:
				continue
			}
			for _, size := range []uint64{1 << 20, 1 << 24, 1 << 28, 1<<32 - 1} {
				var sz []byte
				for x := size; ; x >>= 7 {
					if x < 128 {
						sz = append(sz, byte(x))
						break
					}
					sz = append(sz, byte(x)|128)
				}
				in := append(append(bytes.Clone(b[:at]), sz...), b[varintEnd(b, at):]...)
				m := t.New()
				a0 := allocated()
				t0 := time.Now()
				err, p := decode(m, in)
				a1 := allocated()
				count("claimed sizes", 1)
				c := class(reflect.ValueOf(v))
				if c == "" && canBeEmpty(reflect.TypeOf(t.Zero()).Elem()) {
					c = "zero-bytes/"
				}
				rp := map[string]any{"message": t.Name, "input": hex.EncodeToString(in)}
				if p != "" {
					failf(t.Name+"/"+c+"claimed-panics", fmt.Sprintf("message %s, input %s claims %d elements: Decode panics: %s", t.Name, hx(in), size, p), rp)
				}
				if got := a1 - a0; got > 256<<10+256*uint64(len(in)) {
					failf(t.Name+"/"+c+"claimed-allocates", fmt.Sprintf("message %s, input %s of %d bytes claims %d elements or bytes: Decode allocates %d bytes (error %v)", t.Name, hx(in), len(in), size, got, err), rp)
					break
				}
				if time.Since(t0) > 5*time.Second {
					failf(t.Name+"/"+c+"claimed-slow", fmt.Sprintf("message %s, input %s claims %d elements: Decode takes %v", t.Name, hx(in), size, time.Since(t0)), rp)
					break
				}
				if err == nil && c == "" {
					failf(t.Name+"/claimed-accepted", fmt.Sprintf("message %s, input %s claims %d elements or bytes and is accepted", t.Name, hx(in), size), rp)
				}
			}
		}
	}
}

// ---- values for the other languages ----------------------------------------------------------

// portable tells whether generated Rust code can hold v: no nil messages, known enum
// numbers, valid UTF-8.
func portable(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return !v.IsNil() && portable(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !portable(v.Field(i)) {
				return false
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if !portable(v.Index(i)) {
				return false
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if !portable(k) || !portable(v.MapIndex(k)) {
				return false
			}
		}
	case reflect.Uint32:
		if v.Type() != reflect.TypeOf(uint32(0)) {
			return v.Uint() < uint64(enumSize[v.Type().Name()])
		}
	case reflect.String:
		return strings.ToValidUTF8(v.String(), "") == v.String()
	}
	return true
}

func list(t *typ, w *bufio.Writer) {
	for _, v := range eachValue(t) {
		rv := reflect.ValueOf(v)
		var b []byte
		if p := try(func() { b = encode(v) }); p != "" {
			continue // reported elsewhere
		}
		fmt.Fprintf(w, "%s\t%s\t%x\t%v\t%v\t%s\n", t.Name, dumpOf(v), b, portable(rv), multiMap(rv), strings.TrimSuffix(class(rv), "/"))
	}
}

// serve decodes what it is given: lines of type and bytes.
func serve() {
	names := map[string]*typ{}
	for i := range types {
		names[types[i].Name] = &types[i]
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 64<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	for sc.Scan() {
		f := strings.Split(sc.Text(), "\t")
		b, _ := hex.DecodeString(f[1])
		m := names[f[0]].New()
		err, p := decode(m, b)
		switch {
		case p != "":
			fmt.Fprintf(w, "panic %s\n", strings.ReplaceAll(p, "\n", " "))
		case err != nil:
			fmt.Fprintf(w, "error %s\n", strings.ReplaceAll(err.Error(), "\n", " "))
		default:
			fmt.Fprintf(w, "ok %s\t%x\n", dumpOf(m), encode(m))
		}
	}
}

func finish() {
	rep.Steps = steps.Load()
	rep.Types = int64(len(types))
	mu.Lock()
	b, _ := json.Marshal(&rep)
	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

// enumeration is the constants of an enum, in the order of the schema.
type enumeration struct {
	name   string
	values []uint32
}

func main() {
	mode := os.Args[1]
	level, _ = strconv.Atoi(os.Args[2])
	for i := range types {
		byType[reflect.TypeOf(types[i].Zero()).Elem()] = &types[i]
	}
	if mode == "deep" {
		deep(os.Args[3])
		return
	}
	if mode == "serve" {
		serve()
		return
	}
	if mode == "enums" {
		for _, e := range enumValues {
			fmt.Printf("%s %v\n", e.name, e.values)
		}
		return
	}
	if mode == "list" {
		w := bufio.NewWriterSize(os.Stdout, 1<<20)
		for i := range types {
			list(&types[i], w)
		}
		w.Flush()
		return
	}
	debug.SetGCPercent(400)
	go func() { // a decode that does not end, or eats all memory
		last, since := int64(-1), time.Now()
		for range time.Tick(200 * time.Millisecond) {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			what := ""
			if ms.HeapAlloc > 6<<30 {
				what = "memory"
			}
			if s := steps.Load(); s != last {
				last, since = s, time.Now()
			} else if time.Since(since) > 45*time.Second {
				what = "hang"
			}
			if what != "" {
				var ds []string
				doing.Range(func(k, v any) bool { ds = append(ds, v.(string)); return true })
				failf("run/"+what, "decoding does not end or uses all memory, while working on "+strings.Join(ds, ", "), ds)
				finish()
			}
		}
	}()
	f := map[string]func(*typ){"roundtrip": roundTrips, "damage": damage}[mode]
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(types) {
					return
				}
				doing.Store(w, types[i].Name)
				f(&types[i])
				doing.Delete(w)
			}
		}()
	}
	wg.Wait()
	if mode == "damage" {
		debug.SetGCPercent(100)
		for i := range types {
			doing.Store(0, types[i].Name)
			claims(&types[i])
		}
	}
	finish()
}

// deep decodes a recursive message nested far deeper than any real one.
func deep(name string) {
	for i := range types {
		if types[i].Name != name {
			continue
		}
		// number, then the nested message: {10 1} {10 1} ... {10 1} {0}
		b := bytes.Repeat([]byte{10, 1}, 40_000_000)
		b = append(b, 0)
		err, p := decode(types[i].New(), b)
		fmt.Println("survived", err, p)
	}
}
