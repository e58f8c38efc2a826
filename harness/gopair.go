package main

import (
	"fmt"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"
)

// goPair encodes and decodes one value at a time in Go without allocating.
type goPair struct{ round func(o Op) string }

func newGoPair(s *goSubject) goPair {
	var dec stepper
	var put func(o Op) []byte
	var load func(in []byte)
	if s == goV1 {
		b := v1.NewBuffer()
		put = func(o Op) []byte { b.Reset(); v1Put(v1.Encoder(b), o); return b.Bytes() }
		load = func(in []byte) { dec = newV1Step(in) }
	} else {
		b := v2.NewBuffer()
		put = func(o Op) []byte { b.Reset(); v2Put(v2.Encoder(b), o); return b.Bytes() }
		load = func(in []byte) { dec = newV2Step(in) }
	}
	var want []byte
	return goPair{func(o Op) (w string) {
		defer func() {
			if p := recover(); p != nil {
				w = fmt.Sprint("panic: ", p)
			}
		}()
		got := put(o)
		want = refEncode(want[:0], o)
		if string(got) != string(want) {
			return fmt.Sprintf("encoded as %x, want %x", got, want)
		}
		load(got)
		r := dec.Do(o)
		if !r.Ok || r.V.N != o.N || r.Rem > 0 {
			return fmt.Sprintf("encoded as %x, decoded as %s (ok=%v)", got, r.V, r.Ok)
		}
		return ""
	}}
}
