package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"slices"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"
)

// ---- C11: decoded values are independent copies -------------------------------------

type goDec struct {
	decoderAPI
	back func() // gives the decoder back to its pool, if there is one
}

func newGoDec(version int, in []byte) goDec {
	if version == 1 {
		d := v1.GetDecoder(in)
		return goDec{d, func() { d.Return() }}
	}
	return goDec{v2.Decoder(in), func() {}}
}

// arena is input memory with recognisable surroundings.
type arena struct {
	mem, was []byte
	in       []byte
}

func newArena(in []byte) *arena {
	a := &arena{mem: bytes.Repeat([]byte{0xEE}, len(in)+32)}
	copy(a.mem[12:], in)
	a.in = a.mem[12 : 12+len(in) : 12+len(in)+12] // room behind the input, as in a slice of a larger buffer
	a.was = append([]byte(nil), a.mem...)
	return a
}

func (a *arena) changed() bool { return !bytes.Equal(a.mem, a.was) }

// scratchSpec says what Bytes decodes into: -1 nil, else a slice of this length and capacity.
type scratchSpec struct{ n, c int }

func (s scratchSpec) String() string {
	if s.n < 0 {
		return "nil"
	}
	return fmt.Sprintf("[len=%d,cap=%d]", s.n, s.c)
}

type held struct {
	op   Op
	b    []byte // live decoded bytes
	s    string // live decoded string
	e    error
	want []byte
}

func (h *held) now() []byte {
	switch h.op.K {
	case KBytes:
		return h.b
	case KString:
		return []byte(h.s)
	}
	return []byte(h.e.Error())
}

func (h *held) ok() bool { return bytes.Equal(h.now(), h.want) }

// aliasGo decodes ops from their encoding (with bytes going into scratch slices) and
// then changes memory in every way a caller may. It returns what is wrong, if anything.
func aliasGo(version int, ops []Op, scr []scratchSpec, cut int) (what string, steps int) {
	defer func() {
		if p := recover(); p != nil {
			what = fmt.Sprint("panic: ", p)
		}
	}()
	full := refEncodeAll(ops)
	a := newArena(full[:len(full)-cut])
	d := newGoDec(version, a.in)
	var vals []*held
	var arounds []*arena
	for i, o := range ops {
		h := &held{op: o, want: append([]byte(nil), o.D...)}
		var err error
		switch o.K {
		case KBytes:
			sp := scratchSpec{-1, 0}
			if i < len(scr) {
				sp = scr[i]
			}
			var s []byte
			var around []byte
			if sp.n >= 0 {
				s, around = stale(sp.n, sp.c)
			}
			h.b, err = d.Bytes(s)
			if !intact(around) {
				return fmt.Sprintf("writes outside the scratch slice %s", sp), steps
			}
		case KString:
			h.s, err = d.String()
		case KError:
			h.e, err = d.Error()
		default:
			r := (&goStep{d: d.decoderAPI, slice: func(byte) (uint32, error) { return 0, nil }, mp: func(byte, byte) (uint32, error) { return 0, nil }, rem: func() int { return 0 }}).Do(o)
			if cut == 0 && (!r.Ok || r.V.N != o.N) {
				return "wrong value " + r.V.String(), steps
			}
			h = nil
		}
		steps++
		if a.changed() {
			return "decoding modifies the input", steps
		}
		if cut > 0 && i == len(ops)-1 {
			if err == nil {
				return "cut value accepted", steps
			}
			break
		}
		if err != nil {
			return fmt.Sprintf("decode failed: %v", err), steps
		}
		if h != nil {
			if !h.ok() {
				return fmt.Sprintf("returned %s, want %s", hxDiff(h.now(), h.want), hx(h.want)), steps
			}
			vals = append(vals, h)
		}
		for _, x := range vals {
			if !x.ok() {
				return "decoding another value changed an earlier one", steps
			}
		}
	}
	d.back()
	_ = arounds
	all := func(when string) string {
		for i, x := range vals {
			if !x.ok() {
				return fmt.Sprintf("value %d (%s) changed when %s", i, x.op, when)
			}
		}
		return ""
	}
	for i := range a.mem {
		a.mem[i] = 0xDD
	}
	if w := all("the input was overwritten"); w != "" {
		return w, steps
	}
	// Another decoder (which may be the same object from the pool) reads other data.
	other := bytes.Repeat([]byte{0xA7}, len(full))
	d2 := newGoDec(version, refEncode(nil, Op{K: KBytes, D: other}))
	if b, err := d2.Bytes(nil); err != nil || !bytes.Equal(b, other) {
		return "a later decoder returned something else", steps
	}
	d2.back()
	if w := all("a later decoder was used"); w != "" {
		return w, steps
	}
	for i, x := range vals {
		if x.op.K != KBytes {
			continue
		}
		c := x.b[:cap(x.b)] // appending to a decoded value writes here
		for k := range c {
			c[k] = 0xCC
		}
		x.want = bytes.Repeat([]byte{0xCC}, len(x.b))
		if w := all(fmt.Sprintf("value %d was changed", i)); w != "" {
			return w, steps
		}
		for _, m := range a.mem {
			if m != 0xDD {
				return "changing a decoded value changes the input", steps
			}
		}
		steps++
	}
	return "", steps
}

// encodeThenScribble encodes ops from memory that is overwritten after every call.
func encodeThenScribble(version int, buf Buf, ops []Op) (what string) {
	defer func() {
		if p := recover(); p != nil {
			what = fmt.Sprint("panic: ", p)
		}
	}()
	g := newGobuf(version, buf)
	var want []byte
	for _, o := range ops {
		p := o
		a := newArena(o.D)
		p.D = a.in
		if o.K == kWrite {
			want = append(want, o.D...)
			g.write(p.D)
		} else {
			want = refEncode(want, o)
			g.enc(p)
		}
		if a.changed() {
			return "encoding modifies the caller's data"
		}
		for i := range a.mem {
			a.mem[i] = 0xDD
		}
		if !bytes.Equal(g.bytes(), want) {
			return "encoded " + hxDiff(g.bytes(), want) + ", want " + hx(want)
		}
	}
	// The encoded bytes are the caller's own now: scribbling on a copy of the values
	// and writing more must not change them.
	snap := g.bytes()[:len(want):len(want)]
	g.enc(Op{K: KU8, N: 1})
	if !bytes.Equal(snap, want) {
		return "bytes taken from the buffer changed when more was appended"
	}
	return ""
}

// kWrite stands for Buffer.Write of the data.
const kWrite = 0x7e

// aliasSizes is every small payload size and those around powers of two up to 1 MiB.
func aliasSizes(lv int) []int {
	var out []int
	top := 300
	if lv >= 2 {
		top = 5000
	}
	for n := 0; n <= top; n++ {
		out = append(out, n)
	}
	for p := 256; p <= 1<<20; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + p/2} {
			if n > top {
				out = append(out, n)
			}
		}
	}
	return out
}

func dataOps() []Op {
	return []Op{
		{K: KBytes, D: []byte{}}, {K: KBytes, D: []byte{7}}, {K: KBytes, D: fill(9, 1)}, {K: KBytes, D: fill(130, 2)}, {K: KBytes, D: fill(600, 4)},
		{K: KString, D: []byte{}}, {K: KString, D: []byte("a")}, {K: KString, D: text(40)}, {K: KString, D: text(300)},
		{K: KError, D: []byte{}}, {K: KError, D: []byte("e!")}, {K: KError, D: text(40)},
		{K: KU32, N: 300}, {K: KNil},
	}
}

func c11(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	lv := level(c)
	var ext []Subject
	for _, s := range subjs {
		if _, ok := s.(*extSubject); ok {
			ext = append(ext, s)
		}
	}
	x := runner{c: c, subjs: ext, aspects: aAlias | aAccept}
	ops := dataOps()
	depth := 3
	if lv >= 2 {
		depth = 4
	}
	for n := 1; n <= depth; n++ {
		x.decode(fmt.Sprintf("Rust, C, TypeScript: %d values held while input and other values change", n), func(emit func(DecJob)) {
			seqs(ops, n, func(s []Op) { emit(DecJob{In: withSpare(refEncodeAll(s)), Ops: s}) })
		})
	}
	sizes := aliasSizes(lv)
	x.decode("Rust, C, TypeScript: one value of every size", func(emit func(DecJob)) {
		for _, n := range sizes {
			for _, k := range []byte{KBytes, KString, KError} {
				s := []Op{{K: k, D: text(n)}}
				emit(DecJob{In: withSpare(refEncodeAll(s)), Ops: s})
				s = []Op{{K: KString, D: []byte("first")}, {K: k, D: text(n)}, {K: KBytes, D: []byte("last")}}
				emit(DecJob{In: withSpare(refEncodeAll(s)), Ops: s})
			}
		}
	})
	x.encode("Rust, C, TypeScript: caller data of every size overwritten", func(emit func(EncJob)) {
		for _, n := range sizes {
			for _, k := range []byte{KBytes, KString, KError} {
				emit(EncJob{Buf{}, []Op{{K: k, D: text(n)}, {K: KU8, N: 1}}})
				emit(EncJob{Buf{Kind: 1, N: n + 20}, []Op{{K: KU8, N: 1}, {K: k, D: text(n)}}})
			}
		}
	})
	x.encode("Rust, C, TypeScript: caller data overwritten after every encode", func(emit func(EncJob)) {
		seqs(ops, 2, func(s []Op) {
			for _, n := range []int{0, 1, 600, 4000} {
				emit(EncJob{Buf{Kind: 1, N: n}, s})
			}
			emit(EncJob{Buf{}, s})
		})
	})

	report := func(version int, key, what, detail string, again func() string) {
		for i := 0; i < 3; i++ {
			if again() != what {
				return
			}
		}
		c.Fail(fmt.Sprintf("go-v%d/%s/%s", version, key, keyWord(what)), fmt.Sprintf("go-v%d: %s: %s", version, detail, what), map[string]any{"version": version, "case": detail})
	}
	run := func(domain string, total int, at func(i int) (ops []Op, scr []scratchSpec, cut int)) {
		const blk = 256
		if !c.Parallel((total+blk-1)/blk, func(b int) {
			wd := watch(domain, func(i int) string { o, s, k := at(i); return fmt.Sprint(opsStr(o), s, k) })
			defer wd.done()
			var st, n int64
			for i := b * blk; i < min(total, (b+1)*blk); i++ {
				wd.at(i)
				o, s, k := at(i)
				for version := 1; version <= 2; version++ {
					w, steps := aliasGo(version, o, s, k)
					st += int64(steps)
					n++
					if w != "" {
						d := fmt.Sprintf("values [%s] scratch %v cut %d", opsStr(o), s, k)
						report(version, "decode-"+kname(o[len(o)-1].K), w, d, func() string { w, _ := aliasGo(version, o, s, k); return w })
					}
				}
			}
			c.states.Add(n / 2)
			c.transitions.Add(st)
			c.traces.Add(n)
		}) {
			c.Cap(domain)
		}
		c.Count(domain, int64(total))
		c.Outcome(domain)
	}
	pow := func(a, b int) int { return int(math.Pow(float64(a), float64(b)) + 0.5) }
	for n := 1; n <= depth+1; n++ {
		run(fmt.Sprintf("Go: %d values held while input, pool and other values change", n), pow(len(ops), n), func(i int) ([]Op, []scratchSpec, int) {
			s := make([]Op, n)
			for k := range s {
				s[k] = ops[i%len(ops)]
				i /= len(ops)
			}
			return s, nil, 0
		})
	}
	kinds := []byte{KBytes, KString, KError}
	run("Go: one value of every size held while input, pool and other values change", len(sizes)*6, func(i int) ([]Op, []scratchSpec, int) {
		o := Op{K: kinds[i%3], D: text(sizes[i/6])}
		if i/3%2 == 0 {
			return []Op{o}, nil, 0
		}
		return []Op{{K: KString, D: []byte("first")}, o, {K: KError, D: []byte("last")}}, nil, 0
	})
	// Scratch slices: payload x length x capacity, complete and cut short.
	maxN := 20
	if lv >= 2 {
		maxN = 40
	}
	type sc struct {
		p   int
		s   scratchSpec
		cut int
		two int
	}
	var scs []sc
	lens := []int{}
	for i := 0; i <= maxN; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 127, 128, 129, 511, 512, 513, 4096)
	for _, p := range lens {
		scs = append(scs, sc{p, scratchSpec{-1, 0}, 0, 0})
		for _, n := range lens {
			for _, cp := range lens {
				if cp < n || cp > maxN && n <= maxN && n > 2 && cp-p > 2 && n != p {
					continue
				}
				for two := 0; two < 3; two++ {
					scs = append(scs, sc{p, scratchSpec{n, cp}, 0, two})
				}
				for _, cut := range []int{1, p} {
					if cut > 0 && cut <= p {
						scs = append(scs, sc{p, scratchSpec{n, cp}, cut, 0})
					}
				}
			}
		}
	}
	run("Go: payload size x scratch length x capacity", len(scs), func(i int) ([]Op, []scratchSpec, int) {
		s := scs[i]
		o := Op{K: KBytes, D: fill(s.p, 1)}
		switch s.two {
		case 1: // more behind it
			return []Op{o, {K: KBytes, D: fill(5, 77)}}, []scratchSpec{s.s, {-1, 0}}, s.cut
		case 2: // something in front and behind, each with its own scratch
			return []Op{{K: KBytes, D: fill(3, 50)}, o, {K: KString, D: []byte("tail")}}, []scratchSpec{{4, 6}, s.s}, s.cut
		}
		return []Op{o}, []scratchSpec{s.s}, s.cut
	})
	// One scratch slice reused for several values.
	c.Count("Go: one scratch slice for two values", 0)
	var reuse int64
	for _, p1 := range lens {
		for _, p2 := range lens {
			for _, n := range []int{0, 1, 5, 16, 600} {
				for version := 1; version <= 2; version++ {
					reuse++
					w := func() (w string) {
						defer func() {
							if p := recover(); p != nil {
								w = fmt.Sprint("panic: ", p)
							}
						}()
						a, b := fill(p1, 3), fill(p2, 99)
						ar := newArena(refEncodeAll([]Op{{K: KBytes, D: a}, {K: KBytes, D: b}}))
						d := newGoDec(version, ar.in)
						s, around := stale(n, n+3)
						r1, err1 := d.Bytes(s)
						if err1 != nil || !bytes.Equal(r1, a) {
							return "first value wrong"
						}
						r2, err2 := d.Bytes(r1)
						d.back()
						if err2 != nil || !bytes.Equal(r2, b) {
							return "second value wrong when decoding into the first: " + hxDiff(r2, b)
						}
						if ar.changed() || !intact(around) {
							return "wrote outside the scratch slice"
						}
						return ""
					}
					if x := w(); x != "" {
						report(version, "scratch-reuse", x, fmt.Sprintf("payloads %d and %d, scratch %d", p1, p2, n), w)
					}
				}
			}
		}
	}
	c.Count("Go: one scratch slice for two values", reuse)
	c.states.Add(reuse / 2)
	c.transitions.Add(2 * reuse)
	c.traces.Add(reuse)
	var enc int64
	for n := 1; n <= 3; n++ {
		seqs(ops, n, func(s []Op) {
			for _, b := range []Buf{{}, {Kind: 1, N: 0}, {Kind: 1, N: 300}, {Kind: 2, N: 3, Cap: 9}, {Kind: 3, N: 700}, {Kind: 4, N: 700}} {
				for version := 1; version <= 2; version++ {
					enc++
					if w := encodeThenScribble(version, b, s); w != "" {
						report(version, "encode-"+kname(s[len(s)-1].K), w, fmt.Sprintf("encoding [%s] into %s, caller data overwritten", opsStr(s), b), func() string { return encodeThenScribble(version, b, s) })
					}
				}
			}
		})
	}
	for _, n := range sizes {
		for _, b := range []Buf{{}, {Kind: 1, N: 0}, {Kind: 1, N: n + 30}, {Kind: 2, N: 3, Cap: n + 9}} {
			for _, k := range append(kinds[:3:3], kWrite) {
				for _, s := range [][]Op{{{K: k, D: text(n)}}, {{K: KU8, N: 1}, {K: k, D: text(n)}, {K: KString, D: []byte("end")}}} {
					for version := 1; version <= 2; version++ {
						enc++
						if w := encodeThenScribble(version, b, s); w != "" {
							report(version, "encode-size-"+kname(k), w, fmt.Sprintf("encoding [%s] into %s, caller data overwritten", opsStr(s), b), func() string { return encodeThenScribble(version, b, s) })
						}
					}
				}
			}
		}
	}
	c.Count("Go: caller data overwritten after every encode", enc)
	c.states.Add(enc / 2)
	c.transitions.Add(enc)
	c.traces.Add(enc)
	c.Assume("Rust decoders return owned Vec and String values: the compiler rules out sharing with the input (the crate has no unsafe code); the traces are replayed all the same")
}

// ---- C15: allocation is bounded by the input ---------------------------------------

// measured is a Go subject that reports what each request allocates. It is used from
// one goroutine while nothing else runs.
type measured struct{ *goSubject }

func (m measured) Decode(jobs []DecJob) [][]Res {
	out := make([][]Res, len(jobs))
	w := watch(m.name+"/decode", func(i int) string { return "requests [" + reqsStr(jobs[i].Ops) + "] on input " + hx(jobs[i].In) })
	defer w.done()
	var m0, m1 runtime.MemStats
	for i, j := range jobs {
		w.at(i)
		if m.decOnly && !asksBytes(j.Ops) {
			out[i] = []Res{{Skip: true}}
			continue
		}
		d := m.dec(j.In)
		for _, o := range j.Ops {
			runtime.ReadMemStats(&m0)
			r := doSafe(d, o)
			runtime.ReadMemStats(&m1)
			r.Alloc = m1.TotalAlloc - m0.TotalAlloc
			out[i] = append(out[i], r)
			if r.Crash != "" {
				break
			}
		}
	}
	return out
}

func c15(c *Check) {
	lv := level(c)
	var inputs []DecJob
	seen := map[string]bool{}
	add := func(j DecJob) {
		k := string(j.In) + "/" + reqsStr(j.Ops)
		if !seen[k] {
			seen[k] = true
			inputs = append(inputs, j)
		}
	}
	heads := []struct {
		h []byte
		o Op
	}{{[]byte{KBytes}, Op{K: KBytes}}, {[]byte{KString}, Op{K: KString}}, {[]byte{KError, KString}, Op{K: KError}},
		{[]byte{KSlice, KU8}, Op{K: KSlice, A: KU8}}, {[]byte{KSlice, KString}, Op{K: KSlice, A: KString}}, {[]byte{KMap, KU8, KString}, Op{K: KMap, A: KU8, B: KString}}}
	// Claimed lengths: around every power of two, and every short varint over a digit alphabet.
	claims := map[uint64]bool{}
	for b := uint(0); b < 33; b++ {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			claims[(uint64(1)<<b+d)&0xffffffff] = true
		}
	}
	var cl []uint64
	for v := range claims {
		cl = append(cl, v)
	}
	haves := []int{0, 1, 2, 3, 7, 50, 300, 1000, 5000}
	if lv >= 2 {
		haves = nil
		for i := 0; i < 64; i++ {
			haves = append(haves, i)
		}
		haves = append(haves, 100, 127, 128, 129, 300, 511, 512, 513, 1000, 5000, 70000)
	}
	for _, hd := range heads {
		for _, v := range sortedU(cl) {
			for _, have := range haves {
				in := append(append([]byte{}, hd.h...), refLen(nil, v)...)
				in = append(in, text(have)...)
				add(DecJob{In: withSpare(in), Ops: []Op{hd.o, hd.o}})
				if have < 3 { // a value in front, so that the decoder is not fresh
					pre := refEncode(nil, Op{K: KString, D: []byte("pre")})
					add(DecJob{In: withSpare(append(pre, in...)), Ops: []Op{{K: KString}, hd.o, hd.o}})
				}
			}
			// exactly as much as claimed, one less, one more
			if v < 100000 {
				for d := -1; d <= 1; d++ {
					if int(v)+d >= 0 {
						in := append(append([]byte{}, hd.h...), refLen(nil, v)...)
						add(DecJob{In: withSpare(append(in, text(int(v)+d)...)), Ops: []Op{hd.o}})
					}
				}
			}
		}
	}
	n := len(inputs)
	if lv >= 2 {
		rawInputs(1, func(in []byte, first []Op) {
			for _, o := range first {
				if o.K == KBytes || o.K == KString || o.K == KError || o.K == KSlice || o.K == KMap {
					add(DecJob{In: in, Ops: []Op{o}})
				}
			}
		})
	}
	for _, s := range []measured{{goV1}, {goV2}, {goV1Scratch}, {goV2Scratch}} {
		name := fmt.Sprintf("%s: claimed length x input present", s.name)
		x := runner{c: c, subjs: []Subject{s}, aspects: aAlloc}
		for lo := 0; lo < n; lo += 500 {
			if c.Expired() {
				c.Cap(name)
				break
			}
			js := inputs[lo:min(n, lo+500)]
			rs := s.Decode(js)
			for i, j := range js {
				v, steps := judge(s, j, rs[i], aAlloc)
				c.transitions.Add(int64(steps))
				if v != nil && !c.Failed(v.key) {
					x.confirmDec(s, j, v)
				}
			}
			c.traces.Add(int64(len(js)))
		}
		c.Count(name, int64(n))
		c.Outcome(s.name)
	}
	c.states.Add(int64(n))
	rust, cc := buildRust(), buildC()
	ts := buildTS("m")
	subjs := []Subject{rust[0], rust[1], rust[2], cc[0], cc[1], ts[0]}
	defer closeAll(subjs)
	x := runner{c: c, subjs: subjs, aspects: aAlloc}
	x.decode("Rust, C, TypeScript: claimed length x input present", func(emit func(DecJob)) {
		for _, j := range inputs {
			emit(j)
		}
	})
	c.Assume("bound per request: 4096 bytes plus 16 times the bytes of input left; in TypeScript only buffer memory is measured, strings are not")
}

func sortedU(v []uint64) []uint64 {
	slices.Sort(v)
	return v
}
