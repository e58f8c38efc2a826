package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
)

// allSubjects builds every implementation from the current tree.
func allSubjects() []Subject {
	out := []Subject{goV1, goV2, goV1Scratch, goV2Scratch}
	var wg sync.WaitGroup
	var r, t, cc []*extSubject
	wg.Add(2)
	go func() { defer wg.Done(); r = buildRust(); cc = buildC() }()
	go func() { defer wg.Done(); t = buildTS() }()
	wg.Wait()
	for _, s := range r {
		out = append(out, s)
	}
	for _, s := range cc {
		out = append(out, s)
	}
	for _, s := range t {
		out = append(out, s)
	}
	return out
}

func closeAll(subjs []Subject) {
	for _, s := range subjs {
		if e, ok := s.(*extSubject); ok {
			e.Close()
		}
	}
}

func level(c *Check) int {
	if c.Thorough() {
		return 2
	}
	return 1
}

// ---- C01: round trip ----------------------------------------------------------

func judgeRound(s Subject, ops []Op, e EncRes, rs []Res) *verdict {
	ext, _ := s.(*extSubject)
	where := fmt.Sprintf("%s: round trip of [%s]", s.Name(), opsStr(ops))
	key := func(o Op, what string) string { return s.Name() + "/" + kname(o.K) + "/" + what }
	if len(rs) > 0 && rs[0].Skip {
		return nil
	}
	if e.Crash != "" {
		return &verdict{key(ops[len(ops)-1], "encode-crash"), where + ": encoding: " + e.Crash}
	}
	for i, o := range ops {
		if i >= len(rs) {
			return &verdict{key(o, "no-answer"), where + ": no answer"}
		}
		r := rs[i]
		w := where + fmt.Sprintf(", value %d (%s), encoded as %s", i, o, hx(e.Out))
		if r.Crash != "" {
			return &verdict{key(o, "crash"), w + ": " + r.Crash}
		}
		if !r.Ok {
			return &verdict{key(o, "rejected"), w + ": decoder reports an error " + r.Stray}
		}
		n := o.N
		if ext != nil {
			n = ext.canon(o.K, n)
		}
		if r.V.N != n || !bytes.Equal(r.V.D, o.D) {
			return &verdict{key(o, "changed"), w + fmt.Sprintf(": came back as %s", r.V)}
		}
		if i == len(ops)-1 && r.Rem > 0 {
			return &verdict{key(o, "leftover"), w + fmt.Sprintf(": %d bytes left over", r.Rem)}
		}
	}
	for i := len(ops); i < len(rs); i++ {
		if rs[i].Crash != "" {
			return &verdict{key(ops[len(ops)-1], "end-crash"), where + ": request at the end of the input: " + rs[i].Crash}
		}
		if rs[i].Ok {
			return &verdict{key(ops[len(ops)-1], "end"), where + ": a request past the last value succeeded"}
		}
	}
	return nil
}

func (x runner) roundtrip(domain string, gen func(emit func(ops []Op))) {
	c := x.c
	ch := make(chan [][]Op, 16)
	var wg sync.WaitGroup
	run := func(s Subject, jobs []EncJob) ([]EncRes, [][]Res) {
		es := s.Encode(jobs)
		ds := make([]DecJob, len(jobs))
		for i, j := range jobs {
			// Past the end nothing may be found any more.
			ds[i] = DecJob{In: withSpare(es[i].Out), Ops: append(append(make([]Op, 0, len(j.Ops)+2), j.Ops...), Op{K: KNil}, Op{K: KU8})}
		}
		return es, s.Decode(ds)
	}
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for traces := range ch {
				for _, s := range x.subjs {
					var jobs []EncJob
					for _, t := range traces {
						if e, ok := s.(*extSubject); ok && !e.canExpress(t) {
							continue
						}
						jobs = append(jobs, EncJob{Ops: t})
					}
					es, rs := run(s, jobs)
					for i, j := range jobs {
						if i == 0 && es[i].Crash == "" {
							c.Outcome(fmt.Sprintf("%s/%x", s.Name(), es[i].Out))
						}
						v := judgeRound(s, j.Ops, es[i], rs[i])
						if v == nil || c.Failed(v.key) {
							continue
						}
						ok := true
						for k := 0; k < 5 && ok; k++ {
							e1, r1 := run(s, []EncJob{j})
							w := judgeRound(s, j.Ops, e1[0], r1[0])
							ok = w != nil && w.key == v.key
						}
						if !ok {
							c.Note("not reproducible, ignored: %s", v.detail)
							continue
						}
						c.Fail(v.key, v.detail, map[string]any{"subject": s.Name(), "values": opsStr(j.Ops)})
					}
					c.transitions.Add(int64(2 * len(jobs)))
					c.traces.Add(int64(len(jobs)))
				}
			}
		}()
	}
	var n int64
	batch := make([][]Op, 0, x.per())
	cut := false
	gen(func(ops []Op) {
		if cut {
			return
		}
		if n == 0 {
			c.Sample(map[string]string{"domain": domain, "values": opsStr(ops)})
		}
		n++
		batch = append(batch, ops)
		if len(batch) == x.per() {
			ch <- batch
			batch = make([][]Op, 0, x.per())
			if c.Expired() || c.stop.Load() {
				cut = true
				c.Cap(domain)
			}
		}
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	c.states.Add(n)
	c.Count(domain, n)
}

func c01(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	x := runner{c: c, subjs: subjs}
	lv := level(c)
	x.roundtrip("every single value of the boundary/exhaustive alphabets", func(emit func([]Op)) {
		singles(lv, func(o Op) { emit([]Op{o}) })
	})
	x.roundtrip("all pairs of values (two or more values per type)", func(emit func([]Op)) { seqs(tinyOps(), 2, emit) })
	x.roundtrip("values that resemble each other", twins)
	x.roundtrip("all triples of types", func(emit func([]Op)) { seqs(oneOps(), 3, emit) })
	if lv >= 2 {
		x.roundtrip("all triples of values", func(emit func([]Op)) { seqs(tinyOps(), 3, emit) })
		x.roundtrip("all 4-sequences of types", func(emit func([]Op)) { seqs(oneOps(), 4, emit) })
	}
	x.roundtrip("long data", func(emit func([]Op)) {
		for _, k := range []byte{KBytes, KString, KError} {
			for _, n := range bigLens {
				d := fill(n, 1)
				if k != KBytes {
					d = text(n)
				}
				emit([]Op{{K: KU8, N: 1}, {K: k, D: d}, {K: KU16, N: 999}})
			}
		}
	})
	x.anyOnly(3, func(x runner, all func(func([]Op))) {
		x.roundtrip("all triples of types with any", all)
	})
	x.chunk = 1
	x.roundtrip("messages of very many values", func(emit func([]Op)) { longs(lv, emit) })
	c.roundHuge()
	if lv >= 2 {
		c.round32()
	}
}

// roundHuge exercises the five-byte length branch of the Go encoders (2^28 bytes).
func (c *Check) roundHuge() {
	if c.Expired() {
		c.Cap("2^28-byte data")
		return
	}
	const digits = 1<<28 | 3<<21 | 3<<14 | 3<<7 | 3 // every group of seven bits counts
	d := bytes.Repeat([]byte("0123456789abcdef"), digits/16+1)
	for _, s := range []*goSubject{goV1, goV2} {
		for _, k := range []byte{KBytes, KString, KError} {
			for _, n := range []int{1<<28 - 1, 1 << 28, digits} {
				if k != KBytes && n != digits {
					continue
				}
				ops := []Op{{K: k, D: d[:n]}, {K: KU8, N: 7}}
				e := s.Enc1(EncJob{Ops: ops})
				rs := s.Dec1(DecJob{In: e.Out, Ops: ops})
				if v := judgeRound(s, ops, e, rs); v != nil {
					c.Fail(v.key+"-2^28", v.detail, map[string]any{"subject": s.name, "values": opsStr(ops)})
				}
				c.states.Add(1)
				c.transitions.Add(4)
				c.traces.Add(1)
				c.Count("2^28-byte data", 1)
			}
		}
	}
}

// round32 is the complete 32-bit space in both Go versions.
func (c *Check) round32() {
	for _, s := range []*goSubject{goV1, goV2} {
		for _, k := range []byte{KU32, KI32, KF32} {
			name := fmt.Sprintf("all 2^32 %s values, %s", kname(k), s.name)
			const blocks = 1 << 12
			done := c.Parallel(blocks, func(blk int) {
				base := uint64(blk) << 20
				buf := newGoPair(s)
				for i := uint64(0); i < 1<<20; i++ {
					n := base + i
					o := Op{K: k, N: n}
					if k == KI32 {
						o.N = uint64(int64(int32(n)))
					}
					if w := buf.round(o); w != "" {
						c.Fail(s.name+"/"+kname(k)+"/changed", s.name+": "+o.String()+": "+w, map[string]any{"subject": s.name, "values": o.String()})
						return
					}
				}
				c.states.Add(1 << 20)
				c.transitions.Add(2 << 20)
				c.traces.Add(1 << 20)
				c.Count(name, 1<<20)
			})
			if !done {
				c.Cap(name)
			}
		}
	}
}

// anyOnly is the implementations that have the type any, and all sequences of up to n types
// with it.
func (x runner) anyOnly(n int, run func(x runner, all func(emit func([]Op)))) {
	var have []Subject
	for _, s := range x.subjs {
		if s.Has(KAny) {
			have = append(have, s)
		}
	}
	if len(have) == 0 {
		return
	}
	x.subjs = have
	run(x, func(emit func([]Op)) {
		for i := 1; i <= n; i++ {
			seqs(append(oneOps(), Op{K: KAny}), i, func(ops []Op) {
				for _, o := range ops {
					if o.K == KAny {
						emit(ops)
						return
					}
				}
			})
		}
	})
}

// ---- C02: one wire format -------------------------------------------------------

func c02(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	x := runner{c: c, subjs: subjs, aspects: aCrash | aAccept | aPos}
	lv := level(c)
	x.encode("encode: every single value", func(emit func(EncJob)) {
		singles(lv, func(o Op) { emit(EncJob{Ops: []Op{o}}) })
	})
	x.encode("encode: all pairs of values", func(emit func(EncJob)) {
		seqs(tinyOps(), 2, func(ops []Op) { emit(EncJob{Ops: ops}) })
	})
	x.encode("encode: values that resemble each other", func(emit func(EncJob)) {
		twins(func(ops []Op) { emit(EncJob{Ops: ops}) })
	})
	s := sentinels()
	tail := refEncodeAll(s)
	canon := func(ops []Op) DecJob {
		b := append(refEncodeAll(ops), tail...)
		return DecJob{In: withSpare(b), Ops: append(append([]Op{}, ops...), s...)}
	}
	x.decode("decode canonical bytes: every single value", func(emit func(DecJob)) {
		singles(lv, func(o Op) { emit(canon([]Op{o})) })
	})
	x.decode("decode canonical bytes: all pairs of values", func(emit func(DecJob)) {
		seqs(tinyOps(), 2, func(ops []Op) { emit(canon(ops)) })
	})
	x.decode("decode canonical bytes: values that resemble each other", func(emit func(DecJob)) {
		twins(func(ops []Op) { emit(canon(ops)) })
	})
	x.encode("encode: long data", func(emit func(EncJob)) {
		for _, k := range []byte{KBytes, KString, KError} {
			for _, n := range bigLens {
				d := fill(n, 1)
				if k != KBytes {
					d = text(n)
				}
				emit(EncJob{Ops: []Op{{K: k, D: d}}})
			}
		}
	})
	x.anyOnly(2, func(x runner, all func(func([]Op))) {
		x.encode("encode: all pairs of types with any", func(emit func(EncJob)) {
			all(func(ops []Op) { emit(EncJob{Ops: ops}) })
		})
		x.decode("decode canonical bytes: all pairs of types with any", func(emit func(DecJob)) {
			all(func(ops []Op) { emit(canon(ops)) })
		})
	})
	one := x
	one.chunk = 1
	one.encode("encode: messages of very many values", func(emit func(EncJob)) {
		longs(lv, func(ops []Op) { emit(EncJob{Ops: ops}) })
	})
	one.decode("decode canonical bytes: messages of very many values", func(emit func(DecJob)) {
		longs(lv, func(ops []Op) { emit(canon(ops)) })
	})
	if lv >= 2 {
		x.encode("encode: all triples of types", func(emit func(EncJob)) {
			seqs(oneOps(), 3, func(ops []Op) { emit(EncJob{Ops: ops}) })
		})
		x.decode("decode canonical bytes: all triples of types", func(emit func(DecJob)) {
			seqs(oneOps(), 3, func(ops []Op) { emit(canon(ops)) })
		})
	}
	c.Count("implementations compared", int64(len(subjs)))
}

// ---- raw byte strings (C03, C06, C12) --------------------------------------------

// rawInputs emits byte strings and the requests to make of them.
func rawInputs(lv int, emit func(in []byte, first []Op)) {
	all := reqs(KU8, KString)
	// Every string of up to two bytes.
	strs(nil, 0, func(b []byte) {})
	emit(withSpare(nil), all)
	full := allBytes()
	strs(full, 1, func(b []byte) { emit(b, all) })
	strs(full, 2, func(b []byte) {
		if b[0] < 17 || b[0] == 0x80 || b[0] == 0xff || lv >= 2 {
			emit(b, all)
		}
	})
	// Small alphabets, longer strings.
	small := []byte{0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 14, 0x7f, 0x80}
	strs(small, 3, func(b []byte) { emit(b, all) })
	strs([]byte{0, 1, 2, 4, 5, 6, 8, 10, 0x80}, 4, func(b []byte) { emit(b, []Op{{K: b[0] & 15}}) })
	if lv >= 2 {
		strs(small, 4, func(b []byte) { emit(b, all) })
	}
	headed := func(h []byte, alpha []byte, n int, first []Op) {
		strs(alpha, n, func(b []byte) { emit(withSpare(append(append([]byte{}, h...), b...)), first) })
	}
	// Varints: every digit pattern over a boundary alphabet, up to one byte too many.
	a16 := []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x07, 0x08, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x83, 0x84, 0xff}
	for n := 0; n <= 3; n++ {
		headed([]byte{KU16}, a16, n, []Op{{K: KU16}})
	}
	headed([]byte{KU16}, []byte{0x00, 0x01, 0x03, 0x04, 0x7f, 0x80, 0xff}, 4, []Op{{K: KU16}})
	a32 := []byte{0x00, 0x01, 0x0f, 0x10, 0x80, 0xff}
	if lv >= 2 {
		a32 = []byte{0x00, 0x01, 0x0f, 0x10, 0x1f, 0x7f, 0x80, 0x81, 0xff}
	}
	for _, k := range []byte{KU32, KI32} {
		for n := 0; n <= 6; n++ {
			headed([]byte{k}, a32, n, []Op{{K: k}})
		}
	}
	for _, k := range []byte{KU64, KI64} {
		cont := []byte{0x80, 0xff}
		if lv >= 2 {
			cont = []byte{0x80, 0x81, 0xff}
		}
		for n := 0; n <= 10; n++ {
			strs(cont, n, func(b []byte) {
				h := append([]byte{k}, b...)
				emit(withSpare(h), []Op{{K: k}})
				for _, last := range []byte{0x00, 0x01, 0x02, 0x03, 0x3f, 0x40, 0x7e, 0x7f} {
					emit(withSpare(append(h[:len(h):len(h)], last)), []Op{{K: k}})
				}
			})
		}
	}
	// Length prefixes: claimed length against what is there.
	heads := []struct {
		h []byte
		o Op
	}{{[]byte{KBytes}, Op{K: KBytes}}, {[]byte{KString}, Op{K: KString}}, {[]byte{KError, KString}, Op{K: KError}},
		{[]byte{KSlice, KU8}, Op{K: KSlice, A: KU8}}, {[]byte{KMap, KU8, KString}, Op{K: KMap, A: KU8, B: KString}}}
	cat := func(ps ...[]byte) []byte { return withSpare(bytes.Join(ps, nil)) }
	for _, hd := range heads {
		first := []Op{hd.o}
		for n := 0; n <= 40; n++ {
			for have := 0; have <= n+2; have++ {
				emit(cat(hd.h, refLen(nil, uint64(n)), text(have)), first)
			}
		}
		for _, n := range append([]uint64{100, 200, 1000, 5000, 0x7fffff, 0xfffffff0}, sizes32...) {
			for _, have := range []int{0, 1, 2, 5, 130} {
				if n < 1<<20 || have < 100 {
					emit(cat(hd.h, refLen(nil, n), text(have)), first)
				}
			}
			if n > 0 && n < 100000 {
				for _, d := range []int{-1, 0, 1} {
					emit(cat(hd.h, refLen(nil, n), text(int(n)+d)), first)
				}
			}
		}
		for k := 0; k < 256; k++ { // the prefix has another kind
			for _, body := range [][]byte{{}, {0}, {1}, {0, 0}, {2, 'a', 'b'}, {0x80, 0x00}} {
				emit(cat(hd.h, []byte{byte(k)}, body), first)
			}
		}
		for n := 0; n <= 6; n++ { // over-long and overflowing prefixes
			strs([]byte{0x00, 0x01, 0x10, 0x80, 0xff}, n, func(b []byte) {
				emit(cat(hd.h, []byte{KU32}, b), first)
				if n >= 4 {
					emit(cat(hd.h, []byte{KU32}, b, []byte("xyz")), first)
				}
			})
		}
	}
	// Nested error strings, element kinds.
	for a := 0; a < 256; a++ {
		emit(cat([]byte{KError, byte(a)}, refLen(nil, 1), []byte("q")), []Op{{K: KError}})
		emit(cat([]byte{KSlice, byte(a)}, refLen(nil, 1)), []Op{{K: KSlice, A: KU8}, {K: KSlice, A: KF64}})
		emit(cat([]byte{KMap, byte(a), KString}, refLen(nil, 1)), []Op{{K: KMap, A: KU8, B: KString}})
		emit(cat([]byte{KMap, KString, byte(a)}, refLen(nil, 1)), []Op{{K: KMap, A: KString, B: KI32}})
		emit(cat([]byte{KBool, byte(a)}), []Op{{K: KBool}})
		emit(cat([]byte{KU8, byte(a)}), []Op{{K: KU8}})
	}
	// Floats: every length up to one byte too many.
	for _, k := range []byte{KF32, KF64} {
		for n := 0; n <= 10; n++ {
			for _, f := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				emit(cat([]byte{k}, bytes.Repeat([]byte{f}, n)), []Op{{K: k}})
			}
		}
	}
	// Strings that are not valid UTF-8.
	for _, s := range []string{"\x80", "\xc0\x80", "\xff\xfe", "a\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "ok\xc3"} {
		emit(cat([]byte{KString}, refLen(nil, uint64(len(s))), []byte(s)), []Op{{K: KString}})
		emit(cat([]byte{KError, KString}, refLen(nil, uint64(len(s))), []byte(s)), []Op{{K: KError}})
	}
}

// u16Full: every byte string of up to three bytes after the 16-bit kind.
func (x runner) u16Full() {
	x.decode("u16 body: every 3-byte string", func(emit func(DecJob)) {
		full := allBytes()
		strs(full, 3, func(b []byte) {
			emit(DecJob{In: withSpare(append([]byte{KU16}, b...)), Ops: []Op{{K: KU16}}})
		})
	})
}

func c03(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	lv := level(c)
	x := runner{c: c, subjs: subjs, aspects: aCrash}
	x.decode("raw byte strings, then two more requests", func(emit func(DecJob)) {
		rawInputs(lv, func(in []byte, first []Op) {
			for _, o := range first {
				emit(DecJob{In: in, Ops: []Op{o, {K: KU8}, o}})
			}
		})
	})
	// Every sequence of requests over short hostile inputs.
	all := reqs(KU8, KString)
	x.decode("all request triples over hostile inputs", func(emit func(DecJob)) {
		ins := [][]byte{{}, {0}, {9, 0x80}, {10, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {11, 0x80}, {4, 10, 5, 1}, {5, 10, 0xff, 0xff, 0xff, 0xff, 0x0f}, {6, 5, 10, 1}, {6, 4, 0}, {1, 8, 10}, {1, 8}, {2, 8, 5}, {2, 8, 5, 10, 0x80}, {14, 0, 0}, {15, 0, 0, 0, 0, 0, 0, 0}, {7}, {8}, {12, 0xff, 0xff, 0xff, 0xff, 0x7f, 8, 1}, {13, 0xff}, {10, 5, 4, 10, 0x85}, {9, 0xff, 0xff, 0xff, 0xff}, {3}, {16}, {255, 255, 255, 255}, {0, 0, 0}, {8, 9, 10, 11}, {4, 10, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0}, {5, 10}, {4, 10, 0x80}}
		for _, in := range ins {
			seqs(all, 3, func(ops []Op) { emit(DecJob{In: withSpare(in), Ops: ops}) })
		}
	})
	x.anyOnly(0, func(x runner, _ func(func([]Op))) {
		x.decode("all requests with any over short inputs", func(emit func(DecJob)) {
			o := Op{K: KAny}
			for n := 0; n <= 2; n++ {
				strs([]byte{0, 1, 2, 3, 4, 8, 10, 13, 14, 15, 16, 0x80, 0xff}, n, func(b []byte) {
					for _, q := range append(all, o) {
						emit(DecJob{In: withSpare(b), Ops: []Op{o, q, o}})
						emit(DecJob{In: withSpare(b), Ops: []Op{q, o, q}})
					}
				})
			}
		})
	})
	if lv >= 2 {
		x.u16Full()
		gos := runner{c: c, subjs: []Subject{goV1, goV2}, aspects: aCrash}
		gos.decode("Go: all strings of 5 bytes over 12 symbols", func(emit func(DecJob)) {
			strs([]byte{0, 1, 2, 4, 5, 6, 8, 10, 11, 12, 0x80, 0xff}, 5, func(b []byte) {
				for _, o := range all {
					if o.K == b[0] || b[0] >= 0x80 {
						emit(DecJob{In: b, Ops: []Op{o, o}})
					}
				}
			})
		})
	}
}

func c06(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	lv := level(c)
	x := runner{c: c, subjs: subjs, aspects: aCrash | aAccept | aPos | aReject}
	s := sentinels()
	tail := refEncodeAll(s)
	x.decode("raw byte strings: acceptance, value and length agree", func(emit func(DecJob)) {
		rawInputs(lv, func(in []byte, first []Op) {
			for _, o := range first {
				emit(DecJob{In: in, Ops: []Op{o}})
				// With more values behind it: the length of the accepted value shows.
				vd, _, _ := refDecode(in, o)
				if vd == VOK || vd == VMalformed && len(in) < 16 {
					emit(DecJob{In: withSpare(append(append([]byte{}, in...), tail...)), Ops: append([]Op{o}, s...)})
				}
			}
		})
	})
	x.decode("every value and every request: only its own type is accepted", func(emit func(DecJob)) {
		for _, o := range tinyOps() {
			in := refEncode(nil, o)
			for a := 0; a < 16; a++ {
				for _, q := range reqs(byte(a), byte(a*7&15)) {
					emit(DecJob{In: withSpare(append(append([]byte{}, in...), tail...)), Ops: append([]Op{q}, o)})
				}
			}
		}
	})
	x.anyOnly(0, func(x runner, _ func(func([]Op))) {
		x.decode("any: every first byte", func(emit func(DecJob)) {
			for k := 0; k < 256; k++ {
				in := withSpare(append([]byte{byte(k)}, tail...))
				emit(DecJob{In: in, Ops: append([]Op{{K: KAny}}, s...)})
				emit(DecJob{In: in[:1], Ops: []Op{{K: KAny}}})
			}
		})
	})
	if lv >= 2 {
		x.u16Full()
	}
	c.Count("implementations compared", int64(len(subjs)))
}

func c12(c *Check) {
	var subjs []Subject
	for _, s := range allSubjects() {
		if e, ok := s.(*extSubject); ok && e.unknownRem { // the C interface has one failure status
			e.Close()
			continue
		}
		subjs = append(subjs, s)
	}
	defer closeAll(subjs)
	lv := level(c)
	x := runner{c: c, subjs: subjs, aspects: aErr | aCrash}
	x.decode("raw byte strings: error of every failing request", func(emit func(DecJob)) {
		rawInputs(lv, func(in []byte, first []Op) {
			for _, o := range first {
				emit(DecJob{In: in, Ops: []Op{o}})
			}
		})
	})
	x.decode("every encoded value cut everywhere", func(emit func(DecJob)) {
		for _, o := range tinyOps() {
			full := refEncode(nil, o)
			for i := 0; i < len(full); i++ {
				emit(DecJob{In: withSpare(full[:i]), Ops: []Op{o, o}})
			}
		}
	})
	x.decode("every value against every wrong request", func(emit func(DecJob)) {
		for _, o := range tinyOps() {
			for _, q := range reqs(KF32, KF64) {
				emit(DecJob{In: withSpare(refEncode(nil, o)), Ops: []Op{q, q}})
			}
		}
	})
}

// ---- C04: truncation --------------------------------------------------------------

func cuts(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if i < 24 || i >= n-8 || n < 80 || i%97 == 0 {
			out = append(out, i)
		}
	}
	return out
}

func c04(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	lv := level(c)
	x := runner{c: c, subjs: subjs, aspects: aCrash | aReject | aAccept}
	x.decode("every single value, every cut", func(emit func(DecJob)) {
		singles(lv-1, func(o Op) {
			full := refEncode(nil, o)
			if len(full) > 5000 && lv < 2 && len(full)%2 == 1 {
				return
			}
			for _, i := range cuts(len(full)) {
				// The cut-off bytes stay in memory behind the input, so reading too far finds them.
				emit(DecJob{In: full[:i:len(full)], Ops: []Op{{K: o.K, A: o.A, B: o.B}}})
			}
		})
	})
	c04Any(x)
	ops2 := tinyOps()
	x.decode("last value of a longer message cut", func(emit func(DecJob)) {
		seqs(ops2, 2, func(ops []Op) {
			b := refEncode(nil, ops[0])
			n := len(b)
			b = refEncode(b, ops[1])
			for _, i := range cuts(len(b) - n) {
				emit(DecJob{In: b[: n+i : len(b)], Ops: ops})
			}
		})
	})
	x.decode("third value of a message cut", func(emit func(DecJob)) {
		seqs(oneOps(), 3, func(ops []Op) {
			b := refEncodeAll(ops[:2])
			n := len(b)
			b = refEncode(b, ops[2])
			for i := n; i < len(b); i++ {
				emit(DecJob{In: b[:i:len(b)], Ops: ops})
			}
		})
	})
}

// c04Any: any takes one byte, so only its absence can be cut off.
func c04Any(x runner) {
	x.anyOnly(3, func(x runner, all func(func([]Op))) {
		x.decode("any: last value of a message cut", func(emit func(DecJob)) {
			all(func(ops []Op) {
				b := refEncodeAll(ops[:len(ops)-1])
				n := len(b)
				b = refEncode(b, ops[len(ops)-1])
				for i := n; i < len(b); i++ {
					emit(DecJob{In: b[:i:len(b)], Ops: ops})
				}
			})
		})
	})
}

// ---- C05: wrong type ----------------------------------------------------------------

func c05(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	lv := level(c)
	x := runner{c: c, subjs: subjs, aspects: aCrash | aMismatch | aAccept | aPos}
	s := sentinels()
	tail := refEncodeAll(s)
	// Requests: every type, arrays and maps with several element kinds.
	rq := reqs(KU8, KString)
	rq = append(rq, Op{K: KSlice, A: KString}, Op{K: KSlice, A: KNil}, Op{K: KMap, A: KString, B: KU32}, Op{K: KMap, A: KString, B: KU8}, Op{K: KMap, A: KU8, B: KU32})
	mism := func(o Op) []Op {
		var out []Op
		b := refEncode(nil, o)
		for _, q := range rq {
			if vd, _, _ := refDecode(b, q); vd == VMismatch {
				out = append(out, q)
			}
		}
		return out
	}
	x.decode("every value after every pair of wrong requests", func(emit func(DecJob)) {
		for _, o := range tinyOps() {
			bare := withSpare(refEncode(nil, o))
			long := withSpare(append(refEncode(nil, o), tail...))
			m := mism(o)
			for _, q1 := range m {
				emit(DecJob{In: bare, Ops: []Op{q1, o}})
				for _, q2 := range m {
					emit(DecJob{In: long, Ops: []Op{q1, q2, o, s[0], s[1]}})
					if lv >= 2 {
						emit(DecJob{In: bare, Ops: []Op{q1, q2, o}})
						for _, q3 := range m {
							emit(DecJob{In: long, Ops: []Op{q1, q2, q3, o, s[0], s[1]}})
						}
					}
				}
			}
		}
	})
	x.anyOnly(2, func(x runner, all func(func([]Op))) {
		x.decode("any: wrong requests between values", func(emit func(DecJob)) {
			all(func(ops []Op) {
				b := ops[len(ops)-1]
				in := withSpare(append(refEncodeAll(ops), tail...))
				for _, q := range append(mism(b), Op{K: KAny}) {
					if q.K != b.K {
						emit(DecJob{In: in, Ops: append(append(ops[:len(ops)-1:len(ops)-1], q, q, b), s[0], s[1])})
					}
				}
			})
		})
	})
	x.decode("wrong requests between values", func(emit func(DecJob)) {
		one := oneOps()
		for _, a := range one {
			for _, b := range one {
				in := withSpare(append(refEncodeAll([]Op{a, b}), tail...))
				for _, q := range mism(b) {
					emit(DecJob{In: in, Ops: []Op{a, q, b, s[0], s[1]}})
				}
			}
		}
	})
	x.decode("very many wrong requests before the right one", func(emit func(DecJob)) {
		for _, o := range tinyOps() {
			bare := withSpare(refEncode(nil, o))
			long := withSpare(append(refEncode(nil, o), tail...))
			m := mism(o)
			for _, n := range []int{3, 4, 5, 8, 16, 17, 33, 64, 100, 129, 257, 1000} {
				if len(m) == 0 {
					continue
				}
				var all []Op
				for i := 0; i < n; i++ {
					all = append(all, m[i%len(m)])
				}
				emit(DecJob{In: bare, Ops: append(all[:n:n], o)})
				if n > 129 {
					continue
				}
				for _, q := range m {
					same := make([]Op, n)
					for i := range same {
						same[i] = q
					}
					emit(DecJob{In: long, Ops: append(same, o, s[0], s[1])})
				}
			}
		}
	})
	x.decode("arrays: all encoded and requested element kinds", func(emit func(DecJob)) {
		for a := byte(0); a < 16; a++ {
			for _, n := range []uint64{0, 300} {
				o := Op{K: KSlice, A: a, N: n}
				in := withSpare(append(refEncode(nil, o), tail...))
				bare := withSpare(refEncode(nil, o))
				for b := byte(0); b < 16; b++ {
					if b != a {
						emit(DecJob{In: in, Ops: []Op{{K: KSlice, A: b}, o, s[0]}})
						emit(DecJob{In: bare, Ops: []Op{{K: KSlice, A: b}, o}})
					}
				}
			}
		}
	})
	x.decode("maps: all encoded and requested element kinds", func(emit func(DecJob)) {
		for a := byte(0); a < 16; a++ {
			for b := byte(0); b < 16; b++ {
				o := Op{K: KMap, A: a, B: b, N: 2}
				in := withSpare(append(refEncode(nil, o), tail...))
				for p := byte(0); p < 16; p++ {
					for q := byte(0); q < 16; q++ {
						if p != a || q != b {
							emit(DecJob{In: in, Ops: []Op{{K: KMap, A: p, B: q}, o, s[0]}})
						}
					}
				}
			}
		}
	})
	x.decode("unknown kind bytes are of no type", func(emit func(DecJob)) {
		for k := 16; k < 256; k++ {
			for _, q := range rq {
				for _, n := range []int{1, 2, 3, 12} {
					in := append(bytes.Repeat([]byte{byte(k)}, 1), bytes.Repeat([]byte{1}, n-1)...)
					emit(DecJob{In: withSpare(in), Ops: []Op{q, q}})
				}
			}
		}
	})
}
