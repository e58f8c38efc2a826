package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"sync"
)

// Call scripts for the C interface, and the model of what each call must do.

const (
	cNewEnc  = iota // enc[Slot] = new
	cFreeEnc        // free enc[Slot]
	cSize           // size of enc[Slot]
	cBuffer         // copy enc[Slot] into size+Arg bytes
	cEncode         // encode Op into enc[Slot]
	cNewDec         // dec[Slot] = decoder over Op.D
	cFreeDec        // free dec[Slot]
	cDecode         // decode Op's type from dec[Slot] into obj[Arg]
	cFreeObj        // free obj[Slot] (null: of type Op.K)
	cRead           // read obj[Slot]
)

var cFns = []string{"new_encoder", "free_encoder", "encoder_size", "encoder_buffer", "encode", "new_decoder", "free_decoder", "decode", "free_decode", "read"}

type call struct {
	Fn, Slot, Null, Init byte
	Arg                  int32
	Op                   Op
}

func (k call) name() string {
	switch k.Fn {
	case cEncode, cDecode, cFreeObj:
		return cFns[k.Fn] + "_" + kname(k.Op.K)
	}
	return cFns[k.Fn]
}

func (k call) String() string {
	s := fmt.Sprintf("%s[%d]", k.name(), k.Slot)
	if k.Null&1 != 0 {
		s += " handle=NULL"
	}
	if k.Null&2 != 0 {
		s += " data=NULL"
	}
	switch k.Fn {
	case cBuffer:
		s += fmt.Sprintf(" size%+d", k.Arg)
	case cEncode:
		s += " " + k.Op.String()
	case cNewDec:
		s += " " + hx(k.Op.D)
	case cDecode:
		s += fmt.Sprintf("->obj%d", k.Arg)
	}
	return s
}

func scriptStr(s []call) string {
	var o []string
	for _, k := range s {
		o = append(o, k.String())
	}
	return strings.Join(o, "; ")
}

type callRes struct {
	St     byte
	N      uint64
	IsNull bool
	D      []byte
	Enc    [2][]byte // nil: no encoder
}

type scriptRes struct {
	Calls []callRes
	Live  uint32
	Mem   string
	Crash string
	Skip  bool
}

func (s *extSubject) Scripts(scripts [][]call) []scriptRes { return s.runScripts(scripts, 0) }

// QuietScripts makes the calls of the scripts and no others: the contents of encoders are
// not looked at in between, and the Arg of cBuffer is the size of the memory.
func (s *extSubject) QuietScripts(scripts [][]call) []scriptRes { return s.runScripts(scripts, 0x8000) }

func (s *extSubject) runScripts(scripts [][]call, quiet uint16) []scriptRes {
	out := make([]scriptRes, len(scripts))
	split(len(scripts), func(lo, hi int) {
		s.run(lo, hi, func(b []byte, i int) []byte {
			b = append(b, 'S')
			b = binary.LittleEndian.AppendUint16(b, uint16(len(scripts[i]))|quiet)
			for _, k := range scripts[i] {
				b = append(b, k.Fn, k.Slot, k.Null, k.Init)
				b = binary.LittleEndian.AppendUint32(b, uint32(k.Arg))
				b = putOp(b, k.Op)
			}
			return b
		}, func(r *rd, i int) {
			n := int(r.u16())
			x := scriptRes{Calls: make([]callRes, n)}
			for k := range x.Calls {
				y := &x.Calls[k]
				y.St, y.N, y.IsNull = r.u8(), r.u64(), r.u8() != 0
				y.D = r.take(int(r.u32()))
				for e := 0; e < 2; e++ {
					if l := r.u32(); l != 0xffffffff {
						y.Enc[e] = append([]byte{}, r.take(int(l))...)
					}
				}
			}
			x.Live = r.u32()
			x.Mem = string(r.take(int(r.u32())))
			out[i] = x
		}, func(i int, why string) { out[i] = scriptRes{Crash: why, Skip: why == skipped} })
	})
	return out
}

// cModel is the state of the C interface as its caller sees it.
type cModel struct {
	enc [8][]byte // nil: null handle
	dec [8]*cdec
	obj [8]*cobj
}

type cdec struct {
	in    []byte
	pos   int
	known bool
}

type cobj struct {
	k byte
	d []byte
	// open: the content is not fixed by the model
	open bool
}

const (
	stPass = 0
	stFail = 1
	stNull = 2
)

// expect is what a call may answer.
type expect struct {
	st     []byte
	n      uint64
	anyN   bool
	isNull bool
	anyObj bool
	d      []byte
	anyD   bool
}

func hasObj(k byte) bool { return k == KBytes || k == KString || k == KError }

// step advances the model by one call, given the real answer where the model leaves a choice.
func (m *cModel) step(k call, r callRes) expect {
	one := func(s byte) []byte { return []byte{s} }
	switch k.Fn {
	case cNewEnc:
		m.enc[k.Slot] = []byte{}
		return expect{st: one(stPass)}
	case cFreeEnc:
		if k.Null&1 == 0 {
			m.enc[k.Slot] = nil
		}
		return expect{st: one(k.Init)}
	case cSize:
		if k.Null&1 != 0 || m.enc[k.Slot] == nil {
			return expect{st: one(stNull)}
		}
		return expect{st: one(stPass), n: uint64(len(m.enc[k.Slot]))}
	case cBuffer:
		isNil := k.Null&1 != 0 || m.enc[k.Slot] == nil
		size := 0
		if !isNil {
			size = len(m.enc[k.Slot])
		}
		want := bytes.Repeat([]byte{0xEE}, max(0, size+int(k.Arg)))
		if isNil || k.Null&2 != 0 {
			return expect{st: one(stNull), n: uint64(size), d: want}
		}
		if len(want) < size {
			return expect{st: one(stFail), n: uint64(size), anyD: true}
		}
		copy(want, m.enc[k.Slot])
		return expect{st: one(stPass), n: uint64(size), d: want}
	case cEncode:
		if k.Null&1 != 0 || m.enc[k.Slot] == nil || k.Null&2 != 0 && hasObj(k.Op.K) {
			return expect{st: one(stNull)}
		}
		v, _, _ := refDecode(refEncode(nil, k.Op), k.Op)
		if v == VOpen { // a string that is not UTF-8 may be refused
			if r.St == stPass {
				m.enc[k.Slot] = refEncode(m.enc[k.Slot], k.Op)
			}
			return expect{st: []byte{stPass, stFail}}
		}
		m.enc[k.Slot] = refEncode(m.enc[k.Slot], k.Op)
		return expect{st: one(stPass)}
	case cNewDec:
		if k.Null&2 != 0 {
			m.dec[k.Slot] = nil
			return expect{st: one(stNull), isNull: true}
		}
		m.dec[k.Slot] = &cdec{k.Op.D, 0, true}
		return expect{st: one(stPass)}
	case cFreeDec:
		if k.Null&1 == 0 {
			m.dec[k.Slot] = nil
		}
		return expect{st: one(k.Init)}
	case cDecode:
		d := m.dec[k.Slot]
		if k.Null&1 != 0 || d == nil {
			return expect{st: one(stNull), isNull: hasObj(k.Op.K)}
		}
		fail := expect{st: one(stFail), isNull: hasObj(k.Op.K)}
		open := func() expect {
			d.known = false
			if r.St == stPass {
				if hasObj(k.Op.K) {
					m.obj[k.Arg] = &cobj{k: k.Op.K, open: true}
				}
				return expect{st: []byte{stPass}, anyN: true, anyD: true}
			}
			return fail
		}
		if !d.known {
			return open()
		}
		v, x, n := refDecode(d.in[d.pos:], k.Op)
		if v == VOK && (k.Op.K == KString || k.Op.K == KError) && bytes.IndexByte(x.D, 0) >= 0 {
			v = VOpen
		}
		switch {
		case k.Op.K == KNil:
			// The probe answers yes or no; "no" may count as either status.
			if v == VOK {
				d.pos += n
				return expect{st: one(stPass), n: 1}
			}
			return expect{st: []byte{stPass, stFail}}
		case v == VOpen:
			return open()
		case v == VMismatch:
			return fail
		case v == VMalformed:
			d.known = false
			return fail
		}
		d.pos += n
		e := expect{st: one(stPass), n: x.N, d: x.D}
		if hasObj(k.Op.K) {
			m.obj[k.Arg] = &cobj{k: k.Op.K, d: x.D}
		}
		return e
	case cFreeObj:
		if k.Null&1 == 0 {
			m.obj[k.Slot] = nil
		}
		return expect{st: one(k.Init)}
	case cRead:
		o := m.obj[k.Slot]
		if o == nil {
			return expect{st: one(k.Init)}
		}
		return expect{st: one(k.Init), d: o.d, anyD: o.open}
	}
	panic("call")
}

// judgeScript compares a script's answers with the model. Calls are judged when
// calls is set, memory when mem is set.
func judgeScript(s []call, r scriptRes, calls, mem bool) (v *verdict, steps int) {
	txt := scriptStr(s)
	if r.Skip {
		return nil, 0
	}
	if r.Crash != "" {
		return &verdict{"c/script/crash", "c: [" + txt + "]: " + r.Crash}, 0
	}
	m := &cModel{}
	for i, k := range s {
		if i >= len(r.Calls) {
			return &verdict{"c/script/no-answer", "c: [" + txt + "]: no answer"}, steps
		}
		x := r.Calls[i]
		e := m.step(k, x)
		steps++
		if !calls && k.Fn != cRead {
			continue
		}
		bad := func(what, f string, a ...any) (*verdict, int) {
			return &verdict{"c/" + k.name() + "/" + what, fmt.Sprintf("c: call %d (%s) of [%s], status initially %#x: ", i, k, txt, k.Init) + fmt.Sprintf(f, a...)}, steps
		}
		if bytes.IndexByte(e.st, x.St) < 0 {
			return bad("status", "status %d, want %v", x.St, e.st)
		}
		if x.St != stPass && k.Fn == cDecode && (x.N != 0 || len(x.D) != 0 || !x.IsNull && hasObj(k.Op.K)) {
			return bad("value-without-success", "value %#x %x with status %d", x.N, x.D, x.St)
		}
		if x.IsNull != e.isNull {
			return bad("null-result", "null result %v, want %v", x.IsNull, e.isNull)
		}
		if !e.anyN && x.N != e.n {
			return bad("value", "value %#x, want %#x", x.N, e.n)
		}
		if !e.anyD && !bytes.Equal(x.D, e.d) {
			return bad("content", "content %s, want %s", hxDiff(x.D, e.d), hx(e.d))
		}
		for j := 0; j < 2; j++ {
			if (x.Enc[j] == nil) != (m.enc[j] == nil) || !bytes.Equal(x.Enc[j], m.enc[j]) {
				return bad("encoder-contents", "encoder %d then holds %x, want %x", j, x.Enc[j], m.enc[j])
			}
		}
	}
	if mem {
		if r.Mem != "" {
			return &verdict{"c/memory/" + strings.ReplaceAll(r.Mem, " ", "-"), "c: [" + txt + "]: " + r.Mem}, steps
		}
		var want uint32
		for _, e := range m.enc {
			if e != nil {
				return nil, steps // the script keeps something
			}
		}
		for i := range m.dec {
			if m.dec[i] != nil || m.obj[i] != nil {
				return nil, steps
			}
		}
		if r.Live != want {
			return &verdict{"c/memory/leak", fmt.Sprintf("c: [%s]: %d allocations never freed", txt, r.Live)}, steps
		}
	}
	return nil, steps
}

// scripts runs every script of gen on the C library.
func cScripts(c *Check, ccs []*extSubject, domain string, calls, mem bool, gen func(emit func([]call))) {
	ch := make(chan [][]call, 16)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ss := range ch {
				for _, cc := range ccs {
					rs := cc.Scripts(ss)
					var steps int64
					for i, s := range ss {
						v, n := judgeScript(s, rs[i], calls, mem)
						steps += int64(n)
						if v != nil && !c.Failed(v.key) {
							ok := true
							for k := 0; k < 3 && ok; k++ {
								w, _ := judgeScript(s, cc.Scripts([][]call{s})[0], calls, mem)
								ok = w != nil && w.key == v.key
							}
							if ok {
								c.Fail(v.key, cc.name+": "+v.detail, map[string]any{"subject": cc.name, "script": scriptStr(s)})
							} else {
								c.Note("not reproducible, ignored: %s", v.detail)
							}
						}
						if i == 0 && len(rs[i].Calls) > 0 {
							y := rs[i].Calls[len(rs[i].Calls)-1]
							c.Outcome(fmt.Sprintf("%s/%d/%v", s[len(s)-1].name(), y.St, y.IsNull))
						}
					}
					c.transitions.Add(steps)
					c.traces.Add(int64(len(ss)))
				}
			}
		}()
	}
	var n int64
	var batch [][]call
	cut := false
	gen(func(s []call) {
		if cut {
			return
		}
		if n == 0 {
			c.Sample(map[string]string{"domain": domain, "script": scriptStr(s)})
		}
		n++
		batch = append(batch, append([]call(nil), s...))
		if len(batch) == chunk {
			ch <- batch
			batch = nil
			if c.Expired() || c.stop.Load() {
				cut = true
				c.Cap(domain)
			}
		}
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	c.states.Add(n)
	c.Count(domain, n)
}

func closeExt(es []*extSubject) {
	for _, e := range es {
		e.Close()
	}
}

var cInits = []byte{0, 1, 2, 0xEE}

func cEncOps() []Op {
	var out []Op
	for _, o := range tinyOps() {
		if o.K == KSlice && o.A == KAny || o.K == KMap && o.B == KAny {
			continue
		}
		out = append(out, o)
	}
	return append(out, Op{K: KString, D: []byte{'a', 0xff}}, Op{K: KError, D: []byte{0xc3}}, Op{K: KString, D: []byte("\xed\xa0\x80")})
}

// cInputs are inputs for decoders: valid, of another type, cut, over-long, open.
func cInputs() [][]byte {
	var out [][]byte
	out = append(out, []byte{})
	for _, o := range tinyOps() {
		b := refEncode(nil, o)
		out = append(out, b, append(b[:len(b):len(b)], KU8, 0x21))
		for i := 1; i < len(b); i++ {
			if i < 5 || i == len(b)-1 {
				out = append(out, b[:i])
			}
		}
	}
	out = append(out, []byte{KString, KU32, 3, 'a', 0, 'b', KU8, 1}, []byte{KError, KString, KU32, 1, 0}, []byte{KString, KU32, 1, 0xff, KU8, 1}, []byte{KError, KString, KU32, 1, 0xff},
		[]byte{KBool, 2}, []byte{KBool, 0xff}, []byte{16}, []byte{0xff, 0xff}, []byte{KU16, 0xff, 0xff, 4}, []byte{KU32, 0xff, 0xff, 0xff, 0xff, 0x10}, []byte{KBytes, KU32, 0xff, 0xff, 0xff, 0xff, 0x0f, 1}, []byte{KBytes, KU8, 1, 1}, []byte{KError, KU8, 1}, []byte{KSlice, KU8, KU32, 0x80}, []byte{KMap, KU8, KString, KU16, 1})
	return out
}

func c13(c *Check) {
	cc := buildC()
	defer closeExt(cc)
	lv := level(c)
	u8 := Op{K: KU8, N: 0x33}
	probe := func(init byte) []call {
		return []call{{Fn: cEncode, Init: init, Op: u8}, {Fn: cSize, Init: init}, {Fn: cBuffer, Init: init, Arg: 0}}
	}
	cScripts(c, cc, "encoding: every value x null arguments x initial status x encoder contents", true, true, func(emit func([]call)) {
		for _, init := range cInits {
			for _, o := range cEncOps() {
				for null := byte(0); null < 4; null++ {
					if null&2 != 0 && !hasObj(o.K) {
						continue
					}
					for pre := 0; pre < 3; pre++ {
						s := []call{{Fn: cNewEnc, Init: init}}
						for i := 0; i < pre; i++ {
							s = append(s, call{Fn: cEncode, Init: init, Op: Op{K: KString, D: []byte("pre")}})
						}
						s = append(s, call{Fn: cEncode, Null: null, Init: init, Op: o})
						s = append(s, probe(init)...)
						s = append(s, call{Fn: cFreeEnc, Init: init})
						emit(s)
					}
				}
			}
		}
	})
	cScripts(c, cc, "encoder size and buffer: room x null arguments x initial status", true, true, func(emit func([]call)) {
		for _, init := range cInits {
			for _, pre := range [][]Op{{}, {u8}, {{K: KBytes, D: fill(130, 1)}}, {{K: KNil}, {K: KString, D: text(40)}}} {
				for arg := int32(-140); arg <= 12; arg++ {
					for null := byte(0); null < 4; null++ {
						s := []call{{Fn: cNewEnc, Init: init}}
						for _, o := range pre {
							s = append(s, call{Fn: cEncode, Init: init, Op: o})
						}
						s = append(s, call{Fn: cBuffer, Null: null, Init: init, Arg: arg}, call{Fn: cSize, Null: null & 1, Init: init})
						s = append(s, probe(init)...)
						s = append(s, call{Fn: cFreeEnc, Init: init})
						emit(s)
					}
				}
			}
		}
	})
	cScripts(c, cc, "calls on handles that are null", true, true, func(emit func([]call)) {
		for _, init := range cInits {
			for _, o := range cEncOps() {
				emit([]call{{Fn: cEncode, Init: init, Op: o}})
				emit([]call{{Fn: cEncode, Null: 3, Init: init, Op: o}})
				emit([]call{{Fn: cDecode, Init: init, Op: o}})
			}
			emit([]call{{Fn: cSize, Init: init}})
			emit([]call{{Fn: cBuffer, Init: init, Arg: 3}})
			emit([]call{{Fn: cFreeEnc, Null: 1, Init: init}})
			emit([]call{{Fn: cFreeDec, Null: 1, Init: init}})
			emit([]call{{Fn: cNewDec, Null: 2, Init: init, Op: Op{D: []byte{1, 2}}}, {Fn: cDecode, Init: init, Op: u8}})
			emit([]call{{Fn: cNewDec, Null: 2, Init: init}, {Fn: cFreeDec, Init: init}})
			for _, k := range []byte{KBytes, KString, KError} {
				emit([]call{{Fn: cFreeObj, Null: 1, Init: init, Op: Op{K: k}}})
			}
		}
	})
	decodeScript := func(init byte, in []byte, reqs ...Op) []call {
		s := []call{{Fn: cNewDec, Init: init, Op: Op{D: in}}}
		for i, q := range reqs {
			s = append(s, call{Fn: cDecode, Init: init, Arg: int32(i), Op: q})
		}
		return s
	}
	// finish frees what a script may hold; freeing a slot that holds nothing passes null.
	finish := func(s []call, init byte, objs []Op) []call {
		for i, o := range objs {
			if hasObj(o.K) {
				s = append(s, call{Fn: cFreeObj, Slot: byte(i), Init: init, Op: Op{K: o.K}})
			}
		}
		return append(s, call{Fn: cFreeDec, Init: init})
	}
	rq := reqs(KU8, KString)
	cScripts(c, cc, "decoding: every input x every pair of requests x initial status", true, true, func(emit func([]call)) {
		for _, init := range cInits {
			for _, in := range cInputs() {
				for _, q1 := range rq {
					for _, q2 := range rq {
						if lv < 2 && init != 0xEE && q2.K != KU8 && q2.K != q1.K {
							continue
						}
						emit(finish(decodeScript(init, in, q1, q2), init, []Op{q1, q2}))
					}
					s := decodeScript(init, in)
					s = append(s, call{Fn: cDecode, Null: 1, Init: init, Arg: 2, Op: q1})
					s = append(s, call{Fn: cDecode, Init: init, Arg: 0, Op: q1})
					emit(finish(s, init, []Op{q1}))
				}
			}
		}
	})
	// All short sequences of calls.
	var alpha []call
	data := refEncodeAll([]Op{{K: KBytes, D: []byte{1, 2}}, {K: KString, D: []byte("ab")}, {K: KError, D: []byte("e")}, {K: KNil}, {K: KU32, N: 300}, {K: KF64, N: 1}})
	bad := []byte{KString, KU32, 9, 'x'}
	for slot := byte(0); slot < 2; slot++ {
		alpha = append(alpha, call{Fn: cNewEnc, Slot: slot}, call{Fn: cFreeEnc, Slot: slot}, call{Fn: cSize, Slot: slot}, call{Fn: cBuffer, Slot: slot, Arg: int32(slot)},
			call{Fn: cEncode, Slot: slot, Op: Op{K: KString, D: []byte("hello")}}, call{Fn: cEncode, Slot: slot, Op: Op{K: KU64, N: 1 << 40}})
	}
	alpha = append(alpha, call{Fn: cEncode, Op: Op{K: KBytes, D: fill(70, 1)}}, call{Fn: cEncode, Null: 2, Op: Op{K: KBytes}}, call{Fn: cEncode, Null: 2, Op: Op{K: KError}}, call{Fn: cBuffer, Arg: -1}, call{Fn: cBuffer, Null: 2},
		call{Fn: cNewDec, Op: Op{D: data}}, call{Fn: cNewDec, Op: Op{D: bad}}, call{Fn: cNewDec, Null: 2}, call{Fn: cFreeDec})
	for _, q := range []Op{{K: KNil}, {K: KBytes}, {K: KString}, {K: KError}, {K: KU32}, {K: KF64}, {K: KSlice, A: KU8}} {
		alpha = append(alpha, call{Fn: cDecode, Op: q})
	}
	alpha = append(alpha, call{Fn: cFreeObj, Op: Op{K: KString}})
	depth := 4
	if lv >= 2 {
		depth = 5
	}
	for d := 1; d <= depth; d++ {
		cScripts(c, cc, fmt.Sprintf("all sequences of %d calls", d), true, false, func(emit func([]call)) {
			cSequences(alpha, d, 0xEE, emit)
		})
	}
}

// cSequences emits every sequence of d calls in which nothing live is overwritten
// and nothing freed is used; objects go to the first free slot.
func cSequences(alpha []call, d int, init byte, emit func([]call)) {
	var enc, dec [8]bool
	var objs [8]byte // kind held, 0 none (slots used once)
	var used int
	seq := make([]call, 0, d+24)
	var rec func()
	rec = func() {
		if len(seq) == d {
			emit(seq)
			return
		}
		for _, k := range alpha {
			k.Init = init
			switch k.Fn {
			case cNewEnc:
				if enc[k.Slot] {
					continue
				}
				enc[k.Slot] = true
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
				enc[k.Slot] = false
			case cFreeEnc:
				was := enc[k.Slot]
				enc[k.Slot] = k.Null&1 != 0 && was
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
				enc[k.Slot] = was
			case cNewDec:
				if dec[k.Slot] {
					continue
				}
				dec[k.Slot] = k.Null&2 == 0
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
				dec[k.Slot] = false
			case cFreeDec:
				was := dec[k.Slot]
				dec[k.Slot] = k.Null&1 != 0 && was
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
				dec[k.Slot] = was
			case cDecode:
				if hasObj(k.Op.K) {
					if used == 8 {
						continue
					}
					k.Arg = int32(used)
					objs[used] = k.Op.K
					used++
					seq = append(seq, k)
					rec()
					seq = seq[:len(seq)-1]
					used--
					objs[used] = 0
				} else {
					seq = append(seq, k)
					rec()
					seq = seq[:len(seq)-1]
				}
			case cFreeObj: // Arg selects: 0 oldest, 1 newest object of this kind, else null
				if k.Null&1 != 0 {
					seq = append(seq, k)
					rec()
					seq = seq[:len(seq)-1]
					continue
				}
				at := -1
				for i := 0; i < used; i++ {
					if objs[i] == k.Op.K {
						at = i
						if k.Arg == 0 {
							break
						}
					}
				}
				if at < 0 {
					continue
				}
				k.Slot, k.Arg = byte(at), 0
				was := objs[at]
				objs[at] = 0
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
				objs[at] = was
			default:
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
	}
	rec()
}

// cCleanups emits s followed by the release of everything it holds, in several orders;
// every object is read once more right before the first release and after each.
func cCleanups(s []call, emit func([]call)) {
	type res struct{ free, read *call }
	var live []res
	add := func(free call, read *call) { live = append(live, res{&free, read}) }
	drop := func(fn, slot byte) {
		for i, l := range live {
			if l.free.Fn == fn && l.free.Slot == slot {
				live = append(live[:i:i], live[i+1:]...)
				return
			}
		}
	}
	for _, k := range s {
		switch k.Fn {
		case cNewEnc:
			add(call{Fn: cFreeEnc, Slot: k.Slot, Init: k.Init}, nil)
		case cNewDec:
			if k.Null&2 == 0 {
				add(call{Fn: cFreeDec, Slot: k.Slot, Init: k.Init}, nil)
			}
		case cDecode:
			if hasObj(k.Op.K) {
				add(call{Fn: cFreeObj, Slot: byte(k.Arg), Init: k.Init, Op: Op{K: k.Op.K}}, &call{Fn: cRead, Slot: byte(k.Arg), Init: k.Init})
			}
		case cFreeEnc, cFreeDec, cFreeObj:
			if k.Null&1 == 0 {
				drop(k.Fn, k.Slot)
			}
		}
	}
	order := func(idx []int) {
		out := append([]call(nil), s...)
		for n, i := range idx {
			for _, j := range idx[n:] {
				if live[j].read != nil {
					out = append(out, *live[j].read)
				}
			}
			out = append(out, *live[i].free)
		}
		emit(out)
	}
	n := len(live)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if n <= 3 {
		permute(idx, 0, order)
		return
	}
	order(idx)
	for i := range idx {
		idx[i] = n - 1 - i
	}
	order(idx)
	for i := range idx {
		idx[i] = (i + n/2) % n
	}
	order(idx)
}

func permute(a []int, k int, f func([]int)) {
	if k >= len(a)-1 {
		f(a)
		return
	}
	for i := k; i < len(a); i++ {
		a[k], a[i] = a[i], a[k]
		permute(a, k+1, f)
		a[k], a[i] = a[i], a[k]
	}
}

func c14(c *Check) {
	cc := buildC()
	defer closeExt(cc)
	lv := level(c)
	mk := func(ops ...Op) Op { return Op{D: refEncodeAll(ops)} }
	b0, b2, s0, s2, e0, e1 := Op{K: KBytes}, Op{K: KBytes, D: []byte{5, 6}}, Op{K: KString}, Op{K: KString, D: []byte("ab")}, Op{K: KError}, Op{K: KError, D: []byte("err")}
	inputs := []Op{
		mk(b0, s0, e0, b2, s2, e1),
		mk(s2, b2, b2, s2, e1, e1),
		mk(e1, Op{K: KString, D: []byte("a\x00b")}, b0, s0),
		mk(Op{K: KBytes, D: fill(600, 1)}, Op{K: KString, D: text(600)}),
		{D: append(refEncode(nil, b2), KString, KU32, 9, 'x')},
		{D: append(refEncode(nil, s0), KBytes, KU32, 0xff, 0xff, 3, 'x')},
		{D: append(refEncode(nil, e1), KError, KString, KU32, 2, 0xff, 0xfe)},
		{D: []byte{}},
	}
	null := func(k byte) call { return call{Fn: cFreeObj, Null: 1, Op: Op{K: k}} }
	base := []call{
		{Fn: cNewEnc}, {Fn: cFreeEnc}, {Fn: cNewEnc, Slot: 1}, {Fn: cFreeEnc, Slot: 1},
		{Fn: cEncode, Op: Op{K: KBytes, D: fill(40, 1)}}, {Fn: cEncode, Slot: 1, Op: Op{K: KString, D: text(9)}}, {Fn: cBuffer},
	}
	objs := []call{
		{Fn: cDecode, Op: Op{K: KBytes}}, {Fn: cDecode, Op: Op{K: KString}}, {Fn: cDecode, Op: Op{K: KError}},
		{Fn: cFreeObj, Op: Op{K: KBytes}}, {Fn: cFreeObj, Op: Op{K: KString}}, {Fn: cFreeObj, Op: Op{K: KError}},
		{Fn: cFreeObj, Arg: 1, Op: Op{K: KBytes}}, {Fn: cFreeObj, Arg: 1, Op: Op{K: KString}},
		{Fn: cFreeDec},
	}
	depth := 7
	if lv >= 2 {
		depth = 9
	}
	for i, in := range inputs {
		for d := 1; d <= depth; d++ {
			if d == depth && i > 2 && lv < 2 {
				continue
			}
			cScripts(c, cc, fmt.Sprintf("objects: input %d, all histories of %d calls, all release orders", i, d), false, true, func(emit func([]call)) {
				alpha := append([]call{}, objs...)
				first := call{Fn: cNewDec, Init: 0xEE, Op: in}
				cSequences(alpha, d, 0xEE, func(s []call) {
					cCleanups(append([]call{first}, s...), emit)
				})
			})
		}
	}
	// Two decoders, two encoders, everything interleaved.
	mixed := append([]call{}, base...)
	mixed = append(mixed, call{Fn: cNewDec, Op: inputs[0]}, call{Fn: cNewDec, Slot: 1, Op: inputs[1]}, call{Fn: cFreeDec}, call{Fn: cFreeDec, Slot: 1},
		call{Fn: cDecode, Op: Op{K: KBytes}}, call{Fn: cDecode, Slot: 1, Op: Op{K: KString}}, call{Fn: cDecode, Op: Op{K: KU8}},
		call{Fn: cFreeObj, Op: Op{K: KBytes}}, call{Fn: cFreeObj, Op: Op{K: KString}},
		null(KBytes), null(KString), null(KError), call{Fn: cFreeEnc, Null: 1}, call{Fn: cFreeDec, Null: 1}, call{Fn: cNewDec, Null: 2}, call{Fn: cEncode, Null: 2, Op: Op{K: KString}})
	md := 5
	if lv >= 2 {
		md = 6
	}
	for d := 1; d <= md; d++ {
		cScripts(c, cc, fmt.Sprintf("encoders, decoders and objects: all histories of %d calls, all release orders", d), false, true, func(emit func([]call)) {
			cSequences(mixed, d, 0xEE, func(s []call) { cCleanups(s, emit) })
		})
	}
	// Every input of the decode check, each request, object released before or after the decoder.
	cScripts(c, cc, "every input x every pair of requests, released in every order", false, true, func(emit func([]call)) {
		for _, in := range cInputs() {
			for _, q1 := range reqs(KU8, KString) {
				for _, q2 := range []Op{{K: KBytes}, {K: KString}, {K: KError}} {
					cCleanups([]call{{Fn: cNewDec, Init: 0xEE, Op: Op{D: in}}, {Fn: cDecode, Init: 0xEE, Op: q1}, {Fn: cDecode, Init: 0xEE, Arg: 1, Op: q2}}, emit)
				}
			}
		}
	})
	// Sizes around those at which vectors reallocate.
	cScripts(c, cc, "objects and encoders of every size", false, true, func(emit func([]call)) {
		for n := 0; n <= 300; n++ {
			for _, k := range []byte{KBytes, KString, KError} {
				o := Op{K: k, D: text(n)}
				cCleanups([]call{{Fn: cNewDec, Init: 0xEE, Op: mk(o, o)}, {Fn: cDecode, Init: 0xEE, Op: o}, {Fn: cDecode, Init: 0xEE, Arg: 1, Op: o}}, emit)
				cCleanups([]call{{Fn: cNewEnc, Init: 0xEE}, {Fn: cEncode, Init: 0xEE, Op: o}, {Fn: cEncode, Init: 0xEE, Op: o}, {Fn: cBuffer, Init: 0xEE}}, emit)
			}
		}
	})
}
