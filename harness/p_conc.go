package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"polymc/vsched"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"
)

// ---- C09, C10: all interleavings ---------------------------------------------------

// cstate is what one execution of a scenario observed.
type cstate struct {
	mu    sync.Mutex // for the free-running pass
	fails [][2]string
	owned map[any]int
}

func (s *cstate) fail(key, f string, a ...any) {
	s.mu.Lock()
	s.fails = append(s.fails, [2]string{key, fmt.Sprintf(f, a...)})
	s.mu.Unlock()
}

// own notes that thread t now owns p; two owners at a time is the violation.
func (s *cstate) own(key string, p any, t int) {
	s.mu.Lock()
	o, ok := s.owned[p]
	s.owned[p] = t
	s.mu.Unlock()
	if ok {
		s.fail(key+"/shared", "the object obtained by thread %d is still owned by thread %d", t, o)
	}
}

func (s *cstate) disown(p any) {
	s.mu.Lock()
	delete(s.owned, p)
	s.mu.Unlock()
}

type cscn struct {
	name   string
	bound  int
	bodies func(st *cstate) []func()
}

// ---- thread bodies

func encBody(st *cstate, version, t int, b Buf, ops []Op) func() {
	return func() {
		g := newGobuf(version, b)
		var want []byte
		for _, o := range ops {
			g.enc(o)
			want = refEncode(want, o)
			if !bytes.Equal(g.bytes(), want) {
				st.fail(fmt.Sprintf("go-v%d/encode-%s/wrong-bytes", version, kname(o.K)), "thread %d encoding [%s] holds %s, alone it would hold %s", t, opsStr(ops), hxDiff(g.bytes(), want), hx(want))
				return
			}
		}
		if !intact(g.around) {
			st.fail(fmt.Sprintf("go-v%d/encode/outside", version), "thread %d wrote outside its memory", t)
		}
	}
}

func stepOf(version int, in []byte) (stepper, func()) {
	if version == 1 {
		d := v1.GetDecoder(in)
		return &goStep{d: d, errs: v1Errs,
			slice: func(k byte) (uint32, error) { return d.Slice(v1Kinds[k]) },
			mp:    func(k, v byte) (uint32, error) { return d.Map(v1Kinds[k], v1Kinds[v]) },
			rem:   func() int { return -1 }}, func() { v1.ReturnDecoder(d) }
	}
	return newV2Step(in), func() {}
}

// decBody decodes ops from in (which may be malformed) and compares with the model.
func decBody(st *cstate, version, t int, in []byte, ops []Op) func() {
	return func() {
		d, back := stepOf(version, in)
		pos := 0
		for i, o := range ops {
			r := d.Do(o)
			vd, want, n := refDecode(in[pos:], o)
			key := fmt.Sprintf("go-v%d/decode-%s/", version, kname(o.K))
			switch vd {
			case VOK:
				if !r.Ok {
					st.fail(key+"rejected", "thread %d request %d of [%s] on %s failed, alone it succeeds", t, i, reqsStr(ops), hx(in))
					return
				}
				if r.V.N != want.N || !bytes.Equal(r.V.D, want.D) {
					st.fail(key+"wrong-value", "thread %d request %d of [%s] on %s gave %s, alone %s", t, i, reqsStr(ops), hx(in), r.V, want)
					return
				}
				pos += n
			default:
				if r.Ok {
					st.fail(key+"accepted", "thread %d request %d of [%s] on %s gave %s, alone it fails", t, i, reqsStr(ops), hx(in), r.V)
				} else if o.K != KNil && r.Err == errUnknown {
					st.fail(key+"error", "thread %d request %d of [%s] on %s failed with a foreign error", t, i, reqsStr(ops), hx(in))
				}
				if vd != VMismatch {
					back()
					return
				}
			}
		}
		back()
	}
}

// poolBody takes a v2 buffer, uses it and gives it back, twice.
func poolBody(st *cstate, p *v2.Pool, t, rounds, size int) func() {
	return func() {
		for r := 0; r < rounds; r++ {
			var b *v2.Buffer
			if p == nil {
				b = v2.GetBuffer()
			} else {
				b = p.Get()
			}
			if b == nil {
				st.fail("go-v2/pool/nil", "the pool returned nil")
				return
			}
			st.own("go-v2/pool", b, t)
			if b.Len() != 0 || len(b.Bytes()) != 0 {
				st.fail("go-v2/pool/dirty", "thread %d got a buffer holding %s", t, hx(b.Bytes()))
			}
			x := bytes.Repeat([]byte{byte(0x10*t + r + 1)}, size)
			b.Write(x)
			v2.Encoder(b).Uint16(uint16(300 * (t + 1))).String("t")
			want := refEncodeAll([]Op{{K: KU16, N: uint64(300 * (t + 1))}, {K: KString, D: []byte("t")}})
			want = append(append([]byte{}, x...), want...)
			if !bytes.Equal(b.Bytes(), want) || b.Len() != len(want) {
				st.fail("go-v2/pool/contents", "thread %d wrote %s, its buffer holds %s", t, hx(want), hx(b.Bytes()))
			}
			st.disown(b)
			if p == nil {
				v2.PutBuffer(b)
			} else {
				p.Put(b)
			}
		}
	}
}

// decoderBody takes a v1 decoder for its own input, uses it and gives it back, repeatedly.
func decoderBody(st *cstate, t, rounds int, how int) func() {
	return func() {
		for r := 0; r < rounds; r++ {
			id := uint64(100*(t+1) + r)
			in := refEncodeAll([]Op{{K: KU32, N: id}, {K: KString, D: []byte(fmt.Sprint(id))}})
			if how == 2 { // fails half way
				in = append(in[:len(in)-1:len(in)-1], []byte{}...)
			}
			d := v1.GetDecoder(in)
			if d == nil {
				st.fail("go-v1/decoder/nil", "GetDecoder returned nil")
				return
			}
			st.own("go-v1/decoder", d, t)
			if d.Nil() {
				st.fail("go-v1/decoder/nil-probe", "thread %d: nil found in %s", t, hx(in))
			}
			n, err := d.Uint32()
			if err != nil || uint64(n) != id {
				st.fail("go-v1/decoder/wrong-bytes", "thread %d decoding %s read %d (%v), want %d", t, hx(in), n, err, id)
			}
			s, err := d.String()
			if how != 2 && (err != nil || s != fmt.Sprint(id)) {
				st.fail("go-v1/decoder/wrong-bytes", "thread %d decoding %s read %q (%v)", t, hx(in), s, err)
			}
			if how == 2 && (err == nil || s != "") {
				st.fail("go-v1/decoder/wrong-bytes", "thread %d decoding the cut %s read %q", t, hx(in), s)
			}
			if _, err := d.Uint8(); err == nil {
				st.fail("go-v1/decoder/more", "thread %d read past the end of %s", t, hx(in))
			}
			st.disown(d)
			if how == 1 {
				d.Return()
			} else {
				v1.ReturnDecoder(d)
			}
		}
	}
}

// ---- scenarios

func c10Scenarios(lv int) []cscn {
	var out []cscn
	pb := 2
	if lv >= 2 {
		pb = 3
	}
	one := oneOps()
	add := func(name string, bound int, f func(st *cstate) []func()) { out = append(out, cscn{name, bound, f}) }
	for version := 1; version <= 2; version++ {
		v := version
		for i, a := range one {
			for j, b := range one {
				if j >= i {
					add(fmt.Sprintf("v%d encode %s || encode %s", v, a, b), pb, func(st *cstate) []func() {
						return []func(){encBody(st, v, 0, Buf{}, []Op{a}), encBody(st, v, 1, Buf{Kind: 1, N: 1}, []Op{b})}
					})
					ia, ib := refEncode(nil, a), refEncode(nil, b)
					add(fmt.Sprintf("v%d decode %s || decode %s", v, a, b), pb, func(st *cstate) []func() {
						return []func(){decBody(st, v, 0, ia, []Op{a}), decBody(st, v, 1, ib, []Op{b})}
					})
				}
				in := refEncode(nil, b)
				add(fmt.Sprintf("v%d encode %s || decode %s", v, a, b), pb, func(st *cstate) []func() {
					return []func(){encBody(st, v, 0, Buf{}, []Op{a}), decBody(st, v, 1, in, []Op{b})}
				})
			}
		}
		// Same type, different values, and the same input read by both.
		tiny := tinyOps()
		for i, a := range tiny {
			for _, b := range tiny[i+1:] {
				if a.K != b.K {
					continue
				}
				ia, ib := refEncode(nil, a), refEncode(nil, b)
				add(fmt.Sprintf("v%d same type encode %s || encode %s", v, a, b), pb+1, func(st *cstate) []func() {
					return []func(){encBody(st, v, 0, Buf{}, []Op{a}), encBody(st, v, 1, Buf{}, []Op{b})}
				})
				add(fmt.Sprintf("v%d same type decode %s || decode %s", v, a, b), pb+1, func(st *cstate) []func() {
					return []func(){decBody(st, v, 0, ia, []Op{a}), decBody(st, v, 1, ib, []Op{b})}
				})
			}
		}
		shared := refEncodeAll(one)
		add(fmt.Sprintf("v%d both decode one input of every type", v), min(pb, 2), func(st *cstate) []func() {
			return []func(){decBody(st, v, 0, shared, one[:8]), decBody(st, v, 1, shared, one[:8])}
		})
		half := refEncodeAll(one[8:])
		add(fmt.Sprintf("v%d both decode one input, numbers", v), min(pb, 2), func(st *cstate) []func() {
			return []func(){decBody(st, v, 0, half, one[8:]), decBody(st, v, 1, half, one[8:])}
		})
		seqA := []Op{{K: KString, D: []byte("alpha")}, {K: KU64, N: 1 << 50}, {K: KBytes, D: []byte{1, 2, 3}}}
		seqB := []Op{{K: KMap, A: KString, B: KU32, N: 2}, {K: KString, D: []byte("k")}, {K: KI32, N: ^uint64(8)}}
		sA, sB := refEncodeAll(seqA), refEncodeAll(seqB)
		add(fmt.Sprintf("v%d messages: encode || encode", v), min(pb, 2), func(st *cstate) []func() {
			return []func(){encBody(st, v, 0, Buf{}, seqA), encBody(st, v, 1, Buf{}, seqB)}
		})
		add(fmt.Sprintf("v%d messages: encode || decode", v), min(pb, 2), func(st *cstate) []func() {
			return []func(){encBody(st, v, 0, Buf{Kind: 1, N: 2}, seqA), decBody(st, v, 1, sB, seqB)}
		})
		add(fmt.Sprintf("v%d messages: decode || decode", v), min(pb, 2), func(st *cstate) []func() {
			return []func(){decBody(st, v, 0, sA, seqA), decBody(st, v, 1, sB, seqB)}
		})
		// Failing requests next to succeeding ones.
		for i, a := range one {
			bad := refEncode(nil, a)
			bad = bad[:len(bad)-1]
			b := one[(i+4)%len(one)]
			good := refEncodeAll([]Op{b, a})
			add(fmt.Sprintf("v%d cut %s || [%s]", v, a, opsStr([]Op{b, a})), 2, func(st *cstate) []func() {
				return []func(){decBody(st, v, 0, bad, []Op{a}), decBody(st, v, 1, good, []Op{a, b, a})}
			})
		}
		// Three at a time.
		for i, a := range one {
			b, c := one[(i+1)%len(one)], one[(i+5)%len(one)]
			ib := refEncode(nil, b)
			add(fmt.Sprintf("v%d encode %s || decode %s || encode %s", v, a, b, c), min(pb-1, 2), func(st *cstate) []func() {
				return []func(){encBody(st, v, 0, Buf{}, []Op{a}), decBody(st, v, 1, ib, []Op{b}), encBody(st, v, 2, Buf{}, []Op{c})}
			})
			x := a
			add(fmt.Sprintf("v%d three encode %s", v, a), pb-1, func(st *cstate) []func() {
				return []func(){encBody(st, v, 0, Buf{}, []Op{x}), encBody(st, v, 1, Buf{}, []Op{{K: KU64, N: 1 << 60}, x}), encBody(st, v, 2, Buf{}, []Op{x, {K: KBytes, D: fill(5, 5)}})}
			})
		}
	}
	return out
}

func c09Scenarios(lv int) []cscn {
	var out []cscn
	add := func(name string, bound int, f func(st *cstate) []func()) { out = append(out, cscn{name, bound, f}) }
	big := 0
	if lv >= 2 {
		big = 1
	}
	for _, global := range []bool{true, false} {
		pool := func() *v2.Pool {
			if global {
				return nil
			}
			return v2.NewPool()
		}
		n := map[bool]string{true: "global", false: "own"}[global]
		for _, size := range []int{3, 600} {
			add(fmt.Sprintf("v2 %s pool, 2 threads x 2 rounds, %d bytes", n, size), 2+big, func(st *cstate) []func() {
				p := pool()
				return []func(){poolBody(st, p, 0, 2, size), poolBody(st, p, 1, 2, size)}
			})
			add(fmt.Sprintf("v2 %s pool, 3 threads, %d bytes", n, size), 1+big, func(st *cstate) []func() {
				p := pool()
				return []func(){poolBody(st, p, 0, 1, size), poolBody(st, p, 1, 1, size), poolBody(st, p, 2, 2, size)}
			})
			add(fmt.Sprintf("v2 %s pool, pre-filled, 2 threads, %d bytes", n, size), 2+big, func(st *cstate) []func() {
				p := pool()
				return []func(){
					func() {
						a, b := poolGet(p), poolGet(p)
						a.Write([]byte("first"))
						b.Write([]byte("second"))
						poolPut(p, a)
						poolPut(p, b)
						poolBody(st, p, 0, 1, size)()
					}, poolBody(st, p, 1, 2, size)}
			})
		}
		add(fmt.Sprintf("v2 %s pool, one thread, 4 rounds", n), 0, func(st *cstate) []func() { return []func(){poolBody(st, pool(), 0, 4, 5)} })
	}
	add("v2 two pools, 2 threads", 2+big, func(st *cstate) []func() {
		return []func(){poolBody(st, v2.NewPool(), 0, 2, 3), poolBody(st, v2.NewPool(), 1, 2, 3)}
	})
	for how := 0; how <= 2; how++ {
		h := how
		add(fmt.Sprintf("v1 decoders, 2 threads x 2 rounds, form %d", h), 2+big, func(st *cstate) []func() {
			return []func(){decoderBody(st, 0, 2, h), decoderBody(st, 1, 2, h%2)}
		})
		add(fmt.Sprintf("v1 decoders, 3 threads, form %d", h), 1+big, func(st *cstate) []func() {
			return []func(){decoderBody(st, 0, 1, h), decoderBody(st, 1, 2, h), decoderBody(st, 2, 1, 0)}
		})
		add(fmt.Sprintf("v1 decoders, one thread, 5 rounds, form %d", h), 0, func(st *cstate) []func() { return []func(){decoderBody(st, 0, 5, h)} })
	}
	// All histories of one thread.
	depth := 6
	if lv >= 2 {
		depth = 7
	}
	nb := len(poolOps)
	for x := 0; x < nb*nb; x++ {
		for _, global := range []bool{true, false} {
			first := []int{x / nb, x % nb}
			out = append(out, cscn{fmt.Sprintf("histories v2 (global %v) starting with %v", global, first), -depth, func(st *cstate) []func() {
				return []func(){poolHistory(st, global, first, depth)}
			}})
		}
	}
	// Every way a buffer can be left behind, twice in a row.
	for u := range poolUses {
		for _, global := range []bool{true, false} {
			out = append(out, cscn{fmt.Sprintf("v2 (global %v) buffer left after %q", global, poolUses[u].name), -3, func(st *cstate) []func() {
				return []func(){poolLeft(st, global, u)}
			}})
		}
	}
	nd := len(decOps)
	for x := 0; x < nd*nd; x++ {
		first := []int{x / nd, x % nd}
		out = append(out, cscn{fmt.Sprintf("histories v1 decoders starting with %v", first), -depth, func(st *cstate) []func() {
			return []func(){decHistory(st, first, depth)}
		}})
	}
	return out
}

func poolGet(p *v2.Pool) *v2.Buffer {
	if p == nil {
		return v2.GetBuffer()
	}
	return p.Get()
}

func poolPut(p *v2.Pool, b *v2.Buffer) {
	if p == nil {
		v2.PutBuffer(b)
	} else {
		p.Put(b)
	}
}

var poolOps = []string{"get", "put oldest", "put newest", "put nil", "write 3 oldest", "write 600 newest", "encode newest", "put foreign"}

// poolHistory performs depth operations chosen by the explorer (the first two given),
// keeping a model of every buffer it holds.
func poolHistory(st *cstate, global bool, first []int, depth int) func() {
	return func() {
		var p *v2.Pool
		if !global {
			p = v2.NewPool()
		}
		type own struct {
			b    *v2.Buffer
			want []byte
		}
		var held []*own
		fill := byte(1)
		var names []string
		for i := 0; i < depth; i++ {
			op := 0
			if i < len(first) {
				op = first[i]
			} else {
				op = vsched.Choose(len(poolOps))
			}
			names = append(names, poolOps[op])
			n := len(held)
			switch {
			case op == 0:
				b := poolGet(p)
				if b == nil {
					st.fail("go-v2/pool/nil", "after %v the pool returned nil", names)
					return
				}
				for _, h := range held {
					if h.b == b {
						st.fail("go-v2/pool/shared", "after %v the pool returned a buffer that is already in use", names)
						return
					}
				}
				if b.Len() != 0 || len(b.Bytes()) != 0 {
					st.fail("go-v2/pool/dirty", "after %v the pool returned a buffer holding %s", names, hx(b.Bytes()))
					return
				}
				held = append(held, &own{b, nil})
			case op == 1 && n > 0:
				poolPut(p, held[0].b)
				held = held[1:]
			case op == 2 && n > 0:
				poolPut(p, held[n-1].b)
				held = held[:n-1]
			case op == 3:
				poolPut(p, nil)
			case op == 4 && n > 0:
				x := bytes.Repeat([]byte{fill}, 3)
				held[0].b.Write(x)
				held[0].want = append(held[0].want, x...)
			case op == 5 && n > 0:
				x := bytes.Repeat([]byte{fill}, 600)
				held[n-1].b.Write(x)
				held[n-1].want = append(held[n-1].want, x...)
			case op == 6 && n > 0:
				o := Op{K: KString, D: []byte{'a' + fill}}
				v2Put(v2.Encoder(held[n-1].b), o)
				held[n-1].want = refEncode(held[n-1].want, o)
			case op == 7: // a buffer the pool has never seen, with contents
				x := v2.NewBufferSize(2)
				x.Write([]byte{0xF0, 0xF1, 0xF2})
				poolPut(p, x)
			default:
				return // not possible here: the shorter history covers it
			}
			fill++
			for k, h := range held {
				if !bytes.Equal(h.b.Bytes(), h.want) || h.b.Len() != len(h.want) {
					st.fail("go-v2/pool/contents", "after %v buffer %d holds %s, want %s", names, k, hx(h.b.Bytes()), hx(h.want))
					return
				}
			}
		}
	}
}

// poolUses are ways to use a buffer before giving it back.
var poolUses = func() (out []poolUse) {
	add := func(name string, f func(b *v2.Buffer)) { out = append(out, poolUse{name, f}) }
	for _, n := range []int{0, 1, 2, 127, 128, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20} {
		add(fmt.Sprintf("write %d", n), func(b *v2.Buffer) { b.Write(fill(n, 0x5A)) })
	}
	add("fill to capacity", func(b *v2.Buffer) { b.Write(fill(b.Cap()-b.Len(), 0x5B)) })
	add("fill to capacity, twice", func(b *v2.Buffer) {
		b.Write(fill(b.Cap()-b.Len(), 0x5B))
		b.Write(fill(1, 1))
		b.Write(fill(b.Cap()-b.Len(), 0x5B))
	})
	add("fill to one below capacity", func(b *v2.Buffer) { b.Write(fill(b.Cap()-b.Len()-1, 0x5C)) })
	add("write in small pieces", func(b *v2.Buffer) {
		for i := 0; i < 300; i++ {
			b.Write([]byte{9, 9})
		}
	})
	for _, n := range []int{0, 1, 511, 512, 513, 5000} {
		add(fmt.Sprintf("write 3, grow by %d", n), func(b *v2.Buffer) { b.Write([]byte{7, 7, 7}); b.Grow(n) })
		add(fmt.Sprintf("encode bytes of %d", n), func(b *v2.Buffer) { v2.Encoder(b).Bytes(fill(n, 0x5D)) })
	}
	add("move the offset", func(b *v2.Buffer) { b.MoveOffset(5) })
	add("write, move the offset back", func(b *v2.Buffer) { b.Write(fill(9, 3)); b.MoveOffset(-4) })
	add("write, reset", func(b *v2.Buffer) { b.Write(fill(600, 3)); b.Reset() })
	add("write, reset, write", func(b *v2.Buffer) { b.Write(fill(600, 3)); b.Reset(); b.Write([]byte{1}) })
	add("encode an error", func(b *v2.Buffer) { v2.Encoder(b).Error(errors.New("x")) })
	return
}()

type poolUse struct {
	name string
	do   func(b *v2.Buffer)
}

// poolLeft uses a buffer in way u, gives it back, takes another, uses that in every way,
// gives it back and takes a third.
func poolLeft(st *cstate, global bool, u int) func() {
	return func() {
		var p *v2.Pool
		if !global {
			p = v2.NewPool()
		}
		names := []string{}
		take := func() *v2.Buffer {
			b := poolGet(p)
			if b == nil {
				st.fail("go-v2/pool/nil", "after %v the pool returned nil", names)
				return nil
			}
			if b.Len() != 0 || len(b.Bytes()) != 0 {
				st.fail("go-v2/pool/dirty", "after %v the pool returned a buffer holding %d bytes", names, b.Len())
				return nil
			}
			b.Write([]byte{0xEE})
			if !bytes.Equal(b.Bytes(), []byte{0xEE}) {
				st.fail("go-v2/pool/contents", "after %v and a write of one byte, the buffer holds %s", names, hx(b.Bytes()))
				return nil
			}
			b.Reset()
			return b
		}
		for i := 0; i < 2; i++ {
			b := take()
			if b == nil {
				return
			}
			if i == 1 {
				u = vsched.Choose(len(poolUses))
			}
			poolUses[u].do(b)
			names = append(names, poolUses[u].name)
			poolPut(p, b)
		}
		take()
	}
}

var decOps = []string{"get", "get empty", "read oldest", "read newest", "fail oldest", "return oldest", "return newest", "return nil"}

func decHistory(st *cstate, first []int, depth int) func() {
	return func() {
		type own struct {
			d    *v1.Decoder
			in   []byte
			next []uint64
		}
		var held []*own
		id := uint64(1)
		var names []string
		for i := 0; i < depth; i++ {
			op := 0
			if i < len(first) {
				op = first[i]
			} else {
				op = vsched.Choose(len(decOps))
			}
			names = append(names, decOps[op])
			n := len(held)
			read := func(h *own) bool {
				v, err := h.d.Uint32()
				if len(h.next) == 0 {
					if err == nil {
						st.fail("go-v1/decoder/more", "after %v a decoder for %s read %d past its end", names, hx(h.in), v)
						return false
					}
					return true
				}
				if err != nil || uint64(v) != h.next[0] {
					st.fail("go-v1/decoder/wrong-bytes", "after %v a decoder for %s read %d (%v), want %d", names, hx(h.in), v, err, h.next[0])
					return false
				}
				h.next = h.next[1:]
				return true
			}
			switch {
			case op == 0 || op == 1:
				h := &own{}
				if op == 0 {
					h.next = []uint64{id * 1000, id*1000 + 1}
					h.in = refEncodeAll([]Op{{K: KU32, N: id * 1000}, {K: KU32, N: id*1000 + 1}})
				}
				h.d = v1.GetDecoder(h.in)
				for _, o := range held {
					if o.d == h.d {
						st.fail("go-v1/decoder/shared", "after %v GetDecoder returned a decoder that is already in use", names)
						return
					}
				}
				held = append(held, h)
				if op == 1 && !read(h) {
					return
				}
			case op == 2 && n > 0:
				if !read(held[0]) {
					return
				}
			case op == 3 && n > 0:
				if !read(held[n-1]) {
					return
				}
			case op == 4 && n > 0:
				if s, err := held[0].d.String(); err == nil {
					st.fail("go-v1/decoder/wrong-bytes", "after %v a decoder for %s read the string %q", names, hx(held[0].in), s)
					return
				}
			case op == 5 && n > 0:
				held[0].d.Return()
				held = held[1:]
			case op == 6 && n > 0:
				v1.ReturnDecoder(held[n-1].d)
				held = held[:n-1]
			case op == 7:
				v1.ReturnDecoder(nil)
			default:
				return
			}
			id++
		}
		for _, h := range held { // everything still held reads on as if alone
			for range 3 {
				v, err := h.d.Uint32()
				if len(h.next) == 0 {
					if err == nil {
						st.fail("go-v1/decoder/more", "after %v a decoder for %s read %d past its end", names, hx(h.in), v)
					}
					break
				}
				if err != nil || uint64(v) != h.next[0] {
					st.fail("go-v1/decoder/wrong-bytes", "after %v a decoder for %s read %d (%v), want %d", names, hx(h.in), v, err, h.next[0])
					break
				}
				h.next = h.next[1:]
			}
		}
	}
}

// ---- workers

type concOut struct {
	Execs, Steps, Scenarios, Diverged, Aborted int64
	MaxChoices                                 int
	Capped                                     []string
	Fails                                      []Violation
	Outcomes                                   []string
	Instrumented                               int
	Hang                                       string
}

func scenariosOf(prop string, lv int) []cscn {
	if prop == "C09" {
		return c09Scenarios(lv)
	}
	return c10Scenarios(lv)
}

// concWorker explores every n-th scenario and prints what it found.
func concWorker(args []string) {
	prop := args[0]
	lv, _ := strconv.Atoi(args[1])
	w, _ := strconv.Atoi(args[2])
	n, _ := strconv.Atoi(args[3])
	secs, _ := strconv.Atoi(args[4])
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	out := concOut{Instrumented: vsched.Instrumented()}
	seen := map[string]bool{}
	var mu sync.Mutex
	emit := func() {
		b, _ := json.Marshal(out)
		os.Stdout.Write(append(b, '\n'))
	}
	var progress, last int64
	var doing string
	go func() { // a run that blocks outside the scheduler's sight
		for {
			time.Sleep(30 * time.Second)
			mu.Lock()
			if progress == last {
				out.Hang = doing
				emit()
				os.Exit(0)
			}
			last = progress
			mu.Unlock()
		}
	}()
	for i, s := range scenariosOf(prop, lv) {
		if i%n != w {
			continue
		}
		if len(out.Fails) >= 20 {
			break
		}
		mu.Lock()
		doing = s.name
		mu.Unlock()
		out.Scenarios++
		var st *cstate
		bound := max(s.bound, 0)
		mk := func() []func() {
			st = &cstate{owned: map[any]int{}}
			return s.bodies(st)
		}
		failsOf := func(r vsched.Result) [][2]string {
			f := st.fails
			for _, p := range r.Panics {
				f = append(f, [2]string{"panic", p})
			}
			if r.Deadlock {
				f = append(f, [2]string{"deadlock", "no thread can run"})
			}
			return f
		}
		done := vsched.Explore(bound, mk, func(r vsched.Result) bool {
			mu.Lock()
			progress++
			out.Execs++
			out.Steps += int64(r.Steps)
			mu.Unlock()
			out.MaxChoices = max(out.MaxChoices, len(r.Choices))
			if r.Diverged {
				out.Diverged++
			}
			if r.Aborted {
				out.Aborted++
			}
			for _, f := range failsOf(r) {
				key := f[0]
				if key == "panic" || key == "deadlock" {
					key = strings.SplitN(s.name, " ", 3)[0] + "/" + strings.SplitN(s.name, " ", 3)[1] + "/" + key
				}
				if seen[key] {
					continue
				}
				seen[key] = true
				// Does the same schedule show it again?
				again := 0
				for k := 0; k < 3; k++ {
					r2 := vsched.Run(r.Choices, bound, mk()...)
					for _, g := range failsOf(r2) {
						if g[0] == f[0] {
							again++
							break
						}
					}
				}
				var ch []int
				for _, c := range r.Choices {
					ch = append(ch, c.V)
				}
				out.Fails = append(out.Fails, Violation{key, fmt.Sprintf("%s, schedule with %d choices (shown again in %d of 3 replays): %s", s.name, len(ch), again, f[1]),
					map[string]any{"scenario": s.name, "preemptions": bound, "choices": ch}})
			}
			return len(seen) < 40 && !time.Now().After(deadline)
		})
		if !done && time.Now().After(deadline) {
			out.Capped = append(out.Capped, s.name)
		}
		out.Outcomes = append(out.Outcomes, strings.Join(strings.SplitN(s.name, " ", 4)[:min(3, len(strings.Fields(s.name)))], " "))
	}
	emit()
}

// concFree runs the same kinds of work on real goroutines under the race detector.
func concFree(args []string) {
	prop := args[0]
	secs, _ := strconv.Atoi(args[1])
	st := &cstate{owned: map[any]int{}}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	scn := scenariosOf(prop, 0)
	var list []cscn
	for i, s := range scn {
		if strings.Contains(s.name, "histories") {
			continue
		}
		if prop == "C09" || i%3 == 0 || strings.Contains(s.name, "same type") || strings.Contains(s.name, "three") || strings.Contains(s.name, "both") {
			list = append(list, s)
		}
	}
	runs := 0
	for round := 0; ; round++ {
		for _, s := range list {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, f := range s.bodies(st) {
				wg.Add(1)
				go func() { defer wg.Done(); <-start; f() }()
			}
			close(start)
			wg.Wait()
			runs++
		}
		if round >= 3 && time.Now().After(end) || len(st.fails) > 0 {
			break
		}
	}
	b, _ := json.Marshal(map[string]any{"runs": runs, "fails": st.fails})
	os.Stdout.Write(append(b, '\n'))
}

func concCheck(c *Check) {
	lv := level(c)
	overlay, files := instrument()
	bin := filepath.Join(scratch(), "polymc-conc")
	hd := filepath.Join(verifDir(), "harness")
	var wg sync.WaitGroup
	race := filepath.Join(scratch(), "polymc-race")
	raceErr := ""
	wg.Add(1)
	go func() {
		defer wg.Done()
		if o, err := sh(hd, []string{"CGO_ENABLED=1"}, "go", "build", modfile(), "-race", "-o", race, "."); err != nil {
			raceErr = o
		}
	}()
	must(hd, nil, "go", "build", modfile(), "-overlay", overlay, "-o", bin, ".")
	left := int(time.Until(c.Deadline).Seconds())
	n := runtime.NumCPU()
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(bin, "conc-worker", c.Prop, strconv.Itoa(lv), strconv.Itoa(w), strconv.Itoa(n), strconv.Itoa(left))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
			var eb bytes.Buffer
			cmd.Stderr = &eb
			b, err := cmd.Output()
			var o concOut
			if err == nil {
				err = json.Unmarshal(b, &o)
			}
			if err != nil {
				s := eb.String()
				if strings.Contains(s, "fatal error") || strings.Contains(s, "panic:") { // not recoverable: concurrent map access, out of memory
					c.Fail("runtime/fatal", "worker ended by the runtime: "+s[:min(len(s), 600)], map[string]any{"worker": w})
					return
				}
				die("worker %d: %v\n%s", w, err, s)
			}
			if o.Instrumented != files {
				die("worker runs %d instrumented files, want %d", o.Instrumented, files)
			}
			c.states.Add(o.Execs)
			c.transitions.Add(o.Steps)
			c.traces.Add(o.Execs)
			c.Count("scenarios", o.Scenarios)
			c.Count("executions (schedules)", o.Execs)
			c.Count("executions that did not replay their prefix", o.Diverged)
			c.Count("executions over the step limit", o.Aborted)
			for _, x := range o.Capped {
				c.Cap(x)
			}
			if o.Hang != "" {
				c.Cap("blocked outside the scheduler: " + o.Hang)
			}
			for _, x := range o.Outcomes {
				c.Outcome(x)
			}
			for _, f := range o.Fails {
				c.Fail(f.Key, f.Detail, f.Replay)
			}
		}()
	}
	wg.Wait()
	scn := scenariosOf(c.Prop, lv)
	for i := 0; i < len(scn); i += max(1, len(scn)/10) {
		c.Sample(map[string]any{"scenario": scn[i].name, "preemption_bound": max(scn[i].bound, 0)})
	}
	if raceErr != "" {
		c.Note("race detector build failed, pass skipped: %s", raceErr[:min(len(raceErr), 300)])
	} else {
		secs := 4
		if lv >= 2 {
			secs = 60
		}
		cmd := exec.Command(race, "conc-free", c.Prop, strconv.Itoa(secs))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		b, err := cmd.Output()
		var o struct {
			Runs  int64
			Fails [][2]string
		}
		switch {
		case strings.Contains(eb.String(), "DATA RACE"):
			s := eb.String()
			c.Fail("race", "the race detector reports unsynchronised access inside the library: "+raceBrief(s), map[string]any{"report": s[:min(len(s), 4000)]})
		case err != nil:
			s := eb.String()
			if strings.Contains(s, "fatal error") || strings.Contains(s, "panic:") {
				c.Fail("runtime/fatal-free", "free-running goroutines ended by the runtime: "+s[:min(len(s), 600)], nil)
			} else {
				c.Note("free-running pass failed to run: %v", err)
			}
		default:
			json.Unmarshal(b, &o)
			c.Count("free-running rounds under the race detector (supplementary)", o.Runs)
			for _, f := range o.Fails {
				c.Fail(f[0], "free-running goroutines: "+f[1], nil)
			}
		}
	}
	c.Assume("interleavings at statement granularity, sequentially consistent; accesses within one statement are covered by the race detector pass only")
	c.Note("%d library source files instrumented", files)
}

// raceBrief keeps the lines of a race report that name library functions.
func raceBrief(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "polyglot") && strings.Contains(l, "(") && len(out) < 6 {
			out = append(out, l)
		}
	}
	return strings.Join(out, "; ")
}
