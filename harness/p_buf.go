package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"
)

// ---- C07: bytes do not depend on the buffer -------------------------------------

// shapeOps has one value per type and encoded length.
func shapeOps() []Op {
	var out []Op
	out = append(out, Op{K: KNil}, Op{K: KBool, N: 1}, Op{K: KU8, N: 0x5a}, Op{K: KF32, N: 0x12345678}, Op{K: KF64, N: 0x123456789abcdef0})
	for g := uint(0); g < 3; g++ {
		out = append(out, Op{K: KU16, N: min(uint64(0x55)<<(7*g)|1, 0xffff)})
	}
	for g := uint(0); g < 5; g++ {
		v := min(uint64(0x55)<<(7*g)|1, 0xffffffff)
		out = append(out, Op{K: KU32, N: v}, Op{K: KI32, N: uint64(int64(int32(unzigzag(v))))}, Op{K: KSlice, A: KU8, N: v}, Op{K: KMap, A: KString, B: KI64, N: v})
	}
	for g := uint(0); g < 10; g++ {
		v := uint64(0x2a)<<(7*g) | 1
		if g == 9 {
			v = 1<<63 | 5
		}
		out = append(out, Op{K: KU64, N: v}, Op{K: KI64, N: uint64(unzigzag(v))})
	}
	for _, n := range []int{0, 1, 2, 3, 7, 20, 126, 127, 128, 129, 300, 511, 512, 513} {
		out = append(out, Op{K: KBytes, D: fill(n, 9)}, Op{K: KString, D: text(n)}, Op{K: KError, D: text(n)})
	}
	return out
}

func c07(c *Check) {
	subjs := allSubjects()
	defer closeAll(subjs)
	lv := level(c)
	x := runner{c: c, subjs: subjs}
	gos := runner{c: c, subjs: []Subject{goV1, goV2}}
	end := Op{K: KU16, N: 0xBEEF}
	shapes := shapeOps()
	long := []Op{{K: KBytes, D: fill(16384, 1)}, {K: KString, D: text(16384)}, {K: KError, D: text(16384)}, {K: KBytes, D: fill(70000, 1)}, {K: KString, D: text(70000)}}
	room := func(o Op) []int { // interesting amounts of room around a value
		n := len(refEncode(nil, o))
		var out []int
		for r := 0; r <= n+14; r++ {
			if r <= 20 || r >= n-14 {
				out = append(out, r)
			}
		}
		return out
	}
	each := func(emit func(o Op, r int)) {
		for _, o := range append(shapes[:len(shapes):len(shapes)], long...) {
			for _, r := range room(o) {
				emit(o, r)
			}
		}
	}
	x.encode("buffers of every size around the value", func(emit func(EncJob)) {
		each(func(o Op, r int) {
			emit(EncJob{Buf{Kind: 1, N: r}, []Op{o}})
			emit(EncJob{Buf{Kind: 1, N: r}, []Op{o, end}})
			emit(EncJob{Buf{Kind: 1, N: r + 2}, []Op{{K: KU8, N: 3}, o, end}})
		})
	})
	x.encode("caller memory of every length and capacity around the value", func(emit func(EncJob)) {
		each(func(o Op, r int) {
			seen := map[int]bool{}
			for _, n := range []int{0, 1, r / 2, r - 1, r} {
				if n >= 0 && n <= r && !seen[n] {
					seen[n] = true
					emit(EncJob{Buf{Kind: 2, N: n, Cap: r}, []Op{o}})
					emit(EncJob{Buf{Kind: 2, N: n, Cap: r}, []Op{o, end}})
				}
			}
		})
	})
	x.encode("default buffer filled to every level around the value", func(emit func(EncJob)) {
		each(func(o Op, r int) {
			for _, size := range []int{512, 1024} {
				// A byte string in front leaves exactly r bytes of the first size bytes.
				if d := size - r - 4; d > 128 {
					emit(EncJob{Buf{}, []Op{{K: KBytes, D: fill(d, 5)}, o, end}})
				}
			}
		})
	})
	x.encode("all pairs of values in small buffers", func(emit func(EncJob)) {
		for n := 0; n <= 24; n++ {
			if lv < 2 && n > 8 && n%4 != 0 {
				continue
			}
			seqs(tinyOps(), 2, func(ops []Op) { emit(EncJob{Buf{Kind: 1, N: n}, ops}) })
		}
	})
	gos.encode("reset and pooled buffers with stale contents", func(emit func(EncJob)) {
		for _, o := range append(shapes[:len(shapes):len(shapes)], long...) {
			for _, k := range []byte{3, 4} {
				for _, n := range []int{0, 1, 2, 100, 511, 512, 513, 1000, 1024, 1025, 5000} {
					emit(EncJob{Buf{Kind: k, N: n}, []Op{o}})
					emit(EncJob{Buf{Kind: k, N: n}, []Op{{K: KBytes, D: fill(n, 2)}, o, end}})
				}
			}
		}
	})
	// The encoders of Rust (and, through it, C) write to a cursor, which may stand anywhere
	// in a vector with earlier contents.
	rusts := runner{c: c}
	for _, s := range subjs {
		if strings.HasPrefix(s.Name(), "rust") {
			rusts.subjs = append(rusts.subjs, s)
		}
	}
	rusts.encode("cursors at the start, middle and end of earlier contents", func(emit func(EncJob)) {
		for _, o := range append(shapes[:len(shapes):len(shapes)], long...) {
			l := len(refEncode(nil, o))
			for _, k := range []byte{13, 14, 15} {
				for _, n := range []int{0, 1, 2, 3, 8, 100, l - 1, l, l + 1, 2 * l, 2*l - 1, 2*l + 8, 40000} {
					emit(EncJob{Buf{Kind: k, N: n}, []Op{o}})
					emit(EncJob{Buf{Kind: k, N: n}, []Op{{K: KU8, N: 3}, o, end}})
				}
			}
		}
	})
	big := x
	big.chunk = 4
	big.encode("data of two MiB in buffers of every size around it", func(emit func(EncJob)) {
		for _, n := range []int{2097151, 2097152} {
			for _, k := range []byte{KBytes, KString, KError} {
				if n == 2097151 && k != KBytes {
					continue
				}
				o := Op{K: k, D: text(n)}
				total := len(refEncode(nil, o))
				for r := total - 8; r <= total+3; r++ {
					emit(EncJob{Buf{Kind: 1, N: r}, []Op{o, end}})
				}
			}
		}
	})
	c.bigRooms()
	if lv >= 2 {
		x.encode("all triples of types in small buffers", func(emit func(EncJob)) {
			for n := 0; n <= 24; n++ {
				seqs(oneOps(), 3, func(ops []Op) { emit(EncJob{Buf{Kind: 1, N: n}, ops}) })
			}
		})
		x.encode("all pairs of shapes in small caller memory", func(emit func(EncJob)) {
			var small []Op
			for _, o := range shapes {
				if len(o.D) < 10 {
					small = append(small, o)
				}
			}
			for n := 0; n <= 28; n += 2 {
				seqs(small, 2, func(ops []Op) { emit(EncJob{Buf{Kind: 2, N: n / 2, Cap: n}, ops}) })
			}
		})
	}
}

// bigRooms is data whose length takes five bytes (2^28), in buffers of every size
// around the value, in both Go versions.
func (c *Check) bigRooms() {
	name := "2^28 bytes of data in buffers of every size around it"
	d := bytes.Repeat([]byte("0123456789abcdef"), 1<<24)
	type job struct {
		s    *goSubject
		k    byte
		room int
	}
	var jobs []job
	for _, s := range []*goSubject{goV1, goV2} {
		for _, k := range []byte{KBytes, KString, KError} {
			for r := -8; r <= 1; r++ {
				if c.Thorough() || r >= -4 {
					jobs = append(jobs, job{s, k, r})
				}
			}
		}
	}
	sem := make(chan bool, 2) // each takes about a gigabyte
	defer debug.SetGCPercent(debug.SetGCPercent(25))
	if !c.Parallel(len(jobs), func(i int) {
		sem <- true
		defer func() { debug.FreeOSMemory(); <-sem }()
		j := jobs[i]
		o := Op{K: j.k, D: d}
		head := refLen([]byte{o.K}, uint64(len(d)))
		if o.K == KError {
			head = refLen([]byte{KError, KString}, uint64(len(d)))
		}
		total := len(head) + len(d)
		job := EncJob{Buf{Kind: 1, N: total + j.room}, []Op{o}}
		r := j.s.Enc1(job)
		switch {
		case r.Crash != "":
			c.Fail(j.s.name+"/encode-"+kname(j.k)+"/crash-2^28", fmt.Sprintf("%s: encoding [%s] into %s: %s", j.s.name, opsStr(job.Ops), job.Buf, r.Crash), nil)
		case len(r.Out) != total || !bytes.Equal(r.Out[:len(head)], head) || !bytes.Equal(r.Out[len(head):], d):
			c.Fail(j.s.name+"/encode-"+kname(j.k)+"/wrong-bytes-2^28", fmt.Sprintf("%s: encoding [%s] into %s gave other bytes", j.s.name, opsStr(job.Ops), job.Buf), nil)
		}
		c.states.Add(1)
		c.transitions.Add(1)
		c.traces.Add(1)
	}) {
		c.Cap(name)
	}
	c.Count(name, int64(len(jobs)))
}

// ---- C08: Go buffers ---------------------------------------------------------------

// gobuf is a live buffer of either version.
type gobuf struct {
	write  func(b []byte) int
	reset  func()
	bytes  func() []byte
	length func() int
	caps   func() int  // -1: not offered
	grow   func(n int) // nil: not offered
	move   func(n int)
	enc    func(o Op)
	around []byte
}

func newGobuf(version int, b Buf) gobuf {
	if version == 1 {
		x, ar := v1Buf(b)
		return gobuf{write: x.Write, reset: x.Reset, bytes: x.Bytes, length: x.Len, caps: func() int { return cap(*x) },
			enc: func(o Op) { v1Put(v1.Encoder(x), o) }, around: ar}
	}
	x, ar := v2Buf(b)
	return gobuf{write: x.Write, reset: x.Reset, bytes: x.Bytes, length: x.Len, caps: x.Cap, grow: x.Grow, move: x.MoveOffset,
		enc: func(o Op) { v2Put(v2.Encoder(x), o) }, around: ar}
}

type bop struct {
	name string
	v2   bool // offered by version 2 only
	// run performs the operation on g and the model; it returns what is wrong, if anything.
	run func(g gobuf, m *bmodel) string
}

// bmodel is the model of a growable byte sequence. A byte that MoveOffset exposed
// has whatever value it showed first.
type bmodel struct {
	b    []byte
	next byte // generates distinct contents
}

func (m *bmodel) data(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		m.next = m.next*5 + 7
		d[i] = m.next | 1
	}
	return d
}

func doWrite(g gobuf, m *bmodel, n int) string {
	d := m.data(n)
	arg := append([]byte(nil), d...)
	if n == 0 && m.next%2 == 0 {
		arg = nil
	}
	if r := g.write(arg); r != n {
		return fmt.Sprintf("Write of %d bytes returned %d", n, r)
	}
	if !bytes.Equal(arg, d) {
		return "Write changed its argument"
	}
	for i := range arg {
		arg[i] = 0xDD // the caller may reuse its slice at once
	}
	m.b = append(m.b, d...)
	return ""
}

// doSelf writes (a half of) the buffer's own contents behind themselves, which may
// move the memory they are read from.
func doSelf(g gobuf, m *bmodel, from int, encode bool) string {
	src := m.b[min(from, len(m.b)):]
	arg := g.bytes()
	arg = arg[min(from, len(arg)):]
	if encode {
		g.enc(Op{K: KBytes, D: arg})
		m.b = refEncode(m.b, Op{K: KBytes, D: append([]byte(nil), src...)})
		return ""
	}
	if r := g.write(arg); r != len(src) {
		return fmt.Sprintf("Write of its own %d bytes returned %d", len(src), r)
	}
	m.b = append(m.b, src...)
	return ""
}

func doGrow(g gobuf, m *bmodel, n int) string {
	g.grow(n)
	if g.caps()-g.length() < n {
		return fmt.Sprintf("Grow(%d) left room for %d", n, g.caps()-g.length())
	}
	if b := g.bytes(); cap(b)-len(b) < n {
		return fmt.Sprintf("Grow(%d) left room for %d behind Bytes()", n, cap(b)-len(b))
	}
	return ""
}

// doFill grows, writes into the room directly and moves the offset over it.
func doFill(g gobuf, m *bmodel, n int) string {
	if w := doGrow(g, m, n); w != "" {
		return w
	}
	d := m.data(n)
	b := g.bytes()
	copy(b[len(b):len(b)+n], d)
	g.move(n)
	m.b = append(m.b, d...)
	return ""
}

func doMove(g gobuf, m *bmodel, n int) string {
	g.move(n)
	want := len(m.b) + n
	if g.length() != want {
		return fmt.Sprintf("MoveOffset(%d) from length %d gave %d", n, len(m.b), g.length())
	}
	if n <= 0 {
		m.b = m.b[:want]
		return ""
	}
	b := g.bytes()
	if len(b) != want {
		return fmt.Sprintf("MoveOffset(%d): %d bytes, want %d", n, len(b), want)
	}
	m.b = append(m.b, b[len(m.b):]...)
	return ""
}

func bufOps() []bop {
	room := func(g gobuf) int { return g.caps() - g.length() }
	w := func(name string, n func(g gobuf) int) bop {
		return bop{name: "Write(" + name + ")", run: func(g gobuf, m *bmodel) string { return doWrite(g, m, n(g)) }}
	}
	gr := func(name string, n func(g gobuf) int) bop {
		return bop{name: "Grow(" + name + ")", v2: true, run: func(g gobuf, m *bmodel) string { return doGrow(g, m, n(g)) }}
	}
	k := func(n int) func(gobuf) int { return func(gobuf) int { return n } }
	plus := func(d int) func(gobuf) int { return func(g gobuf) int { return max(0, room(g)+d) } }
	enc := func(o Op) bop {
		return bop{name: "encode " + o.String(), run: func(g gobuf, m *bmodel) string {
			g.enc(o)
			m.b = refEncode(m.b, o)
			return ""
		}}
	}
	return []bop{
		w("0", k(0)), w("1", k(1)), w("3", k(3)), w("room-1", plus(-1)), w("room", plus(0)), w("room+1", plus(1)), w("cap+1", func(g gobuf) int { return g.caps() + 1 }), w("600", k(600)),
		{name: "Reset", run: func(g gobuf, m *bmodel) string { g.reset(); m.b = m.b[:0]; return "" }},
		enc(Op{K: KU64, N: 1 << 63}), enc(Op{K: KString, D: []byte("xyz")}), enc(Op{K: KNil}),
		gr("0", k(0)), gr("1", k(1)), gr("room", plus(0)), gr("room+1", plus(1)), gr("cap", func(g gobuf) int { return g.caps() }), gr("cap+1", func(g gobuf) int { return g.caps() + 1 }), gr("600", k(600)),
		{name: "Write(own contents)", run: func(g gobuf, m *bmodel) string { return doSelf(g, m, 0, false) }},
		{name: "encode own second half", run: func(g gobuf, m *bmodel) string { return doSelf(g, m, len(m.b)/2, true) }},
		{name: "Grow+fill(2)", v2: true, run: func(g gobuf, m *bmodel) string { return doFill(g, m, 2) }},
		{name: "Grow+fill(room+1)", v2: true, run: func(g gobuf, m *bmodel) string { return doFill(g, m, room(g)+1) }},
		{name: "MoveOffset(-1)", v2: true, run: func(g gobuf, m *bmodel) string {
			if len(m.b) == 0 {
				return doMove(g, m, 0)
			}
			return doMove(g, m, -1)
		}},
		{name: "MoveOffset(-len)", v2: true, run: func(g gobuf, m *bmodel) string { return doMove(g, m, -len(m.b)) }},
		{name: "MoveOffset(room)", v2: true, run: func(g gobuf, m *bmodel) string { return doMove(g, m, room(g)) }},
	}
}

// largeOps work on sizes from a page up.
func largeOps() []bop {
	var out []bop
	for _, n := range []int{1, 1025, 4096, 70000} {
		out = append(out, bop{name: fmt.Sprintf("Write(%d)", n), run: func(g gobuf, m *bmodel) string { return doWrite(g, m, n) }})
	}
	out = append(out, bop{name: "Reset", run: func(g gobuf, m *bmodel) string { g.reset(); m.b = m.b[:0]; return "" }},
		bop{name: "Write(room)", run: func(g gobuf, m *bmodel) string { return doWrite(g, m, max(0, g.caps()-g.length())) }},
		bop{name: "encode string(5000)", run: func(g gobuf, m *bmodel) string {
			o := Op{K: KString, D: text(5000)}
			g.enc(o)
			m.b = refEncode(m.b, o)
			return ""
		}})
	for _, n := range []int{1025, 70000} {
		out = append(out, bop{name: fmt.Sprintf("Grow(%d)", n), v2: true, run: func(g gobuf, m *bmodel) string { return doGrow(g, m, n) }},
			bop{name: fmt.Sprintf("Grow+fill(%d)", n), v2: true, run: func(g gobuf, m *bmodel) string { return doFill(g, m, n) }})
	}
	return append(out, bop{name: "MoveOffset(-half)", v2: true, run: func(g gobuf, m *bmodel) string { return doMove(g, m, -len(m.b)/2) }})
}

// chains writes pieces of one size again and again until a MiB (or a number of pieces)
// is there, and looks at the buffer whenever its capacity changed and at the end.
func (c *Check) chains() {
	name := "pieces of one size written until the buffer holds a MiB"
	var sizes []int
	for n := 1; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 3000, 4096, 65535, 65536, 65537, 300000)
	modes := []string{"Write", "encode bytes", "Grow+fill", "encode u64", "Write after Reset"}
	type job struct {
		version, size, mode int
		org                 Buf
	}
	var jobs []job
	for version := 1; version <= 2; version++ {
		for _, org := range []Buf{{}, {Kind: 1, N: 0}, {Kind: 1, N: 1}, {Kind: 2, N: 2, Cap: 5}, {Kind: 4, N: 3}} {
			for mode := range modes {
				for i, s := range sizes {
					if mode == 2 && version == 1 || mode == 3 && i > 0 {
						continue
					}
					jobs = append(jobs, job{version, s, mode, org})
				}
			}
		}
	}
	if !c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		w, steps := func() (w string, steps int) {
			defer func() {
				if p := recover(); p != nil {
					w = fmt.Sprint("panic: ", p)
				}
			}()
			g := newGobuf(j.version, j.org)
			m := &bmodel{next: 3}
			if j.mode == 4 {
				g.write(bytes.Repeat([]byte{0xBB}, 1<<20))
				g.reset()
			}
			was := -1
			for len(m.b) < 1<<20 && steps < 30000 {
				switch j.mode {
				case 0, 4:
					w = doWrite(g, m, j.size)
				case 1:
					o := Op{K: KBytes, D: m.data(j.size)}
					g.enc(o)
					m.b = refEncode(m.b, o)
				case 2:
					w = doFill(g, m, j.size)
				case 3:
					o := Op{K: KU64, N: uint64(steps) * 0x9e3779b97f4a7c15}
					g.enc(o)
					m.b = refEncode(m.b, o)
				}
				steps++
				if w == "" && g.caps() != was {
					was = g.caps()
					w = checkBuf(g, m)
				}
				if w != "" {
					return
				}
			}
			return checkBuf(g, m), steps
		}()
		if w != "" {
			c.Fail(fmt.Sprintf("go-v%d/chain-%s/%s", j.version, modes[j.mode], keyWord(w)), fmt.Sprintf("go-v%d buffer %s: %s of %d bytes, %d times: %s", j.version, j.org, modes[j.mode], j.size, steps+1, w), nil)
		}
		c.states.Add(int64(steps))
		c.transitions.Add(int64(steps))
		c.traces.Add(1)
	}) {
		c.Cap(name)
	}
	c.Count(name, int64(len(jobs)))
}

func checkBuf(g gobuf, m *bmodel) string {
	b := g.bytes()
	if g.length() != len(b) {
		return fmt.Sprintf("Len()=%d but Bytes() has %d", g.length(), len(b))
	}
	if g.caps() < len(b) {
		return fmt.Sprintf("Cap()=%d below the length %d", g.caps(), len(b))
	}
	if !bytes.Equal(b, m.b) {
		return fmt.Sprintf("contents %s, want %s", hxDiff(b, m.b), hx(m.b))
	}
	if !intact(g.around) {
		return "wrote outside the wrapped memory"
	}
	return ""
}

func runBuf(version int, origin Buf, seq []bop) (what string, steps int) {
	defer func() {
		if p := recover(); p != nil {
			what = fmt.Sprint("panic: ", p)
		}
	}()
	g := newGobuf(version, origin)
	m := &bmodel{next: 3}
	if w := checkBuf(g, m); w != "" {
		return "new buffer: " + w, 0
	}
	for _, o := range seq {
		if w := o.run(g, m); w != "" {
			return w, steps
		}
		if w := checkBuf(g, m); w != "" {
			return w, steps
		}
		steps++
	}
	return "", steps
}

func c08(c *Check) {
	depth := 4
	if c.Thorough() {
		depth = 5
	}
	all := bufOps()
	origins := []Buf{{}, {Kind: 1, N: 0}, {Kind: 1, N: 1}, {Kind: 1, N: 2}, {Kind: 1, N: 7}, {Kind: 1, N: 16},
		{Kind: 2, N: 0, Cap: 0}, {Kind: 2, N: 0, Cap: 4}, {Kind: 2, N: 2, Cap: 4}, {Kind: 2, N: 4, Cap: 4}, {Kind: 2, N: 3, Cap: 20},
		{Kind: 3, N: 700}, {Kind: 4, N: 30}}
	large := largeOps()
	for _, round := range []int{1, 2, 3, 4} {
		version := (round-1)%2 + 1
		from, what, depth := all, "", depth
		if round > 2 {
			from, what, depth = large, " large", depth-1
		}
		var ops []bop
		for _, o := range from {
			if version == 2 || !o.v2 {
				ops = append(ops, o)
			}
		}
		d := depth
		if version == 1 {
			d++ // fewer operations, so deeper
		}
		for _, org := range origins {
			dd := d
			if round > 2 {
				if dd = d; version == 1 {
					dd = d - 1
				}
			} else if org.Kind == 0 || org.Kind >= 3 {
				dd = d - 1 // large buffers
			}
			name := fmt.Sprintf("go-v%d buffer %s: all sequences of %d%s operations", version, org, dd, what)
			n := len(ops)
			total := 1
			for i := 0; i < dd; i++ {
				total *= n
			}
			ok := c.Parallel(n*n, func(blk int) {
				seq := make([]bop, dd)
				seq[0], seq[1] = ops[blk/n], ops[blk%n]
				var steps, cnt int64
				per := total / (n * n)
				wd := watch(name, func(int) string { return fmt.Sprintf("a sequence starting with %s %s", seq[0].name, seq[1].name) })
				defer wd.done()
				for i := 0; i < per; i++ {
					wd.at(i)
					x := i
					for k := 2; k < dd; k++ {
						seq[k] = ops[x%n]
						x /= n
					}
					w, s := runBuf(version, org, seq)
					steps += int64(s)
					cnt++
					if w != "" {
						var names []string
						for _, o := range seq[:min(s+1, len(seq))] {
							names = append(names, o.name)
						}
						// Shorter prefixes fail first, so the last operation is the culprit.
						last := "new"
						if s < len(seq) {
							last = seq[s].name
						}
						for k := 0; k < 3; k++ {
							if w2, _ := runBuf(version, org, seq); w2 != w {
								w = ""
							}
						}
						if w != "" {
							c.Fail(fmt.Sprintf("go-v%d/%s/%s", version, last, keyWord(w)), fmt.Sprintf("go-v%d buffer %s after %v: %s", version, org, names, w),
								map[string]any{"version": version, "origin": org.String(), "operations": names})
						}
					}
				}
				c.states.Add(cnt)
				c.transitions.Add(steps)
				c.traces.Add(cnt)
				c.Count(name, cnt)
			})
			if !ok {
				c.Cap(name)
			}
			c.Outcome(name)
			c.Sample(map[string]string{"origin": org.String(), "operations": fmt.Sprintf("all sequences of %d from %d operations", dd, n)})
		}
	}
	c.chains()
	var names []string
	for _, o := range append(all, large...) {
		names = append(names, o.name)
	}
	c.Note("operations: %v", names)
}

// keyWord is the first word of a failure description.
func keyWord(w string) string {
	for i := 0; i < len(w); i++ {
		if w[i] == ' ' || w[i] == '(' || w[i] == '=' || w[i] == ':' {
			return w[:i]
		}
	}
	return w
}
