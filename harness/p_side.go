package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"sync"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"
)

// ---- C23: encoders and decoders in use at the same time do not influence each other ----

// sideObj is an encoder with values to write, or a decoder with values to ask for.
type sideObj struct {
	enc bool
	e   EncJob
	d   DecJob
}

func (o sideObj) String() string {
	if o.enc {
		return fmt.Sprintf("encoder into %s of [%s]", o.e.Buf, opsStr(o.e.Ops))
	}
	return fmt.Sprintf("decoder of %s asked for [%s]", hx(o.d.In), reqsStr(o.d.Ops))
}

func (o sideObj) ops() int {
	if o.enc {
		return len(o.e.Ops)
	}
	return len(o.d.Ops)
}

func (o sideObj) put(b []byte) []byte {
	if o.enc {
		return putEnc(b, o.e)
	}
	return putDec(b, o.d)
}

// sideJob is some objects and the order of their steps: an object's first step creates
// it, the others make its next call, and one after its last call ends its use.
type sideJob struct {
	objs  []sideObj
	order []byte
}

func (j sideJob) String() string {
	var b strings.Builder
	for i, o := range j.objs {
		fmt.Fprintf(&b, "%d: %s; ", i, o)
	}
	fmt.Fprintf(&b, "steps in the order %v", j.order)
	return b.String()
}

// sideRes is what each object did, in a form that can be compared.
type sideRes struct {
	obs  []string
	skip bool
}

func obsEnc(r EncRes) string {
	if r.Crash != "" {
		return "failed: " + r.Crash
	}
	return fmt.Sprintf("%x", r.Out)
}

func obsDec(rs []Res) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "%v %d %x %x rem=%d %s%s%s %v; ", r.Ok, r.Err, r.V.N, r.V.D, r.Rem, r.Crash, r.Alias, r.Stray, r.NZ)
	}
	return b.String()
}

// ---- Go --------------------------------------------------------------------------

type goSide struct {
	name string
	enc  func(b Buf) (put func(Op), view func() []byte, around []byte)
	dec  func(in []byte) (s *goStep, end func())
}

var goSides = []*goSide{
	{"go-v1", func(b Buf) (func(Op), func() []byte, []byte) {
		x, around := v1Buf(b)
		e := v1.Encoder(x)
		return func(o Op) { v1Put(e, o) }, x.Bytes, around
	}, func(in []byte) (*goStep, func()) {
		d := v1.GetDecoder(in)
		return &goStep{d: d, errs: v1Errs,
			slice: func(k byte) (uint32, error) { return d.Slice(v1Kinds[k]) },
			mp:    func(k, v byte) (uint32, error) { return d.Map(v1Kinds[k], v1Kinds[v]) },
			rem:   func() int { return -1 }}, d.Return
	}},
	{"go-v2", func(b Buf) (func(Op), func() []byte, []byte) {
		x, around := v2Buf(b)
		e := v2.Encoder(x)
		return func(o Op) { v2Put(e, o) }, x.Bytes, around
	}, func(in []byte) (*goStep, func()) {
		return newV2Step(in).(*goStep), func() {}
	}},
}

type goSideObj struct {
	put    func(Op)
	view   func() []byte
	around []byte
	views  [][]byte // views of the encoder's bytes after each call, and what they showed
	copies [][]byte
	dec    *goStep
	end    func()
	rs     []Res
	live   []func() []byte // strings and errors as they are now, and what they were
	was    [][]byte
	next   int
	made   bool
	dead   bool
}

func (g *goSide) run(j sideJob) (out sideRes) {
	objs := make([]goSideObj, len(j.objs))
	out.obs = make([]string, len(j.objs))
	fail := make([]string, len(j.objs))
	step := func(i int) {
		defer func() {
			if p := recover(); p != nil {
				fail[i] = fmt.Sprint("panic: ", p)
			}
		}()
		o, spec := &objs[i], j.objs[i]
		switch {
		case !o.made && spec.enc:
			o.put, o.view, o.around = g.enc(spec.e.Buf)
		case !o.made:
			in := spec.d.In
			for _, b := range j.objs[:i] {
				if !b.enc && bytes.Equal(b.d.In, in) {
					in = b.d.In // both read the same memory
					break
				}
			}
			o.dec, o.end = g.dec(in)
		case o.next >= spec.ops():
			if o.end != nil {
				o.end()
				o.end = nil
			}
		case spec.enc:
			o.put(spec.e.Ops[o.next])
			v := o.view()
			o.views, o.copies = append(o.views, v), append(o.copies, append([]byte(nil), v...))
			o.next++
		default:
			q := spec.d.Ops[o.next]
			r := o.dec.Do(q)
			o.rs = append(o.rs, r)
			if r.Ok && q.K == KString {
				s := o.dec.str
				o.live, o.was = append(o.live, func() []byte { return []byte(s) }), append(o.was, []byte(s))
			} else if r.Ok && q.K == KError {
				e := o.dec.err
				o.live, o.was = append(o.live, func() []byte { return []byte(e.Error()) }), append(o.was, []byte(e.Error()))
			}
			o.next++
		}
		o.made = true
	}
	for _, i := range j.order {
		if fail[i] == "" {
			step(int(i))
		}
	}
	for i := range objs {
		o, spec := &objs[i], j.objs[i]
		for k, f := range o.live {
			if !bytes.Equal(f(), o.was[k]) {
				fail[i] = "a decoded value changed"
			}
		}
		for k, v := range o.views {
			if !bytes.Equal(v, o.copies[k]) {
				fail[i] = "bytes taken from the encoder earlier changed"
			}
		}
		if !intact(o.around) {
			fail[i] = "wrote outside the wrapped memory"
		}
		switch {
		case fail[i] != "":
			out.obs[i] = "failed: " + fail[i]
		case spec.enc:
			out.obs[i] = obsEnc(EncRes{Out: o.view()})
		default:
			out.obs[i] = obsDec(o.rs)
		}
	}
	return
}

func (g *goSide) Name() string       { return g.name }
func (g *goSide) can(j sideJob) bool { return true }

func (g *goSide) Side(jobs []sideJob) []sideRes {
	out := make([]sideRes, len(jobs))
	w := watch(g.name+"/side", func(i int) string { return jobs[i].String() })
	defer w.done()
	for i, j := range jobs {
		w.at(i)
		out[i] = g.run(j)
	}
	return out
}

// ---- Rust and TypeScript -----------------------------------------------------------

type extSide struct{ s *extSubject }

func (x extSide) Name() string { return x.s.name }
func (x extSide) can(j sideJob) bool {
	for _, o := range j.objs {
		for _, q := range append(append([]Op(nil), o.e.Ops...), o.d.Ops...) {
			if q.K == KAny && !x.s.any {
				return false
			}
		}
	}
	return true
}

func (x extSide) Side(jobs []sideJob) []sideRes {
	s := x.s
	out := make([]sideRes, len(jobs))
	s.run(0, len(jobs), func(b []byte, i int) []byte {
		j := jobs[i]
		b = append(b, 'I', byte(len(j.objs)))
		for _, o := range j.objs {
			b = o.put(b)
		}
		b = binary.LittleEndian.AppendUint16(b, uint16(len(j.order)))
		return append(b, j.order...)
	}, func(r *rd, i int) {
		for _, o := range jobs[i].objs {
			if o.enc {
				out[i].obs = append(out[i].obs, obsEnc(getEnc(r)))
			} else {
				out[i].obs = append(out[i].obs, obsDec(s.getDec(r, o.d)))
			}
		}
	}, func(i int, why string) {
		out[i].skip = why == skipped
		for range jobs[i].objs {
			out[i].obs = append(out[i].obs, "failed: "+why)
		}
	})
	return out
}

// ---- C -------------------------------------------------------------------------------

// cSide runs jobs as call scripts: an object is created, used and freed by its steps, and
// what was decoded is read again and freed at the end.
type cSide struct{ s *extSubject }

func (x cSide) Name() string { return x.s.name }
func (x cSide) can(j sideJob) bool {
	n := 0
	for _, o := range j.objs {
		if !x.s.canExpress(o.e.Ops) || o.enc && o.e.Buf.Kind != 0 {
			return false
		}
		n += len(o.d.Ops)
	}
	return n <= 8 // slots for decoded objects
}

func (x cSide) script(j sideJob) (s []call, owner []int) {
	next := make([]int, len(j.objs))
	base := make([]int, len(j.objs))
	n := 0
	for i, o := range j.objs {
		base[i] = n
		n += len(o.d.Ops)
	}
	add := func(i int, k call) {
		k.Init = 0xEE
		s, owner = append(s, k), append(owner, i)
	}
	for _, b := range j.order {
		i := int(b)
		o := j.objs[i]
		t := next[i]
		next[i]++
		switch {
		case t == 0 && o.enc:
			add(i, call{Fn: cNewEnc, Slot: b})
		case t == 0:
			add(i, call{Fn: cNewDec, Slot: b, Op: Op{D: o.d.In}})
		case t <= o.ops() && o.enc:
			add(i, call{Fn: cEncode, Slot: b, Op: o.e.Ops[t-1]})
			add(i, call{Fn: cSize, Slot: b})
		case t <= o.ops():
			add(i, call{Fn: cDecode, Slot: b, Arg: int32(base[i] + t - 1), Op: o.d.Ops[t-1]})
		case t == o.ops()+1 && o.enc:
			add(i, call{Fn: cBuffer, Slot: b, Arg: int32(len(refEncodeAll(o.e.Ops)))})
			add(i, call{Fn: cFreeEnc, Slot: b})
		case t == o.ops()+1:
			add(i, call{Fn: cFreeDec, Slot: b})
		}
	}
	for i, o := range j.objs {
		for k := range o.d.Ops {
			if hasObj(o.d.Ops[k].K) {
				add(i, call{Fn: cRead, Slot: byte(base[i] + k)})
				add(i, call{Fn: cFreeObj, Slot: byte(base[i] + k), Op: Op{K: o.d.Ops[k].K}})
			}
		}
	}
	return
}

func (x cSide) Side(jobs []sideJob) []sideRes {
	out := make([]sideRes, len(jobs))
	scripts := make([][]call, len(jobs))
	owners := make([][]int, len(jobs))
	for i, j := range jobs {
		scripts[i], owners[i] = x.script(j)
	}
	rs := x.s.QuietScripts(scripts)
	for i, j := range jobs {
		r := rs[i]
		out[i] = sideRes{skip: r.Skip}
		obs := make([]strings.Builder, len(j.objs))
		for k, y := range r.Calls {
			fmt.Fprintf(&obs[owners[i][k]], "%d %x %v %x; ", y.St, y.N, y.IsNull, y.D)
		}
		for k := range obs {
			if r.Crash != "" || r.Mem != "" || r.Live != 0 {
				fmt.Fprintf(&obs[k], "failed: %s%s, %d allocations left", r.Crash, r.Mem, r.Live)
			}
			out[i].obs = append(out[i].obs, obs[k].String())
		}
	}
	return out
}

// ---- exploration -------------------------------------------------------------------

type sideSubject interface {
	Name() string
	Side([]sideJob) []sideRes
	can(sideJob) bool
}

// alone is the job that only has object i of j, at its place.
func (j sideJob) alone(i int) sideJob {
	var order []byte
	for _, b := range j.order {
		if int(b) == i {
			order = append(order, 0)
		}
	}
	return sideJob{[]sideObj{j.objs[i]}, order}
}

func (j sideJob) key(i int) string {
	n := byte(0)
	for _, b := range j.order {
		if int(b) == i {
			n++
		}
	}
	return string(j.objs[i].put([]byte{n}))
}

type sideRunner struct {
	c     *Check
	subjs []sideSubject
	base  []sync.Map // per subject: what an object does alone
}

// judge returns what an object did differently from what it does alone.
func (x *sideRunner) judge(s int, j sideJob, r sideRes) *verdict {
	if r.skip {
		return nil
	}
	for i, o := range j.objs {
		k := j.key(i)
		b, ok := x.base[s].Load(k)
		if !ok {
			a := x.subjs[s].Side([]sideJob{j.alone(i)})[0]
			if a.skip {
				return nil
			}
			b = a.obs[0]
			x.base[s].Store(k, b)
		}
		if r.obs[i] != b.(string) {
			what := "decoder"
			if o.enc {
				what = "encoder"
			}
			kind := byte(KNil)
			if n := o.ops(); n > 0 && o.enc {
				kind = o.e.Ops[n-1].K
			} else if n > 0 {
				kind = o.d.Ops[n-1].K
			}
			return &verdict{x.subjs[s].Name() + "/" + what + "-" + kname(kind) + "/influenced", fmt.Sprintf("%s: %s: object %d gives %s, and alone %s", x.subjs[s].Name(), j, i, r.obs[i], b)}
		}
	}
	return nil
}

func (x *sideRunner) run(domain string, gen func(emit func(sideJob))) {
	c := x.c
	ch := make(chan []sideJob, 16)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for jobs := range ch {
				for si, s := range x.subjs {
					js := jobs[:0:0]
					for _, j := range jobs {
						if s.can(j) {
							js = append(js, j)
						}
					}
					if len(js) == 0 {
						continue
					}
					rs := s.Side(js)
					var steps int64
					for i, j := range js {
						steps += int64(len(j.order))
						v := x.judge(si, j, rs[i])
						if v == nil || c.Failed(v.key) {
							continue
						}
						ok := true
						for k := 0; k < 3 && ok; k++ {
							w := x.judge(si, j, s.Side([]sideJob{j})[0])
							ok = w != nil && w.key == v.key
						}
						if ok {
							c.Fail(v.key, v.detail, map[string]any{"subject": s.Name(), "history": j.String()})
						} else {
							c.Note("not reproducible, ignored: %s", v.detail)
						}
					}
					if len(rs[0].obs) > 0 {
						o := rs[0].obs[0]
						c.Outcome(s.Name() + "/" + o[:min(8, len(o))])
					}
					c.transitions.Add(steps)
					c.traces.Add(int64(len(js)))
				}
			}
		}()
	}
	var n int64
	var batch []sideJob
	cut := false
	gen(func(j sideJob) {
		if cut {
			return
		}
		if n == 0 {
			c.Sample(map[string]string{"domain": domain, "history": j.String()})
		}
		n++
		batch = append(batch, j)
		if len(batch) == chunk {
			ch <- batch
			batch = nil
			if c.Expired() || c.stop.Load() {
				cut = true
				c.Cap(domain)
			}
		}
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	c.states.Add(n)
	c.Count(domain, n)
}

// orders calls f with every interleaving of n[i] steps of each object i.
func orders(n []int, f func([]byte)) {
	total := 0
	for _, k := range n {
		total += k
	}
	left := append([]int(nil), n...)
	cur := make([]byte, 0, total)
	var rec func()
	rec = func() {
		if len(cur) == total {
			f(append([]byte(nil), cur...))
			return
		}
		for i := range left {
			if left[i] == 0 {
				continue
			}
			left[i]--
			cur = append(cur, byte(i))
			rec()
			cur = cur[:len(cur)-1]
			left[i]++
		}
	}
	rec()
}

func encObj(b Buf, ops ...Op) sideObj { return sideObj{enc: true, e: EncJob{b, ops}} }
func decObj(in []byte, ops ...Op) sideObj {
	return sideObj{d: DecJob{in, ops}}
}

// sideSingles is one-call objects: each value written, read, asked for as another type,
// and read from an input that is cut short.
func sideSingles(ops []Op) []sideObj {
	var out []sideObj
	for _, o := range ops {
		if o.K == KAny {
			continue
		}
		out = append(out, encObj(Buf{}, o), decObj(refEncode(nil, o), o))
	}
	for _, o := range oneOps() {
		if o.K == KAny {
			continue
		}
		e := refEncode(nil, o)
		out = append(out, encObj(Buf{Kind: 1}, o), encObj(Buf{2, 3, 3}, o), decObj(append([]byte{0}, e...), o))
		if len(e) > 1 {
			out = append(out, decObj(e[:len(e)-1], o))
		}
		// Inputs of one length, asked for each type and for none.
		e = append(append([]byte(nil), e...), fill(24, 0)...)[:24]
		out = append(out, decObj(e, o), decObj(e, Op{K: KNil}), decObj(e, Op{K: KU8}))
	}
	return out
}

func c23(c *Check) {
	x := &sideRunner{c: c}
	for _, g := range goSides {
		x.subjs = append(x.subjs, g)
	}
	var ext []*extSubject
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, f := range []func() []*extSubject{buildRust, func() []*extSubject { return buildTS() }, buildC} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			es := f()
			mu.Lock()
			ext = append(ext, es...)
			mu.Unlock()
		}()
	}
	wg.Wait()
	defer closeExt(ext)
	for _, e := range ext {
		if e.noNUL {
			x.subjs = append(x.subjs, cSide{e})
		} else {
			x.subjs = append(x.subjs, extSide{e})
		}
	}
	x.base = make([]sync.Map, len(x.subjs))

	pairs := func(as, bs []sideObj, same bool, end int) func(emit func(sideJob)) {
		return func(emit func(sideJob)) {
			for i, a := range as {
				for k, b := range bs {
					if same && k < i {
						continue
					}
					objs := []sideObj{a, b}
					orders([]int{a.ops() + 1 + end, b.ops() + 1 + end}, func(o []byte) { emit(sideJob{objs, o}) })
				}
			}
		}
	}
	ones := sideSingles(tinyOps())
	x.run("pairs, one call each", pairs(ones, ones, true, 1))

	// Two calls each.
	rep := []Op{{K: KU32, N: 0xfffffff7}, {K: KString, D: []byte("h\u00e9llo")}, {K: KBytes, D: fill(40, 9)}, {K: KMap, A: KString, B: KU32, N: 300}, {K: KF64, N: 0x400921fb54442d18}, {K: KI64, N: 1 << 63}}
	rep = append(rep, Op{K: KError, D: []byte("bad")}, Op{K: KU16, N: 0x3fff})
	if c.Thorough() {
		rep = append(rep, Op{K: KBytes, D: fill(600, 1)}, Op{K: KF32, N: 0x40490fdb}, Op{K: KNil})
	}
	twos := func(alpha []Op) []sideObj {
		var out []sideObj
		seqs(alpha, 2, func(s []Op) {
			out = append(out, encObj(Buf{}, s...), decObj(refEncodeAll(s), s...))
		})
		return out
	}
	ts := twos(rep)
	// An encoder that outgrows its buffer, and a decoder that goes on after failed requests.
	for _, o := range rep[1:3] {
		big := Op{K: KBytes, D: fill(600, 5)}
		ts = append(ts, encObj(Buf{}, o, big), encObj(Buf{Kind: 1, N: 1}, o, o), encObj(Buf{2, 9, 9}, o, o),
			decObj(refEncode(nil, o), Op{K: KU8}, o), decObj(refEncode(nil, o), Op{K: KNil}, o))
	}
	x.run("pairs, two calls each", pairs(ts, ts, true, 1))

	// Three at once.
	few := []Op{rep[0], rep[1], rep[2], {K: KF64, N: 1}}
	var tr []sideObj
	for _, o := range few {
		tr = append(tr, encObj(Buf{}, o), decObj(refEncode(nil, o), o))
	}
	x.run("triples, one call each", func(emit func(sideJob)) {
		for i, a := range tr {
			for j := i; j < len(tr); j++ {
				for k := j; k < len(tr); k++ {
					objs := []sideObj{a, tr[j], tr[k]}
					orders([]int{3, 3, 3}, func(o []byte) { emit(sideJob{objs, o}) })
				}
			}
		}
	})
	x.run("pairs, one call each, values that resemble each other", func(emit func(sideJob)) {
		twins(func(ops []Op) {
			if len(ops) != 2 {
				return
			}
			a, b := ops[0], ops[1]
			for _, objs := range [][]sideObj{{encObj(Buf{}, a), encObj(Buf{}, b)}, {decObj(refEncode(nil, a), a), decObj(refEncode(nil, b), b)}, {encObj(Buf{}, a), decObj(refEncode(nil, b), b)}} {
				orders([]int{3, 3}, func(o []byte) { emit(sideJob{objs, o}) })
			}
		})
	})
	// Longer histories of two.
	n := 2
	if c.Thorough() {
		n = 4
	}
	var th []sideObj
	seqs(few[:n], 3, func(s []Op) {
		th = append(th, encObj(Buf{}, s...), decObj(refEncodeAll(s), s...))
	})
	x.run("pairs, three calls each", pairs(th, th, true, 1))
	c.Note("two objects with one call each (every type, valid, wrong, cut), two with two calls each (%d histories), three with one call each, two with three calls each (%d histories); every interleaving of their creation, calls and end", len(ts), len(th))
}
