package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
)

// Aspects a property judges a decode trace by.
const (
	aCrash    = 1 << iota // no crash, stray error type or position outside the input
	aAccept               // accepted requests: value
	aPos                  // accepted requests: bytes consumed
	aReject               // malformed input is rejected
	aMismatch             // wrong type is rejected and consumes nothing
	aErr                  // error belongs to the requested type, no data beside it
	aAlloc                // allocation bounded by the input
	aAlias                // decoded values are independent copies
)

type verdict struct{ key, detail string }

func sentinels() []Op { return []Op{{K: KU8, N: 0xA1}, {K: KU8, N: 0xA2}} }

// allocBound is what a request may allocate given the bytes remaining before it.
func allocBound(rem int) uint64 { return 4096 + 16*uint64(rem) }

// judge compares one decode trace with the reference model. It returns nil if the
// trace satisfies the aspects. steps is the number of results compared.
func judge(subj Subject, j DecJob, rs []Res, aspects int) (v *verdict, steps int) {
	name := subj.Name()
	ext, _ := subj.(*extSubject)
	pos, known := 0, true
	if len(rs) > 0 && rs[0].Skip {
		return nil, 0
	}
	minPos := 0 // lower bound of the position while unknown
	for i, o := range j.Ops {
		if i >= len(rs) {
			return &verdict{name + "/" + o.Req() + "/no-answer", "no answer for request " + o.Req()}, steps
		}
		r := rs[i]
		steps++
		at := fmt.Sprintf("%s: request %d (%s) of [%s] on input %s", name, i, o.Req(), reqsStr(j.Ops), hx(j.In))
		key := func(what string) string { return name + "/" + kname(o.K) + "/" + what }
		if r.Crash != "" {
			if aspects&(aCrash|aAccept) != 0 {
				return &verdict{key("crash"), at + ": " + r.Crash}, steps
			}
			return nil, steps
		}
		if aspects&aCrash != 0 {
			if r.Stray != "" {
				return &verdict{key("stray-error"), at + ": " + r.Stray}, steps
			}
			if r.Rem != -1 && (ext == nil || !ext.unknownRem) && (r.Rem < 0 || r.Rem > len(j.In)-minPos) {
				return &verdict{key("position"), fmt.Sprintf("%s: %d bytes reported remaining, input has %d, %d consumed before", at, r.Rem, len(j.In), minPos)}, steps
			}
		}
		if aspects&aErr != 0 && !r.Ok && o.K != KNil && o.K != KAny {
			lenErr := r.Err == KU32 && (o.K == KSlice || o.K == KMap || o.K == KBytes || o.K == KString || o.K == KError)
			if lenErr && known {
				// only where a length prefix is what is malformed
				lenErr = badPrefix(j.In[pos:], o)
			}
			if r.Err != 0xfe && r.Err != o.K && !lenErr {
				return &verdict{key("wrong-error-" + kname(r.Err)), fmt.Sprintf("%s: reported the error of %s %s", at, kname(r.Err), r.Stray)}, steps
			}
			if r.NZ {
				return &verdict{key("data-beside-error"), fmt.Sprintf("%s: failed but returned %s", at, r.V)}, steps
			}
		}
		if !known {
			if r.Rem >= 0 {
				minPos = len(j.In) - r.Rem
			}
			continue
		}
		rem := len(j.In) - pos
		if aspects&aAlloc != 0 && r.Alloc > allocBound(rem) {
			return &verdict{key("alloc"), fmt.Sprintf("%s: allocated %d bytes with %d bytes of input left", at, r.Alloc, rem)}, steps
		}
		vd, want, n := refDecode(j.In[pos:], o)
		if vd == VOK && ext != nil && ext.noNUL && (o.K == KString || o.K == KError) && bytes.IndexByte(want.D, 0) >= 0 {
			vd = VOpen
		}
		switch vd {
		case VOK:
			if ext != nil {
				want.N = ext.canon(o.K, want.N)
			}
			if aspects&aAccept != 0 {
				if !r.Ok {
					return &verdict{key("rejects-valid"), at + fmt.Sprintf(": rejected, but it is a valid %s", want)}, steps
				}
				if r.V.N != want.N || !bytes.Equal(r.V.D, want.D) {
					return &verdict{key("wrong-value"), at + fmt.Sprintf(": got %s, want %s", r.V, want)}, steps
				}
			}
			if !r.Ok {
				known = false
				break
			}
			if aspects&aPos != 0 && r.Rem >= 0 && r.Rem != rem-n {
				return &verdict{key("wrong-length"), at + fmt.Sprintf(": %d bytes left, want %d", r.Rem, rem-n)}, steps
			}
			pos += n
			minPos = pos
		case VMismatch:
			if r.Ok {
				if aspects&(aMismatch|aReject) != 0 {
					return &verdict{key("accepts-wrong-type"), at + fmt.Sprintf(": returned %s for another type", r.V)}, steps
				}
				known = false
				break
			}
			if aspects&aMismatch != 0 && r.Rem >= 0 && r.Rem != rem {
				return &verdict{key("mismatch-consumes"), at + fmt.Sprintf(": wrong type consumed %d bytes", rem-r.Rem)}, steps
			}
			if aspects&aMismatch == 0 && r.Rem >= 0 && r.Rem != rem {
				known = false
			}
		case VMalformed:
			if r.Ok {
				if aspects&aReject != 0 {
					return &verdict{key("accepts-malformed"), at + fmt.Sprintf(": returned %s", r.V)}, steps
				}
			}
			known = false
		case VOpen:
			known = false
		}
		if !known && r.Rem >= 0 {
			minPos = len(j.In) - r.Rem
		}
	}
	for _, r := range rs[min(len(rs), len(j.Ops)):] { // the driver appends what went wrong at the end
		end := name + ": after [" + reqsStr(j.Ops) + "] on " + hx(j.In) + ": "
		if aspects&aCrash != 0 && r.Crash != "" {
			return &verdict{name + "/end/crash", end + r.Crash}, steps
		}
		if aspects&aAlias != 0 && r.Alias != "" {
			return &verdict{name + "/end/alias", end + r.Alias}, steps
		}
	}
	return nil, steps
}

// badPrefix reports whether o's length prefix (rather than its header or payload) is
// what makes b unacceptable.
func badPrefix(b []byte, o Op) bool {
	h := map[byte]int{KSlice: 2, KMap: 3, KBytes: 1, KString: 1, KError: 2}[o.K]
	vd, _, _ := refDecode(b, o)
	if vd == VMismatch || len(b) < h {
		return false
	}
	if o.K == KError && b[1] != KString {
		return false
	}
	vd, _, _ = refDecode(b[h:], Op{K: KU32})
	return vd != VOK
}

type runner struct {
	c       *Check
	subjs   []Subject
	aspects int
	chunk   int // jobs per batch, if not the default
}

func (x runner) per() int {
	if x.chunk > 0 {
		return x.chunk
	}
	return chunk
}

// batchBytes bounds the data of a batch, and so the memory that a check needs.
const batchBytes = 2 << 20

// decode runs every job of gen on every subject and judges it.
func (x runner) decode(domain string, gen func(emit func(DecJob))) {
	c := x.c
	ch := make(chan []DecJob, 16)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for jobs := range ch {
				for _, s := range x.subjs {
					rs := s.Decode(jobs)
					var steps int64
					for i, j := range jobs {
						v, n := judge(s, j, rs[i], x.aspects)
						steps += int64(n)
						if v != nil && !c.Failed(v.key) {
							x.confirmDec(s, j, v)
						}
						if i == 0 && len(rs[i]) > 0 {
							r := rs[i][0]
							c.Outcome(fmt.Sprintf("%s/%s/%v/%d", s.Name(), kname(j.Ops[0].K), r.Ok, r.Err))
						}
					}
					c.transitions.Add(steps)
					c.traces.Add(int64(len(jobs)))
				}
			}
		}()
	}
	var n int64
	batch := make([]DecJob, 0, x.per())
	cut, weight := false, 0
	gen(func(j DecJob) {
		if cut {
			return
		}
		if n == 0 {
			c.Sample(map[string]string{"domain": domain, "input": hx(j.In), "requests": reqsStr(j.Ops)})
		}
		n++
		batch = append(batch, j)
		weight += len(j.In)
		if len(batch) == x.per() || weight > batchBytes {
			ch <- batch
			batch, weight = make([]DecJob, 0, x.per()), 0
			if c.Expired() || c.stop.Load() {
				cut = true
				c.Cap(domain)
			}
		}
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	c.states.Add(n)
	c.Count(domain, n)
}

// confirmDec re-runs a failing trace before it is believed.
func (x runner) confirmDec(s Subject, j DecJob, v *verdict) {
	for k := 0; k < 5; k++ {
		rs := s.Decode([]DecJob{j})
		w, _ := judge(s, j, rs[0], x.aspects)
		if w == nil || w.key != v.key {
			x.c.Note("not reproducible, ignored: %s", v.detail)
			return
		}
	}
	x.c.Fail(v.key, v.detail, map[string]any{"subject": s.Name(), "input_hex": fmt.Sprintf("%x", j.In), "requests": reqsStr(j.Ops)})
}

// encode runs every job on every subject and compares the bytes with the model.
func (x runner) encode(domain string, gen func(emit func(EncJob))) {
	c := x.c
	ch := make(chan []EncJob, 16)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for jobs := range ch {
				for _, s := range x.subjs {
					if g, ok := s.(*goSubject); ok && g.decOnly {
						continue
					}
					js := jobs
					if e, ok := s.(*extSubject); ok {
						js = e.expressible(jobs)
					}
					rs := s.Encode(js)
					for i, j := range js {
						if v := judgeEnc(s, j, rs[i]); v != nil && !c.Failed(v.key) {
							x.confirmEnc(s, j, v)
						}
						if i == 0 && len(rs[i].Out) > 0 {
							c.Outcome(fmt.Sprintf("%s/enc/%x", s.Name(), rs[i].Out[:1]))
						}
					}
					c.transitions.Add(int64(len(js)))
					c.traces.Add(int64(len(js)))
				}
			}
		}()
	}
	var n int64
	batch := make([]EncJob, 0, x.per())
	cut, weight := false, 0
	gen(func(j EncJob) {
		if cut {
			return
		}
		if n == 0 {
			c.Sample(map[string]string{"domain": domain, "buffer": j.Buf.String(), "values": opsStr(j.Ops)})
		}
		n++
		batch = append(batch, j)
		weight += j.Buf.N
		for _, o := range j.Ops {
			weight += len(o.D)
		}
		if len(batch) == x.per() || weight > batchBytes {
			ch <- batch
			batch, weight = make([]EncJob, 0, x.per()), 0
			if c.Expired() || c.stop.Load() {
				cut = true
				c.Cap(domain)
			}
		}
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	c.states.Add(n)
	c.Count(domain, n)
}

func (s *extSubject) canExpress(ops []Op) bool {
	if s.tooLong(ops) {
		return false
	}
	for _, o := range ops {
		if s.noNUL && (o.K == KString || o.K == KError) && bytes.IndexByte(o.D, 0) >= 0 {
			return false
		}
	}
	return true
}

func (s *extSubject) expressible(jobs []EncJob) []EncJob {
	out := jobs[:0:0]
	for _, j := range jobs {
		if s.canExpress(j.Ops) {
			out = append(out, j)
		}
	}
	return out
}

func judgeEnc(s Subject, j EncJob, r EncRes) *verdict {
	if r.Skip {
		return nil
	}
	last := j.Ops[len(j.Ops)-1]
	if r.Crash != "" {
		return &verdict{s.Name() + "/encode-" + kname(last.K) + "/crash", fmt.Sprintf("%s: encoding [%s] into %s: %s", s.Name(), opsStr(j.Ops), j.Buf, r.Crash)}
	}
	var want []byte
	ext, _ := s.(*extSubject)
	for _, o := range j.Ops {
		if ext != nil {
			o.N = ext.canon(o.K, o.N)
		}
		want = refEncode(want, o)
	}
	if !bytes.Equal(want, r.Out) {
		// A NaN may be written with any payload where the language has no payloads.
		if ext != nil && ext.nan && len(j.Ops) == 1 && len(want) == len(r.Out) && sameNaN(last, want, r.Out) {
			return nil
		}
		return &verdict{s.Name() + "/encode-" + kname(last.K) + "/wrong-bytes", fmt.Sprintf("%s: encoding [%s] into %s gave %s, want %s", s.Name(), opsStr(j.Ops), j.Buf, hxDiff(r.Out, want), hx(want))}
	}
	return nil
}

func isNaN(k byte, n uint64) bool { return canonNaN(k, n^1) == canonNaN(k, n) || canonNaN(k, n) != n }

func sameNaN(o Op, want, got []byte) bool {
	if o.K != KF32 && o.K != KF64 {
		return false
	}
	v1, a, _ := refDecode(want, o)
	v2, b, _ := refDecode(got, o)
	return v1 == VOK && v2 == VOK && isNaN(o.K, a.N) && isNaN(o.K, b.N)
}

// hxDiff shows got, starting near the first difference when it is long.
func hxDiff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%s (%d bytes, want %d, first difference at %d)", hx(got), len(got), len(want), i)
}

func (x runner) confirmEnc(s Subject, j EncJob, v *verdict) {
	for k := 0; k < 5; k++ {
		rs := s.Encode([]EncJob{j})
		w := judgeEnc(s, j, rs[0])
		if w == nil || w.key != v.key {
			x.c.Note("not reproducible, ignored: %s", v.detail)
			return
		}
	}
	x.c.Fail(v.key, v.detail, map[string]any{"subject": s.Name(), "buffer": j.Buf.String(), "values": opsStr(j.Ops)})
}
