package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"
)

// Buf says what kind of buffer an encoder writes to.
type Buf struct {
	// 0 default, 1 sized, 2 wrapped around caller memory full of stale bytes,
	// 3 reset after N other bytes were written, 4 taken from a pool to which it was
	// returned after N other bytes were written (3 and 4: Go only), 13, 14, 15 a cursor at
	// the start, middle or end of N earlier bytes (Rust only)
	Kind byte
	N    int // size (1), visible length (2) or bytes written before (3, 4)
	Cap  int // capacity (2)
}

func (b Buf) String() string {
	switch b.Kind {
	case 1:
		return fmt.Sprintf("sized(%d)", b.N)
	case 2:
		return fmt.Sprintf("wrapped(len=%d,cap=%d)", b.N, b.Cap)
	case 3:
		return fmt.Sprintf("reset-after(%d)", b.N)
	case 4:
		return fmt.Sprintf("pooled-after(%d)", b.N)
	case 13, 14, 15:
		return fmt.Sprintf("cursor-at-%s-of(%d)", []string{"start", "middle", "end"}[b.Kind-13], b.N)
	}
	return "default"
}

type EncJob struct {
	Buf Buf
	Ops []Op
}

type EncRes struct {
	Out   []byte
	Crash string
	Skip  bool
}

type DecJob struct {
	In  []byte
	Ops []Op
}

const errUnknown = 0xff

// Res is what one request did.
type Res struct {
	Ok    bool
	Err   byte // type whose error was reported (0xff: none of the known ones)
	V     Op   // returned value
	Rem   int  // bytes remaining afterwards, -1 if the interface does not say
	Crash string
	Skip  bool   // not run: the driver had already failed too often
	Alias string // decoded values turned out to share memory (extra record at the end)
	NZ    bool   // a failed request returned something other than the zero value
	Stray string // description of an error of no known class
	Alloc uint64 // bytes allocated during the request (external subjects)
}

// Subject is an implementation under check.
type Subject interface {
	Name() string
	Encode(jobs []EncJob) []EncRes
	Decode(jobs []DecJob) [][]Res
	Has(k byte) bool
}

// stepper is a live Go decoder.
type stepper interface {
	Do(o Op) Res
}

type goSubject struct {
	name string
	enc  func(j EncJob) []byte
	dec  func(in []byte) stepper
	// decOnly says that encoding is another subject's and that only jobs that ask for
	// bytes differ.
	decOnly bool
}

func (g *goSubject) Name() string    { return g.name }
func (g *goSubject) Has(k byte) bool { return k != KAny }

func (g *goSubject) Enc1(j EncJob) (r EncRes) {
	defer func() {
		if p := recover(); p != nil {
			r.Crash = fmt.Sprint("panic: ", p)
		}
	}()
	r.Out = g.enc(j)
	return
}

func doSafe(d stepper, o Op) (r Res) {
	defer func() {
		if p := recover(); p != nil {
			r = Res{Crash: fmt.Sprint("panic: ", p), Rem: -1, Err: errUnknown}
		}
	}()
	return d.Do(o)
}

func (g *goSubject) Dec1(j DecJob) []Res {
	d := g.dec(j.In)
	out := make([]Res, 0, len(j.Ops))
	for _, o := range j.Ops {
		r := doSafe(d, o)
		out = append(out, r)
		if r.Crash != "" {
			break
		}
	}
	return out
}

func (g *goSubject) Encode(jobs []EncJob) []EncRes {
	out := make([]EncRes, len(jobs))
	w := watch(g.name+"/encode", func(i int) string { return "encoding [" + opsStr(jobs[i].Ops) + "] into " + jobs[i].Buf.String() })
	defer w.done()
	for i := range jobs {
		w.at(i)
		out[i] = g.Enc1(jobs[i])
	}
	return out
}

func (g *goSubject) Decode(jobs []DecJob) [][]Res {
	out := make([][]Res, len(jobs))
	w := watch(g.name+"/decode", func(i int) string { return "requests [" + reqsStr(jobs[i].Ops) + "] on input " + hx(jobs[i].In) })
	defer w.done()
	for i := range jobs {
		w.at(i)
		if g.decOnly && !asksBytes(jobs[i].Ops) {
			out[i] = []Res{{Skip: true}}
			continue
		}
		out[i] = g.Dec1(jobs[i])
	}
	return out
}

func asksBytes(ops []Op) bool {
	for _, o := range ops {
		if o.K == KBytes {
			return true
		}
	}
	return false
}

// stale is caller memory of length n and capacity c full of old bytes, with c's
// surroundings visible to outside.
func stale(n, c int) (b, around []byte) {
	around = make([]byte, c+16)
	for i := range around {
		around[i] = 0xEE
	}
	return around[8 : 8+n : 8+c], around
}

func intact(around []byte) bool {
	if around == nil {
		return true
	}
	for _, x := range around[:8] {
		if x != 0xEE {
			return false
		}
	}
	for _, x := range around[len(around)-8:] {
		if x != 0xEE {
			return false
		}
	}
	return true
}

var v1Kinds = []v1.Kind{v1.NilKind, v1.SliceKind, v1.MapKind, v1.AnyKind, v1.BytesKind, v1.StringKind, v1.ErrorKind, v1.BoolKind, v1.Uint8Kind, v1.Uint16Kind, v1.Uint32Kind, v1.Uint64Kind, v1.Int32Kind, v1.Int64Kind, v1.Float32Kind, v1.Float64Kind}
var v2Kinds = []v2.Kind{v2.NilKind, v2.SliceKind, v2.MapKind, v2.AnyKind, v2.BytesKind, v2.StringKind, v2.ErrorKind, v2.BoolKind, v2.Uint8Kind, v2.Uint16Kind, v2.Uint32Kind, v2.Uint64Kind, v2.Int32Kind, v2.Int64Kind, v2.Float32Kind, v2.Float64Kind}

// Indexed by kind code; nil has no error.
var v1Errs = []error{nil, v1.InvalidSlice, v1.InvalidMap, nil, v1.InvalidBytes, v1.InvalidString, v1.InvalidError, v1.InvalidBool, v1.InvalidUint8, v1.InvalidUint16, v1.InvalidUint32, v1.InvalidUint64, v1.InvalidInt32, v1.InvalidInt64, v1.InvalidFloat32, v1.InvalidFloat64}
var v2Errs = []error{nil, v2.ErrInvalidSlice, v2.ErrInvalidMap, nil, v2.ErrInvalidBytes, v2.ErrInvalidString, v2.ErrInvalidError, v2.ErrInvalidBool, v2.ErrInvalidUint8, v2.ErrInvalidUint16, v2.ErrInvalidUint32, v2.ErrInvalidUint64, v2.ErrInvalidInt32, v2.ErrInvalidInt64, v2.ErrInvalidFloat32, v2.ErrInvalidFloat64}

func errCode(tab []error, err error) byte {
	if err == nil {
		return 0
	}
	for i, e := range tab {
		if e != nil && errors.Is(err, e) {
			return byte(i)
		}
	}
	return errUnknown
}

func v1Buf(b Buf) (*v1.Buffer, []byte) {
	switch b.Kind {
	case 1:
		x := make(v1.Buffer, 0, b.N)
		return &x, nil
	case 2:
		m, around := stale(b.N, b.Cap)
		x := v1.Buffer(m)
		x.Reset()
		return &x, around
	case 3, 4:
		x := v1.NewBuffer()
		x.Write(bytes.Repeat([]byte{0xEE}, b.N))
		x.Reset()
		return x, nil
	}
	return v1.NewBuffer(), nil
}

func v2Buf(b Buf) (*v2.Buffer, []byte) {
	switch b.Kind {
	case 1:
		return v2.NewBufferSize(b.N), nil
	case 2:
		m, around := stale(b.N, b.Cap)
		return v2.NewBufferFromBytes(m), around
	case 3:
		x := v2.NewBuffer()
		x.Write(bytes.Repeat([]byte{0xEE}, b.N))
		x.Reset()
		return x, nil
	case 4:
		p := v2.NewPool()
		x := p.Get()
		x.Write(bytes.Repeat([]byte{0xEE}, b.N))
		p.Put(x)
		return p.Get(), nil
	}
	return v2.NewBuffer(), nil
}

func v1Put(e *v1.BufferEncoder, o Op) {
	switch o.K {
	case KNil:
		e.Nil()
	case KSlice:
		e.Slice(uint32(o.N), v1Kinds[o.A])
	case KMap:
		e.Map(uint32(o.N), v1Kinds[o.A], v1Kinds[o.B])
	case KBytes:
		e.Bytes(o.D)
	case KString:
		e.String(string(o.D))
	case KError:
		e.Error(errValue(o, func(s string) error { return v1.Error(s) }))
	case KBool:
		e.Bool(o.N != 0)
	case KU8:
		e.Uint8(uint8(o.N))
	case KU16:
		e.Uint16(uint16(o.N))
	case KU32:
		e.Uint32(uint32(o.N))
	case KU64:
		e.Uint64(o.N)
	case KI32:
		e.Int32(int32(o.N))
	case KI64:
		e.Int64(int64(o.N))
	case KF32:
		e.Float32(math.Float32frombits(uint32(o.N)))
	case KF64:
		e.Float64(math.Float64frombits(o.N))
	default:
		panic("op")
	}
}

func v2Put(e *v2.BufferEncoder, o Op) {
	switch o.K {
	case KNil:
		e.Nil()
	case KSlice:
		e.Slice(uint32(o.N), v2Kinds[o.A])
	case KMap:
		e.Map(uint32(o.N), v2Kinds[o.A], v2Kinds[o.B])
	case KBytes:
		e.Bytes(o.D)
	case KString:
		e.String(string(o.D))
	case KError:
		e.Error(errValue(o, func(s string) error { return v2.Error(s) }))
	case KBool:
		e.Bool(o.N != 0)
	case KU8:
		e.Uint8(uint8(o.N))
	case KU16:
		e.Uint16(uint16(o.N))
	case KU32:
		e.Uint32(uint32(o.N))
	case KU64:
		e.Uint64(o.N)
	case KI32:
		e.Int32(int32(o.N))
	case KI64:
		e.Int64(int64(o.N))
	case KF32:
		e.Float32(math.Float32frombits(uint32(o.N)))
	case KF64:
		e.Float64(math.Float64frombits(o.N))
	default:
		panic("op")
	}
}

// decoderAPI is the exported method set both Go decoders share, kinds aside.
type decoderAPI interface {
	Nil() bool
	Bytes([]byte) ([]byte, error)
	String() (string, error)
	Error() (error, error)
	Bool() (bool, error)
	Uint8() (uint8, error)
	Uint16() (uint16, error)
	Uint32() (uint32, error)
	Uint64() (uint64, error)
	Int32() (int32, error)
	Int64() (int64, error)
	Float32() (float32, error)
	Float64() (float64, error)
}

type goStep struct {
	d     decoderAPI
	slice func(k byte) (uint32, error)
	mp    func(k, v byte) (uint32, error)
	rem   func() int
	errs  []error
	// Bytes gets caller memory full of stale bytes instead of nil.
	scratch bool
	// What the last request for a string or error returned.
	str   string
	err   error
	count int
	ready [][2][]byte // made ahead, so that they do not count as the decoder's
}

func (s *goStep) nextScratch() (scr, around []byte) {
	if len(s.ready) == 0 {
		s.makeScratch()
	}
	x := s.ready[0]
	s.ready = s.ready[1:]
	return x[0], x[1]
}

func (s *goStep) makeScratch() {
	for range 4 {
		sp := scratches[s.count%len(scratches)]
		s.count++
		scr, around := stale(sp.n, sp.c)
		s.ready = append(s.ready, [2][]byte{scr, around})
	}
}

var scratches = []scratchSpec{{0, 0}, {0, 9}, {1, 1}, {5, 5}, {2, 600}, {300, 300}, {700, 5000}, {0, 1}}

// errValue is the error o describes. Its message is what is encoded, whatever else the
// value is or wraps; o.B picks the kind of value.
func errValue(o Op, own func(string) error) error {
	s := string(o.D)
	switch o.B {
	case 1:
		return own(s)
	case 2:
		return wrapErr{s, errors.New("inner")}
	case 3:
		return fmt.Errorf("%s%w", s, own(""))
	case 4:
		return errors.Join(errors.New(s))
	case 5:
		return &multiErr{s}
	case 6:
		return strErr(s)
	case 7:
		return wrapErr{s, own("own")}
	}
	return errors.New(s)
}

// errVariants is one op per kind of error value with the message of o.
func errVariants(o Op) []Op {
	var out []Op
	for b := byte(1); b <= 7; b++ {
		out = append(out, Op{K: KError, B: b, D: o.D})
	}
	return out
}

type wrapErr struct {
	msg   string
	inner error
}

func (e wrapErr) Error() string        { return e.msg }
func (e wrapErr) Unwrap() error        { return e.inner }
func (e wrapErr) String() string       { return "not the message" }
func (e wrapErr) Is(target error) bool { return true }

type multiErr struct{ msg string }

func (e *multiErr) Error() string   { return e.msg }
func (e *multiErr) Unwrap() []error { return []error{errors.New("a"), v1.Error("b"), v2.Error("c")} }
func (e *multiErr) As(t any) bool   { return false }

type strErr string

func (e strErr) Error() string  { return string(e) }
func (e strErr) String() string { return "not the message" }

func (s *goStep) Do(o Op) (r Res) {
	r.V = Op{K: o.K, A: o.A, B: o.B}
	var err error
	switch o.K {
	case KNil:
		r.Ok = s.d.Nil()
		r.Rem = s.rem()
		return
	case KSlice:
		var n uint32
		n, err = s.slice(o.A)
		r.V.N = uint64(n)
	case KMap:
		var n uint32
		n, err = s.mp(o.A, o.B)
		r.V.N = uint64(n)
	case KBytes:
		var scr, around []byte
		if s.scratch {
			scr, around = s.nextScratch()
		}
		r.V.D, err = s.d.Bytes(scr)
		if !intact(around) {
			r.Crash = "writes outside the slice passed to Bytes"
		}
	case KString:
		var x string
		x, err = s.d.String()
		s.str = x
		r.V.D = []byte(x)
	case KError:
		var e error
		e, err = s.d.Error()
		s.err = e
		if e != nil {
			r.V.D = []byte(e.Error())
			if len(r.V.D) == 0 && err != nil {
				r.NZ = true
			}
			if err == nil && !errors.Is(e, errors.New(e.Error())) {
				r.Crash = "decoded error does not match an error with the same message"
			}
			if err == nil && len(r.V.D) < 200 {
				m := e.Error()
				for _, other := range []string{"", m + "x", m + "\n", " " + m, strings.ToUpper(m), strings.TrimSpace(m), m[:max(0, len(m)-1)]} {
					if other != m && errors.Is(e, errors.New(other)) {
						r.Crash = fmt.Sprintf("decoded error %q matches an error with the message %q", m, other)
					}
				}
			}
		} else if err == nil {
			r.Crash = "nil error decoded without failure"
		}
	case KBool:
		var x bool
		x, err = s.d.Bool()
		if x {
			r.V.N = 1
		}
	case KU8:
		var x uint8
		x, err = s.d.Uint8()
		r.V.N = uint64(x)
	case KU16:
		var x uint16
		x, err = s.d.Uint16()
		r.V.N = uint64(x)
	case KU32:
		var x uint32
		x, err = s.d.Uint32()
		r.V.N = uint64(x)
	case KU64:
		r.V.N, err = s.d.Uint64()
	case KI32:
		var x int32
		x, err = s.d.Int32()
		r.V.N = uint64(int64(x))
	case KI64:
		var x int64
		x, err = s.d.Int64()
		r.V.N = uint64(x)
	case KF32:
		var x float32
		x, err = s.d.Float32()
		r.V.N = uint64(math.Float32bits(x))
	case KF64:
		var x float64
		x, err = s.d.Float64()
		r.V.N = math.Float64bits(x)
	default:
		panic("op")
	}
	r.Ok = err == nil
	r.Err = errCode(s.errs, err)
	if !r.Ok && (r.V.N != 0 || len(r.V.D) != 0) {
		r.NZ = true
	}
	r.Rem = s.rem()
	return
}

func newV1Step(in []byte) stepper {
	d := v1.GetDecoder(in)
	return &goStep{d: d, errs: v1Errs,
		slice: func(k byte) (uint32, error) { return d.Slice(v1Kinds[k]) },
		mp:    func(k, v byte) (uint32, error) { return d.Map(v1Kinds[k], v1Kinds[v]) },
		rem:   func() int { return -1 }}
}

func newV2Step(in []byte) stepper {
	d := v2.Decoder(in)
	return &goStep{d: d, errs: v2Errs,
		slice: func(k byte) (uint32, error) { return d.Slice(v2Kinds[k]) },
		mp:    func(k, v byte) (uint32, error) { return d.Map(v2Kinds[k], v2Kinds[v]) },
		rem:   func() int { return len(*d) }}
}

var goV1 = &goSubject{name: "go-v1",
	enc: func(j EncJob) []byte {
		b, around := v1Buf(j.Buf)
		e := v1.Encoder(b)
		for _, o := range j.Ops {
			v1Put(e, o)
		}
		if b.Len() != len(b.Bytes()) {
			panic(fmt.Sprintf("Len()=%d but %d bytes", b.Len(), len(b.Bytes())))
		}
		if !intact(around) {
			panic("wrote outside the wrapped memory")
		}
		return append([]byte(nil), b.Bytes()...)
	},
	dec: newV1Step}

var goV2 = &goSubject{name: "go-v2",
	enc: func(j EncJob) []byte {
		b, around := v2Buf(j.Buf)
		e := v2.Encoder(b)
		for _, o := range j.Ops {
			v2Put(e, o)
		}
		if b.Len() != len(b.Bytes()) {
			panic(fmt.Sprintf("Len()=%d but %d bytes", b.Len(), len(b.Bytes())))
		}
		if !intact(around) {
			panic("wrote outside the wrapped memory")
		}
		return append([]byte(nil), b.Bytes()...)
	},
	dec: newV2Step}

// The same decoders when the caller passes memory of its own to Bytes.
func withScratch(g *goSubject) *goSubject {
	return &goSubject{name: g.name + "-scratch", enc: g.enc, dec: func(in []byte) stepper {
		s := g.dec(in).(*goStep)
		s.scratch, s.count = true, len(in)
		s.makeScratch()
		return s
	}, decOnly: true}
}

var goV1Scratch, goV2Scratch = withScratch(goV1), withScratch(goV2)
