package main

import (
	"encoding/hex"
	"fmt"
	"strings"
	"unicode/utf8"
)

// The reference model of the wire format. It is written from the format's
// definition, one value at a time, with none of the implementations' shortcuts.

const (
	KNil byte = iota
	KSlice
	KMap
	KAny
	KBytes
	KString
	KError
	KBool
	KU8
	KU16
	KU32
	KU64
	KI32
	KI64
	KF32
	KF64
)

var kindNames = []string{"nil", "slice", "map", "any", "bytes", "string", "error", "bool", "u8", "u16", "u32", "u64", "i32", "i64", "f32", "f64"}

func kname(k byte) string {
	if int(k) < len(kindNames) {
		return kindNames[k]
	}
	return fmt.Sprintf("kind%d", k)
}

// opKinds are the requests every implementation offers (any exists in TypeScript only).
var opKinds = []byte{KNil, KSlice, KMap, KBytes, KString, KError, KBool, KU8, KU16, KU32, KU64, KI32, KI64, KF32, KF64}

// Op is a value to encode, or (ignoring N and D) a type to request.
type Op struct {
	K    byte   // kind
	A, B byte   // element kinds of slice (A) and map (A key, B value)
	N    uint64 // integer (two's complement), size, bool, or float bits
	D    []byte // bytes, string, error
}

func (o Op) String() string {
	switch o.K {
	case KNil, KAny:
		return kname(o.K)
	case KSlice:
		return fmt.Sprintf("slice<%s>(%d)", kname(o.A), o.N)
	case KMap:
		return fmt.Sprintf("map<%s,%s>(%d)", kname(o.A), kname(o.B), o.N)
	case KBytes, KString, KError:
		if len(o.D) > 24 {
			return fmt.Sprintf("%s(len=%d,%x..)", kname(o.K), len(o.D), o.D[:8])
		}
		return fmt.Sprintf("%s(%x)", kname(o.K), o.D)
	case KI32, KI64:
		return fmt.Sprintf("%s(%d)", kname(o.K), int64(o.N))
	case KF32, KF64:
		return fmt.Sprintf("%s(bits %#x)", kname(o.K), o.N)
	}
	return fmt.Sprintf("%s(%d)", kname(o.K), o.N)
}

// Req is the op seen as a request (no value).
func (o Op) Req() string {
	switch o.K {
	case KSlice:
		return fmt.Sprintf("slice<%s>", kname(o.A))
	case KMap:
		return fmt.Sprintf("map<%s,%s>", kname(o.A), kname(o.B))
	}
	return kname(o.K)
}

func opsStr(ops []Op) string {
	var s []string
	for i, o := range ops {
		if i == 30 && len(ops) > 40 {
			s = append(s, fmt.Sprintf("... (%d in all)", len(ops)))
			break
		}
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

func reqsStr(ops []Op) string {
	var s []string
	for i, o := range ops {
		if i == 30 && len(ops) > 40 {
			s = append(s, fmt.Sprintf("... (%d in all)", len(ops)))
			break
		}
		s = append(s, o.Req())
	}
	return strings.Join(s, " ")
}

func hx(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:48]), len(b))
	}
	return hex.EncodeToString(b)
}

func refVarint(dst []byte, v uint64) []byte {
	for v > 127 {
		dst = append(dst, byte(v%128)+128)
		v /= 128
	}
	return append(dst, byte(v))
}

func zigzag(v int64) uint64 {
	if v >= 0 {
		return uint64(v) * 2
	}
	return uint64(-(v+1))*2 + 1
}

func unzigzag(u uint64) int64 {
	if u%2 == 0 {
		return int64(u / 2)
	}
	return -int64(u/2) - 1
}

func refLen(dst []byte, n uint64) []byte { return refVarint(append(dst, KU32), n) }

// refEncode appends the canonical encoding of op.
func refEncode(dst []byte, o Op) []byte {
	dst = append(dst, o.K)
	switch o.K {
	case KNil, KAny:
	case KSlice:
		dst = refLen(append(dst, o.A), uint64(uint32(o.N)))
	case KMap:
		dst = refLen(append(dst, o.A, o.B), uint64(uint32(o.N)))
	case KBytes, KString:
		dst = append(refLen(dst, uint64(len(o.D))), o.D...)
	case KError:
		dst = append(refLen(append(dst, KString), uint64(len(o.D))), o.D...)
	case KBool, KU8:
		dst = append(dst, byte(o.N))
	case KU16, KU32, KU64:
		dst = refVarint(dst, o.N)
	case KI32, KI64:
		dst = refVarint(dst, zigzag(int64(o.N)))
	case KF32:
		for s := 24; s >= 0; s -= 8 {
			dst = append(dst, byte(o.N>>uint(s)))
		}
	case KF64:
		for s := 56; s >= 0; s -= 8 {
			dst = append(dst, byte(o.N>>uint(s)))
		}
	default:
		panic("refEncode: kind")
	}
	return dst
}

func refEncodeAll(ops []Op) []byte {
	var b []byte
	for _, o := range ops {
		b = refEncode(b, o)
	}
	return b
}

// Verdict classifies what a request on given input must do.
type Verdict byte

const (
	VOK        Verdict = iota // accepted: value and length fixed
	VMismatch                 // next value has another type: error, position unchanged
	VMalformed                // truncated, over-long, overflowing ...: error, position open
	VOpen                     // outcome left open (bool byte > 1, invalid UTF-8)
)

func (v Verdict) String() string { return []string{"ok", "mismatch", "malformed", "open"}[v] }

func refUvarint(b []byte, maxLen int, bits uint) (v uint64, n int, ok bool) {
	for i := 0; i < maxLen; i++ {
		if i >= len(b) {
			return 0, 0, false
		}
		d := uint64(b[i] % 128)
		shift := uint(7 * i)
		if shift >= bits && d != 0 || shift < bits && d > (^uint64(0)>>(64-bits))>>shift {
			return 0, 0, false // carries bits beyond the type's width
		}
		v += d << shift
		if b[i] < 128 {
			return v, i + 1, true
		}
	}
	return 0, 0, false
}

// refDecode says what requesting op's type from b must do; n is the number of
// bytes consumed when the verdict is VOK (or VOpen, if the value is accepted).
func refDecode(b []byte, o Op) (v Verdict, res Op, n int) {
	res = Op{K: o.K, A: o.A, B: o.B}
	head := []byte{o.K}
	switch o.K {
	case KSlice:
		head = []byte{KSlice, o.A}
	case KMap:
		head = []byte{KMap, o.A, o.B}
	}
	for i, h := range head {
		if i >= len(b) {
			return VMalformed, res, 0
		}
		if b[i] != h {
			return VMismatch, res, 0
		}
	}
	n = len(head)
	fixed := func(k int) bool {
		if len(b)-n < k {
			return false
		}
		for i := 0; i < k; i++ {
			res.N = res.N<<8 | uint64(b[n+i])
		}
		n += k
		return true
	}
	length := func() (uint64, bool) {
		if n >= len(b) || b[n] != KU32 {
			return 0, false
		}
		l, k, ok := refUvarint(b[n+1:], 5, 32)
		n += 1 + k
		return l, ok
	}
	ok := true
	open := false
	switch o.K {
	case KNil, KAny:
	case KSlice, KMap:
		res.N, ok = length()
	case KBytes, KString, KError:
		if o.K == KError {
			if n >= len(b) || b[n] != KString {
				return VMalformed, res, 0
			}
			n++
		}
		var l uint64
		if l, ok = length(); ok {
			if ok = uint64(len(b)-n) >= l; ok {
				res.D = b[n : n+int(l)]
				n += int(l)
				open = o.K != KBytes && !utf8.Valid(res.D)
			}
		}
	case KBool:
		ok = fixed(1)
		open = res.N > 1
	case KU8:
		ok = fixed(1)
	case KF32:
		ok = fixed(4)
	case KF64:
		ok = fixed(8)
	default:
		maxLen, bits := 3, uint(16)
		switch o.K {
		case KU32, KI32:
			maxLen, bits = 5, 32
		case KU64, KI64:
			maxLen, bits = 10, 64
		}
		var k int
		res.N, k, ok = refUvarint(b[n:], maxLen, bits)
		n += k
		if o.K == KI32 || o.K == KI64 {
			res.N = uint64(unzigzag(res.N))
		}
	}
	if !ok {
		return VMalformed, Op{K: o.K, A: o.A, B: o.B}, 0
	}
	if open {
		return VOpen, res, n
	}
	return VOK, res, n
}
