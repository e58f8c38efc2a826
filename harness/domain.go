package main

import (
	"math"
	"sort"
	"strings"
	"unicode/utf8"
)

// ---- value alphabets --------------------------------------------------------

func maskBits(bits uint) uint64 { return ^uint64(0) >> (64 - bits) }

// uints returns boundary values of an unsigned type: around every power of two and
// every combination of the given digits in every 7-bit group.
func uints(bits uint, digits []uint64) []uint64 {
	set := map[uint64]bool{}
	m := maskBits(bits)
	for k := uint(0); k < bits; k++ {
		p := uint64(1) << k
		for _, v := range []uint64{p - 2, p - 1, p, p + 1, m - p, m - p + 1} {
			set[v&m] = true
		}
	}
	groups := int(bits+6) / 7
	var rec func(g int, v uint64)
	rec = func(g int, v uint64) {
		if g == groups {
			set[v&m] = true
			return
		}
		for _, d := range digits {
			rec(g+1, v|d<<(7*uint(g)))
		}
	}
	if len(digits) > 0 {
		rec(0, 0)
	}
	var out []uint64
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// ints maps unsigned boundary patterns to signed values whose zig-zag form they are,
// plus the values themselves reinterpreted.
func ints(bits uint, digits []uint64) []uint64 {
	set := map[uint64]bool{}
	for _, u := range uints(bits, digits) {
		set[uint64(unzigzag(u))] = true
		sh := 64 - bits
		set[uint64(int64(u<<sh)>>sh)] = true
	}
	var out []uint64
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return int64(out[i]) < int64(out[j]) })
	return out
}

// bytePatterns enumerates n-byte words whose bytes come from alphabet.
func bytePatterns(n int, alphabet []byte) []uint64 {
	out := []uint64{0}
	for i := 0; i < n; i++ {
		var next []uint64
		for _, v := range out {
			for _, a := range alphabet {
				next = append(next, v<<8|uint64(a))
			}
		}
		out = next
	}
	return out
}

func floats32() []uint64 {
	out := bytePatterns(4, []byte{0x00, 0x01, 0x3f, 0x7f, 0x80, 0xff})
	for e := uint64(0); e < 256; e++ { // every exponent, both signs, a few mantissas
		for _, s := range []uint64{0, 1} {
			for _, m := range []uint64{0, 1, 0x400000, 0x7fffff, 0x2aaaaa} {
				out = append(out, s<<31|e<<23|m)
			}
		}
	}
	return out
}

func floats64(alpha []byte) []uint64 {
	out := bytePatterns(8, alpha)
	for e := uint64(0); e < 2048; e++ {
		for _, s := range []uint64{0, 1} {
			for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x123456789abcd} {
				out = append(out, s<<63|e<<52|m)
			}
		}
	}
	return out
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + seed
	}
	return b
}

// every lists the characters of more than two bytes, with runs of 200 of them in between.
func every(emit func(r rune, run []byte)) {
	var run []byte
	for r, n := rune(0x800), 1; r <= 0x10FFFF; r++ {
		if 0xD800 <= r && r < 0xE000 {
			continue
		}
		run = utf8.AppendRune(run, r)
		if n++; n%200 == 0 || r == 0x10FFFF {
			emit(r, run)
			run = nil
		} else {
			emit(r, nil)
		}
	}
}

// text returns valid UTF-8 of exactly n bytes without NUL.
func text(n int) []byte {
	b := make([]byte, 0, n)
	units := []string{"a", "é", "€", "😀", "Z"}
	for i := 0; len(b) < n; i++ {
		u := units[i%len(units)]
		if len(b)+len(u) > n {
			u = "x"
		}
		b = append(b, u...)
	}
	return b
}

var dataLens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 63, 64, 126, 127, 128, 129, 130, 255, 256, 257, 500, 505, 506, 507, 508, 509, 510, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 16382, 16383, 16384, 16385, 16386, 1<<14 | 3<<7 | 3, 32768, 65535, 65536}
var bigLens = []int{2097150, 2097151, 2097152, 2097153, 1<<21 | 3<<14 | 3<<7 | 3}

var stringSamples = []string{"", "a", "\x00", "a\x00b", "\uFEFF", "\uFEFFabc", "é", "€uro", "😀", "\U0010FFFF", "\uFFFD", "line\nbreak\r\n\ttab", "\u2028", "e\u0301", "\x7f", "\u0080", "null", "0", "\ufeff\ufeff", "\uD7FF\uE000"}

var sizes32 = []uint64{0, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 268435455, 268435456, 0x55<<7 | 0x55, 0x55<<14 | 0x55<<7 | 0x2a, 0x55<<21 | 0x2a<<14 | 0x55<<7 | 0x2a, 5<<28 | 0x55<<21 | 0x2a<<14 | 0x55<<7 | 0x2a, 2147483647, 2147483648, 4294967294, 4294967295}

// tinyOps has one instance per wire shape: two values for most types, chosen to have
// different encoded lengths.
func tinyOps() []Op {
	return []Op{
		{K: KNil},
		{K: KSlice, A: KString, N: 2}, {K: KSlice, A: KU8, N: 300},
		{K: KMap, A: KString, B: KU32, N: 1}, {K: KMap, A: KU8, B: KAny, N: 70000},
		{K: KBytes, D: []byte{}}, {K: KBytes, D: []byte{0, 1, 0xff}}, {K: KBytes, D: fill(130, 3)},
		{K: KString, D: []byte{}}, {K: KString, D: []byte("h\u00e9")}, {K: KString, D: text(128)},
		{K: KError, D: []byte{}}, {K: KError, D: []byte("bad")},
		{K: KBool, N: 0}, {K: KBool, N: 1},
		{K: KU8, N: 0}, {K: KU8, N: 0xff},
		{K: KU16, N: 5}, {K: KU16, N: 0x3fff}, {K: KU16, N: 0xffff},
		{K: KU32, N: 127}, {K: KU32, N: 0xffffffff},
		{K: KU64, N: 128}, {K: KU64, N: math.MaxUint64},
		{K: KI32, N: ^uint64(0)}, {K: KI32, N: uint64(math.MaxUint64 - math.MaxInt32)},
		{K: KI64, N: 64}, {K: KI64, N: 1 << 63},
		{K: KF32, N: 0x80000000}, {K: KF32, N: 0x40490fdb},
		{K: KF64, N: 0x7ff0000000000000}, {K: KF64, N: 0xc00921fb54442d18},
	}
}

// oneOps has one instance per type.
func oneOps() []Op {
	return []Op{
		{K: KNil}, {K: KSlice, A: KU16, N: 3}, {K: KMap, A: KString, B: KI64, N: 200},
		{K: KBytes, D: []byte{9, 0}}, {K: KString, D: []byte("abc")}, {K: KError, D: []byte("e!")},
		{K: KBool, N: 1}, {K: KU8, N: 10}, {K: KU16, N: 300}, {K: KU32, N: 70000}, {K: KU64, N: 1 << 40},
		{K: KI32, N: ^uint64(4)}, {K: KI64, N: 1 << 33}, {K: KF32, N: 0x3f800000}, {K: KF64, N: 0x3ff0000000000000},
	}
}

// singles emits every single-value op of the exhaustive and boundary alphabets.
// level 0: small; 1: quick; 2: thorough.
func singles(level int, emit func(o Op)) {
	emit(Op{K: KNil})
	for a := byte(0); a < 16; a++ {
		for _, n := range sizes32 {
			emit(Op{K: KSlice, A: a, N: n})
		}
	}
	for a := byte(0); a < 16; a++ {
		for b := byte(0); b < 16; b++ {
			for i, n := range sizes32 {
				if level >= 2 || i%5 == int(a+b)%5 || a == b {
					emit(Op{K: KMap, A: a, B: b, N: n})
				}
			}
		}
	}
	for _, k := range []byte{KBytes, KString, KError} {
		lens := dataLens
		if level >= 1 {
			for n := 0; n <= 300; n++ {
				lens = append(lens[:len(lens):len(lens)], n)
			}
		}
		for _, n := range lens {
			if k == KBytes {
				emit(Op{K: k, D: fill(n, byte(n))})
			} else {
				emit(Op{K: k, D: text(n)})
			}
		}
		if k == KError { // every kind of error value a caller may have
			for _, s := range []string{"", "x", "not found", string(text(126)), string(text(127)), string(text(128)), string(text(300)), string(text(5000))} {
				for _, o := range errVariants(Op{D: []byte(s)}) {
					emit(o)
				}
			}
		}
		if k != KBytes {
			for _, s := range stringSamples {
				emit(Op{K: k, D: []byte(s)})
			}
			for r := 1; r < 0x800; r++ { // every 1- and 2-byte character
				if level >= 1 || r%16 == 0 {
					emit(Op{K: k, D: []byte(string(rune(r)))})
				}
			}
			for _, u := range []string{"a", "é", "€", "😀"} { // one kind of character only, around every threshold
				for n := 2; n <= 40; n++ {
					emit(Op{K: k, D: []byte(strings.Repeat(u, n))})
				}
				for _, bytes := range []int{64, 128, 256, 512, 1024, 4096, 16384, 65536} {
					for _, per := range []int{1, len(u)} {
						for d := -1; d <= 1; d++ {
							if n := bytes/per + d; level >= 1 || d == 0 && n < 300 {
								emit(Op{K: k, D: []byte(strings.Repeat(u, n))})
							}
						}
					}
				}
			}
			if level >= 1 { // every character
				every(func(r rune, run []byte) {
					if r&(r-1) == 0 || r&0xff == 0xff || r%509 == 0 {
						emit(Op{K: k, D: []byte(string(r))})
					}
					if run != nil && (k == KString || level >= 2) {
						emit(Op{K: k, D: run})
					}
				})
			}
		} else {
			for v := 0; v < 256; v++ {
				emit(Op{K: k, D: []byte{byte(v)}})
			}
		}
	}
	emit(Op{K: KBool, N: 0})
	emit(Op{K: KBool, N: 1})
	for v := uint64(0); v < 256; v++ {
		emit(Op{K: KU8, N: v})
	}
	if level >= 1 {
		for v := uint64(0); v < 65536; v++ {
			emit(Op{K: KU16, N: v})
		}
	} else {
		for _, v := range uints(16, []uint64{0, 1, 2, 0x3f, 0x40, 0x7f}) {
			emit(Op{K: KU16, N: v})
		}
	}
	d32 := []uint64{0, 1, 0x7f}
	d64 := []uint64{0, 0x7f}
	f64 := []byte{0x00, 0x7f, 0xff}
	if level == 1 {
		d32 = []uint64{0, 1, 0x40, 0x55, 0x7f}
		f64 = []byte{0x00, 0x01, 0x7f, 0xff}
	}
	if level >= 2 {
		d32 = []uint64{0, 1, 2, 0x3f, 0x40, 0x55, 0x7e, 0x7f}
		d64 = []uint64{0, 1, 0x7f}
		f64 = []byte{0x00, 0x01, 0x7f, 0x80, 0xff}
	}
	for _, v := range uints(32, d32) {
		emit(Op{K: KU32, N: v})
	}
	for _, v := range ints(32, d32) {
		emit(Op{K: KI32, N: v})
	}
	for _, v := range uints(64, d64) {
		emit(Op{K: KU64, N: v})
	}
	for _, v := range ints(64, d64) {
		emit(Op{K: KI64, N: v})
	}
	for _, v := range floats32() {
		emit(Op{K: KF32, N: v})
	}
	for _, v := range floats64(f64) {
		emit(Op{K: KF64, N: v})
	}
}

// twins emits pairs and triples of values that resemble each other: same type or same
// content, same encoded length, and a difference in the first, a middle or the last place.
func twins(emit func(ops []Op)) {
	var sets [][]Op
	for _, n := range []int{1, 3, 8, 24, 40, 130, 600} {
		var set []Op
		for _, k := range []byte{KString, KBytes, KError} {
			for i, at := range []int{-1, 0, n / 2, n - 1} {
				d := make([]byte, n)
				for j := range d {
					d[j] = 'a'
				}
				if at >= 0 {
					d[at] = 'b' + byte(i)
				}
				set = append(set, Op{K: k, D: d})
			}
		}
		sets = append(sets, set)
	}
	var nums []Op
	for _, k := range []byte{KU8, KU16, KU32, KU64, KI32, KI64, KF32, KF64} {
		bits := map[byte]uint{KU8: 8, KU16: 16, KU32: 32, KU64: 64, KI32: 32, KI64: 64, KF32: 32, KF64: 64}[k]
		top := maskBits(bits) >> 1
		if k == KF32 || k == KF64 {
			top >>= 1 // not a NaN
		}
		for _, v := range []uint64{top, top - 1, top ^ 1<<(bits/2), top ^ 1<<(bits-4), top + 1, top + 2} {
			if k == KI32 {
				v = uint64(int64(int32(v)))
			}
			nums = append(nums, Op{K: k, N: v})
		}
	}
	for i := 0; i < len(nums); i += 6 {
		sets = append(sets, nums[i:i+6])
	}
	sets = append(sets, []Op{{K: KSlice, A: KU8, N: 5}, {K: KSlice, A: KU8, N: 6}, {K: KSlice, A: KString, N: 5}, {K: KSlice, A: KMap, N: 5},
		{K: KMap, A: KU8, B: KString, N: 5}, {K: KMap, A: KString, B: KU8, N: 5}, {K: KMap, A: KU8, B: KString, N: 6}, {K: KMap, A: KU8, B: KU8, N: 5}})
	for _, set := range sets {
		seqs(set, 2, emit)
		for _, a := range set {
			for _, b := range set {
				emit([]Op{a, b, a})
			}
		}
	}
	for _, a := range nums { // the same bits as another type
		for _, b := range nums {
			if a.K != b.K && a.N == b.N && !isNaN(a.K, a.N) && !isNaN(b.K, b.N) {
				emit([]Op{a, b, a})
			}
		}
	}
}

// longs emits messages of very many values: each value of the small alphabet repeated,
// and the whole alphabet cycled from every start.
func longs(lv int, emit func(ops []Op)) {
	tiny := tinyOps()
	counts := []int{100, 257, 4097, 20000}
	if lv >= 2 {
		counts = []int{33, 100, 127, 128, 129, 255, 256, 257, 1000, 4097, 20000, 65000}
	}
	for _, n := range counts {
		for _, o := range tiny {
			if n*(len(o.D)+4) > 1<<21 {
				continue
			}
			ops := make([]Op, n)
			for i := range ops {
				ops[i] = o
			}
			emit(ops)
		}
		for start := 0; start < len(tiny); start += 8 {
			ops := make([]Op, n)
			for i := range ops {
				ops[i] = tiny[(start+i)%len(tiny)]
			}
			emit(ops)
		}
	}
}

// seqs emits every sequence of exactly n ops from alphabet.
func seqs(alphabet []Op, n int, emit func(ops []Op)) {
	idx := make([]int, n)
	for {
		s := make([]Op, n)
		for i, x := range idx {
			s[i] = alphabet[x]
		}
		emit(s)
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(alphabet) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// strs emits every byte string of exactly n bytes from alphabet, each in its own
// memory followed by spare bytes that do not belong to it.
func strs(alphabet []byte, n int, emit func(b []byte)) {
	idx := make([]int, n)
	for {
		b := make([]byte, n, n+12)
		for i, x := range idx {
			b[i] = alphabet[x]
		}
		spare(b)
		emit(b)
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(alphabet) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func spare(b []byte) {
	x := b[len(b):cap(b)]
	for i := range x {
		x[i] = 0x01
	}
}

// withSpare copies b into memory with foreign bytes behind it.
func withSpare(b []byte) []byte {
	x := make([]byte, len(b), len(b)+12)
	copy(x, b)
	spare(x)
	return x
}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

// reqs returns one request per type; element kinds as given.
func reqs(a, b byte) []Op {
	var out []Op
	for _, k := range opKinds {
		o := Op{K: k}
		if k == KSlice {
			o.A = a
		}
		if k == KMap {
			o.A, o.B = a, b
		}
		out = append(out, o)
	}
	return out
}
