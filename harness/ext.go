package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// External subjects run in driver processes (drivers/). A batch is
//   u32 length, u32 count, records
// with records
//   'E' bufkind u8, n u32, cap u32, nops u16, ops: k,a,b u8, n u64, dlen u32, data
//   'D' inlen u32, input, nops u16, requests: k,a,b u8
//   'I' nobj u8, E and D records, norder u16, objects: each creates an object or makes its next call (see p_side.go)
//   'S' call script (C only, see p_c.go)
// and the answer u32 length and, per record,
//   E: flag u8 (0 fine), len u32, bytes or message
//   I: the answer of each object
//   D: count u16, per request flag u8 (0 ok, 1 error, 2 crash, 3 decoded values share memory), err u8, n u64, dlen u32, data, rem u32, alloc u64

type extSubject struct {
	name       string
	argv       []string
	env        []string
	noNUL      bool // strings with embedded NUL cannot be expressed
	maxOps     int  // longest traces, if limited: the driver accounts for every allocation
	any        bool
	nan        bool // NaN payloads are not representable
	unknownRem bool // the interface does not say how much input is left
	free       chan *proc
	deaths     atomic.Int64 // processes that died, or hung, on some job
	hangs      atomic.Int64
}

// tooMany says that enough jobs have been found to kill or hang the driver; the
// rest of a failing batch is then skipped instead of being searched for culprits.
func (s *extSubject) tooMany() bool { return s.deaths.Load() > 40 || s.hangs.Load() > 3 }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out io.ReadCloser
}

func newExt(name string, argv ...string) *extSubject {
	s := &extSubject{name: name, argv: argv, free: make(chan *proc, 64)}
	for i := 0; i < runtime.NumCPU(); i++ {
		s.free <- nil
	}
	return s
}

func (s *extSubject) Name() string    { return s.name }
func (s *extSubject) Has(k byte) bool { return k != KAny || s.any }

func (s *extSubject) start() (*proc, error) {
	c := exec.Command(s.argv[0], s.argv[1:]...)
	c.Env = append(os.Environ(), s.env...)
	c.Stderr = io.Discard
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{c, in, out}, nil
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.in.Close()
	p.cmd.Wait()
}

// batch sends records and returns the answer; an error means the process died or hung.
func (s *extSubject) batch(body []byte, count int, timeout time.Duration) ([]byte, error) {
	p := <-s.free
	var err error
	if p == nil {
		if p, err = s.start(); err != nil {
			fmt.Fprintln(os.Stderr, "cannot start driver:", err)
			os.Exit(2)
		}
	}
	type ans struct {
		b   []byte
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		var h [8]byte
		binary.LittleEndian.PutUint32(h[:], uint32(len(body)))
		binary.LittleEndian.PutUint32(h[4:], uint32(count))
		if _, err := p.in.Write(h[:]); err != nil {
			ch <- ans{nil, err}
			return
		}
		if _, err := p.in.Write(body); err != nil {
			ch <- ans{nil, err}
			return
		}
		if _, err := io.ReadFull(p.out, h[:4]); err != nil {
			ch <- ans{nil, err}
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(h[:4]))
		_, err := io.ReadFull(p.out, b)
		ch <- ans{b, err}
	}()
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case a := <-ch:
		if a.err != nil {
			p.in.Close()
			werr := p.cmd.Wait()
			if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				fmt.Fprintln(os.Stderr, "driver reported a harness error")
				os.Exit(2)
			}
			s.free <- nil
			return nil, fmt.Errorf("process died (%v)", werr)
		}
		s.free <- p
		return a.b, nil
	case <-t.C:
		p.kill()
		s.free <- nil
		return nil, errHang
	}
}

func (s *extSubject) Close() {
	for i := 0; i < runtime.NumCPU(); i++ {
		if p := <-s.free; p != nil {
			p.in.Close()
			p.cmd.Wait()
		}
	}
}

func putOp(b []byte, o Op) []byte {
	b = append(b, o.K, o.A, o.B)
	b = binary.LittleEndian.AppendUint64(b, o.N)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(o.D)))
	return append(b, o.D...)
}

func putEnc(b []byte, j EncJob) []byte {
	b = append(b, 'E', j.Buf.Kind)
	b = binary.LittleEndian.AppendUint32(b, uint32(j.Buf.N))
	b = binary.LittleEndian.AppendUint32(b, uint32(j.Buf.Cap))
	b = binary.LittleEndian.AppendUint16(b, uint16(len(j.Ops)))
	for _, o := range j.Ops {
		b = putOp(b, o)
	}
	return b
}

func putDec(b []byte, j DecJob) []byte {
	b = append(b, 'D')
	b = binary.LittleEndian.AppendUint32(b, uint32(len(j.In)))
	b = append(b, j.In...)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(j.Ops)))
	for _, o := range j.Ops {
		b = append(b, o.K, o.A, o.B)
	}
	return b
}

type rd struct {
	b []byte
	p int
}

func (r *rd) take(n int) []byte { x := r.b[r.p : r.p+n : r.p+n]; r.p += n; return x }
func (r *rd) u8() byte          { return r.take(1)[0] }
func (r *rd) u16() uint16       { return binary.LittleEndian.Uint16(r.take(2)) }
func (r *rd) u32() uint32       { return binary.LittleEndian.Uint32(r.take(4)) }
func (r *rd) u64() uint64       { return binary.LittleEndian.Uint64(r.take(8)) }

func (s *extSubject) canon(k byte, n uint64) uint64 {
	if s.nan {
		return canonNaN(k, n)
	}
	return n
}

// canonNaN maps every NaN to one; other values are unchanged.
func canonNaN(k byte, n uint64) uint64 {
	if k == KF32 && n&0x7f800000 == 0x7f800000 && n&0x7fffff != 0 {
		return 0x7fc00000
	}
	if k == KF64 && n&0x7ff0000000000000 == 0x7ff0000000000000 && n&0xfffffffffffff != 0 {
		return 0x7ff8000000000000
	}
	return n
}

func getEnc(r *rd) EncRes {
	flag := r.u8()
	d := r.take(int(r.u32()))
	if flag != 0 {
		return EncRes{Crash: string(d)}
	}
	return EncRes{Out: d}
}

func (s *extSubject) getDec(r *rd, j DecJob) []Res {
	n := int(r.u16())
	out := make([]Res, n)
	for i := range out {
		var x Res
		flag := r.u8()
		x.Err = r.u8()
		v := r.u64()
		d := r.take(int(r.u32()))
		x.Rem = int(int32(r.u32()))
		x.Alloc = r.u64()
		var o Op
		if i < len(j.Ops) {
			o = j.Ops[i]
		}
		x.V = Op{K: o.K, A: o.A, B: o.B}
		switch flag {
		case 0:
			x.Ok = true
			x.V.N, x.V.D = s.canon(o.K, v), d
		case 1:
			x.V.N, x.V.D = v, nil
			x.NZ = v != 0
			if x.Err == errUnknown {
				x.Stray = string(d)
			}
			if s.unknownRem {
				x.NZ = x.NZ || len(d) > 0
			}
		case 3:
			x.Alias = string(d)
		default:
			x.Crash = string(d)
		}
		out[i] = x
	}
	return out
}

const chunk = 1500

// split runs f over chunks of n jobs in parallel, one driver process each.
func split(n int, f func(lo, hi int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for lo := 0; lo < n; lo += chunk {
		hi := min(lo+chunk, n)
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			f(lo, hi)
		}()
	}
	wg.Wait()
}

const (
	batchTimeout  = 90 * time.Second
	singleTimeout = 20 * time.Second
	skipped       = "skipped"
)

var errHang = errors.New("no answer in time")

// run sends jobs lo..hi-1; when the driver dies or hangs it splits them until it has
// found the jobs that cause it.
func (s *extSubject) run(lo, hi int, put func(b []byte, i int) []byte, get func(r *rd, i int), dead func(i int, why string)) {
	s.search(lo, hi, batchTimeout, hi-lo == 1, put, get, dead)
}

func (s *extSubject) search(lo, hi int, to time.Duration, alone bool, put func(b []byte, i int) []byte, get func(r *rd, i int), dead func(i int, why string)) {
	if !alone && s.tooMany() {
		for i := lo; i < hi; i++ {
			dead(i, skipped)
		}
		return
	}
	var body []byte
	for i := lo; i < hi; i++ {
		body = put(body, i)
	}
	if hi-lo == 1 {
		to = singleTimeout
	}
	b, err := s.batch(body, hi-lo, to)
	if err == nil {
		r := &rd{b: b}
		for i := lo; i < hi; i++ {
			get(r, i)
		}
		return
	}
	if hi-lo == 1 {
		s.deaths.Add(1)
		if err == errHang {
			s.hangs.Add(1)
		}
		dead(lo, err.Error())
		return
	}
	step := max(1, (hi-lo+7)/8)
	for i := lo; i < hi; i += step {
		s.search(i, min(hi, i+step), singleTimeout, false, put, get, dead)
	}
}

func (s *extSubject) tooLong(ops []Op) bool { return s.maxOps > 0 && len(ops) > s.maxOps }

func (s *extSubject) Encode(jobs []EncJob) []EncRes {
	out := make([]EncRes, len(jobs))
	split(len(jobs), func(lo, hi int) {
		s.run(lo, hi, func(b []byte, i int) []byte { return putEnc(b, jobs[i]) },
			func(r *rd, i int) { out[i] = getEnc(r) },
			func(i int, why string) { out[i] = EncRes{Crash: why, Skip: why == skipped} })
	})
	return out
}

func (s *extSubject) Decode(jobs []DecJob) [][]Res {
	out := make([][]Res, len(jobs))
	split(len(jobs), func(lo, hi int) {
		s.run(lo, hi, func(b []byte, i int) []byte {
			if s.tooLong(jobs[i].Ops) {
				return putDec(b, DecJob{})
			}
			return putDec(b, jobs[i])
		},
			func(r *rd, i int) {
				out[i] = s.getDec(r, jobs[i])
				if s.tooLong(jobs[i].Ops) {
					out[i] = []Res{{Skip: true}}
				}
			},
			func(i int, why string) { out[i] = []Res{{Crash: why, Skip: why == skipped, Err: errUnknown, Rem: -1}} })
	})
	return out
}

// ---- building the drivers from /repo's current tree ------------------------

var scratchDir string

func scratch() string {
	if scratchDir == "" {
		d := os.Getenv("VERIF_SCRATCH")
		if d == "" {
			var err error
			if d, err = os.MkdirTemp("", "polymc-"); err != nil {
				die("scratch: %v", err)
			}
			ownScratch = true
		}
		scratchDir = d
	}
	return scratchDir
}

var ownScratch bool

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "polymc: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if ownScratch && scratchDir != "" && strings.HasPrefix(scratchDir, os.TempDir()) {
		os.RemoveAll(scratchDir)
	}
}

func sh(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	b, err := c.CombinedOutput()
	return string(b), err
}

func must(dir string, env []string, name string, args ...string) string {
	o, err := sh(dir, env, name, args...)
	if err != nil {
		die("%s %s: %v\n%s", name, strings.Join(args, " "), err, o)
	}
	return o
}

func copyTree(dst, src string) {
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0o644)
	})
	if err != nil {
		die("copy %s: %v", src, err)
	}
}

func buildRust() []*extSubject {
	d := filepath.Join(scratch(), "rust")
	copyTree(d, filepath.Join(verifDir(), "drivers/rust"))
	fixRepoPath(filepath.Join(d, "Cargo.toml"))
	t := filepath.Join(scratch(), "rust-target")
	t2 := t + "-plain"
	env := []string{"CARGO_NET_OFFLINE=true"}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		must(d, append(env[:1:1], "CARGO_TARGET_DIR="+t2), "cargo", "build", "--offline", "-q", "--profile", "plain")
	}()
	must(d, append(env[:1:1], "CARGO_TARGET_DIR="+t), "cargo", "build", "--offline", "-q")
	wg.Wait()
	bin := filepath.Join(t, "debug/driver")
	// The debug build checks arithmetic; the plain build is what released code does.
	return []*extSubject{newExt("rust", bin, "a"), newExt("rust-owned", bin, "b"), newExt("rust-release", filepath.Join(t2, "plain/driver"), "a")}
}

func fixRepoPath(f string) {
	if repoDir() == "/repo" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	os.WriteFile(f, []byte(strings.ReplaceAll(string(b), "\"/repo\"", "\""+repoDir()+"\"")), 0o644)
}

const cAllocator = `
mod polymc_allocator {
    use std::alloc::{GlobalAlloc, Layout, System};
    extern "C" {
        fn polymc_release(p: *mut u8, n: usize, align: usize);
    }
    struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            polymc_release(p, l.size(), l.align());
            System.realloc(p, l, n)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            polymc_release(p, l.size(), l.align());
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static G: A = A;
}
`

// buildC builds the C library with and without the compiler's own checks (arithmetic
// overflow, debug assertions), and the driver against each.
func buildC() []*extSubject {
	d := filepath.Join(scratch(), "c")
	os.MkdirAll(d, 0o755)
	t := filepath.Join(scratch(), "c-target")
	// A copy of the crate, so that cargo cannot touch the tracked Cargo.lock.
	cb := filepath.Join(d, "c_bindings")
	os.MkdirAll(cb, 0o755)
	ents, err := os.ReadDir(filepath.Join(repoDir(), "c_bindings"))
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		if e.IsDir() && (e.Name() == "target" || e.Name() == "tests") {
			continue
		}
		if e.IsDir() {
			copyTree(filepath.Join(cb, e.Name()), filepath.Join(repoDir(), "c_bindings", e.Name()))
			continue
		}
		b, err := os.ReadFile(filepath.Join(repoDir(), "c_bindings", e.Name()))
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		if e.Name() == "Cargo.toml" {
			s = strings.ReplaceAll(s, "\"../\"", "\""+repoDir()+"\"")
		}
		os.WriteFile(filepath.Join(cb, e.Name()), []byte(s), 0o644)
	}
	// The copy gets an allocator that tells the driver the size each release claims: the
	// system's ignores it, so that releasing memory as something else would go unseen.
	if b, err := os.ReadFile(filepath.Join(cb, "lib.rs")); err == nil && !strings.Contains(string(b), "global_allocator") {
		os.WriteFile(filepath.Join(cb, "lib.rs"), append(b, cAllocator...), 0o644)
	}
	t2 := t + "-plain"
	env := []string{"CARGO_PROFILE_DEV_PANIC=abort", "CARGO_NET_OFFLINE=true"}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		must(cb, append(env[:2:2], "CARGO_TARGET_DIR="+t2, "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false", "CARGO_PROFILE_DEV_OPT_LEVEL=2"), "cargo", "build", "--offline", "-q")
	}()
	must(cb, append(env[:2:2], "CARGO_TARGET_DIR="+t), "cargo", "build", "--offline", "-q")
	wg.Wait()
	h, err := os.ReadFile(filepath.Join(repoDir(), "polyglot.h.in"))
	if err != nil {
		die("%v", err)
	}
	hs := strings.NewReplacer("@_VERSION_MAJOR@", "1", "@_VERSION_MINOR@", "0", "@_VERSION_MICRO@", "0").Replace(string(h))
	var out []*extSubject
	// One build with the header as it is, one with that made from its template, with
	// the constants as an enum.
	for _, v := range []struct{ name, t, flag string }{{"c", t, "-std=gnu17"}, {"c-release", t2, "-DPOLYGLOT_USE_C_ENUMS"}} {
		inc := filepath.Join(d, "include-"+v.name)
		os.MkdirAll(inc, 0o755)
		os.WriteFile(filepath.Join(inc, "polyglot.h"), []byte(hs), 0o644)
		if b, err := os.ReadFile(filepath.Join(repoDir(), "polyglot.h")); err == nil && v.name == "c" {
			os.WriteFile(filepath.Join(inc, "polyglot.h"), b, 0o644)
		}
		bin := filepath.Join(d, v.name+"driver")
		must(d, nil, "gcc", "-O1", "-g", "-w", "-rdynamic", "-fno-builtin", "-std=gnu2x", v.flag, "-o", bin, filepath.Join(verifDir(), "drivers/c/driver.c"), "-I"+inc, "-L"+filepath.Join(v.t, "debug"), "-lpolyglot", "-Wl,-rpath,"+filepath.Join(v.t, "debug"))
		s := newExt(v.name, bin)
		s.noNUL, s.unknownRem, s.maxOps = true, true, 5000
		out = append(out, s)
	}
	return out
}

func buildTS(variants ...string) []*extSubject {
	if variants == nil {
		variants = []string{"a", "b"}
	}
	d := filepath.Join(scratch(), "ts")
	os.MkdirAll(d, 0o755)
	bundle := filepath.Join(d, "polyglot.cjs")
	must(d, nil, "/opt/veriftools/node/node_modules/.bin/esbuild", filepath.Join(repoDir(), "index.ts"), "--bundle", "--platform=node", "--format=cjs", "--log-level=error", "--tsconfig-raw={}", "--outfile="+bundle)
	drv := filepath.Join(verifDir(), "drivers/ts/driver.js")
	var out []*extSubject
	for _, v := range variants {
		s := newExt(map[string]string{"a": "ts", "b": "ts-tight", "m": "ts"}[v], "node", drv, bundle, v)
		s.any, s.nan = true, true
		out = append(out, s)
	}
	return out
}
