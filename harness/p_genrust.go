package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// ---- C18, C20: generated Rust code ----------------------------------------------------------

// rustFamily is the part of the family that generated Rust code can express: a struct
// cannot hold itself there.
func rustFamily() []*gfile {
	var out []*gfile
	for _, f := range family() {
		if !f.Rust {
			continue
		}
		g := *f
		g.Msgs = nil
		for _, m := range f.Msgs {
			if m.Rust {
				g.Msgs = append(g.Msgs, m)
			}
		}
		out = append(out, &g)
	}
	return out
}

type rustGen struct {
	version int
	ok      bool
	bin     string
	files   map[string]string // generated file -> text without comments
	dir     string
}

func (g *rustGen) id() string { return fmt.Sprintf("rust-v%d", g.version) }

var rustKeywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("as async await become box break const continue do dyn else enum extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return static struct trait true try type typeof unsafe unsized use virtual where while yield abstract") {
		rustKeywords[k] = true
	}
}

func rustField(n string) string {
	n = snake(n)
	if rustKeywords[n] {
		return "r#" + n
	}
	return n
}

// generateRust runs the generator of one version over the family.
func generateRust(c *Check, version int, fs []*gfile) *rustGen {
	g := &rustGen{version: version, dir: filepath.Join(scratch(), fmt.Sprintf("genrs-v%d", version)), files: map[string]string{}}
	proto := filepath.Join(g.dir, "proto")
	names := writeProtos(proto, fs)
	pl := plugin(version, "rs")
	for _, privacy := range []string{"public", "private", "crate", ""} {
		out := filepath.Join(g.dir, "gen"+privacy)
		os.MkdirAll(out, 0o755)
		for i, n := range names {
			if privacy != "public" && fs[i].Name == "fam" {
				continue
			}
			args := []string{"--plugin=protoc-gen-rs-polyglot=" + pl, "--rs-polyglot_out=" + out, n}
			if privacy != "" {
				args = append(args, "--rs-polyglot_opt=privacy="+privacy)
			}
			o, err := sh(proto, nil, "protoc", args...)
			if err != nil {
				c.Fail(g.id()+"/generator/"+fs[i].Name, "the generator fails on "+n+" (privacy "+privacy+"): "+o[:min(len(o), 1500)], map[string]any{"schema": fs[i].proto()})
				return g
			}
		}
		filepath.Walk(out, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				b, _ := os.ReadFile(p)
				var w strings.Builder
				for _, l := range strings.Split(string(b), "\n") {
					if !strings.HasPrefix(l, "//") {
						w.WriteString(l + "\n")
					}
				}
				rel, _ := filepath.Rel(g.dir, p)
				g.files[rel] = w.String()
			}
			return nil
		})
	}
	g.ok = true
	return g
}

func (g *rustGen) file(privacy, name string) string {
	var found []string
	filepath.Walk(filepath.Join(g.dir, "gen"+privacy), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && (strings.HasPrefix(filepath.Base(p), name+".") || strings.HasPrefix(filepath.Base(p), name+"_")) {
			found = append(found, p)
		}
		return nil
	})
	if len(found) != 1 {
		return ""
	}
	return found[0]
}

// build compiles the generated code with the driver.
func (g *rustGen) build(c *Check, fs []*gfile) {
	if !g.ok {
		return
	}
	g.ok = false
	d := filepath.Join(g.dir, "crate")
	if o, err := sh("/", nil, "cp", "-r", filepath.Join(verifDir(), "drivers/rustgen"), d); err != nil {
		die("%s", o)
	}
	b, _ := os.ReadFile(filepath.Join(d, "Cargo.toml"))
	os.WriteFile(filepath.Join(d, "Cargo.toml"), bytes.ReplaceAll(b, []byte("REPO"), []byte(repoDir())), 0o644)
	var r strings.Builder
	r.WriteString("#![allow(dead_code)]\nuse std::io::Cursor;\n")
	for _, f := range fs {
		p := g.file("public", f.Name)
		if p == "" {
			c.Fail(g.id()+"/output/"+f.Name, "the generator does not write exactly one file for "+f.Name+".proto", nil)
			return
		}
		fmt.Fprintf(&r, "#[path = %q]\npub mod m_%s;\n", p, f.Name)
		for _, pr := range []string{"private", "crate", ""} {
			if p := g.file(pr, f.Name); p != "" {
				fmt.Fprintf(&r, "#[path = %q]\nmod m_%s_%s;\n", p, f.Name, pr)
			}
		}
	}
	for _, f := range fs {
		for _, e := range f.Enums {
			fmt.Fprintf(&r, "crate::enumeration!(m_%s, %s);\n", f.Name, f.typeName(e.Name))
		}
		for _, m := range f.Msgs {
			var fl []string
			for _, x := range m.Fields {
				fl = append(fl, rustField(x.Name))
			}
			fmt.Fprintf(&r, "crate::message!(m_%s, %s, [%s]);\n", f.Name, f.typeName(m.Name), strings.Join(fl, ", "))
		}
	}
	r.WriteString("pub fn run(t: &str, b: &mut Cursor<&mut Vec<u8>>, full: bool) -> crate::Outcome {\n    match t {\n")
	for _, f := range fs {
		for _, m := range f.Msgs {
			fmt.Fprintf(&r, "        %q => crate::run!(m_%s, %s, b, full),\n", f.label(m.Name), f.Name, f.typeName(m.Name))
		}
	}
	r.WriteString("        _ => panic!(\"unknown message {}\", t),\n    }\n}\npub fn enums() -> Vec<(&'static str, Vec<u32>)> {\n    vec![\n")
	for _, f := range fs {
		for _, e := range f.Enums {
			fmt.Fprintf(&r, "        (%q, vec![", f.label(e.Name))
			for _, v := range e.valueNames() {
				fmt.Fprintf(&r, "m_%s::%s::%s as u32, ", f.Name, f.typeName(e.Name), v)
			}
			r.WriteString("]),\n")
		}
	}
	r.WriteString("    ]\n}\n")
	os.WriteFile(filepath.Join(d, "src", "registry.rs"), []byte(r.String()), 0o644)
	t := filepath.Join(g.dir, "target")
	o, err := sh(d, []string{"CARGO_TARGET_DIR=" + t, "CARGO_NET_OFFLINE=true"}, "cargo", "build", "--offline", "-q", "--message-format=short")
	if err != nil {
		g.compileErrors(c, fs, o)
		return
	}
	g.bin = filepath.Join(t, "debug", "rustgen")
	g.ok = true
}

var rsErrLine = regexp.MustCompile(`(?m)^(\S+\.rs):(\d+):\d+: error(?:\[E\d+\])?: (.*)$`)
var rsItem = regexp.MustCompile(`^(?:impl .* for|pub struct|pub enum) (\w+)`)

func (g *rustGen) compileErrors(c *Check, fs []*gfile, out string) {
	ms := rsErrLine.FindAllStringSubmatch(out, -1)
	for _, m := range ms {
		p := m[1]
		if !filepath.IsAbs(p) {
			p = filepath.Join(g.dir, "crate", p)
		}
		if strings.HasSuffix(p, "registry.rs") || strings.HasSuffix(p, "main.rs") {
			c.Fail(g.id()+"/api", "the generated code lacks its documented types, fields or traits: "+m[3], nil)
			continue
		}
		b, _ := os.ReadFile(p)
		src := strings.Split(string(b), "\n")
		n, _ := strconv.Atoi(m[2])
		who := filepath.Base(p)
		for i := min(n, len(src)) - 1; i >= 0; i-- {
			if x := rsItem.FindStringSubmatch(src[i]); x != nil {
				who = x[1]
				break
			}
		}
		for _, f := range fs {
			for _, x := range f.Msgs {
				if f.typeName(x.Name) == who {
					who = f.label(x.Name)
				}
			}
		}
		line := ""
		if n > 0 && n <= len(src) {
			line = strings.TrimSpace(src[n-1])
		}
		c.Fail(g.id()+"/compile/"+who, fmt.Sprintf("the code generated for %s does not compile: %s: %s", who, m[3], line), map[string]any{"message": who})
	}
	if len(ms) == 0 {
		c.Fail(g.id()+"/compile", "the generated code does not compile: "+out[:min(len(out), 2000)], nil)
	}
}

// gvalue is one value of a message type, as the Go driver lists it.
type gvalue struct {
	Type, Dump      string
	Bytes           []byte
	Portable, Multi bool
	Class           string
}

func (g *goGen) list(c *Check) []gvalue {
	out, err := exec.Command(g.bin, "list", strconv.Itoa(level(c))).Output()
	if err != nil {
		c.Fail(g.id()+"/list", "listing the encodings ended: "+err.Error(), nil)
		return nil
	}
	var vs []gvalue
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(nil, 64<<20)
	for sc.Scan() {
		f := strings.Split(sc.Text(), "\t")
		b, _ := hex.DecodeString(f[2])
		vs = append(vs, gvalue{f[0], f[1], b, f[3] == "true", f[4] == "true", f[5]})
	}
	return vs
}

// ask sends requests to a line-oriented driver split over the cores. Answers past the end
// of a driver that died are "dead <why>".
func ask(bin string, args []string, reqs []string) []string {
	out := make([]string, len(reqs))
	n := 8
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		lo, hi := len(reqs)*w/n, len(reqs)*(w+1)/n
		if lo == hi {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			copy(out[lo:hi], ask1(bin, args, reqs[lo:hi]))
		}()
	}
	wg.Wait()
	return out
}

// lineReader reads lines, each with its end, without putting them together.
type lineReader struct {
	lines []string
	at    int
}

func (r *lineReader) Read(p []byte) (n int, err error) {
	for n < len(p) && len(r.lines) > 0 {
		l := r.lines[0]
		k := copy(p[n:], l[r.at:])
		n += k
		if r.at += k; r.at == len(l) && n < len(p) {
			p[n] = '\n'
			n++
			r.lines, r.at = r.lines[1:], 0
		}
	}
	if n == 0 && len(r.lines) == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// ask1 finds out which request a driver died on by halving.
func ask1(bin string, args []string, reqs []string) []string {
	out := make([]string, len(reqs))
	cmd := exec.Command("timeout", append([]string{"600", bin}, args...)...)
	cmd.Stdin = &lineReader{lines: reqs}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	ls := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if err == nil && len(ls) == len(reqs) {
		return ls
	}
	if len(reqs) == 1 {
		out[0] = fmt.Sprintf("dead %v %s", err, eb.String()[:min(eb.Len(), 400)])
		return out
	}
	mid := len(reqs) / 2
	copy(out, ask1(bin, args, reqs[:mid]))
	copy(out[mid:], ask1(bin, args, reqs[mid:]))
	return out
}

// rustAndGo builds everything; ok is false when something did not build.
func rustAndGo(c *Check) (gs [2]*goGen, rs []*rustGen, ok bool) {
	fs := rustFamily()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); gs = bothGo(c) }()
	var all [2]*rustGen
	for v := 1; v <= 2; v++ {
		wg.Add(1)
		go func() { defer wg.Done(); all[v-1] = generateRust(c, v, fs) }()
	}
	wg.Wait()
	rs = all[:]
	same := all[0].ok && all[1].ok && len(all[0].files) == len(all[1].files)
	for n, t := range all[0].files {
		same = same && all[1].files[n] == t
	}
	if same { // one build covers both
		c.Note("both versions generate the same Rust code for the family")
		rs = rs[1:]
	}
	for _, r := range rs {
		wg.Add(1)
		go func() { defer wg.Done(); r.build(c, fs) }()
	}
	wg.Wait()
	ok = gs[0].ok && gs[1].ok
	for _, r := range rs {
		ok = ok && r.ok
	}
	return
}

// enums asks for the numbers of the constants of every enum.
func (g *goGen) enums(c *Check) []string {
	if !g.ok {
		return nil
	}
	out, err := exec.Command(g.bin, "enums", "1").Output()
	if err != nil {
		c.Fail(g.id()+"/enums", "listing the enums ended: "+err.Error(), nil)
		return nil
	}
	return strings.Split(strings.TrimSpace(string(out)), "\n")
}

// sameEnums compares the numbers of enum constants in two languages.
func sameEnums(c *Check, a string, as []string, b string, bs []string) {
	for i := range as {
		if x := strings.Fields(as[i] + " ?")[0]; i >= len(bs) || as[i] != bs[i] {
			other := "nothing"
			if i < len(bs) {
				other = bs[i]
			}
			c.Fail("enums/"+x+"/"+a+"-"+b, fmt.Sprintf("the constants of the enum %s are numbered %s by %s and %s by %s", x, as[i], a, other, b), map[string]any{"enum": x})
		}
	}
	c.Count("enums compared between "+a+" and "+b, int64(len(as)))
}

func c18(c *Check) {
	gs, rs, ok := rustAndGo(c)
	famOutcomes(c)
	if !ok {
		return
	}
	inRust := map[string]bool{}
	for _, f := range rustFamily() {
		for _, m := range f.Msgs {
			inRust[f.label(m.Name)] = true
		}
	}
	l1, l2 := gs[0].list(c), gs[1].list(c)
	if len(l1) != len(l2) {
		c.Fail("wire/listing", fmt.Sprintf("the two Go versions encode %d and %d of the values", len(l1), len(l2)), nil)
		return
	}
	rp := func(v gvalue, more ...any) map[string]any {
		m := map[string]any{"message": v.Type, "value": v.Dump, "encoding": hex.EncodeToString(v.Bytes)}
		for i := 0; i+1 < len(more); i += 2 {
			m[fmt.Sprint(more[i])] = more[i+1]
		}
		return m
	}
	short := func(s string) string {
		if len(s) > 400 {
			return s[:400] + "..."
		}
		return s
	}
	for i, v := range l1 {
		w := l2[i]
		if v.Type != w.Type || v.Dump != w.Dump {
			c.Fail("wire/"+v.Type+"/values", fmt.Sprintf("value %d is %s %s in one Go version and %s %s in the other", i, v.Type, short(v.Dump), w.Type, short(w.Dump)), nil)
			return
		}
		if !v.Multi && !bytes.Equal(v.Bytes, w.Bytes) {
			c.Fail("wire/"+v.Type+"/go-versions-differ", fmt.Sprintf("message %s %s: Go v1 encodes %s, Go v2 %s", v.Type, short(v.Dump), hexs(v.Bytes), hexs(w.Bytes)), rp(v, "other", hex.EncodeToString(w.Bytes)))
		}
	}
	c.Count("encodings compared between Go versions", int64(len(l1)))
	e1 := gs[0].enums(c)
	sameEnums(c, gs[0].id(), e1, gs[1].id(), gs[1].enums(c))
	for _, r := range rs {
		sameEnums(c, gs[0].id(), e1, r.id(), strings.Split(ask1(r.bin, nil, []string{"e\t-\t"})[0], ";"))
		var vs []gvalue
		var reqs []string
		for gi, l := range [][]gvalue{l1, l2} {
			for i, v := range l {
				if !v.Portable || !inRust[v.Type] || gi == 1 && bytes.Equal(l1[i].Bytes, v.Bytes) {
					continue
				}
				vs = append(vs, v)
				reqs = append(reqs, "m\t"+v.Type+"\t"+hex.EncodeToString(v.Bytes))
			}
		}
		ans := ask(r.bin, nil, reqs)
		var back []string
		var backOf []int
		for i, a := range ans {
			v := vs[i]
			fail := func(what, f string, args ...any) {
				c.Fail(r.id()+"/"+v.Type+"/"+what, fmt.Sprintf("message %s %s, encoded by Go as %s: ", v.Type, short(v.Dump), hexs(v.Bytes))+short(fmt.Sprintf(f, args...)), rp(v))
			}
			p := strings.Split(a, "\t")
			switch {
			case p[0] != "ok":
				fail("decode", "the generated Rust code ends with: %s", a)
				continue
			case p[1] != v.Dump:
				fail("value", "the generated Rust code decodes %s", p[1])
				continue
			case p[3] != strconv.Itoa(len(v.Bytes)):
				fail("consumed", "the generated Rust code consumes %s of %d bytes", p[3], len(v.Bytes))
				continue
			}
			if e := hex.EncodeToString(v.Bytes); !v.Multi && p[2] != e {
				fail("bytes", "the generated Rust code encodes it as %s", p[2])
			} else if p[2] != e {
				back = append(back, v.Type+"\t"+p[2])
				backOf = append(backOf, i)
			}
		}
		c.Count(r.id()+" messages decoded and encoded", int64(len(ans)))
		c.transitions.Add(int64(2 * len(ans)))
		c.traces.Add(int64(len(ans)))
		for _, g := range gs {
			for j, a := range ask(g.bin, []string{"serve", "1"}, back) {
				v := vs[backOf[j]]
				if a2 := strings.Split(a, "\t"); a2[0] != "ok "+v.Dump && v.Class == "" {
					c.Fail(r.id()+"/"+v.Type+"/to-"+g.id(), fmt.Sprintf("message %s %s, encoded by the generated Rust code as %s, decodes in Go to %s", v.Type, short(v.Dump), short(back[j]), short(a)), rp(v, "rust", back[j]))
				}
			}
			c.Count(r.id()+" encodings decoded by "+g.id(), int64(len(back)))
			c.transitions.Add(int64(len(back)))
		}
	}
	c.states.Add(int64(len(l1)))
	c.Sample(map[string]any{"message": l1[len(l1)/2].Type, "value": short(l1[len(l1)/2].Dump), "encoding": hexs(l1[len(l1)/2].Bytes)})
}

// ---- C20: damaged input for generated Rust code ----

func uvarintEnd(b []byte, i int) int {
	for ; i < len(b); i++ {
		if b[i] < 0x80 {
			return i + 1
		}
	}
	return len(b)
}

func uvarintVal(b []byte, i int) (x int) {
	for s := 0; i < len(b); i, s = i+1, s+7 {
		x |= int(b[i]&0x7f) << s
		if b[i] < 0x80 {
			break
		}
	}
	return
}

// wireTokens splits an encoding into its values; nil if it cannot.
func wireTokens(b []byte) (out [][2]int) {
	for i := 0; i < len(b); {
		at := i
		lenAt := func(j int) int {
			if j >= len(b) || b[j] != 10 {
				return len(b) + 1
			}
			return uvarintEnd(b, j+1) + uvarintVal(b, j+1)
		}
		switch b[i] {
		case 0:
			i++
		case 1:
			i = uvarintEnd(b, i+3)
		case 2:
			i = uvarintEnd(b, i+4)
		case 4, 5:
			i = lenAt(i + 1)
		case 6:
			i = lenAt(i + 2)
		case 7, 8:
			i += 2
		case 9, 10, 11, 12, 13:
			i = uvarintEnd(b, i+1)
		case 14:
			i += 5
		case 15:
			i += 9
		default:
			return nil
		}
		if i > len(b) {
			return nil
		}
		out = append(out, [2]int{at, i})
	}
	return
}

var otherValues = [][]byte{
	{0}, {1, 3, 10, 0}, {1, 10, 10, 1}, {1, 5, 10, 0}, {2, 5, 10, 10, 0}, {2, 10, 3, 10, 0}, {4, 10, 1, 9}, {4, 10, 0}, {5, 10, 1, 65}, {5, 10, 0}, {6, 5, 10, 1, 65},
	{7, 1}, {7, 0}, {8, 1}, {9, 1}, {10, 1}, {10, 0}, {11, 1}, {12, 1}, {13, 1}, {14, 0, 0, 0, 0}, {15, 0, 0, 0, 0, 0, 0, 0, 0}, {16, 1}, {0x80, 1}, {3, 0},
}

func sameWireKind(a, b []byte) bool {
	switch {
	case a[0] != b[0]:
		return false
	case a[0] == 1:
		return len(a) > 1 && len(b) > 1 && a[1] == b[1]
	case a[0] == 2:
		return len(a) > 2 && len(b) > 2 && a[1] == b[1] && a[2] == b[2]
	}
	return true
}

func putUvarint(x uint64) (out []byte) {
	for ; x >= 128; x >>= 7 {
		out = append(out, byte(x)|128)
	}
	return append(out, byte(x))
}

// mayBeEmpty tells for every message of the family whether a value of it may take no
// bytes, or hold one that does.
func mayBeEmpty(fs []*gfile) map[string]bool {
	out := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			for _, m := range f.Msgs {
				e := len(m.Fields) == 0
				for _, x := range m.Fields {
					e = e || out[f.label(x.Type)]
				}
				if e && !out[f.label(m.Name)] {
					out[f.label(m.Name)] = true
					changed = true
				}
			}
		}
	}
	return out
}

// damageSubject is a driver that decodes damaged messages and answers with one letter
// per input.
type damageSubject struct {
	id, bin string
	args    []string
	nils    bool // tells nil messages from errors
}

func c20(c *Check) {
	gs, rs, ok := rustAndGo(c)
	famOutcomes(c)
	if !ok {
		return
	}
	var subs []damageSubject
	for _, r := range rs {
		subs = append(subs, damageSubject{r.id(), r.bin, nil, true})
	}
	damaged(c, gs[1], subs, rustFamily())
}

// damaged decodes damaged encodings of the values of every message of fs.
func damaged(c *Check, g *goGen, subs []damageSubject, fs []*gfile) {
	empty := mayBeEmpty(fs)
	byType := map[string][]gvalue{}
	var names []string
	for _, f := range fs {
		for _, m := range f.Msgs {
			names = append(names, f.label(m.Name))
			byType[f.label(m.Name)] = nil
		}
	}
	for _, v := range g.list(c) {
		if _, ok := byType[v.Type]; ok && v.Portable {
			byType[v.Type] = append(byType[v.Type], v)
			c.states.Add(1)
		}
	}
	limit := 16
	if level(c) >= 2 {
		limit = 120
	}
	// One request per value and mutation class: the answers are one letter per input.
	type req struct {
		line string
		what string
		v    gvalue
	}
	var reqs []req
	var pending int
	flush := func() {}
	add := func(q req) {
		reqs = append(reqs, q)
		if pending += len(q.line); pending > 300<<20 {
			flush()
		}
	}
	list := func(what string, v gvalue, inputs [][]byte) {
		if len(inputs) == 0 {
			return
		}
		var w strings.Builder
		w.WriteString("i\t" + v.Type)
		for _, b := range inputs {
			w.WriteString("\t" + hex.EncodeToString(b))
		}
		add(req{w.String(), what, v})
	}
	// What each letter means is in the driver: A accepted, N nil, e error, P panic or stray
	// exception, M too much memory, S too slow, C input changed, B position past the end.
	allowed := map[string]string{"short": "ANe", "prefix": "e", "replaced": "e", "nil": "Ne", "claimed": "e", "mutated": "ANe"}
	letters := map[byte]string{'A': "accepted", 'N': "taken-for-nil", 'P': "panics", 'M': "allocates", 'C': "changes-input", 'B': "position", 'S': "slow"}
	flush = func() {
		if len(reqs) == 0 {
			return
		}
		lines := make([]string, len(reqs))
		for i, r := range reqs {
			lines[i] = r.line
		}
		for _, r := range subs {
			for i, a := range ask(r.bin, r.args, lines) {
				q := reqs[i]
				if strings.HasPrefix(a, "dead ") {
					c.Fail(r.id+"/"+q.v.Type+"/"+q.what+"-dies", fmt.Sprintf("message %s: decoding one of these inputs ends the process: %s: %s", q.v.Type, q.line[:min(len(q.line), 300)], a), map[string]any{"request": q.line[:min(len(q.line), 4000)]})
					continue
				}
				ok := allowed[q.what]
				if !r.nils {
					ok = strings.ReplaceAll(ok, "N", "")
				}
				if empty[q.v.Type] {
					ok += "A"
				}
				c.transitions.Add(int64(len(a)))
				c.traces.Add(int64(len(a)))
				c.Count(r.id+" "+q.what, int64(len(a)))
				for j := 0; j < len(a); j++ {
					if strings.IndexByte(ok, a[j]) >= 0 {
						continue
					}
					in := q.v.Bytes
					if q.what == "prefix" {
						in = in[:j]
					} else {
						in, _ = hex.DecodeString(strings.Split(q.line, "\t")[2+j])
					}
					c.Fail(r.id+"/"+q.v.Type+"/"+q.what+"-"+letters[a[j]], fmt.Sprintf("message %s, input %s (%s of the encoding %s): %s", q.v.Type, hexs(in), q.what, hexs(q.v.Bytes), letters[a[j]]), map[string]any{"message": q.v.Type, "input": hex.EncodeToString(in)})
				}
			}
		}
		c.Sample(map[string]any{"request": lines[len(lines)/2][:min(300, len(lines[len(lines)/2]))]})
		reqs, pending = nil, 0
	}
	alpha := []byte{0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 127, 128, 255}
	var short [][]byte
	depth := 2
	if level(c) >= 2 {
		depth = 3
	}
	var rec func(p []byte)
	rec = func(p []byte) {
		short = append(short, bytes.Clone(p))
		if len(p) < depth {
			for _, x := range alpha {
				rec(append(p, x))
			}
		}
	}
	rec(nil)
	for _, n := range names {
		vs := byType[n]
		if len(vs) == 0 {
			continue
		}
		list("short", gvalue{Type: n}, short)
		step := 1
		if len(vs) > limit {
			step = len(vs)/limit + 1
		}
		for i := 0; i < len(vs); i++ {
			v := vs[i]
			b := v.Bytes
			if len(b) <= 400 || i%step == 0 {
				add(req{"p\t" + n + "\t" + hex.EncodeToString(b), "prefix", v})
			}
			if i%step != 0 && i != len(vs)-1 {
				continue
			}
			toks := wireTokens(b)
			if len(toks) > 40 {
				toks = append(append([][2]int{}, toks[:20]...), toks[len(toks)-20:]...)
			}
			var replaced, nils, claimed [][]byte
			for ti, tk := range toks {
				old := b[tk[0]:tk[1]]
				for _, o := range otherValues {
					if sameWireKind(o, old) {
						continue
					}
					in := append(append(bytes.Clone(b[:tk[0]]), o...), b[tk[1]:]...)
					if o[0] == 0 && ti == 0 {
						nils = append(nils, in)
					} else {
						replaced = append(replaced, in)
					}
				}
				at := 0
				switch old[0] {
				case 1:
					at = tk[0] + 3
				case 2:
					at = tk[0] + 4
				case 4, 5:
					at = tk[0] + 2
				default:
					continue
				}
				for _, size := range []uint64{1 << 12, 1 << 20, 1 << 28, 1<<31 - 1, 1<<32 - 1, 1 << 32} {
					claimed = append(claimed, append(append(bytes.Clone(b[:at]), putUvarint(size)...), b[uvarintEnd(b, at):]...))
				}
			}
			list("replaced", v, replaced)
			list("nil", v, nils)
			if !empty[n] {
				list("claimed", v, claimed)
			}
			if len(b) <= 48 {
				var mut [][]byte
				for i := range b {
					for x := 0; x < 256; x++ {
						in := bytes.Clone(b)
						in[i] = byte(x)
						mut = append(mut, in)
					}
				}
				if !empty[n] {
					list("mutated", v, mut)
				}
			}
		}
	}
	flush()
	for _, r := range subs {
		// A list that claims a million messages without fields, in 14 bytes.
		in := append(append([]byte{10, 0, 1, 3, 10}, putUvarint(1<<20)...), 2, 5, 3, 10, 0, 10, 0, 5, 10, 0)
		a := ask1(r.bin, r.args, []string{"i\tManyEmpty\t" + hex.EncodeToString(in)})[0]
		if a != "e" {
			what := map[string]string{"A": "claimed-accepted", "N": "claimed-taken-for-nil", "P": "claimed-panics", "M": "claimed-allocates"}[a]
			if what == "" {
				what = "claimed-dies"
			}
			c.Fail(r.id+"/zero-bytes/"+what, fmt.Sprintf("message ManyEmpty, input %x claims %d elements: %s", in, 1<<20, what), map[string]any{"message": "ManyEmpty", "input": hex.EncodeToString(in)})
		}
		// Each level is a number and a list of one message.
		deep := append(bytes.Repeat([]byte{10, 1, 1, 3, 10, 1}, 500_000), 10, 1, 1, 3, 10, 0)
		a = ask1(r.bin, r.args, []string{"i\tRepRec\t" + hex.EncodeToString(deep)})[0]
		c.Count(r.id+" deeply nested messages", 1)
		switch {
		case strings.HasPrefix(a, "dead ") && strings.Contains(a, "overflowed its stack"), a == "O":
			c.Fail(r.id+"/deep-nesting", "decoding RepRec messages nested 500000 deep (3 MB of input) overflows the stack", map[string]any{"message": "RepRec", "input": "(0a010103 0a01) x 500000, 0a0101030a00"})
		case a != "A" && a != "e":
			c.Fail(r.id+"/deep-nesting-fails", "decoding RepRec messages nested 500000 deep: "+a, nil)
		}
	}
}

func hexs(b []byte) string {
	if len(b) > 120 {
		return hex.EncodeToString(b[:60]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}
