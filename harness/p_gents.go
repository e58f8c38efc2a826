package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// ---- C21, C22: generated TypeScript code -----------------------------------------------------

type tsGen struct {
	version int
	ok      bool
	files   map[string]string
	dir     string
}

func (g *tsGen) id() string { return fmt.Sprintf("ts-v%d", g.version) }

// tsProp is the name of the accessor of a field.
func tsProp(n string) string {
	n = strings.ToLower(n[:1]) + n[1:]
	if n == "encode" || n == "constructor" {
		return n + "_"
	}
	return n
}

// ordered is a JSON object whose keys keep their order.
type entry struct {
	key   string
	value any
}
type ordered []entry

func (o ordered) MarshalJSON() ([]byte, error) {
	var w bytes.Buffer
	for i, e := range o {
		w.WriteByte("{,"[min(i, 1)])
		k, _ := json.Marshal(e.key)
		v, err := json.Marshal(e.value)
		if err != nil {
			return nil, err
		}
		w.Write(k)
		w.WriteByte(':')
		w.Write(v)
	}
	if len(o) == 0 {
		w.WriteByte('{')
	}
	w.WriteByte('}')
	return w.Bytes(), nil
}

func generateTS(c *Check, version int, fs []*gfile) *tsGen {
	g := &tsGen{version: version, dir: filepath.Join(scratch(), fmt.Sprintf("gents-v%d", version)), files: map[string]string{}}
	proto := filepath.Join(g.dir, "proto")
	names := writeProtos(proto, fs)
	pl := plugin(version, "ts")
	out := filepath.Join(g.dir, "src")
	os.MkdirAll(out, 0o755)
	for i, n := range names {
		o, err := sh(proto, nil, "protoc", "--plugin=protoc-gen-ts-polyglot="+pl, "--ts-polyglot_out="+out, n)
		if err != nil {
			c.Fail(g.id()+"/generator/"+fs[i].Name, "the generator fails on "+n+": "+o[:min(len(o), 1500)], map[string]any{"schema": fs[i].proto()})
			return g
		}
	}
	filepath.Walk(out, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			var w strings.Builder
			for _, l := range strings.Split(string(b), "\n") {
				if !strings.HasPrefix(l, "//") {
					w.WriteString(l + "\n")
				}
			}
			rel, _ := filepath.Rel(out, p)
			g.files[rel] = w.String()
		}
		return nil
	})
	g.ok = true
	return g
}

// build type-checks the generated code together with the library and translates it.
func (g *tsGen) build(c *Check, fs []*gfile) {
	if !g.ok {
		return
	}
	g.ok = false
	lib := filepath.Join(g.dir, "lib")
	os.MkdirAll(lib, 0o755)
	var sources []string
	for _, n := range []string{"index", "encoder", "decoder", "kind"} {
		b, err := os.ReadFile(filepath.Join(repoDir(), n+".ts"))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(lib, n+".ts"), b, 0o644)
	}
	type field struct {
		Prop string `json:"prop"`
		Card string `json:"card"`
		Type string `json:"type"`
		Key  string `json:"key"`
	}
	type message struct {
		File   string  `json:"file"`
		Cls    string  `json:"cls"`
		Fields []field `json:"fields"`
	}
	type enum struct {
		File   string   `json:"file"`
		Cls    string   `json:"cls"`
		Values []string `json:"values"`
	}
	reg, allEnums := map[string]any{}, ordered{}
	for _, f := range fs {
		var found []string
		for n := range g.files {
			if strings.HasPrefix(filepath.Base(n), f.Name+".") || strings.HasPrefix(filepath.Base(n), f.Name+"_") {
				found = append(found, n)
			}
		}
		if len(found) != 1 {
			c.Fail(g.id()+"/output/"+f.Name, "the generator does not write exactly one file for "+f.Name+".proto", nil)
			return
		}
		sources = append(sources, "src/"+found[0])
		enums := map[string]bool{}
		for _, e := range f.Enums {
			enums[e.Name] = true
			allEnums = append(allEnums, entry{f.label(e.Name), enum{strings.TrimSuffix(found[0], ".ts"), f.typeName(e.Name), e.valueNames()}})
		}
		for _, m := range f.Msgs {
			x := message{File: strings.TrimSuffix(found[0], ".ts"), Cls: f.typeName(m.Name), Fields: []field{}}
			for _, fd := range m.Fields {
				y := field{Prop: tsProp(fd.Name), Type: fd.Type}
				if enums[fd.Type] {
					y.Type = "enum"
				} else if strings.ToUpper(fd.Type[:1]) == fd.Type[:1] || strings.Contains(fd.Type, "_") {
					y.Type = f.label(fd.Type)
				}
				switch {
				case fd.Card == "repeated":
					y.Card = "list"
				case strings.HasPrefix(fd.Card, "map:"):
					y.Card, y.Key = "map", fd.Card[4:]
				}
				x.Fields = append(x.Fields, y)
			}
			reg[f.label(m.Name)] = x
		}
	}
	reg[""] = allEnums
	b, _ := json.Marshal(reg)
	os.WriteFile(filepath.Join(g.dir, "registry.json"), b, 0o644)
	cfg, _ := json.Marshal(map[string]any{"files": append([]string{"lib/index.ts"}, sources...),
		"compilerOptions": map[string]any{"target": "es2020", "module": "commonjs", "strict": true, "esModuleInterop": true, "rootDir": ".", "outDir": "out", "types": []string{},
			"paths": map[string][]string{"polyglot": {"./lib/index.ts"}, "@loopholelabs/polyglot": {"./lib/index.ts"}}}})
	os.WriteFile(filepath.Join(g.dir, "tsconfig.json"), cfg, 0o644)
	o, err := sh(g.dir, nil, "tsc", "--pretty", "false", "-p", "tsconfig.json")
	if err != nil {
		g.compileErrors(c, fs, o)
		return
	}
	for _, n := range []string{"polyglot", "@loopholelabs/polyglot"} {
		d := filepath.Join(g.dir, "out", "node_modules", n)
		os.MkdirAll(d, 0o755)
		os.WriteFile(filepath.Join(d, "index.js"), []byte(fmt.Sprintf("module.exports = require(%q);\n", filepath.Join(g.dir, "out", "lib", "index.js"))), 0o644)
	}
	drv, err := os.ReadFile(filepath.Join(verifDir(), "drivers/tsgen/driver.js"))
	if err != nil {
		die("%v", err)
	}
	os.WriteFile(g.driver(), drv, 0o644)
	g.ok = true
}

func (g *tsGen) driver() string { return filepath.Join(g.dir, "out", "driver.js") }

var tsErrLine = regexp.MustCompile(`(?m)^(\S+\.ts)\((\d+),\d+\): error (TS\d+): (.*)$`)
var tsItem = regexp.MustCompile(`^\s*export (?:class|enum) (\w+)`)

func (g *tsGen) compileErrors(c *Check, fs []*gfile, out string) {
	ms := tsErrLine.FindAllStringSubmatch(out, -1)
	for _, m := range ms {
		b, _ := os.ReadFile(filepath.Join(g.dir, m[1]))
		src := strings.Split(string(b), "\n")
		n, _ := strconv.Atoi(m[2])
		who := filepath.Base(m[1])
		for i := min(n, len(src)) - 1; i >= 0; i-- {
			if x := tsItem.FindStringSubmatch(src[i]); x != nil {
				who = x[1]
				break
			}
		}
		for _, f := range fs {
			for _, x := range f.Msgs {
				if f.typeName(x.Name) == who {
					who = f.label(x.Name)
				}
			}
		}
		line := ""
		if n > 0 && n <= len(src) {
			line = strings.TrimSpace(src[n-1])
		}
		c.Fail(g.id()+"/compile/"+who, fmt.Sprintf("the code generated for %s does not compile: %s: %s", who, m[4], line), map[string]any{"message": who})
	}
	if len(ms) == 0 {
		c.Fail(g.id()+"/compile", "the generated code does not compile: "+out[:min(len(out), 2000)], nil)
	}
}

// tsAndGo builds everything; ok is false when something did not build.
func tsAndGo(c *Check) (gs [2]*goGen, ts []*tsGen, ok bool) {
	fs := family()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); gs = bothGo(c) }()
	var all [2]*tsGen
	for v := 1; v <= 2; v++ {
		wg.Add(1)
		go func() { defer wg.Done(); all[v-1] = generateTS(c, v, fs) }()
	}
	wg.Wait()
	ts = all[:]
	same := all[0].ok && all[1].ok && len(all[0].files) == len(all[1].files)
	for n, t := range all[0].files {
		same = same && all[1].files[n] == t
	}
	if same { // one build covers both
		c.Note("both versions generate the same TypeScript code for the family")
		ts = ts[1:]
	}
	for _, r := range ts {
		wg.Add(1)
		go func() { defer wg.Done(); r.build(c, fs) }()
	}
	wg.Wait()
	ok = gs[0].ok && gs[1].ok
	for _, r := range ts {
		ok = ok && r.ok
	}
	return
}

func c21(c *Check) {
	gs, ts, ok := tsAndGo(c)
	famOutcomes(c)
	if !ok {
		return
	}
	l1, l2 := gs[0].list(c), gs[1].list(c)
	if len(l1) != len(l2) {
		c.Fail("wire/listing", fmt.Sprintf("the two Go versions encode %d and %d of the values", len(l1), len(l2)), nil)
		return
	}
	short := func(s string) string {
		if len(s) > 400 {
			return s[:400] + "..."
		}
		return s
	}
	e1 := gs[0].enums(c)
	sameEnums(c, gs[0].id(), e1, gs[1].id(), gs[1].enums(c))
	for _, r := range ts {
		sameEnums(c, gs[0].id(), e1, r.id(), strings.Split(ask1("node", []string{r.driver(), r.dir}, []string{"e\t-\t"})[0], ";"))
		var vs []gvalue
		var reqs []string
		for gi, l := range [][]gvalue{l1, l2} {
			for i, v := range l {
				if !v.Portable || gi == 1 && bytes.Equal(l1[i].Bytes, v.Bytes) {
					continue
				}
				vs = append(vs, v)
				reqs = append(reqs, "m\t"+v.Type+"\t"+hex.EncodeToString(v.Bytes))
			}
		}
		for i, a := range ask("node", []string{r.driver(), r.dir}, reqs) {
			v := vs[i]
			fail := func(what, f string, args ...any) {
				c.Fail(r.id()+"/"+v.Type+"/"+what, fmt.Sprintf("message %s %s, encoded by Go as %s: ", v.Type, short(v.Dump), hexs(v.Bytes))+short(fmt.Sprintf(f, args...)),
					map[string]any{"message": v.Type, "value": v.Dump, "encoding": hex.EncodeToString(v.Bytes)})
			}
			p := strings.Split(a, "\t")
			switch {
			case p[0] == "copy" && len(p) == 3:
				fail("copy", "the generated TypeScript code encodes a copy %s differently: %s", p[1], p[2])
			case p[0] != "ok":
				fail("decode", "the generated TypeScript code ends with: %s", a)
			case p[1] != v.Dump:
				fail("value", "the generated TypeScript code decodes %s", p[1])
			case p[3] != strconv.Itoa(len(v.Bytes)):
				fail("consumed", "the generated TypeScript code consumes %s of %d bytes", p[3], len(v.Bytes))
			case p[2] != hex.EncodeToString(v.Bytes): // maps keep the order of their entries
				fail("bytes", "the generated TypeScript code encodes it as %s", p[2])
			}
		}
		c.Count(r.id()+" messages decoded and encoded", int64(len(reqs)))
		c.transitions.Add(int64(6 * len(reqs)))
		c.traces.Add(int64(len(reqs)))
	}
	c.states.Add(int64(len(l1)))
	c.Sample(map[string]any{"message": l1[len(l1)/2].Type, "value": short(l1[len(l1)/2].Dump), "encoding": hexs(l1[len(l1)/2].Bytes)})
}

func c22(c *Check) {
	gs, ts, ok := tsAndGo(c)
	famOutcomes(c)
	if !ok {
		return
	}
	var subs []damageSubject
	for _, r := range ts {
		subs = append(subs, damageSubject{r.id(), "node", []string{r.driver(), r.dir}, false})
	}
	damaged(c, gs[1], subs, family())
}
