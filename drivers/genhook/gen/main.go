// Driver for the Go generators with code of the user's own: emits one package for every
// combination of insertions, and runs histories of changes of the insertions and requests.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	go1 "github.com/loopholelabs/polyglot/generator/golang"
	go2 "github.com/loopholelabs/polyglot/v2/generator/golang"
)

// code returns what a mask inserts: bit 0 fields, bit 1 encoding, bit 2 decoding.
func code(mask int) (f, e, d string) {
	if mask&1 != 0 {
		f = "Tag uint32"
	}
	if mask&2 != 0 {
		e = "polyglot.Encoder(b).Uint32(" + strconv.Itoa(0x4ab00000) + ")"
		if mask&1 != 0 {
			e = "polyglot.Encoder(b).Uint32(x.Tag)"
		}
	}
	if mask&4 != 0 {
		d = "if _, err = d.Uint32(); err != nil {\nreturn err\n}"
		if mask&1 != 0 {
			d = "x.Tag, err = d.Uint32()\nif err != nil {\nreturn err\n}"
		}
	}
	return
}

type gen struct {
	set      func(f, e, d func() string)
	generate func(*pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
	execute  func(*protogen.GeneratedFile, *protogen.File, string, bool) error
}

func newGen(version int) *gen {
	if version == 1 {
		g := go1.New()
		return &gen{func(f, e, d func() string) { g.CustomFields, g.CustomEncode, g.CustomDecode = f, e, d }, g.Generate, g.ExecuteTemplate}
	}
	g := go2.New()
	return &gen{func(f, e, d func() string) { g.CustomFields, g.CustomEncode, g.CustomDecode = f, e, d }, g.Generate, g.ExecuteTemplate}
}

// assign gives the generator functions that return the code of the mask.
func (g *gen) assign(mask int) {
	f, e, d := code(mask)
	g.set(func() string { return f }, func() string { return e }, func() string { return d })
}

// follow gives it functions that return the code of whatever the mask is when they are called.
func (g *gen) follow(mask *int) {
	g.set(func() string { f, _, _ := code(*mask); return f }, func() string { _, e, _ := code(*mask); return e }, func() string { _, _, d := code(*mask); return d })
}

var files = map[string]*descriptorpb.FileDescriptorProto{}

func request(name string) *pluginpb.CodeGeneratorRequest {
	return &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*descriptorpb.FileDescriptorProto{files[name]}}
}

// text is the Go source for one file: in a way of 0 by Generate, 1 by ExecuteTemplate behind
// a head of the caller's, 2 by ExecuteTemplate with a package name of the caller's.
func (g *gen) text(version int, name string, way int) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if way == 0 {
		res, err := g.generate(request(name))
		if err != nil {
			return "", err
		}
		if res.Error != nil || len(res.File) != 1 {
			return "", fmt.Errorf("%d files, error %q", len(res.File), res.GetError())
		}
		return res.File[0].GetContent(), nil
	}
	p, err := protogen.Options{}.New(request(name))
	if err != nil {
		return "", err
	}
	f := p.FilesByPath[name]
	out := p.NewGeneratedFile("out.go", f.GoImportPath)
	if way == 1 {
		out.P("package demo")
		out.P(`import "errors"`)
		out.P(`import "github.com/loopholelabs/polyglot`, map[int]string{1: "", 2: "/v2"}[version], `"`)
	}
	if err := g.execute(out, f, "renamed", way == 2); err != nil {
		return "", err
	}
	b, err := out.Content()
	return string(b), err
}

type fail struct{ Key, Detail string }

func main() {
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var set descriptorpb.FileDescriptorSet
	if err := proto.Unmarshal(b, &set); err != nil {
		panic(err)
	}
	for _, f := range set.File {
		files[f.GetName()] = f
	}
	version, _ := strconv.Atoi(os.Args[3])
	var rep struct {
		Fails            []fail
		Histories, Calls int64
	}
	seen := map[string]bool{}
	report := func(k, d string) {
		if !seen[k] {
			seen[k] = true
			rep.Fails = append(rep.Fails, fail{k, d})
		}
	}
	defer func() {
		b, _ := json.Marshal(&rep)
		os.Stdout.Write(b)
	}()
	if os.Args[1] == "packages" { // packages <set> <version> <dir>
		for mask := 0; mask < 8; mask++ {
			for way := 0; way < 3; way++ {
				g := newGen(version)
				g.assign(mask)
				t, err := g.text(version, "demo.proto", way)
				rep.Calls++
				if err != nil {
					report(fmt.Sprintf("generate/%d/%d", mask, way), fmt.Sprintf("with insertions %03b, way %d: %v", mask, way, err))
					continue
				}
				dir := filepath.Join(os.Args[4], fmt.Sprintf("v%dm%dw%d", version, mask, way))
				os.MkdirAll(dir, 0o755)
				os.WriteFile(filepath.Join(dir, "demo.go"), []byte(t), 0o644)
			}
		}
		return
	}
	// histories <set> <version> <depth> <first>: two generators, one given new functions for
	// each request, the other with functions that follow a variable.
	depth, _ := strconv.Atoi(os.Args[4])
	first, _ := strconv.Atoi(os.Args[5])
	type op struct{ g, mask, what int }
	type what struct {
		file string
		way  int
	}
	whats := []what{{"small.proto", 0}, {"small.proto", 1}, {"other.proto", 0}}
	var ops []op
	for g := 0; g < 2; g++ {
		for mask := 0; mask < 8; mask++ {
			for w := range whats {
				ops = append(ops, op{g, mask, w})
			}
		}
	}
	if first < 0 {
		rep.Histories = int64(len(ops))
		return
	}
	want := map[[2]int]string{}
	for mask := 0; mask < 8; mask++ {
		for w, x := range whats {
			g := newGen(version)
			g.assign(mask)
			t, err := g.text(version, x.file, x.way)
			if err != nil {
				report("fresh", fmt.Sprintf("a fresh generator with insertions %03b fails on %s: %v", mask, x.file, err))
				return
			}
			want[[2]int{mask, w}] = t
		}
	}
	var rec func(h []op)
	rec = func(h []op) {
		gs := []*gen{newGen(version), newGen(version)}
		var mask int
		gs[1].follow(&mask)
		for i, o := range h {
			if o.g == 0 {
				gs[0].assign(o.mask)
			} else {
				mask = o.mask
			}
			t, err := gs[o.g].text(version, whats[o.what].file, whats[o.what].way)
			rep.Calls++
			if i < len(h)-1 {
				continue
			}
			if err != nil {
				report("history-fails", fmt.Sprintf("history %v fails: %v", h, err))
			} else if t != want[[2]int{o.mask, o.what}] {
				report(fmt.Sprintf("history/%d", o.g), fmt.Sprintf("after %v, generator %d with insertions %03b gives another output for %v than a fresh one", h[:i], o.g, o.mask, whats[o.what]))
			}
		}
		rep.Histories++
		if len(h) < depth {
			for _, o := range ops {
				rec(append(append([]op{}, h...), o))
			}
		}
	}
	rec([]op{ops[first]})
}
