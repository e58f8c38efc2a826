// Driver for the code generators: runs histories of requests on them, in one process.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	go1 "github.com/loopholelabs/polyglot/generator/golang"
	rs1 "github.com/loopholelabs/polyglot/generator/rust"
	ts1 "github.com/loopholelabs/polyglot/generator/typescript"
	go2 "github.com/loopholelabs/polyglot/v2/generator/golang"
	rs2 "github.com/loopholelabs/polyglot/v2/generator/rust"
	ts2 "github.com/loopholelabs/polyglot/v2/generator/typescript"
)

type generator interface {
	UnmarshalRequest([]byte) (*pluginpb.CodeGeneratorRequest, error)
	MarshalResponse(*pluginpb.CodeGeneratorResponse) ([]byte, error)
	Generate(*pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
}

func custom() string { return "/* custom */" }

// make creates a generator; custom ones insert something of their own.
var makers = map[string]func(withCustom bool) generator{
	"go-v1": func(w bool) generator {
		g := go1.New()
		if w {
			g.CustomFields, g.CustomEncode, g.CustomDecode = custom, custom, custom
		}
		return g
	},
	"go-v2": func(w bool) generator {
		g := go2.New()
		if w {
			g.CustomFields, g.CustomEncode, g.CustomDecode = custom, custom, custom
		}
		return g
	},
	"rust-v1": func(w bool) generator {
		g := rs1.New()
		if w {
			g.CustomFields, g.CustomEncode, g.CustomDecode = custom, custom, custom
		}
		return g
	},
	"rust-v2": func(w bool) generator {
		g := rs2.New()
		if w {
			g.CustomFields, g.CustomEncode, g.CustomDecode = custom, custom, custom
		}
		return g
	},
	"typescript-v1": func(w bool) generator {
		g := ts1.New()
		if w {
			g.CustomFields, g.CustomEncode, g.CustomDecode = custom, custom, custom
		}
		return g
	},
	"typescript-v2": func(w bool) generator {
		g := ts2.New()
		if w {
			g.CustomFields, g.CustomEncode, g.CustomDecode = custom, custom, custom
		}
		return g
	},
}

// request is what protoc would send.
type request struct {
	Name   string
	Files  []string // to generate, in this order
	Protos []string // descriptors, dependencies first
	Param  string
}

type config struct {
	Descriptors string // a FileDescriptorSet
	Requests    []request
	Baseline    map[string]map[string]outcome // generator -> request -> outcome
}

// outcome is what a request yields: the files by name, or an error.
type outcome struct {
	Failed bool
	Names  []string // in the order of the response
	Files  map[string]string
}

func (o outcome) key() string {
	if o.Failed {
		return "error"
	}
	var w strings.Builder
	for _, n := range o.Names {
		w.WriteString(n + "\x00" + o.Files[n] + "\x00")
	}
	return w.String()
}

var cfg config
var wire = map[string][]byte{}

func load(p string) {
	b, err := os.ReadFile(p)
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		panic(err)
	}
	b, err = os.ReadFile(cfg.Descriptors)
	if err != nil {
		panic(err)
	}
	var set descriptorpb.FileDescriptorSet
	if err := proto.Unmarshal(b, &set); err != nil {
		panic(err)
	}
	by := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range set.File {
		by[f.GetName()] = f
	}
	for _, r := range cfg.Requests {
		q := &pluginpb.CodeGeneratorRequest{FileToGenerate: r.Files}
		if r.Param != "" {
			q.Parameter = proto.String(r.Param)
		}
		for _, p := range r.Protos {
			if by[p] == nil {
				panic("no descriptor of " + p)
			}
			q.ProtoFile = append(q.ProtoFile, by[p])
		}
		if wire[r.Name], err = proto.Marshal(q); err != nil {
			panic(err)
		}
	}
}

// call sends one request through the generator, as a plugin's main does.
func call(g generator, name string) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = outcome{Failed: true}
		}
	}()
	q, err := g.UnmarshalRequest(wire[name])
	if err != nil {
		return outcome{Failed: true}
	}
	res, err := g.Generate(q)
	if err != nil {
		return outcome{Failed: true}
	}
	b, err := g.MarshalResponse(res)
	if err != nil {
		return outcome{Failed: true}
	}
	var back pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(b, &back); err != nil || back.Error != nil {
		return outcome{Failed: true}
	}
	o.Files = map[string]string{}
	for _, f := range back.File {
		n := f.GetName()
		for o.Files[n] != "" {
			n += " again"
		}
		o.Names = append(o.Names, n)
		o.Files[n] = f.GetContent()
	}
	return
}

func diff(a, b outcome) string {
	if a.Failed != b.Failed {
		return fmt.Sprintf("fails: %v instead of %v", b.Failed, a.Failed)
	}
	if strings.Join(a.Names, " ") != strings.Join(b.Names, " ") {
		return fmt.Sprintf("files %v instead of %v", b.Names, a.Names)
	}
	for _, n := range a.Names {
		x, y := strings.Split(a.Files[n], "\n"), strings.Split(b.Files[n], "\n")
		for i := range x {
			if i >= len(y) || x[i] != y[i] {
				l := "(end)"
				if i < len(y) {
					l = y[i]
				}
				return fmt.Sprintf("%s line %d: %q instead of %q", n, i+1, l, x[i])
			}
		}
		if len(y) > len(x) {
			return fmt.Sprintf("%s: more lines: %q", n, y[len(x)])
		}
	}
	return "?"
}

type fail struct{ Key, Detail, History string }

func main() {
	load(os.Args[2])
	if os.Args[1] == "one" { // a fresh process, a fresh generator
		b, _ := json.Marshal(call(makers[os.Args[3]](false), os.Args[4]))
		os.Stdout.Write(b)
		return
	}
	// explore <config> <generator> <first operation> <depth>
	gen, first := os.Args[3], os.Args[4]
	depth, _ := strconv.Atoi(os.Args[5])
	var ops []string
	for _, r := range cfg.Requests {
		ops = append(ops, r.Name)
	}
	// "other" uses another generator of the same kind with insertions of its own.
	ops = append(ops, "other")
	var rep struct {
		Fails            []fail
		Histories, Calls int64
	}
	seen := map[string]bool{}
	run := func(h []string) {
		g := makers[gen](false)
		for i, op := range h {
			rep.Calls++
			if op == "other" {
				call(makers[gen](true), ops[0])
				continue
			}
			o := call(g, op)
			if i < len(h)-1 {
				continue
			}
			want := cfg.Baseline[gen][op]
			if o.key() == want.key() {
				continue
			}
			kind := "history"
			if len(h) == 1 {
				kind = "repeat"
			}
			if k := kind + "/" + op; !seen[k] {
				seen[k] = true
				rep.Fails = append(rep.Fails, fail{k, fmt.Sprintf("after %v, request %s gives %s", h[:len(h)-1], op, diff(want, o)), strings.Join(h, " ")})
			}
		}
		rep.Histories++
	}
	var rec func(h []string)
	rec = func(h []string) {
		run(h)
		if len(h) < depth {
			for _, o := range ops {
				rec(append(append([]string{}, h...), o))
			}
		}
	}
	rec([]string{first})
	sort.Slice(rep.Fails, func(i, j int) bool { return rep.Fails[i].Key < rep.Fails[j].Key })
	b, _ := json.Marshal(&rep)
	os.Stdout.Write(b)
}
