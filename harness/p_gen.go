package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- C16, C17, C18: generated code -------------------------------------------------------

// gfield is one field of a schema message. Card is "", "optional", "repeated",
// "map:<key type>" or "oneof".
type gfield struct{ Name, Type, Card string }

type gmsg struct {
	Name   string // proto name, nested ones as Outer.Inner
	Fields []gfield
	Rich   int // size of the value alphabets used for it
	Rust   bool
}

type genum struct {
	Name   string
	Values []string // "A = 0"
}

func (e genum) valueNames() (out []string) {
	for _, v := range e.Values {
		out = append(out, strings.Fields(v)[0])
	}
	return
}

// scope is what the full names of the values have before them, in protobuf the parent of
// the enum.
func (e genum) scope() string { return e.Name[:strings.LastIndex(e.Name, ".")+1] }

// gfile is one .proto file of the family.
type gfile struct {
	Name, Syntax, Package string
	GoPkg                 string // Go package name the generator derives
	Enums                 []genum
	Msgs                  []gmsg
	Rust                  bool
	Extra                 map[string]string // options of "Message.field"
	Numbers               map[string][]int  // field numbers of "Message", if not 1, 2, ...
}

var gScalars = []string{"bool", "int32", "sint32", "uint32", "int64", "sint64", "uint64", "sfixed32", "sfixed64", "fixed32", "fixed64", "float", "double", "string", "bytes"}
var gKeys = []string{"bool", "int32", "sint32", "uint32", "int64", "sint64", "uint64", "sfixed32", "sfixed64", "fixed32", "fixed64", "string"}

func title(s string) string {
	s = strings.ReplaceAll(s, ".", "")
	return strings.ToUpper(s[:1]) + s[1:]
}

func wideEnum() (v []string) {
	for i := 0; i < 300; i++ {
		v = append(v, fmt.Sprintf("W_%d = %d", i, i))
	}
	return
}

// family is the enumerated schema family: every field type in every cardinality, every
// map key and value type, all ordered pairs of field classes, nesting and recursion.
func family() []*gfile {
	f := &gfile{Name: "fam", Syntax: "proto3", Package: "fam.pb", GoPkg: "pb", Rust: true,
		Enums: []genum{{"Color", []string{"RED = 0", "GREEN = 1", "BLUE = 2"}}, {"Sparse", []string{"S_NONE = 0", "S_FIVE = 5", "S_NEG = -1"}},
			{"Holder.Inner", []string{"IN_A = 0", "IN_B = 1"}}, {"Holder.Deep.Deeper", []string{"DP_A = 0", "DP_B = 1", "DP_C = 2"}}, {"Wide", wideEnum()}}}
	add := func(name string, rich int, fs ...gfield) {
		f.Msgs = append(f.Msgs, gmsg{name, fs, rich, true})
	}
	norust := func() { f.Msgs[len(f.Msgs)-1].Rust = false }
	add("Leaf", 2, gfield{"n", "uint32", ""}, gfield{"s", "string", ""})
	add("Empty", 2)
	add("Holder", 2, gfield{"inner", "Holder.Inner", ""}, gfield{"deep", "Holder.Deep", ""})
	add("Holder.Deep", 2, gfield{"deeper", "Holder.Deep.Deeper", ""}, gfield{"n", "uint32", ""})
	elems := append(append([]string{}, gScalars...), "Color", "Sparse", "Holder.Inner", "Holder.Deep.Deeper", "Leaf")
	for _, t := range elems {
		add("One"+title(t), 2, gfield{"f", t, ""})
		add("Rep"+title(t), 2, gfield{"f", t, "repeated"})
		add("Two"+title(t), 1, gfield{"f", t, ""}, gfield{"g", t, ""})
	}
	// An enum whose numbers take more than one byte.
	add("OneWide", 2, gfield{"f", "Wide", ""})
	add("RepWide", 2, gfield{"f", "Wide", "repeated"})
	add("TwoWide", 1, gfield{"f", "Wide", ""}, gfield{"g", "Wide", ""})
	for _, k := range []string{"bool", "int64", "uint32", "string"} {
		add("Map"+title(k)+"Wide", 2, gfield{"m", "Wide", "map:" + k})
	}
	for _, k := range gKeys {
		for _, v := range elems {
			rich := 1
			if k == "string" || v == "uint32" {
				rich = 2
			}
			add("Map"+title(k)+title(v), rich, gfield{"m", v, "map:" + k})
		}
	}
	classes := []gfield{{"n", "uint32", ""}, {"n", "string", ""}, {"n", "bytes", ""}, {"n", "Color", ""}, {"n", "uint32", "repeated"}, {"n", "string", "repeated"}, {"n", "bytes", "repeated"},
		{"n", "Color", "repeated"}, {"n", "Leaf", "repeated"}, {"n", "Leaf", ""}, {"n", "uint32", "map:string"}, {"n", "Leaf", "map:uint32"}, {"n", "bytes", "map:string"}, {"n", "Color", "map:bool"}}
	cname := func(c gfield) string {
		switch {
		case c.Card == "repeated":
			return "R" + title(c.Type)
		case c.Card != "":
			return "M" + title(c.Card[4:]) + title(c.Type)
		}
		return title(c.Type)
	}
	for _, a := range classes {
		for _, b := range classes {
			add("Pair"+cname(a)+"And"+cname(b), 1, gfield{"first_field", a.Type, a.Card}, gfield{"second_field", b.Type, b.Card})
		}
	}
	// Fields of every class around each other, out of wire order.
	add("Mixed", 0, gfield{"child", "Leaf", ""}, gfield{"tags", "string", "repeated"}, gfield{"id", "uint64", ""}, gfield{"attrs", "string", "map:string"}, gfield{"data", "bytes", ""},
		gfield{"kids", "Leaf", "repeated"}, gfield{"flag", "bool", ""}, gfield{"kind", "Color", ""}, gfield{"score", "double", ""}, gfield{"other", "Holder", ""})
	var all []gfield
	for _, t := range elems {
		all = append(all, gfield{"one_" + strings.ToLower(title(t)), t, ""})
	}
	for _, t := range elems {
		all = append(all, gfield{"rep_" + strings.ToLower(title(t)), t, "repeated"})
	}
	add("All", 0, all...)
	add("Choice", 1, gfield{"a", "uint32", "oneof"}, gfield{"b", "string", "oneof"}, gfield{"l", "Leaf", "oneof"}, gfield{"c", "Color", "oneof"})
	add("TwoMaps", 1, gfield{"a", "uint32", "map:string"}, gfield{"b", "Leaf", "map:uint32"})
	add("RepRec", 1, gfield{"n", "uint32", ""}, gfield{"kids", "RepRec", "repeated"})
	add("MapRec", 1, gfield{"n", "uint32", ""}, gfield{"kids", "MapRec", "map:string"})
	add("OptRec", 1, gfield{"n", "uint32", ""}, gfield{"next", "OptRec", ""})
	norust()
	add("MutA", 1, gfield{"n", "uint32", ""}, gfield{"b", "MutB", ""})
	norust()
	add("MutB", 1, gfield{"s", "string", ""}, gfield{"a", "MutA", ""})
	norust()
	add("Outer", 1, gfield{"n", "uint32", ""}, gfield{"mid", "Outer.Mid", ""})
	add("Outer.Mid", 1, gfield{"n", "uint32", ""}, gfield{"in", "Outer.Mid.In", ""}, gfield{"ins", "Outer.Mid.In", "repeated"})
	add("Outer.Mid.In", 1, gfield{"n", "uint32", ""}, gfield{"m", "uint32", "map:string"})
	add("MsgOnly", 1, gfield{"a", "Leaf", ""}, gfield{"b", "Leaf", ""})
	add("MsgThenMap", 1, gfield{"a", "Leaf", ""}, gfield{"m", "Leaf", "map:string"})
	add("WithEmpty", 1, gfield{"n", "uint32", ""}, gfield{"a", "Empty", ""}, gfield{"b", "Empty", ""})
	add("ManyEmpty", 1, gfield{"n", "uint32", ""}, gfield{"es", "Empty", "repeated"}, gfield{"m", "Empty", "map:string"}, gfield{"l", "Leaf", ""})
	// Each shape within another message: it must take exactly its own bytes.
	for _, x := range []string{"Leaf", "OneBool", "OneString", "OneBytes", "OneDouble", "OneColor", "RepUint32", "RepString", "RepBytes", "RepColor", "RepLeaf", "MapStringUint32", "MapStringLeaf", "MapStringBytes", "MapInt32Color",
		"TwoLeaf", "PairLeafAndUint32", "PairRLeafAndRUint32", "PairMStringUint32AndRString", "OptRec", "RepRec", "MutA", "Outer", "Choice"} {
		rust := x != "OptRec" && x != "MutA"
		add("In"+x, 1, gfield{"head", "uint32", ""}, gfield{"a", x, ""}, gfield{"b", x, ""})
		f.Msgs[len(f.Msgs)-1].Rust = rust
		add("List"+x, 1, gfield{"xs", x, "repeated"}, gfield{"tail", "bool", "repeated"})
		f.Msgs[len(f.Msgs)-1].Rust = rust
		add("Dict"+x, 1, gfield{"m", x, "map:uint32"}, gfield{"tail", "Leaf", ""})
		f.Msgs[len(f.Msgs)-1].Rust = rust
	}
	// Names.
	add("Names", 1, gfield{"snake_case_name", "uint32", ""}, gfield{"camelCase", "string", ""}, gfield{"x1", "uint32", ""}, gfield{"with_1digit", "uint32", ""}, gfield{"UPPER", "uint32", ""}, gfield{"userID", "uint32", ""})
	add("Names2", 1, gfield{"_lead", "uint32", ""}, gfield{"trail_", "string", ""}, gfield{"dou__ble", "uint32", "repeated"}, gfield{"a1b2c3", "uint32", ""}, gfield{"x_1y", "Leaf", ""}, gfield{"Z", "uint32", "map:string"},
		gfield{"ABc", "Color", ""}, gfield{"aBCd", "Leaf", "map:uint32"}, gfield{"v2", "bytes", ""}, gfield{"mixed_Case_Name", "Color", "repeated"}, gfield{"q", "Leaf", "repeated"})
	add("Locals", 1, gfield{"b", "Color", ""}, gfield{"d", "Color", ""}, gfield{"x", "uint32", ""}, gfield{"k", "uint32", "map:uint32"}, gfield{"v", "Leaf", "map:string"}, gfield{"i", "uint32", "repeated"}, gfield{"err", "Color", ""}, gfield{"size", "bytes", "map:uint32"})
	add("Locals2", 1, gfield{"temp", "uint32", "repeated"}, gfield{"item", "Leaf", "repeated"}, gfield{"map", "Color", "map:string"}, gfield{"slice_size", "uint32", ""}, gfield{"value", "Color", ""}, gfield{"key", "Color", ""}, gfield{"new", "Leaf", ""})
	add("Keywords", 1, gfield{"type", "uint32", ""}, gfield{"func", "string", ""}, gfield{"match", "Color", ""}, gfield{"fn", "uint32", "repeated"}, gfield{"range", "uint32", "map:string"}, gfield{"loop", "Leaf", ""}, gfield{"mod", "bytes", ""}, gfield{"impl", "Leaf", "map:string"})
	add("Keywords2", 1, gfield{"class", "uint32", ""}, gfield{"function", "string", ""}, gfield{"default", "Color", ""}, gfield{"delete", "uint32", "repeated"}, gfield{"in", "uint32", "map:string"}, gfield{"this", "Leaf", ""}, gfield{"arguments", "bytes", ""},
		gfield{"constructor", "uint32", ""}, gfield{"prototype", "bool", ""}, gfield{"name", "string", ""}, gfield{"length", "uint32", ""}, gfield{"await", "Leaf", "repeated"}, gfield{"let", "Color", "map:uint32"})
	add("Locals3", 1, gfield{"decoder", "uint32", ""}, gfield{"encoder", "string", ""}, gfield{"field", "uint32", "repeated"}, gfield{"kind", "Color", "repeated"}, gfield{"valueTemp", "uint32", "map:uint32"}, gfield{"i", "Leaf", "repeated"}, gfield{"value", "Leaf", "map:string"}, gfield{"key", "Leaf", ""})
	add("Methods", 1, gfield{"error", "string", ""}, gfield{"encode", "uint32", ""}, gfield{"decode", "Leaf", ""})
	// Fields whose declaration says more than type and name.
	f.Extra = map[string]string{"Options.old": "deprecated = true", "Options.ids": "packed = false", "Options.flags": "packed = true, deprecated = true", "Options.text": `json_name = "written"`, "Options.m": "deprecated = true"}
	add("Options", 0, gfield{"old", "uint32", ""}, gfield{"ids", "int64", "repeated"}, gfield{"text", "string", ""}, gfield{"flags", "bool", "repeated"}, gfield{"m", "bytes", "map:int32"}, gfield{"last", "uint32", ""})
	f.Numbers = map[string][]int{"Descending": {900, 300, 20, 19, 7, 6, 5, 1}, "Shuffled": {3, 1, 100, 2}}
	add("Descending", 0, gfield{"a", "uint32", ""}, gfield{"b", "string", ""}, gfield{"c", "bool", "repeated"}, gfield{"d", "Leaf", "repeated"}, gfield{"e", "Leaf", ""}, gfield{"g", "uint32", "map:string"}, gfield{"h", "Color", ""}, gfield{"k", "Leaf", "map:uint32"})
	add("Shuffled", 1, gfield{"a", "uint32", ""}, gfield{"b", "uint32", ""}, gfield{"c", "uint32", ""}, gfield{"d", "uint32", ""})
	add("ChoiceFirst", 1, gfield{"a", "uint32", "oneof"}, gfield{"b", "string", "oneof"}, gfield{"c", "uint32", ""}, gfield{"d", "string", ""})
	add("ChoiceTwice", 0, gfield{"n", "uint32", ""}, gfield{"a", "uint32", "oneof"}, gfield{"l", "Leaf", "oneof"}, gfield{"m", "uint32", "map:string"}, gfield{"s", "string", ""}, gfield{"xs", "uint32", "repeated"}, gfield{"b", "bool", "oneof"}, gfield{"k", "Leaf", "oneof"}, gfield{"t", "Leaf", ""})
	var many []gfield
	for i := 0; i < 140; i++ {
		many = append(many, gfield{fmt.Sprintf("f%d", i), []string{"uint32", "string", "Color", "bool"}[i%4], ""})
	}
	add("Many", 0, many...)
	// The same name in two places.
	add("HomeA", 1, gfield{"item", "HomeA.Item", ""}, gfield{"xs", "HomeA.Item", "repeated"})
	add("HomeA.Item", 1, gfield{"n", "uint32", ""})
	add("HomeB", 1, gfield{"item", "HomeB.Item", ""}, gfield{"m", "HomeB.Item", "map:string"})
	add("HomeB.Item", 1, gfield{"s", "string", ""}, gfield{"m", "uint32", "map:uint32"})
	add("V1", 1, gfield{"n", "uint32", ""}, gfield{"x", "V_1", ""})
	add("V_1", 1, gfield{"s", "string", ""})
	add("lower_msg", 1, gfield{"n", "uint32", ""}, gfield{"leaf", "Leaf", ""})
	add("OfLower", 1, gfield{"n", "uint32", ""}, gfield{"l", "lower_msg", "repeated"}, gfield{"m", "lower_msg", "map:string"})

	f2 := &gfile{Name: "old", Syntax: "proto2", Package: "pb2", GoPkg: "pb2", Rust: true, Enums: []genum{{"Shade", []string{"DARK = 0", "LIGHT = 5"}}}}
	f2.Msgs = []gmsg{
		{"Part", []gfield{{"n", "uint32", "required"}, {"s", "string", "optional"}}, 2, true},
		{"Whole", []gfield{{"part", "Part", "required"}, {"id", "sfixed64", "required"}, {"shade", "Shade", "optional"}, {"parts", "Part", "repeated"}, {"shades", "Shade", "repeated"}, {"names", "bytes", "repeated"}, {"m", "Shade", "map:string"}}, 1, true},
	}
	for _, t := range append(append([]string{}, gScalars...), "Part", "Shade") {
		f2.Msgs = append(f2.Msgs, gmsg{"Opt" + title(t), []gfield{{"f", t, "optional"}, {"g", t, "repeated"}}, 1, true})
	}
	f2.Extra = map[string]string{"Defaults.a": "default = 7", "Defaults.b": `default = "x"`, "Defaults.c": "default = LIGHT"}
	f2.Msgs = append(f2.Msgs, gmsg{"Defaults", []gfield{{"a", "uint32", "optional"}, {"b", "string", "optional"}, {"c", "Shade", "optional"}, {"d", "uint32", "required"}}, 1, true},
		gmsg{"Names", []gfield{{"v1", "uint32", "optional"}, {"v_1", "uint32", "optional"}, {"a_b", "string", "optional"}}, 1, true})
	for _, t := range []string{"uint32", "string", "Part"} {
		for _, a := range []string{"required", "optional", "repeated"} {
			for _, b := range []string{"required", "optional", "repeated"} {
				f2.Msgs = append(f2.Msgs, gmsg{"L" + title(t) + title(a) + title(b), []gfield{{"x", t, a}, {"y", t, b}}, 1, true})
			}
		}
	}
	f3 := &gfile{Name: "bare", Syntax: "proto3", Package: "", GoPkg: "bare", Rust: true}
	f3.Msgs = []gmsg{
		{"Thing", []gfield{{"n", "uint32", ""}, {"l", "Thing", "repeated"}}, 1, true},
		{"OnlyMap", []gfield{{"m", "uint32", "map:string"}}, 1, true},
	}
	f4 := &gfile{Name: "onlyenum", Syntax: "proto3", Package: "a.b.onlyenum", GoPkg: "onlyenum", Rust: true, Enums: []genum{{"E", []string{"E0 = 0", "E1 = 1"}}}}
	f5 := &gfile{Name: "innerenum", Syntax: "proto3", Package: "innerenum", GoPkg: "innerenum", Rust: true, Enums: []genum{{"Box.Kind", []string{"K0 = 0", "K1 = 1"}}}}
	f5.Msgs = []gmsg{{"Box", []gfield{{"n", "uint32", ""}, {"kind", "Box.Kind", ""}}, 2, true}}
	f6 := &gfile{Name: "deepmap", Syntax: "proto3", Package: "deepmap", GoPkg: "deepmap", Rust: true}
	f6.Msgs = []gmsg{
		{"Top", []gfield{{"n", "uint32", ""}}, 2, true},
		{"Top.Mid", []gfield{{"n", "uint32", ""}}, 2, true},
		{"Top.Mid.Low", []gfield{{"m", "uint32", "map:string"}}, 2, true},
		{"Top.Mid.Other", []gfield{{"n", "uint32", ""}}, 2, true},
	}
	return []*gfile{f, f2, f3, f4, f5, f6}
}

func (f *gfile) proto() string {
	var w strings.Builder
	fmt.Fprintf(&w, "syntax = %q;\n", f.Syntax)
	if f.Package != "" {
		fmt.Fprintf(&w, "package %s;\n", f.Package)
	}
	fmt.Fprintf(&w, "option go_package = \"gen/%s\";\n", f.GoPkg)
	pfx := ""
	if f.Package != "" {
		pfx = "." + f.Package
	}
	ref := func(t string) string {
		if strings.ToLower(t[:1]) == t[:1] && !strings.Contains(t, "_") {
			return t
		}
		return pfx + "." + t
	}
	msgs, children := map[string]*gmsg{}, map[string][]string{}
	var roots []string
	for i := range f.Msgs {
		m := &f.Msgs[i]
		msgs[m.Name] = m
		if d := strings.LastIndex(m.Name, "."); d >= 0 {
			children[m.Name[:d]] = append(children[m.Name[:d]], m.Name)
		} else {
			roots = append(roots, m.Name)
		}
	}
	last := func(n string) string { return n[strings.LastIndex(n, ".")+1:] }
	enums := func(parent, ind string) {
		for _, e := range f.Enums {
			p := ""
			if d := strings.LastIndex(e.Name, "."); d >= 0 {
				p = e.Name[:d]
			}
			if p == parent {
				fmt.Fprintf(&w, "%senum %s { %s; }\n", ind, last(e.Name), strings.Join(e.Values, "; "))
			}
		}
	}
	enums("", "")
	var emit func(n, ind string)
	emit = func(n, ind string) {
		fmt.Fprintf(&w, "%smessage %s {\n", ind, last(n))
		enums(n, ind+"  ")
		for _, c := range children[n] {
			emit(c, ind+"  ")
		}
		oneof := false
		for i, fd := range msgs[n].Fields {
			if (fd.Card == "oneof") != oneof {
				if oneof = !oneof; oneof {
					fmt.Fprintf(&w, "%s  oneof pick%d {\n", ind, i)
				} else {
					fmt.Fprintf(&w, "%s  }\n", ind)
				}
			}
			t := ref(fd.Type)
			switch {
			case strings.HasPrefix(fd.Card, "map:"):
				t = "map<" + fd.Card[4:] + ", " + t + ">"
			case fd.Card != "" && fd.Card != "oneof":
				t = fd.Card + " " + t
			}
			num, extra := i+1, ""
			if ns := f.Numbers[n]; ns != nil {
				num = ns[i]
			}
			if o := f.Extra[n+"."+fd.Name]; o != "" {
				extra = " [" + o + "]"
			}
			fmt.Fprintf(&w, "%s  %s %s = %d%s;\n", ind, t, fd.Name, num, extra)
		}
		if oneof {
			fmt.Fprintf(&w, "%s  }\n", ind)
		}
		fmt.Fprintf(&w, "%s}\n", ind)
	}
	for _, r := range roots {
		emit(r, "")
	}
	return w.String()
}

// camel is the documented naming rule of the generators (the one of protoc-gen-go).
func camel(s string) string {
	var t []byte
	low := func(c byte) bool { return 'a' <= c && c <= 'z' }
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '_' && i+1 < len(s) && low(s[i+1]) || c == '.':
		case '0' <= c && c <= '9':
			t = append(t, c)
		default:
			if low(c) {
				c ^= ' '
			}
			t = append(t, c)
			for i+1 < len(s) && low(s[i+1]) {
				i++
				t = append(t, s[i])
			}
		}
	}
	return string(t)
}

func snake(s string) string {
	var t []byte
	up := false
	for i := 0; i < len(s); i++ {
		if c := s[i]; 'A' <= c && c <= 'Z' {
			if len(t) > 0 && !up {
				t = append(t, '_')
			}
			t = append(t, c+'a'-'A')
			up = true
		} else {
			t = append(t, c)
			up = false
		}
	}
	return string(t)
}

func (f *gfile) typeName(m string) string {
	if f.Package == "" {
		return camel(m)
	}
	return camel(f.Package + "." + m)
}

// genKey names the message a violation belongs to.
func (f *gfile) label(m string) string {
	if f.Name == "fam" {
		return m
	}
	return f.Name + "." + m
}

// goGen generates, builds and holds the driver of one Go version.
type goGen struct {
	version int
	ok      bool
	dir     string
	bin     string
}

func (g *goGen) id() string { return fmt.Sprintf("go-v%d", g.version) }

func plugin(version int, name string) string {
	d, mod := repoDir(), "github.com/loopholelabs/polyglot"
	if version == 2 {
		d, mod = filepath.Join(d, "v2"), mod+"/v2"
	}
	out := filepath.Join(scratch(), fmt.Sprintf("plugin-v%d-%s", version, name))
	if _, err := os.Stat(filepath.Join(d, "protoc-gen-"+name+"-polyglot")); err == nil {
		must(d, nil, "go", "build", "-o", out, mod+"/protoc-gen-"+name+"-polyglot")
		return out
	}
	// Version 2 has the Rust and TypeScript generators as packages only.
	m := out + ".d"
	os.MkdirAll(m, 0o755)
	writeGoMod(m, "polyplugin")
	pkg := map[string]string{"rs": "rust", "ts": "typescript", "go": "golang"}[name]
	os.WriteFile(filepath.Join(m, "main.go"), []byte(fmt.Sprintf(pluginMain, mod+"/generator/"+pkg)), 0o644)
	must(m, nil, "go", "build", "-o", out, ".")
	return out
}

const pluginMain = `package main

import (
	"io"
	"os"

	gen %q
)

func main() {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	g := gen.New()
	req, err := g.UnmarshalRequest(in)
	if err != nil {
		panic(err)
	}
	res, err := g.Generate(req)
	if err != nil {
		panic(err)
	}
	out, err := g.MarshalResponse(res)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(out)
}
`

// writeGoMod makes dir a module that uses both versions of the library from the
// repository.
func writeGoMod(dir, name string) {
	mod := fmt.Sprintf("module %s\n\ngo 1.24\n\nrequire (\n\tgithub.com/loopholelabs/polyglot v0.0.0\n\tgithub.com/loopholelabs/polyglot/v2 v2.0.0\n)\n\nreplace github.com/loopholelabs/polyglot => %s\n\nreplace github.com/loopholelabs/polyglot/v2 => %s/v2\n", name, repoDir(), repoDir())
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(mod), 0o644)
	sum, _ := os.ReadFile(filepath.Join(verifDir(), "harness", "go.sum"))
	os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

func writeProtos(dir string, fs []*gfile) (names []string) {
	os.MkdirAll(dir, 0o755)
	for _, f := range fs {
		os.WriteFile(filepath.Join(dir, f.Name+".proto"), []byte(f.proto()), 0o644)
		names = append(names, f.Name+".proto")
	}
	return
}

// buildGoGen runs the generator of one version over the family and compiles the result
// with the driver. A failure of either is a violation of C16.
func buildGoGen(c *Check, version int, fs []*gfile) *goGen {
	g := &goGen{version: version, dir: filepath.Join(scratch(), fmt.Sprintf("gen-v%d", version))}
	proto := filepath.Join(g.dir, "proto")
	names := writeProtos(proto, fs)
	pl := plugin(version, "go")
	for i, n := range names { // one at a time, as a user would with one file each
		o, err := sh(proto, nil, "protoc", "--plugin=protoc-gen-go-polyglot="+pl, "--go-polyglot_out=.", n)
		if err != nil {
			c.Fail(g.id()+"/generator/"+fs[i].Name, "the generator fails on "+n+": "+o[:min(len(o), 1500)], map[string]any{"schema": fs[i].proto()})
			return g
		}
	}
	gen := filepath.Join(proto, "gen")
	imp := "github.com/loopholelabs/polyglot"
	if version == 2 {
		imp += "/v2"
	}
	writeGoMod(gen, "gen")
	b, err := os.ReadFile(filepath.Join(verifDir(), "drivers/gengo/driver.go"))
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(gen, "cmd"), 0o755)
	os.WriteFile(filepath.Join(gen, "cmd", "driver.go"), bytes.ReplaceAll(b, []byte("POLYGLOT_IMPORT"), []byte(imp)), 0o644)
	var r strings.Builder
	r.WriteString("package main\n\nimport (\n")
	for _, f := range fs {
		if len(f.Msgs)+len(f.Enums) > 0 {
			fmt.Fprintf(&r, "\t%q\n", "gen/"+f.GoPkg)
		} else {
			fmt.Fprintf(&r, "\t_ %q\n", "gen/"+f.GoPkg)
		}
	}
	r.WriteString(")\n\nvar types = []typ{\n")
	for _, f := range fs {
		for _, m := range f.Msgs {
			t := f.GoPkg + "." + strings.Replace(f.typeName(m.Name), "", "", 1)
			var fl []string
			for _, x := range m.Fields {
				fl = append(fl, camel(x.Name))
			}
			ctor := f.GoPkg + ".New" + f.typeName(m.Name)
			fmt.Fprintf(&r, "\t{%q, func() message { return %s() }, func() message { return &%s{} }, %#v, %d},\n", f.label(m.Name), ctor, t, fl, m.Rich)
		}
	}
	r.WriteString("}\n\nvar enumSize = map[string]int{\n")
	for _, f := range fs {
		for _, e := range f.Enums {
			fmt.Fprintf(&r, "\t%q: %d,\n", f.typeName(e.Name), len(e.Values))
		}
	}
	r.WriteString("}\n\nvar enumValues = []enumeration{\n")
	for _, f := range fs {
		for _, e := range f.Enums {
			fmt.Fprintf(&r, "\t{%q, []uint32{", f.label(e.Name))
			for _, v := range e.valueNames() {
				fmt.Fprintf(&r, "uint32(%s.%s), ", f.GoPkg, f.typeName(e.scope()+v))
			}
			r.WriteString("}},\n")
		}
	}
	r.WriteString("}\n")
	os.WriteFile(filepath.Join(gen, "cmd", "registry.go"), []byte(r.String()), 0o644)
	good := true
	for _, f := range fs {
		o, err := sh(gen, nil, "go", "build", "-gcflags=-e", "./"+f.GoPkg)
		if err != nil {
			good = false
			g.compileErrors(c, f, gen, o)
		}
	}
	if !good {
		return g
	}
	g.bin = filepath.Join(g.dir, "driver")
	if o, err := sh(gen, nil, "go", "build", "-o", g.bin, "./cmd"); err != nil {
		c.Fail(g.id()+"/api", "the generated code lacks its documented types, fields, constructors or methods: "+o[:min(len(o), 1500)], nil)
		return g
	}
	g.ok = true
	return g
}

var goErrLine = regexp.MustCompile(`(?m)^(\S+\.go):(\d+):\d+: (.*)$`)

// compileErrors attributes compiler messages to the messages whose code they are in.
func (g *goGen) compileErrors(c *Check, f *gfile, dir, out string) {
	ms := goErrLine.FindAllStringSubmatch(out, -1)
	if len(ms) == 0 {
		c.Fail(g.id()+"/compile/"+f.Name, "the generated code does not compile: "+out[:min(len(out), 1500)], nil)
		return
	}
	src := map[string][]string{}
	for _, m := range ms {
		file := filepath.Join(dir, m[1])
		if src[file] == nil {
			b, _ := os.ReadFile(file)
			src[file] = strings.Split(string(b), "\n")
		}
		n, _ := strconv.Atoi(m[2])
		who, best := f.Name, ""
		for i := min(n, len(src[file])) - 1; i >= 0 && best == ""; i-- {
			l := src[file][i]
			if !strings.HasPrefix(strings.TrimSpace(l), "func ") && !strings.HasPrefix(strings.TrimSpace(l), "type ") {
				continue
			}
			for _, x := range f.Msgs {
				if t := f.typeName(x.Name); strings.Contains(l, t) && len(t) > len(best) {
					who, best = f.label(x.Name), t
				}
			}
		}
		line := ""
		if n <= len(src[file]) && n > 0 {
			line = strings.TrimSpace(src[file][n-1])
		}
		c.Fail(g.id()+"/compile/"+who, fmt.Sprintf("the code generated for %s does not compile: %s: %s", who, m[3], line), map[string]any{"message": who})
	}
}

type genReport struct {
	Types, Values, Steps int64
	Counts               map[string]int64
	Fails                []struct {
		Key, Detail string
		Replay      any
	}
}

// finding keys do not depend on the message for the two shapes the wire format cannot
// tell apart.
var classKey = regexp.MustCompile(`^.*/(zero-bytes|nil-first)/(?:(?:zero-bytes|nil-first)/)*([a-z-]+)$`)

func (g *goGen) run(c *Check, mode string) {
	if !g.ok {
		return
	}
	left := time.Until(c.Deadline)
	cmd := exec.Command("timeout", strconv.Itoa(max(int(left.Seconds()), 30)), g.bin, mode, strconv.Itoa(level(c)))
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	var r genReport
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 124 {
			c.Cap(g.id() + " " + mode)
			return
		}
		s := eb.String()
		c.Fail(g.id()+"/fatal", fmt.Sprintf("the %s run ended: %v: %s", mode, err, s[:min(len(s), 2500)]), map[string]any{"mode": mode})
		return
	}
	for _, f := range r.Fails {
		k := f.Key
		if m := classKey.FindStringSubmatch(k); m != nil {
			k = m[1] + "/" + m[2]
			if strings.HasSuffix(k, "-differs") || strings.HasSuffix(k, "-rejected") || strings.HasSuffix(k, "/reused-target") {
				k = m[1] + "/lost"
			}
		}
		c.Fail(g.id()+"/"+k, f.Detail, f.Replay)
	}
	c.states.Add(r.Values)
	c.transitions.Add(r.Steps)
	c.traces.Add(r.Steps)
	for k, n := range r.Counts {
		c.Count(g.id()+" "+k, n)
	}
	c.Count(g.id()+" message types", r.Types)
	c.Count(g.id()+" values", r.Values)
}

// deep decodes one message nested as deeply as its bytes allow.
func (g *goGen) deep(c *Check) {
	if !g.ok {
		return
	}
	cmd := exec.Command("timeout", "120", g.bin, "deep", "1", "OptRec")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if strings.HasPrefix(string(out), "survived") {
		c.Note("%s: 40 million levels of nesting: %s", g.id(), strings.TrimSpace(string(out)))
		return
	}
	what := "deep-nesting"
	if !strings.Contains(eb.String(), "stack overflow") && !strings.Contains(eb.String(), "stack exceeds") {
		what = "deep-nesting-fails"
	}
	c.Fail(g.id()+"/"+what, fmt.Sprintf("decoding OptRec messages nested 40 million deep (80 MB of input) ends the process: %v: %s", err, eb.String()[:min(eb.Len(), 300)]), map[string]any{"message": "OptRec", "input": "0a01 x 40000000, 00"})
}

func bothGo(c *Check) [2]*goGen {
	fs := family()
	var gs [2]*goGen
	var wg sync.WaitGroup
	for v := 1; v <= 2; v++ {
		wg.Add(1)
		go func() { defer wg.Done(); gs[v-1] = buildGoGen(c, v, fs) }()
	}
	wg.Wait()
	return gs
}

func c16(c *Check) {
	gs := bothGo(c)
	for _, g := range gs {
		g.run(c, "roundtrip")
		for _, e := range g.enums(c) {
			x, seen := strings.Fields(strings.NewReplacer("[", "", "]", "").Replace(e)), map[string]bool{}
			for _, v := range x[1:] {
				if seen[v] {
					c.Fail(g.id()+"/enums/"+x[0], "two constants of the enum have the number "+v+", so one cannot be told from the other after decoding: "+e, map[string]any{"enum": e})
				}
				seen[v] = true
			}
		}
	}
	famOutcomes(c)
}

func famOutcomes(c *Check) {
	for _, f := range family() {
		for _, m := range f.Msgs {
			for _, x := range m.Fields {
				c.Outcome(x.Card + " " + x.Type)
			}
		}
	}
	c.Sample(map[string]any{"schema": family()[1].proto()})
}

func c17(c *Check) {
	gs := bothGo(c)
	for _, g := range gs {
		g.run(c, "damage")
		g.deep(c)
	}
	famOutcomes(c)
}

var _ = sort.Strings
