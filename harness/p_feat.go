package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
)

// ---- C26: schema features --------------------------------------------------------------------

// feature is something a schema can have: declarations of the file, and fields of the message
// M. $ is a prefix of the names of types, @ one of the names of fields, and # the next number.
type feature struct {
	name, decl, field string
	syntax            int  // 2 or 3 when only that has it
	refused           bool // the generators may refuse it
	endless           bool // values contain a value of their own type singly
	class             bool // stands for features like it
	alone             bool // not with others
}

func features() (out []feature) {
	add := func(f feature) { out = append(out, f) }
	enum := "enum $E { $E_A = 0; $E_B = 1; }\n"
	leaf := "message $L { uint32 n = 1; }\n"
	types := strings.Fields(schemaScalars + " $E $L")
	decls := func(t string) string {
		switch t {
		case "$E":
			return enum
		case "$L":
			return leaf
		}
		return ""
	}
	for _, t := range types {
		rep := t == "string" || t == "bytes" || t == "uint32" || t == "double" || t == "bool" || t[0] == '$'
		n := strings.TrimPrefix(t, "$")
		add(feature{name: t, decl: decls(t), field: "optional? " + t + " @" + n + " = #;", class: rep})
		add(feature{name: "repeated " + t, decl: decls(t), field: "repeated " + t + " @" + n + "r = #;", class: rep})
		add(feature{name: "oneof " + t, decl: decls(t), field: "oneof @c" + n + " { " + t + " @" + n + "o = #; }", class: t[0] == '$'})
		add(feature{name: "map to " + t, decl: decls(t), field: "map<string, " + t + "> @" + n + "m = #;", class: rep})
		if t != "double" && t != "float" && t != "bytes" && t[0] != '$' {
			add(feature{name: "map from " + t, decl: decls(t), field: "map<" + t + ", uint32> @" + n + "k = #;"})
		}
		add(feature{name: "required " + t, decl: decls(t), field: "required " + t + " @" + n + "q = #;", syntax: 2, class: t == "string" || t[0] == '$'})
		if t[0] != '$' {
			if t != "string" && t != "bytes" && t != "bool" {
				add(feature{name: "default " + t, field: "optional " + t + " @" + n + "d = # [default = 7];", syntax: 2})
				add(feature{name: "unpacked " + t, field: "repeated " + t + " @" + n + "u = # [packed = false];"})
			}
		}
	}
	more := []feature{
		// Enumerations.
		{name: "only an enum", decl: enum, class: true},
		{name: "one constant", decl: "enum $E { $E_A = 0; }\n", field: "optional? $E @e = #;"},
		{name: "aliases", decl: "enum $E { option allow_alias = true; $E_A = 0; $E_B = 1; $E_C = 1; $E_D = 0; }\n", field: "optional? $E @e = #; repeated $E @er = #; map<string, $E> @em = #;", class: true},
		{name: "negative numbers", decl: "enum $E { $E_A = 0; $E_B = -1; $E_C = -2147483648; $E_D = 2147483647; }\n", field: "optional? $E @e = #;"},
		{name: "gaps", decl: "enum $E { $E_A = 0; $E_B = 100; $E_C = 7; }\n", field: "optional? $E @e = #;"},
		{name: "many constants", decl: "enum $E { " + seq(300, "$E_%d = %d; ") + "}\n", field: "optional? $E @e = #;", alone: true},
		{name: "reserved constants", decl: "enum $E { reserved 2, 9 to 11, 40 to max; reserved \"@foo\"; $E_A = 0; }\n", field: "optional? $E @e = #;"},
		{name: "deprecated enum", decl: "enum $E { option deprecated = true; $E_A = 0 [deprecated = true]; }\n", field: "optional? $E @e = #;"},
		{name: "enum of another message", decl: "message $A { enum E { X = 0; } optional? E e = 1; }\nmessage $B { enum E { X = 0; } optional? E e = 1; }\n", field: "optional? $A.E @a = #; repeated $B.E @b = #;", class: true},
		{name: "enum without first zero", decl: "enum $E { $E_A = 5; $E_B = 3; }\n", field: "optional $E @e = # [default = $E_B];", syntax: 2},
		{name: "map from key to enum of another message", decl: "message $A { enum E { X = 0; } }\n", field: "map<bool, $A.E> @m = #;"},
		// Messages.
		{name: "empty message", decl: "message $A { }\n", field: "optional? $A @a = #; repeated $A @ar = #; map<string, $A> @am = #;", class: true},
		{name: "no fields", decl: "message $A { }\n"},
		{name: "only maps", decl: "message $A { map<string, uint32> a = 1; map<uint32, string> b = 2; }\n", class: true},
		{name: "only enums of a message", decl: "message $A { enum E { X = 0; } }\n", class: true},
		{name: "only messages of a message", decl: "message $A { message B { } }\n", class: true},
		{name: "message declared later", field: "optional? $Later @l = #; repeated $Later @lr = #; map<uint32, $Later> @lm = #;", decl: leafLater},
		{name: "deep nesting", decl: "message $A { message B { message C { message D { enum E { X = 0; } optional? E e = 1; } optional? D d = 1; } optional? C c = 1; optional? C.D.E e = 2; } optional? B b = 1; optional? B.C.D d = 2; }\n", field: "optional? $A.B.C.D @d = #; repeated $A.B.C.D.E @e = #; map<string, $A.B.C> @m = #;", class: true},
		{name: "recursion through repeated", decl: "message $A { repeated $A a = 1; }\n", field: "optional? $A @a = #;", class: true},
		{name: "recursion through a map", decl: "message $A { map<string, $A> a = 1; }\n", field: "optional? $A @a = #;", class: true},
		{name: "recursion of two through repeated", decl: "message $A { repeated $B b = 1; }\nmessage $B { repeated $A a = 1; }\n", field: "optional? $A @a = #;"},
		{name: "recursion of two through a map", decl: "message $A { optional? $B b = 1; }\nmessage $B { map<bool, $A> a = 1; }\n", field: "optional? $A @a = #;"},
		{name: "recursion into a nested message", decl: "message $A { message B { repeated $A a = 1; } optional? B b = 1; }\n", field: "optional? $A @a = #;"},
		{name: "recursion", decl: "message $A { optional? $A a = 1; }\n", field: "optional? $A @a = #;", endless: true},
		{name: "recursion of two", decl: "message $A { optional? $B b = 1; }\nmessage $B { optional? $A a = 1; }\n", field: "optional? $A @a = #;", endless: true},
		{name: "recursion of three", decl: "message $A { optional? $B b = 1; }\nmessage $B { optional? $C c = 1; }\nmessage $C { optional? $A a = 1; }\n", field: "repeated $C @c = #;", endless: true},
		{name: "recursion through a oneof", decl: "message $A { oneof c { $A a = 1; uint32 n = 2; } }\n", field: "optional? $A @a = #;", endless: true},
		{name: "many fields", decl: "message $A { " + seqFrom(1, 300, "repeated uint32 f%d = %d; ") + "}\n", alone: true},
		{name: "deprecated message", decl: "message $A { option deprecated = true; optional? uint32 n = 1 [deprecated = true]; }\n"},
		{name: "reserved fields", decl: "message $A { reserved 2, 15, 9 to 11, 100 to max; reserved \"foo\"; optional? uint32 n = 1; }\n"},
		// Fields.
		{name: "greatest field number", decl: "message $A { optional? uint32 n = 536870911; optional? uint32 m = 1; }\n"},
		{name: "fields out of order", decl: "message $A { optional? uint32 b = 5; optional? string a = 1; repeated uint32 c = 3; }\n"},
		{name: "JSON name", field: "optional? uint32 @j = # [json_name = \"class\"];"},
		{name: "deprecated field", field: "optional? uint32 @x = # [deprecated = true];"},
		{name: "lazy field", decl: leaf, field: "optional? $L @z = # [lazy = true];"},
		{name: "string type", field: "optional? string @s = # [ctype = CORD]; optional? int64 @t = # [jstype = JS_STRING];"},
		{name: "two oneofs", decl: enum + leaf, field: "oneof @c1 { string @s = #; $L @l = #; } oneof @c2 { uint32 @u = #; $E @e = #; bytes @b = #; }", class: true},
		{name: "default values", decl: enum, field: `optional string @s = # [default = "a\"b\\\n"]; optional bytes @b = # [default = "\000\377"]; optional double @d = # [default = nan]; optional float @f = # [default = -inf]; optional bool @t = # [default = true]; optional $E @e = # [default = $E_B]; optional int64 @i = # [default = -9223372036854775808];`, syntax: 2},
		{name: "group", field: "optional group $Grp = # { optional uint32 n = 1; }", syntax: 2, refused: true},
		{name: "repeated group", field: "repeated group $Grp = # { optional uint32 n = 1; }", syntax: 2, refused: true},
		{name: "group of a oneof", field: "oneof @c { group $Grp = # { optional uint32 n = 1; } }", syntax: 2, refused: true},
		// What is not a part of any message.
		{name: "service", decl: leaf + "service $S { rpc Do ($L) returns ($L); rpc Up (stream $L) returns ($L); rpc Down ($L) returns (stream $L); rpc Both (stream $L) returns (stream $L) { option deprecated = true; } }\n", class: true},
		{name: "service without methods", decl: "service $S { }\n"},
		{name: "extensions", decl: "message $A { extensions 100 to 200; }\nextend $A { optional uint32 @x = 100; repeated $A @y = 101; }\nmessage $K { extend $A { optional $K @z = 102; } }\n", syntax: 2, class: true},
		{name: "message set", decl: "message $A { extensions 100 to max; optional uint32 n = 1; }\n", syntax: 2},
		{name: "comments", decl: "// a */ comment `x` \\\n/* y // \" */\nmessage $A { // trailing */ {{ . }}\n  optional? uint32 n = 1; /* {{ end }} */\n}\n// the last\n"},
	}
	return append(out, more...)
}

// schemaScalars are the scalar types.
const schemaScalars = "double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes"

// leafLater stands behind the message that uses it.
const leafLater = "\x00message $Later { uint32 n = 1; }\n"

func seq(n int, f string) string { return seqFrom(0, n, f) }

func seqFrom(a, n int, f string) string {
	var w strings.Builder
	for i := range n {
		fmt.Fprintf(&w, f, i+a, i+a)
	}
	return w.String()
}

// featureFile is the text of a schema with messages that have these features.
func featureFile(syntax int, messages [][]feature) string {
	var w strings.Builder
	fmt.Fprintf(&w, "syntax = \"proto%d\"; package demo; option go_package = \".;demo\";\n", syntax)
	optional := ""
	if syntax == 2 {
		optional = "optional "
	}
	for i, fs := range messages {
		var before, fields, after string
		n := 0
		for j, f := range fs {
			sub := func(s string) string {
				s = strings.ReplaceAll(s, "optional? ", optional)
				s = strings.ReplaceAll(s, "$", fmt.Sprintf("M%dx%c", i, 'A'+j))
				s = strings.ReplaceAll(s, "@", fmt.Sprintf("f%d%c_", i, 'a'+j))
				for strings.Contains(s, "#") {
					n++
					s = strings.Replace(s, "#", fmt.Sprint(n), 1)
				}
				return s
			}
			d := f.decl
			if syntax == 2 { // every field has a label there
				d = strings.ReplaceAll(d, "{ uint32 n = 1; }", "{ optional uint32 n = 1; }")
			}
			a, b, _ := strings.Cut(d, "\x00")
			before += sub(a)
			after += sub(b)
			fields += " " + sub(f.field)
		}
		w.WriteString(before)
		if strings.TrimSpace(fields) != "" {
			fmt.Fprintf(&w, "message M%d {%s }\n", i, fields)
		}
		w.WriteString(after)
	}
	return w.String()
}

func c26(c *Check) {
	deep := level(c) >= 2
	fs := features()
	b := newNameBuilder(c)
	var cases []nameCase
	one := func(key, param string, syntax int, messages ...[]feature) nameCase {
		x := nameCase{what: "a proto" + fmt.Sprint(syntax) + " file with " + strings.ReplaceAll(key, "+", " and "), key: key, param: param, text: featureFile(syntax, messages)}
		for _, m := range messages {
			for _, f := range m {
				x.refused = x.refused || f.refused
				x.endless = x.endless || f.endless
			}
		}
		return x
	}
	has := func(syntax int, fs ...feature) bool {
		for _, f := range fs {
			if f.syntax != 0 && f.syntax != syntax {
				return false
			}
		}
		return true
	}
	for _, syntax := range []int{2, 3} {
		pre := fmt.Sprintf("proto%d/", syntax)
		cases = append(cases, one(pre+"nothing", "", syntax))
		for _, f := range fs {
			if !has(syntax, f) {
				continue
			}
			for _, p := range []string{"privacy=public", "privacy=private", "privacy=crate", "-"} {
				k := pre + f.name
				if p != "privacy=public" {
					k += "/" + p
				}
				if p == "privacy=public" || f.class || deep {
					cases = append(cases, one(k, p, syntax, []feature{f}))
				}
			}
		}
		// Two messages of a file, of the features that stand for others, and two features of
		// one message, many of these to a file.
		var parts []nameCase
		var texts [][]feature
		flush := func() {
			if len(parts) > 0 {
				p := parts
				x := one(fmt.Sprintf("%smany from %s", pre, p[0].key), "privacy=public", syntax, texts...)
				x.split = func() []nameCase { return p }
				cases = append(cases, x)
			}
			parts, texts = nil, nil
		}
		for i, f := range fs {
			for j, g := range fs[:i+1] {
				if !has(syntax, f, g) || f.alone || g.alone {
					continue
				}
				k := pre + f.name + "+" + g.name
				once := syntax == 3 || f.syntax == 2 || g.syntax == 2
				if f.class && g.class && once || deep {
					cases = append(cases, one(k+" in two messages", "privacy=public", syntax, []feature{f}, []feature{g}))
				}
				if !deep && i != j && (!once || !f.class && !g.class) {
					continue
				}
				x := one(k, "privacy=public", syntax, []feature{f, g})
				c.Count("pairs of features", 1)
				if x.refused || x.endless {
					x.generate = x.endless
					if x.refused && x.endless {
						continue
					}
					cases = append(cases, x)
					continue
				}
				if parts = append(parts, x); len(parts) == 50 {
					texts = append(texts, []feature{f, g})
					flush()
				} else {
					texts = append(texts, []feature{f, g})
				}
			}
		}
		flush()
	}
	c.Count("features", int64(len(fs)))
	b.all(cases)
	b.privacy()
	c.Sample(map[string]any{"features": len(fs), "generators": nameGens})
}

const privacySchema = `syntax = "proto2"; package demo; option go_package = ".;demo";
enum E { EA = 0; EB = 1; }
message L { optional uint32 f1 = 1; }
message M {
  optional uint32 f2 = 1; required string f3 = 2; optional bytes f4 = 3; optional E f5 = 4; optional L f6 = 5;
  repeated double f7 = 6; repeated E f8 = 7; repeated L f9 = 8; map<string, uint32> f10 = 9; map<bool, L> f11 = 10; map<sint32, E> f12 = 11;
  oneof choice { bool f13 = 12; L f14 = 13; }
  message N { repeated bytes f15 = 1; optional N2 f16 = 2; message N2 { optional sfixed64 f17 = 1; } }
}
`

var privacyFields = map[string][]int{"DemoL": {1}, "DemoM": {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, "DemoMN": {15, 16}, "DemoMNN2": {17}}

var privateField = regexp.MustCompile("error\\[E0616\\]: field `f(\\d+)` of struct `(?:\\w+::)*Demo\\w+` is private")

// privacy uses every field of the generated Rust structs in another module and in another
// crate: the compiler says which it can.
func (b *nameBuilder) privacy() {
	c := b.c
	for _, g := range []string{"rust-v1", "rust-v2"} {
		for _, p := range []string{"", "privacy=private", "privacy=crate", "privacy=public"} {
			dir := filepath.Join(b.dir, "privacy", g, p)
			os.MkdirAll(dir, 0o755)
			os.WriteFile(filepath.Join(dir, "demo.proto"), []byte(privacySchema), 0o644)
			must(dir, nil, "protoc", "--descriptor_set_out=demo.pb", "demo.proto")
			cfg, _ := json.Marshal(map[string]any{"Repo": repoDir(), "IDs": []string{"demo"}, "Dir": dir, "Params": map[string]string{"demo": p}})
			os.WriteFile(filepath.Join(dir, "config.json"), cfg, 0o644)
			c.states.Add(1)
			fail := func(what string) {
				c.Fail(g+"/privacy/"+p, fmt.Sprintf("the %s generator with the setting %q: %s", g, p, what), map[string]any{"generator": g, "parameter": p, "schema": privacySchema})
			}
			if o, err := sh(filepath.Join(b.dir, "mod"), nil, b.bin, filepath.Join(dir, "config.json"), g); err != nil || strings.TrimSpace(o) != "{}" {
				fail("does not generate code: " + short(o))
				continue
			}
			uses := func(pre string) string {
				var w strings.Builder
				for n, fs := range privacyFields {
					fmt.Fprintf(&w, "fn use_%s(x: %s::%s) {\n", n, pre, n)
					for _, f := range fs {
						fmt.Fprintf(&w, "    let _ = &x.f%d;\n", f)
					}
					w.WriteString("}\n")
				}
				return w.String()
			}
			mod := fmt.Sprintf("#![allow(warnings)]\n#[path = %q]\npub mod gen;\n", filepath.Join(dir, g, "demo.rs"))
			// what is private to the code that main.rs has
			private := func(args []string, text string) (fs []string, ok bool) {
				os.WriteFile(filepath.Join(dir, "main.rs"), []byte(text+"fn main() {}\n"), 0o644)
				o, err := sh(dir, nil, "rustc", append(slices.Clip(args), "main.rs")...)
				c.transitions.Add(1)
				c.traces.Add(1)
				for _, m := range privateField.FindAllStringSubmatch(o, -1) {
					fs = append(fs, m[1])
				}
				if err != nil && len(fs) == 0 {
					fail("the code does not compile: " + short(o))
					return nil, false
				}
				slices.Sort(fs)
				return slices.Compact(fs), true
			}
			args := slices.DeleteFunc(slices.Clone(b.deps), func(a string) bool { return a == "--error-format=short" })
			want := func(where string, fs []string, hidden bool) {
				n := 0
				if hidden {
					n = 17
				}
				c.Outcome(fmt.Sprint(p, " ", where, " ", len(fs), " hidden"))
				if len(fs) != n {
					fail(fmt.Sprintf("%d of 17 fields are hidden from another %s, not %d: %v", len(fs), where, n, fs))
				}
			}
			if fs, ok := private(args, mod+uses("gen")); ok {
				want("module", fs, p == "" || p == "privacy=private")
			}
			os.WriteFile(filepath.Join(dir, "demo.rs"), []byte(mod), 0o644)
			lib := slices.Clone(args)
			lib[slices.Index(lib, "--crate-type=bin")] = "--crate-type=rlib"
			if o, err := sh(dir, nil, "rustc", append(lib, "--crate-name=demo", "demo.rs")...); err != nil {
				fail("the code does not compile: " + short(o))
				continue
			}
			m, _ := filepath.Glob(filepath.Join(dir, "libdemo.*"))
			if len(m) != 1 {
				die("libdemo: %v", m)
			}
			if fs, ok := private(append(args, "--extern", "demo="+m[0]), "#![allow(warnings)]\n"+uses("demo::gen")); ok {
				want("crate", fs, p != "privacy=public")
			}
		}
	}
}
