package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
)

// ---- C25: names ------------------------------------------------------------------------------

// nameSpace is all identifiers up to a length over an alphabet with one character of each
// class, and the words that mean something in the languages or in the generated code; more are
// the identifiers of the next length, which stand in fewer places.
func nameSpace(deep bool) (out, more []string) {
	had := map[string]bool{}
	n := 3
	if deep {
		n = 5
	}
	add := func(x string) {
		if !had[x] {
			had[x] = true
			if len(x) == n+1 {
				more = append(more, x)
			} else {
				out = append(out, x)
			}
		}
	}
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if p != "" {
			add(p)
		}
		if n == 0 {
			return
		}
		for _, x := range []string{"a", "B", "1", "_"} {
			if p != "" || x != "1" {
				rec(p+x, n-1)
			}
		}
	}
	rec("", n+1)
	for _, w := range strings.Fields(nameWords) {
		if !had[w] {
			had[w] = true
			out = append(out, w)
		}
	}
	for _, k := range longNames {
		add(strings.Repeat("a", k))
		add(strings.Repeat("b_1C", k/4) + "dddd"[:k%4])
	}
	return out, more
}

var longNames = []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300}

const nameWords = `break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var
nil string len uint32 make append error true false errors polyglot NilDecode any iota init int byte cap panic
abstract as async await become box crate do dyn enum extern final fn gen impl in let loop macro match mod move mut override priv pub ref self Self static super trait try typeof unsafe unsized use virtual where while yield union
String Vec Result Ok Err Some None Option Box Kind Cursor Encode Decode HashMap Error DecodingError Encoder Decoder TryFrom TryFromPrimitive u32 usize str bool
arguments catch class debugger delete eval export extends finally function implements instanceof null private protected public this throw void with undefined NaN Infinity Object Array Map Set Uint8Array Number BigInt bigint number boolean Symbol symbol never unknown object constructor prototype encode decode toString hasOwnProperty valueOf length name get set of from is keyof readonly declare namespace module require exports __proto__ then
x b d err v k i j size n value key item field kind fields val buf buffer decoder encoder decoded encoded result other r m`

// libraryNames are the identifiers of messages and enums that no file without a package can
// declare, because the generated code uses or declares them itself (known finding).
var libraryNames = map[string]string{
	"go":         " NilDecode ",
	"rust":       " Box Cursor Decode Decoder DecodingError Encode Encoder HashMap Kind Option Result Self String TryFrom TryFromPrimitive Vec ",
	"typescript": " Decoder Encoder Kind Map Object ",
}

// localNames are enum constants that generated Rust code uses as names of variables of the
// enum's type (known finding).
const localNames = " item v val "

var nameAlone = regexp.MustCompile(`\bN\b`)

var nameIdentChars = regexp.MustCompile(`^_+[0-9]`)

const nameHead = "syntax = \"proto3\"; package demo; option go_package = \".;demo\";\nmessage ZzLeaf { uint32 n = 1; }\nenum ZzColor { ZZ_RED = 0; }\n"
const nameBare = "syntax = \"proto3\"; option go_package = \".;demo\";\n"

// nameSchemas are the places a name can stand in: the schemas of all places, by place.
var nameSchemas = []struct {
	place string
	head  string
	text  string // N is the name
}{
	{"field", nameHead, "message ZzF { uint32 N = 1; }\nmessage ZzG { repeated ZzColor N = 1; }\nmessage ZzH { ZzColor N = 1; }\nmessage ZzI { ZzLeaf N = 1; }\nmessage ZzJ { repeated ZzLeaf N = 1; }\nmessage ZzK { bytes N = 1; }\nmessage ZzL { repeated string N = 1; }\n"},
	{"oneof-field", nameHead, "message ZzO { oneof choice { string N = 1; } }\n"},
	{"oneof", nameHead, "message ZzP { oneof N { string zz = 1; } }\n"},
	{"map-field", nameHead, "message ZzM { map<string, uint32> N = 1; }\nmessage ZzN { map<uint32, ZzColor> N = 1; }\nmessage ZzQ { map<bool, ZzLeaf> N = 1; }\n"},
	{"nested-message", nameHead, "message ZzR { message N { uint32 n = 1; repeated N r = 2; map<string, N> m = 3; } N v = 1; repeated N r = 2; }\n"},
	{"nested-enum", nameHead, "message ZzS { enum N { ZZ_ONE = 0; ZZ_TWO = 1; } N v = 1; repeated N r = 2; map<string, N> m = 3; }\n"},
	{"nested-constant", nameHead, "message ZzT { enum ZzE { N = 0; ZZ_ONE = 1; } ZzE v = 1; repeated ZzE r = 2; map<string, ZzE> m = 3; }\n"},
	{"message", nameHead, "message N { uint32 n = 1; repeated N r = 2; map<string, N> m = 3; }\nmessage ZzU { N v = 1; repeated N r = 2; }\n"},
	// the rest cannot stand in a file with other places
	{"constant", nameHead, "enum ZzB { N = 0; ZZ_BLUE = 1; }\nmessage ZzV { ZzB v = 1; repeated ZzB r = 2; map<string, ZzB> m = 3; }\n"},
	{"enum", nameHead, "enum N { ZZ_ONE = 0; ZZ_TWO = 1; }\nmessage ZzW { N v = 1; repeated N r = 2; map<string, N> m = 3; }\n"},
	{"no-package", nameBare, "message N { uint32 n = 1; repeated N r = 2; map<string, N> m = 3; }\nmessage ZzX { N v = 1; }\n"},
	{"no-package-enum", nameBare, "enum N { ZZ_ONE = 0; ZZ_TWO = 1; }\nmessage ZzY { N v = 1; repeated N r = 2; map<string, N> m = 3; }\n"},
	{"package", "", "syntax = \"proto3\"; package N; option go_package = \".;demo\";\nmessage ZzZ { uint32 n = 1; map<string, ZzZ> m = 2; }\n"},
	{"inner-package", "", "syntax = \"proto3\"; package N.zz.N; option go_package = \".;demo\";\nmessage ZzZ { uint32 n = 1; map<string, ZzZ> m = 2; }\nenum ZzE { ZZ_ONE = 0; }\n"},
}

const nameBatch = 2000 // so many schemas are looked at together

const nameShards = 8 // so many crates and TypeScript projects are compiled at once

const namesTogether = 8 // so many of the places share a file

type nameCase struct {
	id, what, text string
	key            string            // of a failure
	split          func() []nameCase // the parts, when it fails
	param          string            // of the Rust generator, - for none, instead of public fields
	refused        bool              // an error of the generator is right, too
	endless        bool              // there are values that contain one of their own type singly
	generate       bool              // the Rust code is not compiled, only generated
}

var nameGens = []string{"go-v1", "go-v2", "rust-v1", "rust-v2", "typescript-v1", "typescript-v2"}

func c25(c *Check) {
	deep := level(c) >= 2
	names, more := nameSpace(deep)
	b := newNameBuilder(c)
	at := func(i int, n string) nameCase {
		s := nameSchemas[i]
		return nameCase{what: fmt.Sprintf("%s named %s", s.place, n), key: s.place + "/" + n,
			text: s.head + nameAlone.ReplaceAllString(s.text, n)}
	}
	var cases []nameCase
	for _, n := range names {
		var parts []nameCase
		text := nameHead
		for i := range nameSchemas {
			if nameSchemas[i].place == "map-field" && nameIdentChars.MatchString(n) {
				continue // the entry of such a map has no valid name: the protobuf library rejects it
			}
			p := at(i, n)
			if i >= namesTogether {
				if nameSchemas[i].place == "package" && n == "main" {
					continue
				}
				cases = append(cases, p)
				continue
			}
			parts = append(parts, p)
			text += strings.TrimPrefix(p.text, nameHead)
		}
		cases = append(cases, nameCase{what: "all of a file named " + n, key: "all/" + n, text: text, split: func() []nameCase { return parts }})
	}
	for i := 0; i < len(more); i += 50 {
		text := nameHead
		var parts []nameCase
		for j, n := range more[i:min(i+50, len(more))] {
			for _, f := range []string{"uint32 N = 1; repeated ZzLeaf x = 2;", "oneof N { ZzColor x = 1; }", "message N { uint32 n = 1; } N v = 1; repeated N r = 2;", "enum N { ZZ_ONE = 0; } N v = 1; repeated N r = 2;", "enum ZzE { N = 0; ZZ_ONE = 1; } ZzE v = 1;"} {
				f = nameAlone.ReplaceAllString(f, n)
				text += fmt.Sprintf("message ZzMore%d { %s }\n", j*10+len(parts)%5, f)
				parts = append(parts, nameCase{what: f, key: "more/" + strings.ReplaceAll(f, " ", ""), text: nameHead + "message ZzMore { " + f + " }\n"})
			}
		}
		cases = append(cases, nameCase{what: fmt.Sprintf("more from %d", i), key: fmt.Sprintf("more/%d", i), text: text, split: func() []nameCase { return parts }})
	}
	// Two fields of one message, whose names differ in more than case and underscores.
	fold := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	var short []string
	for _, n := range append(names, "self_", "Self_", "r_type", "Error_", "encode_", "error_", "crate_", "_self", "Xa", "decode_") {
		if fold(n) != "" && (len(n) <= 2 || deep && len(n) <= 3 || strings.Contains(" type self super crate error Error encode decode Encode self_ Self Self_ r_type Error_ encode_ error_ crate_ _self Xa decode_ constructor get set name class value key item ", " "+n+" ")) {
			short = append(short, n)
		}
	}
	var pair []string
	for i, x := range short {
		for _, y := range short[:i] {
			// the generators put X in front of what is left of _1
			if fold(x) != fold(y) && fold(strings.TrimLeft(x, "Xx")) != fold(strings.TrimLeft(y, "Xx")) {
				pair = append(pair, fmt.Sprintf("uint32 %s = 1; ZzLeaf %s = 2; ", x, y))
			}
		}
	}
	for i, k := range longNames { // long names with the difference at the end, or in the length
		a, b := strings.Repeat("a", k), strings.Repeat("ab1_", k/4)
		pair = append(pair, fmt.Sprintf("uint32 %sx = 1; ZzLeaf %sy = 2; ", a, a), fmt.Sprintf("uint32 %sx = 1; ZzLeaf %sy = 2; ", b, b), fmt.Sprintf("uint32 x%s = 1; ZzLeaf y%s = 2; ", a, a))
		if i > 0 {
			pair = append(pair, fmt.Sprintf("uint32 %s = 1; ZzLeaf %s = 2; ", a, strings.Repeat("a", longNames[i-1])))
		}
	}
	for i := 0; i < len(pair); i += 100 {
		text := nameHead
		var parts []nameCase
		for j, p := range pair[i:min(i+100, len(pair))] {
			text += fmt.Sprintf("message ZzPair%d { %s }\n", j, p)
			parts = append(parts, nameCase{what: "fields " + p, key: "pair/" + strings.ReplaceAll(p, " ", ""), text: nameHead + "message ZzPair { " + p + "}\n"})
		}
		cases = append(cases, nameCase{what: fmt.Sprintf("pairs from %d", i), key: fmt.Sprintf("pairs/%d", i), text: text, split: func() []nameCase { return parts }})
	}
	// Names that run together.
	cases = append(cases, nameCase{what: "message AB and message B in A", key: "run-together", text: nameHead + "message AB { uint32 n = 1; }\nmessage A { message B { uint32 n = 1; } B b = 1; }\n"})

	c.Count("names", int64(len(names)))
	c.Count("names in fewer places", int64(len(more)))
	c.Count("pairs of field names", int64(len(pair)))
	b.all(cases)
	c.Sample(map[string]any{"names": len(names), "places": len(nameSchemas), "generators": nameGens})
}

// all runs the cases, and the parts of those that fail.
func (b *nameBuilder) all(cases []nameCase) {
	c := b.c
	type whole struct {
		nameCase
		fails map[string]string
		part  bool // one of the parts fails
	}
	var wholes []*whole
	of := make([]*whole, len(cases))
	for round := 0; len(cases) > 0; round++ {
		var fails []map[string]string
		for part := range slices.Chunk(cases, nameBatch) {
			fails = append(fails, b.run(fmt.Sprintf("round%d-%d", round, len(fails)), part)...)
		}
		var next []nameCase
		var nextOf []*whole
		for i, x := range cases {
			if x.refused {
				for g, why := range fails[i] {
					if strings.HasPrefix(why, "refused: ") {
						c.Outcome("refused")
						delete(fails[i], g)
					}
				}
			}
			if len(fails[i]) == 0 {
				c.Outcome("compiles")
				continue
			}
			if of[i] != nil {
				of[i].part = true
			}
			if x.split != nil {
				w := &whole{nameCase: x, fails: fails[i]}
				wholes = append(wholes, w)
				for _, p := range x.split() {
					next = append(next, p)
					nextOf = append(nextOf, w)
				}
				continue
			}
			for g, why := range fails[i] {
				c.Outcome("fails " + g)
				b.report(g, x, why)
			}
		}
		cases, of = next, nextOf
	}
	for _, w := range wholes {
		if !w.part {
			for g, why := range w.fails {
				if g == "protoc" { // one of the parts is not a schema
					continue
				}
				c.Outcome("fails " + g)
				b.report(g, w.nameCase, why)
			}
		}
	}
}

func (b *nameBuilder) report(g string, x nameCase, why string) {
	lang, _, _ := strings.Cut(g, "-")
	key := g + "/" + x.key
	place, n, _ := strings.Cut(x.key, "/")
	rp := map[string]any{"generator": g, "schema": x.text}
	switch {
	case strings.HasPrefix(place, "no-package") && strings.Contains(libraryNames[lang], " "+strings.ToUpper(n[:1])+n[1:]+" "):
		key = g + "/no-package/library-names"
	case x.endless && lang == "rust" && strings.HasPrefix(why, "recursive type") && strings.HasSuffix(why, "infinite size"):
		key = g + "/self-containing"
	case lang == "rust" && strings.HasSuffix(place, "constant") && strings.Contains(localNames, " "+n+" "):
		key = g + "/constant/local-names"
	}
	b.c.Fail(key, fmt.Sprintf("the code of the %s generator for %s does not compile: %s", g, x.what, short(why)), rp)
}

type nameBuilder struct {
	c        *Check
	dir, bin string
	deps     []string // arguments of the Rust compiler
}

func newNameBuilder(c *Check) *nameBuilder {
	b := &nameBuilder{c: c, dir: filepath.Join(scratch(), "names")}
	m := filepath.Join(b.dir, "mod")
	os.MkdirAll(m, 0o755)
	writeGoMod(m, "gennames")
	src, err := os.ReadFile(filepath.Join(verifDir(), "drivers/gennames/main.go"))
	if err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(m, "main.go"), src, 0o644)
	b.bin = filepath.Join(b.dir, "gennames")
	must(m, nil, "go", "build", "-o", b.bin, ".")
	b.deps = slices.Clip(b.rustDeps())
	return b
}

// run generates and compiles the code for every case: what fails, by case and generator.
func (b *nameBuilder) run(round string, cases []nameCase) []map[string]string {
	c := b.c
	dir := filepath.Join(b.dir, round)
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	out := make([]map[string]string, len(cases))
	var ids []string
	index := map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	do := func(f func()) {
		wg.Add(1)
		sem <- true
		go func() { defer wg.Done(); defer func() { <-sem }(); f() }()
	}
	for i := range cases {
		out[i] = map[string]string{}
		do(func() {
			id := fmt.Sprintf("case%d", i)
			d := filepath.Join(dir, id)
			os.MkdirAll(d, 0o755)
			os.WriteFile(filepath.Join(d, "demo.proto"), []byte(cases[i].text), 0o644)
			o, err := sh(d, nil, "protoc", "--descriptor_set_out="+filepath.Join(dir, id+".pb"), "demo.proto")
			mu.Lock()
			defer mu.Unlock()
			if err != nil { // not a schema: a name that protoc reserves there
				if cases[i].split != nil {
					out[i]["protoc"] = o
				} else {
					c.Count("not schemas", 1)
				}
				return
			}
			ids = append(ids, id)
			index[id] = i
		})
	}
	wg.Wait()
	sort.Strings(ids)
	params := map[string]string{}
	for id, i := range index {
		if p := cases[i].param; p == "" {
			params[id] = "privacy=public"
		} else if p != "-" {
			params[id] = p
		}
	}
	cfg, _ := json.Marshal(map[string]any{"Repo": repoDir(), "IDs": ids, "Dir": dir, "Params": params})
	cf := filepath.Join(dir, "config.json")
	os.WriteFile(cf, cfg, 0o644)
	for _, g := range nameGens {
		do(func() {
			var fails map[string]string
			cmd := exec.Command(b.bin, cf, g)
			cmd.Dir = filepath.Join(b.dir, "mod")
			var stderr strings.Builder
			cmd.Stderr = &stderr
			o, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(o, &fails)
			}
			if err != nil {
				c.Fail(g+"/dies", fmt.Sprintf("the %s generator ends its process: %v %s", g, err, short(stderr.String())), nil)
				return
			}
			mu.Lock()
			for id, why := range fails {
				out[index[id]][g] = why
			}
			mu.Unlock()
			c.states.Add(int64(len(ids)))
			c.transitions.Add(int64(len(ids)))
			c.traces.Add(int64(len(ids)))
			c.Count(g+" schemas", int64(len(ids)))
		})
	}
	wg.Wait()
	os.MkdirAll(filepath.Join(dir, "lib"), 0o755)
	for _, n := range []string{"index", "encoder", "decoder", "kind"} {
		t, err := os.ReadFile(filepath.Join(repoDir(), n+".ts"))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(dir, "lib", n+".ts"), t, 0o644)
	}
	// what was generated, by language
	has := func(g, id string) bool { return out[index[id]][g] == "" }
	fail := func(g, id, why string) { mu.Lock(); out[index[id]][g] = why; mu.Unlock() }
	locked := func(g, id string) bool { mu.Lock(); defer mu.Unlock(); return has(g, id) }
	shards := min(nameShards, 1+len(ids)/100)
	for k := range shards {
		var part, together []string
		for i, id := range ids {
			if i%shards != k {
				continue
			}
			part = append(part, id)
			if x := cases[index[id]]; x.generate {
				continue
			} else if x.endless { // the compiler needs very long for a crate with many of these
				do(func() { b.rust(filepath.Join(dir, "crate-"+id), dir, []string{id}, locked, fail) })
			} else {
				together = append(together, id)
			}
		}
		do(func() { b.rust(filepath.Join(dir, fmt.Sprint("crate", k)), dir, together, locked, fail) })
		do(func() { b.typescript(fmt.Sprintf("tsconfig%d.json", k), dir, part, locked, fail) })
	}
	wg.Wait()
	return out
}

var nameRustError = regexp.MustCompile(`(?m)^\S*/(rust-v[12])/(case\d+)\.rs:\d+:\d+: error(?:\[E\d+\])?: (.*)$`)
var nameTSError = regexp.MustCompile(`(?m)^(typescript-v[12])/(case\d+)\.ts\(\d+,\d+\): error (TS\d+: .*)$`)

// rustDeps builds the library that the generated Rust code uses: the compiler's arguments.
func (b *nameBuilder) rustDeps() []string {
	d := filepath.Join(b.dir, "crate")
	if o, err := sh("/", nil, "cp", "-r", filepath.Join(verifDir(), "drivers/rustgen"), d); err != nil {
		die("%s", o)
	}
	t, _ := os.ReadFile(filepath.Join(d, "Cargo.toml"))
	os.WriteFile(filepath.Join(d, "Cargo.toml"), []byte(strings.ReplaceAll(string(t), "REPO", repoDir())), 0o644)
	os.WriteFile(filepath.Join(d, "src", "main.rs"), []byte("fn main() {}\n"), 0o644)
	target := filepath.Join(b.dir, "target")
	must(d, []string{"CARGO_TARGET_DIR=" + target, "CARGO_NET_OFFLINE=true"}, "cargo", "check", "--offline", "-q")
	args := []string{"--crate-type=bin", "--edition=2021", "--emit=metadata", "--error-format=short", "-L", "dependency=" + filepath.Join(target, "debug/deps")}
	for _, n := range []string{"polyglot_rs", "num_enum"} {
		m, _ := filepath.Glob(filepath.Join(target, "debug/deps", "lib"+n+"-*.[rs][mo]*"))
		if len(m) != 1 {
			die("%s: %v", n, m)
		}
		args = append(args, "--extern", n+"="+m[0])
	}
	return args
}

// rust compiles the generated Rust files as modules of one crate; files with errors are
// left out until the rest compiles, as later passes of the compiler do not see them.
func (b *nameBuilder) rust(d, dir string, ids []string, has func(g, id string) bool, fail func(g, id, why string)) {
	os.MkdirAll(d, 0o755)
	for {
		var w strings.Builder
		w.WriteString("#![allow(warnings)]\n")
		for _, g := range []string{"rust-v1", "rust-v2"} {
			for _, id := range ids {
				if has(g, id) {
					fmt.Fprintf(&w, "#[path = %q]\nmod %s_%s;\n", filepath.Join(dir, g, id+".rs"), strings.ReplaceAll(g, "-", "_"), id)
				}
			}
		}
		w.WriteString("fn main() {}\n")
		os.WriteFile(filepath.Join(d, "main.rs"), []byte(w.String()), 0o644)
		o, err := sh(d, nil, "rustc", append(b.deps, "main.rs")...)
		if err == nil {
			return
		}
		ms := nameRustError.FindAllStringSubmatch(o, -1)
		if len(ms) == 0 {
			b.c.Fail("rust/compile", "generated Rust code does not compile: "+short(o), nil)
			return
		}
		for _, m := range ms {
			if has(m[1], m[2]) {
				fail(m[1], m[2], m[3])
			}
		}
	}
}

// typescript type-checks the generated TypeScript files with the library; files that do not
// even parse are left out until the rest does.
func (b *nameBuilder) typescript(project, dir string, ids []string, has func(g, id string) bool, fail func(g, id, why string)) {
	for {
		files := []string{"lib/index.ts"}
		for _, g := range []string{"typescript-v1", "typescript-v2"} {
			for _, id := range ids {
				if has(g, id) {
					files = append(files, g+"/"+id+".ts")
				}
			}
		}
		cfg, _ := json.Marshal(map[string]any{"files": files,
			"compilerOptions": map[string]any{"target": "es2020", "module": "commonjs", "strict": true, "esModuleInterop": true, "rootDir": ".", "noEmit": true, "types": []string{},
				"paths": map[string][]string{"polyglot": {"./lib/index.ts"}, "@loopholelabs/polyglot": {"./lib/index.ts"}}}})
		os.WriteFile(filepath.Join(dir, project), cfg, 0o644)
		o, err := sh(dir, nil, "tsc", "--pretty", "false", "-p", project)
		if err == nil {
			return
		}
		ms := nameTSError.FindAllStringSubmatch(o, -1)
		if len(ms) == 0 {
			b.c.Fail("typescript/compile", "generated TypeScript code does not compile: "+short(o), nil)
			return
		}
		for _, m := range ms {
			if has(m[1], m[2]) {
				fail(m[1], m[2], m[3])
			}
		}
	}
}
