package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- C19: code generation depends on the request alone ------------------------------------

var histProtos = map[string]string{
	"a.proto": `syntax = "proto3"; package hist.a; option go_package = "gen/a";
enum Color { RED = 0; GREEN = 1; }
message Item { uint32 n = 1; repeated string tags = 2; map<string, Item> subs = 3; Color color = 4; Part part = 5; message Part { enum Kind { K = 0; } bytes data = 1; Kind kind = 2; repeated Color colors = 3; } }
message Holder { Item item = 1; repeated Item items = 2; double d = 3; float f = 4; bool b = 5; int64 l = 6; }
`,
	"sub/b.proto": `syntax = "proto3"; package b; option go_package = "gen/b";
message Plain { string s = 1; }
`,
	"c.proto": `syntax = "proto3"; package hist.c; option go_package = "gen/c"; import "a.proto";
message Uses { hist.a.Item item = 1; map<uint32, hist.a.Color> colors = 2; uint64 u = 3; }
`,
	"a2.proto": `syntax = "proto3"; package hist.a; option go_package = "gen/a";
message Second { repeated bytes data = 1; int32 i = 2; }
`,
	"d.proto": `syntax = "proto2"; package d; option go_package = "gen/d";
enum Only { FIRST = 1; SECOND = 5; }
`,
	"g.proto": `syntax = "proto2"; package g; option go_package = "gen/g";
message WithGroup { optional group Inner = 1 { optional uint32 n = 1; } }
`,
	"many.proto": `syntax = "proto3"; package hist.many; option go_package = "gen/many"; import "a.proto"; import "sub/b.proto"; import "a2.proto";
enum Zed { Z0 = 0; Z9 = 9; Z3 = 3; } enum Alpha { A0 = 0; A2 = 2; A1 = 1; } enum Mid { M0 = 0; M5 = 5; }
message Yak { message Q { message Deep { uint32 x = 1; } Deep deep = 1; enum R { R0 = 0; R1 = 1; } R r = 2; } message B { bool b = 1; } message M { string m = 1; }
  enum E { E0 = 0; E2 = 2; } enum C { C0 = 0; C1 = 1; } Q q = 1; B b = 2; M m = 3; E e = 4; C c = 5; oneof choice { string s = 6; uint32 u = 7; Zed z = 8; } }
message Bee { map<string, Yak> yaks = 9; map<int32, string> names = 3; map<uint64, Alpha> alphas = 7; map<bool, Yak.Q> qs = 1; map<string, double> ds = 2; }
message Cow { hist.a.Item item = 1; b.Plain plain = 2; hist.a.Second second = 3; repeated Mid mids = 4; repeated hist.a.Color colors = 5; Yak.Q.Deep deep = 6; }
message Ant { repeated float f = 1; repeated bool b = 2; repeated string s = 3; repeated Ant a = 4; repeated sint64 i = 5; }
`,
	"nopkg.proto": `syntax = "proto3"; option go_package = "gen/nopkg;np";
message Bare { repeated Bare kids = 1; map<bool, bytes> m = 2; }
`,
}

// histNames: what every file declares, for the names its output must have.
var histNames = map[string][]string{
	"a.proto": {"HistAColor", "HistAItem", "HistAItemPart", "HistAItemPartKind", "HistAHolder"}, "sub/b.proto": {"BPlain"}, "c.proto": {"HistCUses"},
	"many.proto": {"HistManyZed", "HistManyAlpha", "HistManyMid", "HistManyYak", "HistManyYakQ", "HistManyYakB", "HistManyYakM", "HistManyBee", "HistManyCow", "HistManyAnt", "HistManyYakQDeep"},
	"a2.proto":   {"HistASecond"}, "d.proto": {"DOnly"}, "nopkg.proto": {"Bare"},
}
var histGoPkg = map[string]string{"a.proto": "a", "sub/b.proto": "b", "c.proto": "c", "a2.proto": "a", "d.proto": "d", "nopkg.proto": "np", "many.proto": "many"}

type hrequest struct {
	Name   string
	Files  []string
	Protos []string
	Param  string
}

func hrequests(thorough bool) []hrequest {
	deps := func(fs ...string) []string {
		var out []string
		had := map[string]bool{}
		for _, f := range fs {
			for _, d := range map[string][]string{"c.proto": {"a.proto"}, "many.proto": {"a.proto", "sub/b.proto", "a2.proto"}}[f] {
				if !had[d] {
					had[d] = true
					out = append(out, d)
				}
			}
			if !had[f] {
				had[f] = true
				out = append(out, f)
			}
		}
		return out
	}
	r := func(param string, fs ...string) hrequest {
		n := strings.Join(fs, "+")
		if param != "" {
			n += "?" + param
		}
		return hrequest{n, fs, deps(fs...), param}
	}
	out := []hrequest{r("", "a.proto"), r("", "sub/b.proto"), r("", "a.proto", "sub/b.proto"), r("", "sub/b.proto", "a.proto"), r("privacy=public", "a.proto"), r("", "c.proto"),
		r("", "g.proto"), r("nonsense=1", "a.proto"), r("", "d.proto"), r("", "nopkg.proto"), r("", "c.proto", "a2.proto", "a.proto"), r("privacy=crate,paths=source_relative", "sub/b.proto"), r("", "many.proto")}
	more := []hrequest{r("", "a2.proto"), r("", "a2.proto", "a.proto"), r("", "a.proto", "c.proto"), r("", "d.proto", "sub/b.proto", "nopkg.proto"), r("", "nopkg.proto", "d.proto", "sub/b.proto"), r("privacy=private", "a.proto"), r("", "sub/b.proto", "g.proto"), r("", "many.proto", "sub/b.proto", "a2.proto", "a.proto")}
	if thorough {
		return append(out, more...)
	}
	return append(out, more[0])
}

type houtcome struct {
	Failed bool
	Names  []string
	Files  map[string]string
}

func c19(c *Check) {
	deep := level(c) >= 2
	dir := filepath.Join(scratch(), "genhist")
	protos := filepath.Join(dir, "proto")
	var files []string
	for n, t := range histProtos {
		os.MkdirAll(filepath.Dir(filepath.Join(protos, n)), 0o755)
		os.WriteFile(filepath.Join(protos, n), []byte(t), 0o644)
		files = append(files, n)
	}
	sort.Strings(files)
	set := filepath.Join(dir, "set.pb")
	must(protos, nil, "protoc", append([]string{"--include_imports", "--descriptor_set_out=" + set}, files...)...)
	m := filepath.Join(dir, "mod")
	os.MkdirAll(m, 0o755)
	writeGoMod(m, "genhist")
	b, err := os.ReadFile(filepath.Join(verifDir(), "drivers/genhist/main.go"))
	if err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(m, "main.go"), b, 0o644)
	bin := filepath.Join(dir, "genhist")
	must(m, nil, "go", "build", "-overlay", laterOverlay(dir), "-o", bin, ".")
	elsewhere := filepath.Join(dir, "elsewhere")
	os.MkdirAll(elsewhere, 0o755)
	gens := []string{"go-v1", "go-v2", "rust-v1", "rust-v2", "typescript-v1", "typescript-v2"}
	reqs := hrequests(deep)
	conf := map[string]any{"Descriptors": set, "Requests": reqs, "Baseline": nil}
	cf := filepath.Join(dir, "config.json")
	save := func() {
		b, _ := json.Marshal(conf)
		os.WriteFile(cf, b, 0o644)
	}
	save()

	// Every request alone in a fresh process, twice; the second time at another place and
	// time, with another environment.
	base := map[string]map[string]houtcome{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	do := func(f func()) {
		wg.Add(1)
		sem <- true
		go func() { defer wg.Done(); defer func() { <-sem }(); f() }()
	}
	for _, g := range gens {
		base[g] = map[string]houtcome{}
		for _, r := range reqs {
			do(func() {
				var two [2]houtcome
				for i := range two {
					cmd := exec.Command(bin, "one", cf, g, r.Name)
					if i == 1 {
						cmd.Dir = elsewhere
						for _, e := range os.Environ() {
							if k, _, _ := strings.Cut(e, "="); k != "TZ" && k != "USER" && k != "LANG" && k != "PWD" && k != "GOMAXPROCS" {
								cmd.Env = append(cmd.Env, e)
							}
						}
						cmd.Env = append(cmd.Env, "TZ=Pacific/Kiritimati", "USER=another", "LANG=tr_TR.UTF-8", "PWD="+elsewhere, "GOMAXPROCS=1", "POLYMC_LATER=1", "SOURCE_DATE_EPOCH=86400")
					}
					out, err := cmd.Output()
					if err == nil {
						err = json.Unmarshal(out, &two[i])
					}
					if err != nil {
						c.Fail(g+"/"+r.Name+"/dies", fmt.Sprintf("request %s ends the process of the %s generator: %v", r.Name, g, err), r)
						two[i].Failed = true
					}
				}
				a, _ := json.Marshal(two[0])
				b, _ := json.Marshal(two[1])
				if string(a) != string(b) {
					c.Fail(g+"/"+r.Name+"/repeat-process", fmt.Sprintf("request %s gives different output in two fresh processes of the %s generator", r.Name, g), r)
				}
				c.transitions.Add(2)
				mu.Lock()
				base[g][r.Name] = two[0]
				mu.Unlock()
			})
		}
	}
	wg.Wait()
	for _, g := range gens {
		c.histNames(g, reqs, base[g])
	}

	// All histories.
	conf["Baseline"] = base
	save()
	ops := []string{"other"}
	for _, r := range reqs {
		ops = append(ops, r.Name)
	}
	depth := 3
	for _, g := range gens {
		for _, first := range ops {
			do(func() {
				d := depth
				if strings.HasPrefix(g, "rust") { // it starts rustfmt for every file
					d--
				}
				if deep {
					d++
				}
				cmd := exec.Command("timeout", strconv.Itoa(max(int(time.Until(c.Deadline).Seconds()), 30)), bin, "explore", cf, g, first, strconv.Itoa(d))
				out, err := cmd.Output()
				var rep struct {
					Fails            []struct{ Key, Detail, History string }
					Histories, Calls int64
				}
				if err == nil {
					err = json.Unmarshal(out, &rep)
				}
				if err != nil {
					if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 124 {
						c.Cap(g + " histories")
						return
					}
					c.Fail(g+"/"+first+"/history-dies", fmt.Sprintf("a history of the %s generator that begins with %s ends the process: %v", g, first, err), map[string]any{"first": first})
					return
				}
				for _, f := range rep.Fails {
					c.Fail(g+"/"+f.Key, "the "+g+" generator, "+f.Detail, map[string]any{"generator": g, "history": f.History})
				}
				c.states.Add(rep.Histories)
				c.traces.Add(rep.Histories)
				c.transitions.Add(rep.Calls)
				c.Count(g+" histories", rep.Histories)
			})
		}
	}
	wg.Wait()
	for _, r := range reqs {
		for _, g := range gens {
			c.Outcome(fmt.Sprint(g, r.Name, base[g][r.Name].Failed))
		}
		c.Sample(r)
	}
}

// laterOverlay makes the clock of the driver, and so of the generators, run 500 days ahead
// when POLYMC_LATER is set.
func laterOverlay(dir string) string {
	src := filepath.Join(strings.TrimSpace(must(dir, nil, "go", "env", "GOROOT")), "src/time/time.go")
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	t := strings.Replace(string(b), "\nfunc Now() Time {", `
func Now() Time {
	t := realNow()
	if _, ok := syscall.Getenv("POLYMC_LATER"); ok {
		t = t.Add(500*24*Hour + 7*Hour + 13*Second)
	}
	return t
}

func realNow() Time {`, 1)
	t = strings.Replace(t, "import (", "import (\n\t\"syscall\"", 1)
	out := filepath.Join(dir, "time.go")
	ov := filepath.Join(dir, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{src: out}})
	os.WriteFile(out, []byte(t), 0o644)
	os.WriteFile(ov, j, 0o644)
	return ov
}

// histNames checks which files the requests yield, what is in them, and that a file's
// output does not depend on the other files of its request.
func (c *Check) histNames(g string, reqs []hrequest, outs map[string]houtcome) {
	single := map[string]string{} // proto file -> its output, from a request of its own
	name := map[string]string{}
	for _, r := range reqs {
		o := outs[r.Name]
		rp := map[string]any{"generator": g, "request": r}
		if len(r.Files) != 1 || r.Param != "" || r.Files[0] == "g.proto" {
			continue
		}
		f := r.Files[0]
		if o.Failed {
			c.Fail(g+"/"+r.Name+"/fails", "the "+g+" generator rejects "+f, rp)
			continue
		}
		stem := strings.TrimSuffix(filepath.Base(f), ".proto")
		if len(o.Names) != 1 || !strings.HasPrefix(filepath.Base(o.Names[0]), stem+".") && !strings.HasPrefix(filepath.Base(o.Names[0]), stem+"_") {
			c.Fail(g+"/"+r.Name+"/files", fmt.Sprintf("the %s generator writes %v for %s", g, o.Names, f), rp)
			continue
		}
		text := o.Files[o.Names[0]]
		single[f], name[f] = text, o.Names[0]
		for p, ns := range histNames {
			for _, n := range ns {
				decl := map[string]string{"g": `(?m)^\s*type ` + n + `\b`, "r": `(?m)^\s*pub (struct|enum) ` + n + `\b`, "t": `(?m)^\s*(?:export )?(?:class|const enum|enum) ` + n + `\b`}[g[:1]]
				if g[:1] == "t" && strings.HasSuffix(n, "Kind") { // only the Go and Rust generators emit enums of nested messages
					continue
				}
				if has := len(regexp.MustCompile(decl).FindAllString(text, -1)); has != 1 && p == f || has != 0 && p != f {
					c.Fail(g+"/"+r.Name+"/declares", fmt.Sprintf("the output of the %s generator for %s declares %s %d times", g, f, n, has), rp)
				}
			}
		}
		if g[:1] == "g" && !regexp.MustCompile(`(?m)^package `+histGoPkg[f]+`$`).MatchString(text) {
			c.Fail(g+"/"+r.Name+"/package", fmt.Sprintf("the output of the %s generator for %s is not in package %s", g, f, histGoPkg[f]), rp)
		}
	}
	for _, r := range reqs {
		o := outs[r.Name]
		rp := map[string]any{"generator": g, "request": r}
		if len(r.Files) == 1 {
			continue
		}
		bad := false
		for _, f := range r.Files {
			bad = bad || f == "g.proto"
		}
		if bad || o.Failed {
			if !bad {
				c.Fail(g+"/"+r.Name+"/fails", fmt.Sprintf("the %s generator rejects %v", g, r.Files), rp)
			}
			continue
		}
		if len(o.Names) != len(r.Files) {
			c.Fail(g+"/"+r.Name+"/files", fmt.Sprintf("the %s generator writes %v for %v", g, o.Names, r.Files), rp)
			continue
		}
		for _, f := range r.Files {
			if t, ok := single[f]; ok && o.Files[name[f]] != t {
				c.Fail(g+"/"+r.Name+"/other-files", fmt.Sprintf("the output of the %s generator for %s differs in a request for %v", g, f, r.Files), rp)
			}
		}
	}
}
