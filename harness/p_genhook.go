package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- C24: Go generators with code of the user's own ----------------------------------------

// hookMessages are the messages of drivers/genhook/demo.proto, as generated.
var hookMessages = []string{"DemoEmpty", "DemoLeaf", "DemoItem", "DemoItemNested", "DemoItemNestedDeeper", "DemoNode", "DemoScalars", "DemoSlices", "DemoMaps", "DemoMessages", "DemoChoice"}

type hookReport struct {
	Fails                                    []struct{ Key, Detail string }
	Histories, Calls, Values, Runs, Prefixes int64
}

func c24(c *Check) {
	deep := level(c) >= 2
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	do := func(f func()) {
		wg.Add(1)
		sem <- true
		go func() { defer wg.Done(); defer func() { <-sem }(); f() }()
	}
	for _, version := range []int{1, 2} {
		v := fmt.Sprintf("go-v%d", version)
		dir := filepath.Join(scratch(), fmt.Sprintf("genhook-v%d", version))
		src := filepath.Join(verifDir(), "drivers/genhook")
		set := filepath.Join(dir, "set.pb")
		m := filepath.Join(dir, "mod")
		os.MkdirAll(filepath.Join(m, "gen"), 0o755)
		must(src, nil, "protoc", "--descriptor_set_out="+set, "demo.proto", "small.proto", "other.proto")
		writeGoMod(m, "genhook")
		copyTo := func(from, to string) {
			b, err := os.ReadFile(from)
			if err != nil {
				die("%v", err)
			}
			os.MkdirAll(filepath.Dir(to), 0o755)
			os.WriteFile(to, b, 0o644)
		}
		copyTo(filepath.Join(src, "gen/main.go"), filepath.Join(m, "gen/main.go"))
		copyTo(filepath.Join(src, "run/main.go"), filepath.Join(m, "run/main.go"))
		gen := filepath.Join(dir, "gen")
		must(m, nil, "go", "build", "-o", gen, "./gen")
		call := func(what string, args ...string) (rep hookReport, ok bool) {
			secs := max(int(time.Until(c.Deadline).Seconds()), 30)
			cmd := exec.Command("timeout", append([]string{strconv.Itoa(secs)}, args...)...)
			var stderr strings.Builder
			cmd.Stderr = &stderr
			out, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(out, &rep)
			}
			if err != nil {
				if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 124 {
					c.Cap(v + " " + what)
					return rep, false
				}
				c.Fail(v+"/"+what+"/dies", fmt.Sprintf("%s, %s: %v %s", v, what, err, short(stderr.String())), map[string]any{"version": version, "what": what})
				return rep, false
			}
			for _, f := range rep.Fails {
				c.Fail(v+"/"+f.Key, v+", "+f.Detail, map[string]any{"version": version, "what": what})
			}
			c.states.Add(rep.Values + rep.Histories)
			c.traces.Add(rep.Runs + rep.Histories)
			c.transitions.Add(rep.Calls + rep.Runs*3 + rep.Prefixes)
			c.Count(v+" histories", rep.Histories)
			c.Count(v+" values", rep.Values)
			c.Count(v+" values in packages", rep.Runs)
			c.Count(v+" damaged inputs", rep.Prefixes)
			c.Outcome(v + what + fmt.Sprint(len(rep.Fails)))
			return rep, true
		}

		// One package for every combination of insertions and way to generate it.
		if _, ok := call("packages", gen, "packages", set, strconv.Itoa(version), filepath.Join(m, "p")); !ok {
			continue
		}
		lib := map[int]string{1: "github.com/loopholelabs/polyglot", 2: "github.com/loopholelabs/polyglot/v2"}[version]
		var imports, list strings.Builder
		for mask := 0; mask < 8; mask++ {
			for way := 0; way < 3; way++ {
				name := fmt.Sprintf("v%dm%dw%d", version, mask, way)
				rp := map[string]any{"version": version, "insertions": mask, "way": way}
				file := filepath.Join(m, "p", name, "demo.go")
				if _, err := os.Stat(file); err != nil {
					continue // reported
				}
				f, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.PackageClauseOnly)
				want := "demo"
				if way == 2 {
					want = "renamed"
				}
				if err != nil || f.Name.Name != want {
					c.Fail(v+"/package-name", fmt.Sprintf("%s, insertions %03b, way %d: the output is not in package %s: %v", v, mask, way, want, err), rp)
				}
				if o, err := sh(m, nil, "go", "build", "./p/"+name); err != nil {
					c.Fail(fmt.Sprintf("%s/m%dw%d/compile", v, mask, way), fmt.Sprintf("%s, insertions %03b, way %d: the output does not compile: %s", v, mask, way, short(string(o))), rp)
					continue
				}
				fmt.Fprintf(&imports, "\t%s \"genhook/p/%s\"\n", name, name)
				fmt.Fprintf(&list, "\t\t{%d, %d, map[string]func() any{", mask, way)
				for _, n := range hookMessages {
					fmt.Fprintf(&list, "%q: func() any { return %s.New%s() }, ", n, name, n)
				}
				list.WriteString("}},\n")
			}
		}
		if list.Len() == 0 {
			continue
		}
		reg := "package main\n\nimport (\n\tpolyglot \"" + lib + "\"\n" + imports.String() + ")\n\nfunc init() {\n" +
			"\tencode = func(m any) []byte {\n\t\tb := polyglot.NewBuffer()\n\t\tm.(interface{ Encode(*polyglot.Buffer) }).Encode(b)\n\t\treturn append([]byte{}, b.Bytes()...)\n\t}\n" +
			"\tmarker = func(tag uint32) []byte {\n\t\tif b, ok := markers[tag]; ok {\n\t\t\treturn b\n\t\t}\n\t\tb := polyglot.NewBuffer()\n\t\tpolyglot.Encoder(b).Uint32(tag)\n\t\tmarkers[tag] = append([]byte{}, b.Bytes()...)\n\t\treturn markers[tag]\n\t}\n" +
			"\tpackages = []api{\n" + list.String() + "\t}\n}\n\nvar markers = map[uint32][]byte{}\n"
		os.WriteFile(filepath.Join(m, "run/registry.go"), []byte(reg), 0o644)
		run := filepath.Join(dir, "run")
		if o, err := sh(m, nil, "go", "build", "-o", run, "./run"); err != nil {
			c.Fail(v+"/build", fmt.Sprintf("%s: the generated packages cannot be used: %s", v, short(string(o))), map[string]any{"version": version})
			continue
		}
		tier := "1"
		if deep {
			tier = "2"
		}
		for _, n := range hookMessages {
			c.Sample(map[string]any{"version": v, "message": n, "insertions": "all 8 combinations", "ways": 3})
			do(func() { call(n, run, tier, n, "4") })
		}

		// All histories of changed insertions and requests on two generators.
		n, ok := call("operations", gen, "histories", set, strconv.Itoa(version), "0", "-1")
		if !ok {
			continue
		}
		depth := "2"
		if deep {
			depth = "3"
		}
		for i := 0; i < int(n.Histories); i++ {
			do(func() { call("histories", gen, "histories", set, strconv.Itoa(version), depth, strconv.Itoa(i)) })
		}
	}
	wg.Wait()
}

// short is the end of a text.
func short(s string) string {
	if len(s) > 600 {
		s = "..." + s[len(s)-600:]
	}
	return s
}
