// Driver for the code generators: generates code for many small schemas and type-checks
// the Go code.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	go1 "github.com/loopholelabs/polyglot/generator/golang"
	rs1 "github.com/loopholelabs/polyglot/generator/rust"
	ts1 "github.com/loopholelabs/polyglot/generator/typescript"
	go2 "github.com/loopholelabs/polyglot/v2/generator/golang"
	rs2 "github.com/loopholelabs/polyglot/v2/generator/rust"
	ts2 "github.com/loopholelabs/polyglot/v2/generator/typescript"
)

type generator interface {
	Generate(*pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
}

var makers = map[string]func() generator{
	"go-v1":         func() generator { return go1.New() },
	"go-v2":         func() generator { return go2.New() },
	"rust-v1":       func() generator { return rs1.New() },
	"rust-v2":       func() generator { return rs2.New() },
	"typescript-v1": func() generator { return ts1.New() },
	"typescript-v2": func() generator { return ts2.New() },
}

// checker type-checks Go files against the library as it is in the repository.
type checker struct {
	mu   sync.Mutex
	fset *token.FileSet
	std  types.Importer
	had  map[string]*types.Package
	repo string
}

func (c *checker) Import(path string) (*types.Package, error) {
	rest, ok := strings.CutPrefix(path, "github.com/loopholelabs/polyglot")
	if !ok {
		return c.std.Import(path)
	}
	dir := c.repo + rest
	if p := c.had[path]; p != nil {
		return p, nil
	}
	b, err := build.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, n := range b.GoFiles {
		f, err := parser.ParseFile(c.fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	p, err := (&types.Config{Importer: c}).Check(path, c.fset, files, nil)
	c.had[path] = p
	return p, err
}

func (c *checker) check(text string) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	f, err := parser.ParseFile(c.fset, "demo.go", text, 0)
	if err != nil {
		return err
	}
	_, err = (&types.Config{Importer: c}).Check("demo", c.fset, []*ast.File{f}, nil)
	return err
}

func one(gen, set, param string) (files map[string]string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	b, err := os.ReadFile(set)
	if err != nil {
		return nil, err
	}
	var s descriptorpb.FileDescriptorSet
	if err := proto.Unmarshal(b, &s); err != nil {
		return nil, err
	}
	q := &pluginpb.CodeGeneratorRequest{ProtoFile: s.File, FileToGenerate: []string{s.File[0].GetName()}}
	if gen[0] == 'r' && param != "" {
		q.Parameter = proto.String(param)
	}
	res, err := makers[gen]().Generate(q)
	if err != nil {
		return nil, fmt.Errorf("refused: %v", err)
	}
	if res.Error != nil {
		return nil, fmt.Errorf("refused: %s", res.GetError())
	}
	files = map[string]string{}
	for _, f := range res.File {
		files[f.GetName()] = f.GetContent()
	}
	if len(files) != 1 {
		return nil, fmt.Errorf("%d files", len(files))
	}
	return files, nil
}

func main() { // gennames <config> <generator>
	var cfg struct {
		Repo   string
		IDs    []string
		Params map[string]string // of the Rust generators, by ID
		Dir    string            // of the descriptors, <id>.pb, and the output, <generator>/<id>.<ext>
	}
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		panic(err)
	}
	gen := os.Args[2]
	out := filepath.Join(cfg.Dir, gen)
	os.MkdirAll(out, 0o755)
	fset := token.NewFileSet()
	ck := &checker{fset: fset, std: importer.ForCompiler(fset, "source", nil), had: map[string]*types.Package{}, repo: cfg.Repo}
	fails := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, id := range cfg.IDs {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			files, err := one(gen, filepath.Join(cfg.Dir, id+".pb"), cfg.Params[id])
			for _, t := range files {
				ext := map[byte]string{'g': ".go", 'r': ".rs", 't': ".ts"}[gen[0]]
				os.WriteFile(filepath.Join(out, id+ext), []byte(t), 0o644)
				if gen[0] == 'g' && err == nil {
					err = ck.check(t)
				}
			}
			if err != nil {
				mu.Lock()
				fails[id] = err.Error()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	b, _ = json.Marshal(fails)
	os.Stdout.Write(b)
}
