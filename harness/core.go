package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the context of one run of one property's check: counters, deadline,
// violations found, findings matched, and the evidence written at the end.
type Check struct {
	Prop     string
	Tier     string
	Seed     int
	Start    time.Time
	Deadline time.Time

	states      atomic.Int64 // distinct states enumerated
	transitions atomic.Int64 // implementation steps executed and compared
	traces      atomic.Int64 // complete traces replayed against an implementation
	outcomes    sync.Map     // distinct observed outcomes (vacuity guard)
	nOutcomes   atomic.Int64

	mu         sync.Mutex
	counts     map[string]int64 // per-domain counts
	samples    []any
	capped     []string
	violations map[string]*Violation // by key
	order      []string
	notes      []string
	assume     []string
	stop       atomic.Bool
}

// Violation is a failing case: a stable key (what known findings are matched on),
// a description, and data from which it can be replayed.
type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Replay any    `json:"replay,omitempty"`
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

func (c *Check) Count(name string, n int64) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

func (c *Check) Note(f string, a ...any) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *Check) Assume(f string, a ...any) {
	c.mu.Lock()
	c.assume = append(c.assume, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// Cap records that an enumeration was cut short by the deadline.
func (c *Check) Cap(what string) {
	c.mu.Lock()
	for _, x := range c.capped {
		if x == what {
			c.mu.Unlock()
			return
		}
	}
	c.capped = append(c.capped, what)
	c.mu.Unlock()
}

func (c *Check) Outcome(k string) {
	if _, ok := c.outcomes.LoadOrStore(k, true); !ok {
		c.nOutcomes.Add(1)
	}
}

func (c *Check) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Check) Expired() bool { return time.Now().After(c.Deadline) }

// Fail records a violation; only the first of each key is kept.
func (c *Check) Fail(key, detail string, replay any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.violations[key]; ok {
		return
	}
	if len(c.order) >= 200 {
		c.stop.Store(true)
		return
	}
	c.violations[key] = &Violation{key, detail, replay}
	c.order = append(c.order, key)
}

func (c *Check) Failed(key string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	_, ok := c.violations[key]
	return ok
}

// finding is one line of known_findings.txt.
type finding struct{ prop, key, what string }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

// loadFindings reads "finding: property=<id> key=<key> :: <what>" lines; lines
// that start with "fixed:" or "#" suppress nothing.
func loadFindings() []finding {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		var fd finding
		if i := strings.Index(l, "::"); i >= 0 {
			fd.what = strings.TrimSpace(l[i+2:])
			l = strings.TrimSpace(l[:i])
		}
		for _, w := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				fd.prop = v
			}
			if v, ok := strings.CutPrefix(w, "key="); ok {
				fd.key = v
			}
		}
		out = append(out, fd)
	}
	return out
}

func NewCheck(prop, tier string, quick, thorough time.Duration) *Check {
	c := &Check{Prop: prop, Tier: tier, Seed: 1, Start: time.Now(),
		counts: map[string]int64{}, violations: map[string]*Violation{}}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.Seed)
	d := quick
	if tier == "thorough" {
		d = thorough
	}
	c.Deadline = c.Start.Add(d)
	return c
}

// Finish prints findings and violations, writes the evidence, and returns the exit code.
func (c *Check) Finish() int {
	known := loadFindings()
	exit := 0
	var unlisted []*Violation
	sort.Strings(c.order)
	printed := map[string]bool{}
	for _, k := range c.order {
		v := c.violations[k]
		listed := false
		for _, f := range known {
			if f.prop == c.Prop && f.key == k {
				listed = true
				if !printed[k] {
					fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", c.Prop, k, f.what)
					printed[k] = true
				}
			}
		}
		if !listed {
			unlisted = append(unlisted, v)
		}
	}
	// Findings listed for this property that did not show are reported as stale
	// in the evidence only.
	for _, f := range known {
		if f.prop == c.Prop {
			if _, ok := c.violations[f.key]; !ok {
				c.Note("listed finding %s did not occur in this run", f.key)
			}
		}
	}
	if len(unlisted) > 0 {
		exit = 1
		dir := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		for i, v := range unlisted {
			if i >= 10 {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, i))
			b, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "violation": v}, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
			fmt.Printf("  %s: %s\n", v.Key, v.Detail)
		}
		if len(unlisted) > 10 && os.Getenv("VERIF_ALL") != "" {
			for _, v := range unlisted[10:] {
				fmt.Printf("  %s: %s\n", v.Key, v.Detail)
			}
		} else if len(unlisted) > 10 {
			fmt.Printf("  ... and %d more distinct violations\n", len(unlisted)-10)
		}
	}
	cov := map[string]any{
		"states":                        c.states.Load(),
		"transitions":                   c.transitions.Load(),
		"traces_validated_against_impl": c.traces.Load(),
		"distinct_outcomes":             c.nOutcomes.Load(),
		"exhaustive":                    len(c.capped) == 0,
		"domains":                       c.counts,
		"samples":                       c.samples,
	}
	if len(c.capped) > 0 {
		cov["capped"] = c.capped
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": len(unlisted),
	}
	if c.assume != nil {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n", c.Prop, c.Tier,
		c.states.Load(), c.transitions.Load(), c.traces.Load(), c.nOutcomes.Load(), len(c.capped) == 0, len(unlisted), time.Since(c.Start).Seconds())
	return exit
}

// Parallel runs f(i) for every i in [0,n) on all cores. f must not depend on the order.
// It returns false if the deadline cut it short.
func (c *Check) Parallel(n int, f func(i int)) bool {
	var next atomic.Int64
	var cut atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.stop.Load() {
					return
				}
				if c.Expired() {
					cut.Store(true)
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	return !cut.Load()
}
