// Package vsched runs goroutines one at a time under a controlled scheduler: every
// statement of the instrumented packages is a scheduling point, and a run is
// determined by its list of choices. Outside Run all calls do nothing.
package vsched

import (
	"fmt"
	"runtime/debug"
)

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool // still blocked?
	cons    int         // points passed since it was last switched to
}

// Choice is one decision: the option taken and how many there were.
type Choice struct{ V, N int }

// Result is what a run did.
type Result struct {
	Choices  []Choice
	Steps    int
	Deadlock bool
	Diverged bool // the choices given did not fit
	Aborted  bool // step limit
	Panics   []string
}

const (
	maxSteps = 200000
	maxCons  = 4000 // a thread spinning this long lets another one run
)

type abort struct{}

var (
	active  bool
	cur     *thread
	threads []*thread
	prefix  []Choice
	res     Result
	bound   int
	used    int
	over    chan struct{}
	resets  []func()
)

// OnReset registers code that restores a package's initial state.
func OnReset(f func()) { resets = append(resets, f) }

// Active reports whether a controlled run is under way.
func Active() bool { return active }

// Instrumented reports whether any instrumented package registered itself.
func Instrumented() int { return len(resets) }

func choose(n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	i := len(res.Choices)
	if i < len(prefix) {
		v = prefix[i].V
		if prefix[i].N != n {
			res.Diverged = true
			v = min(v, n-1)
		}
	}
	res.Choices = append(res.Choices, Choice{v, n})
	return v
}

// Choose makes a choice among n options that is not about scheduling.
func Choose(n int) int {
	if !active {
		return 0
	}
	return choose(n)
}

func enabled(except *thread) []*thread {
	var out []*thread
	for _, t := range threads {
		if t == except || t.done {
			continue
		}
		if t.blocked != nil && t.blocked() {
			continue
		}
		out = append(out, t)
	}
	return out
}

func (t *thread) run() {
	t.cons = 0
	t.blocked = nil
	cur = t
	t.wake <- struct{}{}
}

// Point is a scheduling point: another thread may be run here.
func Point() {
	if !active {
		return
	}
	me := cur
	res.Steps++
	me.cons++
	if res.Aborted || res.Steps > maxSteps {
		res.Aborted = true
		panic(abort{})
	}
	if me.cons > maxCons {
		if o := enabled(me); len(o) > 0 {
			o[0].run()
			<-me.wake
		}
		return
	}
	if used >= bound || len(threads) == 1 {
		return
	}
	o := enabled(me)
	if c := choose(1 + len(o)); c > 0 {
		used++
		o[c-1].run()
		<-me.wake
	}
}

// Block waits until cond is false, letting others run.
func Block(cond func() bool) {
	if !active {
		return
	}
	for cond() {
		me := cur
		o := enabled(me)
		if len(o) == 0 {
			res.Deadlock = true
			panic(abort{})
		}
		me.blocked = cond
		o[choose(len(o))].run()
		<-me.wake
		if res.Deadlock || res.Aborted {
			panic(abort{})
		}
	}
}

func spawn(id int, f func()) *thread {
	t := &thread{id: id, wake: make(chan struct{})}
	threads = append(threads, t)
	go func() {
		<-t.wake
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(abort); !ok {
					res.Panics = append(res.Panics, fmt.Sprintf("thread %d: %v", id, p))
					_ = debug.Stack
				}
			}
			t.done = true
			o := enabled(t)
			if len(o) == 0 {
				for _, x := range threads { // whoever is blocked now is blocked for good
					if !x.done {
						res.Deadlock = true
						x.run()
						return
					}
				}
				close(over)
				return
			}
			c := 0
			if !res.Deadlock && !res.Aborted {
				c = choose(len(o))
			}
			o[c].run()
		}()
		if res.Aborted || res.Deadlock {
			return
		}
		f()
	}()
	return t
}

// Go starts another thread of the running program.
func Go(f func()) {
	if !active {
		go f()
		return
	}
	spawn(len(threads), f)
	Point()
}

// Run executes bodies under the scheduler, following given choices as far as they go
// and taking the first option after that, with at most preempt preemptions.
func Run(given []Choice, preempt int, bodies ...func()) Result {
	for _, f := range resets {
		f()
	}
	prefix, res, bound, used = given, Result{}, preempt, 0
	threads, over = nil, make(chan struct{})
	for i, f := range bodies {
		spawn(i, f)
	}
	active = true
	threads[choose(len(threads))].run()
	<-over
	active = false
	return res
}

// Explore runs every execution with at most preempt preemptions. each is called
// after every run and returns false to stop. It returns false if it was stopped.
func Explore(preempt int, bodies func() []func(), each func(r Result) bool) bool {
	var next []Choice
	for {
		r := Run(next, preempt, bodies()...)
		if !each(r) {
			return false
		}
		next = r.Choices
		i := len(next) - 1
		for ; i >= 0; i-- {
			if next[i].V+1 < next[i].N {
				break
			}
		}
		if i < 0 {
			return true
		}
		next = append([]Choice(nil), next[:i+1]...)
		next[i].V++
	}
}
