package main

import (
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// The Go implementations run inside the checker, so an endless loop in them cannot
// be ended by killing a process. Every batch of jobs registers where it is; a job
// that makes no progress for hangAfter is reported and ends the run.
const hangAfter = 45 * time.Second

type watched struct {
	key  string
	show func(i int) string
	pos  atomic.Int64
	seen int64
	when time.Time
}

var watchList struct {
	sync.Mutex
	m map[*watched]bool
}

func watch(key string, show func(i int) string) *watched {
	w := &watched{key: key, show: show, seen: -1, when: time.Now()}
	watchList.Lock()
	if watchList.m == nil {
		watchList.m = map[*watched]bool{}
	}
	watchList.m[w] = true
	watchList.Unlock()
	return w
}

func (w *watched) at(i int) { w.pos.Store(int64(i)) }

func (w *watched) done() {
	watchList.Lock()
	delete(watchList.m, w)
	watchList.Unlock()
}

func watchdog(c *Check) {
	for {
		time.Sleep(3 * time.Second)
		watchList.Lock()
		for w := range watchList.m {
			p := w.pos.Load()
			if p != w.seen {
				w.seen, w.when = p, time.Now()
				continue
			}
			if time.Since(w.when) > hangAfter {
				what := w.show(int(p))
				c.Fail(w.key+"/hang", w.key+": no answer: "+what, map[string]any{"what": what})
				code := c.Finish()
				cleanup()
				os.Exit(code)
			}
		}
		watchList.Unlock()
	}
}
