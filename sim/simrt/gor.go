//go:build race

package simrt

import (
	"runtime"
	"sync"
)

// With the race detector each task is a goroutine, and control is handed over
// through plain memory that the detector does not see, so that it knows of no
// ordering between tasks except what the code under test establishes.
type coro struct{ go1 bool }

var turn int

//go:norace
func handoff(from, to *task) {
	s.cur = to
	turn = to.id
	for turn != from.id {
		runtime.Gosched()
	}
	s.cur = from
}

//go:norace
func (t *task) wait() {
	for turn != t.id {
		runtime.Gosched()
	}
	s.cur = t
}

//go:norace
func (t *task) exit() {
	n := nextRunnable(t.id)
	turn = n // -1 when all are done
	if n >= 0 {
		s.cur = s.tasks[n]
	}
}

//go:norace
func runAll() {
	var wg sync.WaitGroup
	turn = -2
	for _, t := range s.tasks {
		wg.Add(1)
		go t.goroutine(&wg)
	}
	s.cur = s.tasks[0]
	active = true
	turn = 0
	for turn != -1 {
		runtime.Gosched()
	}
	active = false
	wg.Wait()
}

//go:norace
func (t *task) goroutine(wg *sync.WaitGroup) {
	t.wait()
	t.body()
	t.exit()
	wg.Done()
}

const raceBuild = true
