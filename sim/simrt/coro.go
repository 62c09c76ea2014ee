//go:build !race

package simrt

import "iter"

// Without the race detector each task is a coroutine; exactly one runs.
type coro struct {
	next func() (struct{}, bool)
	out  func(struct{}) bool
}

func handoff(from, to *task) {
	s.to = to.id
	from.co.out(struct{}{})
}

func runAll() {
	for _, t := range s.tasks {
		t := t
		t.co.next, _ = iter.Pull(func(yield func(struct{}) bool) {
			t.co.out = yield
			t.body()
		})
	}
	s.to = 0
	s.cur = s.tasks[0]
	for {
		t := s.tasks[s.to]
		if t.done {
			n := nextRunnable(t.id)
			if n < 0 {
				return
			}
			s.to = n
			continue
		}
		s.cur = t
		active = true
		t.co.next()
		active = false
	}
}

const raceBuild = false
