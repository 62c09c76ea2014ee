// Package simrt is the runtime half of the simulator: instrumented code calls Y
// between statements, and the scheduler in here decides, from the script of the
// run, what happens at each such point (nothing, a switch to another task, a
// garbage collection).
//
// Everything is //go:norace: in race-detector builds the scheduler must not
// create happens-before edges between tasks, only the code under test may.
package simrt

import (
	"fmt"
	"runtime"
)

// Switch says that, at global step Step, the scheduler hands control to task To.
type Switch struct {
	Step uint64 `json:"step"`
	To   int    `json:"to"`
}

// Hang is the panic value raised when a task exceeds its step budget.
type Hang struct{ Site uint32 }

func (h Hang) Error() string { return fmt.Sprintf("step budget exceeded at site %d", h.Site) }

// Config of one simulated execution.
type Config struct {
	// Switches is replayed when GapMax is 0.
	Switches []Switch
	// With GapMax > 0, a generator seeded with Seed draws the number of steps
	// to the next switch (1..GapMax) and the live task to switch to. What it
	// draws is recorded.
	GapMax uint64
	Seed   uint64
	// Stalls > 0 makes the generator hold back a task for some steps once in
	// so many switches.
	Stalls uint64
	// GCs lists the steps at which a garbage collection runs, ascending.
	GCs []uint64
	// OnGC replaces the collection (tests), nil means runtime.GC.
	OnGC func()
	// OnSwitch runs before each switch, except in race-detector builds.
	OnSwitch func()
}

// Result of one simulated execution.
type Result struct {
	Steps    uint64
	Switches []Switch
	Taken    int    // switches that really changed task
	Hash     uint64 // of (site, task) at each switch taken
	GCs      int
	Stalls   int
	Panics   []any // per task
	Stacks   []string
}

type task struct {
	id     int
	fn     func()
	steps  uint64
	limit  uint64
	run    uint64 // steps since it was last scheduled
	done   bool
	stall  uint64 // not scheduled before this step
	panicv any
	stack  string
	co     coro
}

const never = ^uint64(0)

var (
	active bool
	s      state
)

type state struct {
	cfg    Config
	tasks  []*task
	cur    *task
	step   uint64
	next   uint64 // step of the next event
	nextSw uint64
	swi    int
	gci    int
	res    Result
	solo   task
	to     int // target of the pending switch
}

// Y is a yield point.
//
//go:norace
func Y(site uint32) {
	if active {
		yield(site)
	}
}

const fairness = 200000

// Reached marks the sites passed by this process.
var Reached [1 << 14]bool

//go:norace
func yield(site uint32) {
	t := s.cur
	Reached[site%uint32(len(Reached))] = true
	s.step++
	t.steps++
	t.run++
	if t.steps > t.limit {
		t.limit = never
		panic(Hang{site})
	}
	if s.step >= s.next || t.run > fairness {
		event(site)
	}
}

//go:norace
func event(site uint32) {
	for s.gci < len(s.cfg.GCs) && s.cfg.GCs[s.gci] <= s.step {
		s.gci++
		s.res.GCs++
		active = false
		if s.cfg.OnGC != nil {
			s.cfg.OnGC()
		} else {
			runtime.GC()
		}
		active = true
	}
	target := -1
	if s.step >= s.nextSw {
		if s.cfg.GapMax > 0 {
			if s.res.Taken%20000 == 19999 {
				s.cfg.GapMax *= 4 // long runs are preempted less and less
			}
			if s.cfg.Stalls > 0 && rnd()%s.cfg.Stalls == 0 {
				t := s.tasks[rnd()%uint64(len(s.tasks))]
				t.stall = s.step + uint64(1)<<(3+rnd()%14)
				s.res.Stalls++
			}
			target = pick()
			s.res.Switches = append(s.res.Switches, Switch{s.step, target})
			s.nextSw = s.step + 1 + rnd()%s.cfg.GapMax
		} else {
			for s.swi < len(s.cfg.Switches) && s.cfg.Switches[s.swi].Step <= s.step {
				target = s.cfg.Switches[s.swi].To
				s.swi++
			}
			s.nextSw = never
			if s.swi < len(s.cfg.Switches) {
				s.nextSw = s.cfg.Switches[s.swi].Step
			}
		}
	} else if s.cur.run > fairness {
		// A task that spins must not starve the others.
		target = nextRunnable(s.cur.id)
	}
	rearm()
	s.cur.run = 0
	if target >= 0 && target < len(s.tasks) {
		switchTo(site, target)
	}
}

//go:norace
func rearm() {
	s.next = s.nextSw
	if s.gci < len(s.cfg.GCs) && s.cfg.GCs[s.gci] < s.next {
		s.next = s.cfg.GCs[s.gci]
	}
}

//go:norace
func rnd() uint64 {
	s.cfg.Seed += 0x9E3779B97F4A7C15
	z := s.cfg.Seed
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func pick() int {
	awake, n := 0, 0
	for _, t := range s.tasks {
		if !t.done {
			n++
			if t.stall <= s.step {
				awake++
			}
		}
	}
	if n == 0 {
		return -1
	}
	all := awake == 0
	if !all {
		n = awake
	}
	k := int(rnd() % uint64(n))
	for _, t := range s.tasks {
		if !t.done && (all || t.stall <= s.step) {
			if k == 0 {
				return t.id
			}
			k--
		}
	}
	return -1
}

// nextRunnable returns the first task after id, cyclically, that can run.
//
//go:norace
func nextRunnable(id int) int {
	n := len(s.tasks)
	for i := 1; i <= n; i++ {
		t := s.tasks[(id+i)%n]
		if !t.done {
			return t.id
		}
	}
	return -1
}

//go:norace
func switchTo(site uint32, to int) {
	if len(s.tasks) == 0 || to == s.cur.id || s.tasks[to].done {
		return
	}
	if s.cfg.OnSwitch != nil && !raceBuild {
		active = false
		s.cfg.OnSwitch()
		active = true
	}
	s.res.Taken++
	s.res.Hash = (s.res.Hash^(uint64(site)<<8|uint64(to)+1))*0x9E3779B97F4A7C15 + 1
	me := s.cur
	me.run = 0
	handoff(me, s.tasks[to])
}

// Block parks the current task, which is waiting for another one to act;
// simsync calls it in a loop until what it waits for has happened.
//
//go:norace
func Block() {
	if !active || len(s.tasks) == 0 {
		panic("simrt: blocked forever")
	}
	to := nextRunnable(s.cur.id)
	if to < 0 || to == s.cur.id {
		panic("simrt: deadlock")
	}
	s.cur.steps++
	if s.cur.steps > s.cur.limit {
		s.cur.limit = never
		panic(Hang{0})
	}
	switchTo(0, to)
}

// Simulated reports whether a simulated execution is in progress.
//
//go:norace
func Simulated() bool { return active }

// SetLimit gives the current task n more steps before it counts as hung.
//
//go:norace
func SetLimit(n uint64) {
	if s.cur != nil {
		s.cur.limit = s.cur.steps + n
	}
}

// Pause runs f, the harness's own work, outside the simulation.
//
//go:norace
func Pause(f func()) {
	a := active
	active = false
	f()
	active = a
}

// Steps returns the number of steps so far.
//
//go:norace
func Steps() uint64 { return s.step }

// Begin starts a solo execution on the calling goroutine, End finishes it.
//
//go:norace
func Begin(cfg Config) {
	s = state{cfg: cfg, nextSw: never}
	s.solo = task{limit: never}
	s.cur = &s.solo
	rearm()
	active = true
}

// End finishes a solo execution.
//
//go:norace
func End() Result {
	active = false
	s.res.Steps = s.step
	r := s.res
	s = state{}
	return r
}

// Run executes the tasks under the scheduler until all are done.
//
//go:norace
func Run(fns []func(), cfg Config) Result {
	s = state{cfg: cfg, nextSw: never}
	for i, fn := range fns {
		s.tasks = append(s.tasks, &task{id: i, fn: fn, limit: never})
	}
	if cfg.GapMax > 0 {
		s.nextSw = 1 + rnd()%cfg.GapMax
	} else if len(cfg.Switches) > 0 {
		s.nextSw = cfg.Switches[0].Step
	}
	rearm()
	runAll()
	active = false
	s.res.Steps = s.step
	for _, t := range s.tasks {
		s.res.Panics = append(s.res.Panics, t.panicv)
		s.res.Stacks = append(s.res.Stacks, t.stack)
	}
	r := s.res
	s = state{}
	return r
}

// ended is called when a task is done. Whoever comes next may be one that is
// held back.
//
//go:norace
func ended() {
	if s.cfg.Stalls > 0 && s.cfg.GapMax > 0 {
		s.nextSw = s.step + 1
		rearm()
	}
}

//go:norace
func (t *task) body() {
	defer func() {
		if r := recover(); r != nil {
			a := active
			active = false
			t.panicv = r
			buf := make([]byte, 8192)
			t.stack = string(buf[:runtime.Stack(buf, false)])
			active = a
		}
		t.done = true
		ended()
	}()
	t.fn()
}
