// Package scen holds the simulated scenarios, one per property. A scenario
// draws a script from a seed and executes scripts; execution is a pure function
// of the script and the code under test.
package scen

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"

	. "verifsim/core"
	"verifsim/simrt"
)

// Script is everything that decides one simulated run.
type Script struct {
	Prop     string         `json:"prop"`
	Seed     uint64         `json:"seed,string"`
	Schemas  []*Schema      `json:"schemas,omitempty"`
	Slots    []int          `json:"slots,omitempty"` // schema index per message
	Threads  int            `json:"threads,omitempty"`
	Steps    []Step         `json:"steps"`
	Switches []simrt.Switch `json:"switches,omitempty"`
	Gap      uint64         `json:"gap,omitempty"` // drawn schedule: mean steps between switches
	Sched    uint64         `json:"sched,omitempty,string"`
	GCs      []uint64       `json:"gcs,omitempty"`
	MapSeed  uint64         `json:"mapseed,omitempty,string"`
	Opt      map[string]int `json:"opt,omitempty"`
	// Batch, when set, says to run the seeds From..To-1 in one process instead.
	Batch *Batch `json:"batch,omitempty"`
	// What happened when this script was saved.
	Class   string   `json:"class,omitempty"`
	Message string   `json:"message,omitempty"`
	Trace   []string `json:"trace,omitempty"`
}

// Batch of consecutive runs.
type Batch struct {
	Base     uint64 `json:"base,string"`
	From, To int
}

// Step is one event of a run.
type Step struct {
	T      int     `json:"t,omitempty"` // thread or node
	Op     string  `json:"op"`
	N      int     `json:"m,omitempty"` // message
	N2     int     `json:"m2,omitempty"`
	F      int     `json:"f,omitempty"` // field index
	F2     int     `json:"f2,omitempty"`
	K      int     `json:"k,omitempty"`
	L      int     `json:"l,omitempty"`
	V      uint64  `json:"v,omitempty"`
	B      []byte  `json:"b,omitempty"`
	S      string  `json:"s,omitempty"`
	Faults []Fault `json:"faults,omitempty"`
}

// Violation of the property.
type Violation struct {
	Class string // coarse, stable under minimisation
	Msg   string
	Step  int
}

func (v *Violation) String() string { return fmt.Sprintf("[%s] step %d: %s", v.Class, v.Step, v.Msg) }

func violation(class string, step int, f string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(f, a...), step}
}

// Stats of the runs of one process.
type Stats struct {
	Runs       int
	Events     int
	Steps      uint64
	Switches   int
	C          map[string]int
	Hashes     map[uint64]struct{}
	NonTrivial int
	Samples    []string
	trace      uint64
	nontrivial bool
	verbose    []string
	Verbose    bool
}

// NewStats returns empty statistics.
func NewStats() *Stats { return &Stats{C: map[string]int{}, Hashes: map[uint64]struct{}{}} }

// Count an occurrence.
func (st *Stats) Count(k string) { st.C[k]++ }

// Note an event in the run's trace; what is noted distinguishes runs.
func (st *Stats) Note(x ...uint64) {
	for _, v := range x {
		st.trace = Mix(st.trace, v)
	}
}

// NoteS notes a string.
func (st *Stats) NoteS(s string) {
	h := uint64(len(s))
	for i := 0; i < len(s); i++ {
		h = h*1099511628211 ^ uint64(s[i])
	}
	st.Note(h)
}

// Nontrivial marks the run as one in which something happened.
func (st *Stats) Nontrivial() { st.nontrivial = true }

// Fault counts an injected fault and marks the run.
func (st *Stats) Fault(k string) {
	st.C["fault:"+k]++
	st.nontrivial = true
	st.NoteS(k)
}

// Log a line for people.
func (st *Stats) Log(f string, a ...any) {
	if st.Verbose {
		st.verbose = append(st.verbose, fmt.Sprintf(f, a...))
	}
}

// Lines returns the log.
func (st *Stats) Lines() []string { return st.verbose }

// Scenario of a property.
type Scenario struct {
	// Gen draws a script.
	Gen func(r *Rng, sc *Script)
	// Run executes it. A recorded schedule goes into sc.Switches on request.
	Run func(sc *Script, st *Stats) *Violation
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Real and Stub list the components.
	Real, Stub string
	// Min shrinks a step, yielding candidates.
	Min func(s Step) []Step
}

// OnExit holds what to do before the process ends.
var OnExit []func()

// Scenarios by property.
var Scenarios = map[string]*Scenario{}

// RunSeed is the seed of run i.
func RunSeed(base uint64, prop string, i int) uint64 {
	h := base
	for _, c := range prop {
		h = Mix(h, uint64(c))
	}
	return Mix(h, uint64(i))
}

// Make draws the script of a seed.
func Make(prop string, seed uint64) *Script {
	sc := &Script{Prop: prop, Seed: seed, Opt: map[string]int{}}
	Scenarios[prop].Gen(NewRng(seed), sc)
	for _, s := range sc.Schemas {
		if s.Evo() {
			sc.Opt["evoseed"], sc.Opt["evon"], sc.Opt["evofirst"] = int(EvoSeed), EvoN, EvoFirst
		}
	}
	return sc
}

// Execute runs a script and keeps the books.
func Execute(sc *Script, st *Stats) (v *Violation) {
	st.trace, st.nontrivial = 0, false
	for _, s := range sc.Schemas {
		if s.Evo() && (uint64(sc.Opt["evoseed"]) != EvoSeed || sc.Opt["evofirst"] != EvoFirst || sc.Opt["evon"] != EvoN) {
			panic("this script needs another build")
		}
	}
	simrt.MapSeed = sc.MapSeed
	v = Scenarios[sc.Prop].Run(sc, st)
	st.Runs++
	st.Events += len(sc.Steps)
	if st.nontrivial {
		if _, ok := st.Hashes[st.trace]; !ok {
			st.NonTrivial++
			st.Hashes[st.trace] = struct{}{}
		}
	}
	return v
}

// TraceHash identifies the last run's events.
func (st *Stats) TraceHash() uint64 { return st.trace }

// Load reads a replay file.
func Load(file string) (*Script, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	sc := &Script{}
	if err := json.Unmarshal(b, sc); err != nil {
		return nil, err
	}
	if sc.Opt == nil {
		sc.Opt = map[string]int{}
	}
	return sc, nil
}

// guard runs f and turns a panic into a violation.
func guard(step int, f func() *Violation) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			v = panicViolation(step, r, "")
		}
	}()
	return f()
}

func panicViolation(step int, r any, stack string) *Violation {
	if h, ok := r.(simrt.Hang); ok {
		return violation("hang", step, "%v", h)
	}
	if stack == "" {
		buf := make([]byte, 8192)
		stack = string(buf[:runtime.Stack(buf, false)])
	}
	return violation("panic", step, "panic: %v at %s", r, where(stack))
}

// where extracts the frames of the code under test.
func where(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if (strings.Contains(l, "zeropb") || strings.Contains(l, "generate")) && strings.Contains(l, ".go:") && !strings.Contains(l, "/verif/sim/") {
			if i := strings.LastIndex(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "/"); i > 0 {
				l = l[i+1:]
			}
			out = append(out, l)
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " < ")
}

// spent reports whether a run has used up its share of simulated steps; the
// rest of its script is left out then.
func spent(st *Stats) bool { return spentOf(st, 25e6) }

func spentOf(st *Stats, limit uint64) bool {
	if simrt.Steps() < limit {
		return false
	}
	st.Count("cut-short")
	return true
}

// solo runs f as a single simulated thread.
func solo(sc *Script, st *Stats, f func() *Violation) (v *Violation) {
	simrt.Begin(simrt.Config{GCs: sc.GCs})
	v = guard(-1, f)
	res := simrt.End()
	st.Steps += res.Steps
	st.C["fault:gc"] += res.GCs
	return v
}
