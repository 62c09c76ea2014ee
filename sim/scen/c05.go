package scen

import (
	"bytes"
	"fmt"

	. "verifsim/core"
	"verifsim/simrt"
)

// c05: every thread is a node of its own, all types are shared. c06: all
// threads read the same messages.
func init() {
	Scenarios["C05"] = &Scenario{
		Rule: "one script per seed: 2-9 threads (one of them stalled at times), each with its own messages, run 4-25 operations each while a seeded scheduler preempts between any two statements of the code under test; every result must equal that of the thread running alone. Second pass: the same scripts under the race detector, with scheduler hand-offs it cannot see. Non-trivial: at least one preemption; distinct by hash of the (site, task) sequence of preemptions",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas, map and sync primitives through simulated equivalents", Stub: "goroutine scheduler (seeded, cooperative)",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 4)
			sc.Threads = genThreads(r)
			g := newGen(r, sc)
			w := weights{set: 30, nest: 12, self: 6, rmw: 4, reset: 3, dec: 8, ckpt: 1, restore: 1, ship: 3, rewrite: 2, get: 20, dig: 3, maxLen: 300, fault: 30}.vary(r)
			if r.P(1, 10) {
				w.fill = 6
			}
			n := r.In(4, 25)
			if r.P(1, 100) {
				n, w.fill, w.maxLen = r.In(100, 400), 0, 30
			}
			for n *= sc.Threads; n > 0; n-- {
				p := g.step(w)
				if p.Op == "get" && r.P(1, 3) {
					p.Op, p.V = "hold", r.U64()
				}
				p.T = r.N(sc.Threads)
				sc.Steps = append(sc.Steps, p)
			}
			if r.P(1, 3) {
				// Threads doing the same thing at the same time.
				for i := range sc.Steps {
					if i > 0 && r.P(1, 2) {
						t := sc.Steps[i].T
						sc.Steps[i] = sc.Steps[i-1]
						sc.Steps[i].T = t
					}
				}
			}
			if r.P(1, 5) {
				// Every thread runs the same program, on values of its own at times.
				steps, same := sc.Steps, r.P(1, 3)
				sc.Steps = nil
				for i := range steps {
					if steps[i].T != 0 {
						continue
					}
					for t := 0; t < sc.Threads; t++ {
						p := steps[i]
						p.T = t
						if !same && p.Op == "set" {
							p.V = Mix(p.V, uint64(t))
						}
						sc.Steps = append(sc.Steps, p)
					}
				}
			}
			genSched(r, sc)
		},
		Run: runThreads,
	}
	Scenarios["C06"] = &Scenario{
		Rule: "one script per seed: 1-3 messages are written or decoded, then 2-9 threads (one of them stalled at times) read them (fields, nested messages into their own structs, their own iterators) while a seeded scheduler preempts between any two statements; every result must equal that of reading alone and the bytes must not change. Second pass under the race detector. Non-trivial: at least one preemption; distinct by hash of the (site, task) sequence of preemptions",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas", Stub: "goroutine scheduler (seeded, cooperative)",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 3)
			sc.Threads = genThreads(r)
			g := newGen(r, sc)
			// Thread -1 prepares.
			w := weights{set: 20, nest: 20, dec: 10, maxLen: 200, fault: 15}.vary(r)
			if r.P(1, 5) {
				w.fill = 5
			}
			for n := r.In(1, 12); n > 0; n-- {
				p := g.step(w)
				p.T = -1
				sc.Steps = append(sc.Steps, p)
			}
			for i := range sc.Slots {
				if r.P(1, 3) {
					o := GenOpt(r)
					p := Step{T: -1, Op: "dec", N: i, B: Frame(r, g.schemaOf(i), o), K: r.N(2), V: r.U64()}
					sc.Steps = append(sc.Steps, p)
				}
			}
			w = weights{get: 20, dig: 2}.vary(r)
			w.get, w.dig = 20, 2
			n := r.In(3, 20)
			if r.P(1, 100) {
				n = r.In(100, 400)
			}
			for n *= sc.Threads; n > 0; n-- {
				p := g.step(w)
				if p.Op == "get" && r.P(1, 3) {
					p.Op, p.V = "hold", r.U64()
				}
				p.T = r.N(sc.Threads)
				sc.Steps = append(sc.Steps, p)
			}
			genSched(r, sc)
		},
		Run: runReaders,
	}
}

func genThreads(r *Rng) int {
	if r.P(1, 10) {
		return r.In(5, 9)
	}
	return r.In(2, 4)
}

func genSched(r *Rng, sc *Script) {
	sc.Gap = uint64([]int{1, 2, 3, 7, 20, 60, 200, 1000}[r.N(8)])
	sc.Sched = r.U64()
	if r.P(1, 4) {
		sc.Opt["stalls"] = []int{5, 30, 200}[r.N(3)]
	}
	sc.MapSeed = r.U64()
}

type outcome struct {
	res   uint64
	class string
	msg   string
	hash  uint64
}

// runThread executes the steps of one thread on its world.
func runThread(sc *Script, w *World, t int, readOnly bool) []outcome {
	var out []outcome
	var views held
	for i := range sc.Steps {
		p := &sc.Steps[i]
		if p.T != t {
			continue
		}
		views.drop(w, p)
		var o outcome
		func() {
			defer func() {
				if r := recover(); r != nil {
					v := panicViolation(i, r, "")
					o.class, o.msg = v.Class, v.Msg
				}
			}()
			if p.Op == "hold" {
				var v *heldView
				if o.res, v = w.hold(p); v != nil {
					views = append(views, v)
				}
				return
			}
			o.res, o.class, o.msg = w.Do(p)
			if !readOnly {
				o.hash = HashBytes(1, w.slot(p.N).m.Encode())
			}
		}()
		out = append(out, o)
	}
	return append(out, outcome{res: views.hash()})
}

func (sc *Script) schedule() simrt.Config {
	return simrt.Config{Switches: sc.Switches, GapMax: 2 * sc.Gap, Seed: sc.Sched, Stalls: uint64(sc.Opt["stalls"])}
}

// finishSched records what the scheduler did.
func finishSched(sc *Script, st *Stats, res simrt.Result, failed bool) {
	st.Steps += res.Steps
	st.Switches += res.Taken
	st.C["fault:preemption"] += res.Taken
	if res.Stalls > 0 {
		st.C["fault:stalled-thread"] += res.Stalls
	}
	st.Note(res.Hash)
	if res.Taken > 0 {
		st.Nontrivial()
	}
	if failed && sc.Gap > 0 {
		sc.Switches, sc.Gap = res.Switches, 0
	}
}

func threads(sc *Script) int {
	n := sc.Threads
	if n < 1 {
		n = 1
	}
	return n
}

func runThreads(sc *Script, st *Stats) *Violation {
	n := threads(sc)
	run := func(order func(f []func())) ([][]outcome, []string) {
		out := make([][]outcome, n)
		final := make([]string, n)
		fs := make([]func(), n)
		for t := 0; t < n; t++ {
			t := t
			w := NewWorld(sc, NewStats())
			fs[t] = func() {
				out[t] = runThread(sc, w, t, false)
				for i, sl := range w.slots {
					d := func() (d string) {
						defer func() {
							if r := recover(); r != nil {
								d = panicViolation(-1, r, "").Msg
							}
						}()
						return w.Verify(sl)
					}()
					if d != "" && final[t] == "" {
						final[t] = fmt.Sprintf("message %d at the end: %s", i, d)
					}
				}
			}
		}
		order(fs)
		return out, final
	}
	var res simrt.Result
	got, gotFinal := run(func(fs []func()) { res = simrt.Run(fs, sc.schedule()) })
	var want [][]outcome
	var wantFinal []string
	want, wantFinal = run(func(fs []func()) {
		for _, f := range fs {
			simrt.Begin(simrt.Config{})
			f()
			simrt.End()
		}
	})
	for _, p := range sc.Steps {
		st.Count("op:" + p.Op)
	}
	v := compareThreads(sc, got, want)
	for t := 0; v == nil && t < n; t++ {
		if res.Panics[t] != nil {
			v = panicViolation(-1, res.Panics[t], res.Stacks[t])
		} else if gotFinal[t] != wantFinal[t] {
			v = violation("interference", -1, "thread %d: %q, alone %q", t, gotFinal[t], wantFinal[t])
		}
	}
	finishSched(sc, st, res, v != nil)
	return v
}

func compareThreads(sc *Script, got, want [][]outcome) *Violation {
	for t := range want {
		if len(got[t]) != len(want[t]) {
			return violation("interference", -1, "thread %d did %d steps, alone %d", t, len(got[t]), len(want[t]))
		}
		k := 0
		for i := range sc.Steps {
			if sc.Steps[i].T != t {
				continue
			}
			g, w := got[t][k], want[t][k]
			k++
			if g != w {
				return violation("interference", i, "thread %d step %d (%s): got %s, alone %s", t, i, sc.Steps[i].Op, g, w)
			}
		}
		if got[t][k] != want[t][k] {
			return violation("interference", -1, "thread %d: values read earlier are no longer what they were when running alone", t)
		}
	}
	return nil
}

func (o outcome) String() string {
	return fmt.Sprintf("{result %x, bytes %x %s %s}", o.res, o.hash, o.class, o.msg)
}

// window is a piece of memory that does not change.
type window struct {
	now []byte
	was string
}

// windows adds b and its spare capacity, or samples of them.
func windows(to []window, b []byte) []window {
	add := func(b []byte) {
		if len(b) > 0 {
			to = append(to, window{b, string(b)})
		}
	}
	if spare := b[len(b):cap(b)]; len(spare) > 64 {
		add(spare[:32])
		add(spare[len(spare)-32:])
	} else {
		add(spare)
	}
	if len(b) <= 1000 {
		add(b)
		return to
	}
	add(b[:500])
	add(b[len(b)-500:])
	return to
}

func runReaders(sc *Script, st *Stats) *Violation {
	n := threads(sc)
	w := NewWorld(sc, NewStats())
	if v := solo(sc, st, func() *Violation {
		for i := range sc.Steps {
			if p := &sc.Steps[i]; p.T < 0 {
				st.Count("op:" + p.Op)
				func() {
					defer func() {
						if recover() != nil {
							w.slot(p.N).model = nil
						}
					}()
					w.Do(p)
				}()
			}
		}
		return nil
	}); v != nil {
		return v
	}
	var before [][]byte
	for _, sl := range w.slots {
		before = append(before, append([]byte(nil), sl.m.Encode()...))
	}
	got := make([][]outcome, n)
	fs := make([]func(), n)
	for t := range fs {
		t := t
		fs[t] = func() { got[t] = runThread(sc, w, t, true) }
	}
	var v *Violation
	// While a read is in progress the bytes are the same, too, and so is the
	// spare capacity behind them.
	var mem []window
	for _, sl := range w.slots {
		mem = windows(mem, sl.m.Encode())
	}
	cfg := sc.schedule()
	cfg.OnSwitch = func() {
		for _, x := range mem {
			if v == nil && string(x.now) != x.was {
				v = violation("changed", -1, "while reading, memory of a message changed from %s to %s", shortHex([]byte(x.was)), shortHex(x.now))
			}
		}
	}
	res := simrt.Run(fs, cfg)
	for i, sl := range w.slots {
		if !bytes.Equal(sl.m.Encode(), before[i]) && v == nil {
			v = violation("changed", -1, "reading changed message %d from %s to %s", i, shortHex(before[i]), shortHex(sl.m.Encode()))
		}
	}
	want := make([][]outcome, n)
	for t := range want {
		simrt.Begin(simrt.Config{})
		want[t] = runThread(sc, w, t, true)
		simrt.End()
	}
	for _, p := range sc.Steps {
		if p.T >= 0 {
			st.Count("op:" + p.Op)
		}
	}
	if v == nil {
		v = compareThreads(sc, got, want)
	}
	for t := 0; v == nil && t < n; t++ {
		if res.Panics[t] != nil {
			v = panicViolation(-1, res.Panics[t], res.Stacks[t])
		}
	}
	finishSched(sc, st, res, v != nil)
	return v
}
