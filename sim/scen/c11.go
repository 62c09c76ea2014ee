package scen

import (
	"bytes"
	"runtime"
	"runtime/debug"

	. "verifsim/core"
	"verifsim/simrt"
)

// c11: the garbage collector runs at chosen statements inside operations, and
// freed memory is overwritten at once (GODEBUG=clobberfree=1). Values handed
// over are referenced by nobody but the library; views outlive their messages.
func init() {
	Scenarios["C11"] = &Scenario{
		Rule: "one script per seed: 6-30 writes of temporaries, decodes from temporaries, reads held beyond the life of the message and its buffer, reads that are the last use of their message, with 1-8 collections placed at seeded statements, most of them inside writes; memory freed is clobbered; models and held views are compared afterwards. Non-trivial: a collection ran inside an operation; distinct by hash of (operation, collection position) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas, the Go garbage collector", Stub: "the instants at which the collector runs",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 3)
			g := newGen(r, sc)
			w := weights{set: 30, nest: 8, self: 3, rmw: 2, reset: 1, dec: 3, ship: 1, maxLen: 600, fault: 0}.vary(r)
			if r.P(1, 12) {
				w.fill = 3
			}
			for n := r.In(6, 30); n > 0; n-- {
				switch r.N(6) {
				case 0:
					p := Step{Op: "hold", N: r.N(len(sc.Slots))}
					p.F = g.fieldOf(p.N, blobField)
					if r.P(1, 4) {
						p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Sub != nil })
					}
					if r.P(1, 2) {
						q := p
						q.Op, q.L, q.V = "set", r.In(1, []int{8, 20, 200}[r.N(3)]), r.U64()
						sc.Steps = append(sc.Steps, q)
					}
					p.V = r.U64()
					sc.Steps = append(sc.Steps, p)
					if r.P(1, 6) {
						q := Step{Op: "sweep", N: p.N, L: r.In(1, 150)}
						sc.Steps = append(sc.Steps, q)
					}
				case 1:
					if r.P(1, 3) {
						// The last thing anyone does with a message is to read it.
						p := Step{Op: "last", N: r.N(len(sc.Slots))}
						p.F = g.fieldOf(p.N, blobField)
						if r.P(1, 3) {
							p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Sub != nil })
						}
						if r.P(2, 3) {
							q := p
							q.Op, q.L, q.V = "set", r.In(1, []int{8, 20, 200}[r.N(3)]), r.U64()
							sc.Steps = append(sc.Steps, q)
						}
						sc.Steps = append(sc.Steps, p)
						break
					}
					if r.P(1, 2) {
						p := Step{Op: "sweep", N: r.N(len(sc.Slots)), L: 1}
						if r.P(1, 4) {
							p.L = r.In(10, 150)
						}
						sc.Steps = append(sc.Steps, p)
						break
					}
					sc.Steps = append(sc.Steps, Step{Op: "drop", N: r.N(len(sc.Slots)), K: r.N(2)})
				default:
					p := g.step(w)
					if p.Op == "nest" && r.P(1, 2) {
						p.K = 1
					}
					if p.Op == "set" && r.P(1, 2) {
						p.F = g.fieldOf(p.N, blobField)
						p.L = r.In(32, 200)
						if r.P(1, 3) {
							p.L = r.In(1, 32)
						}
					}
					sc.Steps = append(sc.Steps, p)
				}
			}
			sc.Opt["gcs"] = r.In(1, 8)
			sc.Sched = r.U64()
			sc.MapSeed = r.U64()
		},
		Run: func(sc *Script, st *Stats) *Violation {
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			if n := sc.Opt["gcs"]; n > 0 {
				// A dry run tells where the operations are.
				var ops [][2]uint64
				simrt.Begin(simrt.Config{})
				guard(0, func() *Violation { return runGC(sc, NewStats(), &ops) })
				total := simrt.Steps()
				simrt.End()
				r := NewRng(sc.Sched)
				at := map[uint64]bool{}
				for ; n > 0 && total > 0; n-- {
					s := 1 + r.U64()%total
					if len(ops) > 0 && r.P(4, 5) {
						o := ops[r.N(len(ops))]
						if o[1] > o[0] {
							s = o[0] + 1 + r.U64()%(o[1]-o[0])
						}
					}
					at[s] = true
				}
				sc.GCs = nil
				for s := range at {
					sc.GCs = append(sc.GCs, s)
				}
				for i := range sc.GCs {
					for j := i; j > 0 && sc.GCs[j] < sc.GCs[j-1]; j-- {
						sc.GCs[j], sc.GCs[j-1] = sc.GCs[j-1], sc.GCs[j]
					}
				}
				delete(sc.Opt, "gcs")
			}
			if len(sc.GCs) > 0 {
				st.Nontrivial()
			}
			st.Note(sc.GCs...)
			v := solo(sc, st, func() *Violation { return runGC(sc, st, nil) })
			if st.Runs%64 == 0 {
				runtime.GC()
			}
			return v
		},
	}
}

func runGC(sc *Script, st *Stats, ops *[][2]uint64) *Violation {
	w := NewWorld(sc, st)
	var views held
	for i := range sc.Steps {
		if spentOf(st, 15e6) {
			break
		}
		p := &sc.Steps[i]
		st.Count("op:" + p.Op)
		st.NoteS(p.Op)
		n := p.N % len(w.slots)
		v := guard(i, func() *Violation {
			sl := w.slot(p.N)
			j, f := sl.field(p.F)
			Limit(len(sl.m.Encode()) + 70000)
			switch p.Op {
			case "hold":
				if j < 0 || sl.model == nil || sl.model.Skip[f.Num] {
					return nil
				}
				if _, v := w.hold(p); v != nil {
					views = append(views, v)
				}
			case "sweep":
				for n := 0; n < 1+p.L && !spentOf(st, 15e6); n++ {
					Limit(len(sl.m.Encode()))
					if _, d := Digest(sl.m, sl.s, len(sl.m.Encode())); d != "" {
						return violation("hang", i, "message %d: %s", p.N, d)
					}
				}
			case "last":
				if j < 0 || sl.model == nil || sl.model.Skip[f.Num] || f.Kind == KRep || f.Kind.Scalar() {
					return nil
				}
				want := sl.model
				sl.model = NewModel()
				for _, v := range views {
					if v.slot == n {
						v.slot = -1
					}
				}
				a := simrt.Steps()
				var got [][]byte
				next := sl.s.New()
				switch f.Kind {
				case KString:
					got = append(got, []byte(lastS(&sl.m, next, j)))
				case KBytes:
					got = append(got, lastB(&sl.m, next, j))
				case KMsg:
					if b, ok := lastM(&sl.m, next, j, f.Sub.New()); ok {
						got = append(got, b)
					}
				case KRepMsg:
					got = lastR(&sl.m, next, j, f.Sub.New())
				}
				if ops != nil {
					for k := 0; k < 3; k++ {
						*ops = append(*ops, [2]uint64{a, simrt.Steps()})
					}
					return nil
				}
				var ws [][]byte
				switch b, ok := want.B[f.Num]; {
				case f.Kind == KRepMsg:
					ws = want.R[f.Num]
				case ok || f.Kind != KMsg:
					ws = append(ws, b)
				}
				if len(ws) != len(got) {
					return violation("corrupt", i, "message %d, read a last time, has %d values in field %d, want %d", n, len(got), f.Num, len(ws))
				}
				for k := range ws {
					if f.Sub != nil {
						if _, s := Read(f.Sub, ws[k]); s != OK {
							continue
						}
					}
					if !bytes.Equal(ws[k], got[k]) {
						return violation("corrupt", i, "message %d, read a last time, has %s in field %d, want %s", n, shortHex(got[k]), f.Num, shortHex(ws[k]))
					}
				}
			case "drop":
				sl.m = sl.s.New()
				sl.model = NewModel()
				for _, v := range views {
					if v.slot == n {
						v.slot = -1
					}
				}
				if p.K == 1 && ops == nil {
					simrt.Pause(runtime.GC)
					st.Fault("gc-after-drop")
				}
			default:
				a := simrt.Steps()
				q := *p
				if q.K%4 == 2 {
					q.K++ // a buffer used for several messages would change views of others
				}
				views.drop(w, &q)
				_, class, msg := w.Do(&q)
				if ops != nil && (p.Op == "set" || p.Op == "nest" || p.Op == "self" || p.Op == "rmw") {
					*ops = append(*ops, [2]uint64{a, simrt.Steps()})
				}
				if class != "" {
					st.Log("%s %s", class, msg)
				}
				if d := w.Verify(sl); d != "" {
					return violation("corrupt", i, "message %d after %s: %s", n, p.Op, d)
				}
			}
			return nil
		})
		if v != nil {
			return v
		}
	}
	if ops == nil {
		simrt.Pause(runtime.GC)
	}
	stale := func() *Violation {
		if v := views.changed(); v != nil {
			return violation("corrupt", len(sc.Steps), "a value read earlier (message gone: %v) is now %s, was %s", v.slot < 0, shortHex(v.now()), shortHex(v.want))
		}
		return nil
	}
	if v := stale(); v != nil {
		return v
	}
	for n, sl := range w.slots {
		if v := guard(len(sc.Steps), func() *Violation {
			if d := w.Verify(sl); d != "" {
				return violation("corrupt", len(sc.Steps), "message %d at the end: %s", n, d)
			}
			return nil
		}); v != nil {
			return v
		}
	}
	return stale()
}

// The lastX read a message that nobody refers to any more.

//go:noinline
func lastS(pm *Msg, next Msg, i int) string {
	m := *pm
	*pm = next
	return m.GetS(i)
}

//go:noinline
func lastB(pm *Msg, next Msg, i int) []byte {
	m := *pm
	*pm = next
	return m.GetB(i)
}

//go:noinline
func lastM(pm *Msg, next Msg, i int, dst Msg) ([]byte, bool) {
	m := *pm
	*pm = next
	if ok, _ := m.GetM(i, dst); !ok {
		return nil, false
	}
	return dst.Encode(), true
}

//go:noinline
func lastR(pm *Msg, next Msg, i int, dst Msg) (out [][]byte) {
	m := *pm
	*pm = next
	it := m.Iter(i)
	for {
		ok, err := it.Next(dst)
		if !ok {
			return out
		}
		if err != nil {
			out = append(out, nil)
			continue
		}
		out = append(out, dst.Encode())
	}
}
