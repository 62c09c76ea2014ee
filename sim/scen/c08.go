package scen

import (
	"fmt"

	. "verifsim/core"
)

// c08: any number of iterators over the repeated fields of several messages
// advance in any order.
func init() {
	Scenarios["C08"] = &Scenario{
		Rule: "one script per seed: 1-3 messages with repeated fields are decoded (elements damaged at times, other fields interleaved, beyond the offset array at times) or appended to; then 10-60 events start, advance, copy and abandon iterators, nested ones too, over shared element structs, with reads in between. Non-trivial: two iterators were in progress at once, or an element was damaged; distinct by hash of (event, iterator, result) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas and iterators", Stub: "sender (reference encoder), callers",
		Gen: func(r *Rng, sc *Script) {
			var g *Gen
			for {
				*sc = Script{Prop: sc.Prop, Seed: sc.Seed, Opt: sc.Opt}
				sc.Schemas = GenSchemas(r)
				GenSlots(r, sc, 3)
				g = newGen(r, sc)
				ok := false
				for i := range sc.Slots {
					for _, f := range g.schemaOf(i).Fields {
						ok = ok || f.Kind == KRepMsg
					}
				}
				if ok {
					break
				}
			}
			sc.MapSeed = r.U64()
			rep := func(f *Field) bool { return f.Kind == KRepMsg }
			for i := range sc.Slots {
				o := GenOpt(r)
				o.Depth = r.In(1, 3)
				p := Step{Op: "dec", N: i, K: r.N(4), V: r.U64()}
				s := g.schemaOf(i)
				p.B = Frame(r, s, o)
				if r.P(1, 2) {
					// Many elements, some damaged, among other fields.
					p.B = repFrame(r, s, o)
				}
				if p.K == 2 {
					p.K = 0 // messages must not share a buffer here
				}
				sc.Steps = append(sc.Steps, p)
			}
			w := weights{nest: 20, set: 6, fill: 0, maxLen: 100}
			if r.P(1, 5) {
				w.fill = 4
			}
			for n := r.N(10); n > 0; n-- {
				sc.Steps = append(sc.Steps, g.step(&w))
			}
			if r.P(1, 400) {
				// More elements than 16 bits count, read to the end.
				i := r.N(len(sc.Slots))
				s := g.schemaOf(i)
				for j, f := range s.Fields {
					if f.Kind != KRepMsg || f.Sub.Max > 250 {
						continue
					}
					d := Step{Op: "dec", N: i, V: r.U64()}
					for n := 1<<16 + r.In(-2, 3000); n > 0; n-- {
						d.B = append(PutTag(d.B, f.Num, WBytes), 0)
					}
					sc.Steps = append(sc.Steps, d, Step{Op: "it", N: i, F: j}, Step{Op: "drain", N: i, L: r.N(3), V: 1 << 17})
					break
				}
			}
			ni := r.In(2, 6)
			rw := r.N(2)
			if r.P(1, 4) {
				rw = 4
			}
			drain := r.N(2)
			n := r.In(10, 60)
			if r.P(1, 80) {
				n = r.In(200, 1500)
			}
			for ; n > 0; n-- {
				p := Step{N: r.N(len(sc.Slots)), K: r.N(ni)}
				switch r.Pick(4, 20, 2, 3, 3, 2, rw, drain) {
				case 0:
					p.Op = "it"
					p.F = g.fieldOf(p.N, rep)
				case 1:
					p.Op = "next"
					p.L = r.N(3) // element struct
				case 2:
					p.Op = "copy"
					p.F2 = r.N(ni)
				case 3:
					p.Op = "inner" // iterate the element just read
					p.F2 = r.N(ni)
					p.F = r.N(64)
				case 4:
					p.Op = "get"
					p.F = r.N(64)
				case 5:
					p.Op = "elem"
					p.V = r.U64()
					p.L = r.N(3)
				case 7:
					p.Op = "drain" // many steps at once
					p.L = r.N(3)
					p.V = uint64(r.N(40))
					if r.P(1, 3) {
						p.V = 1 << 17
					}
				case 6:
					p.Op = "rewrite" // another message arrives in its buffer
					p.V = r.U64()
				}
				sc.Steps = append(sc.Steps, p)
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation { return runIter(sc, st) })
		},
	}
}

// repFrame encodes a message that is mostly elements.
func repFrame(r *Rng, s *Schema, o FrameOpt) []byte {
	var b []byte
	if o.Big > 50000 && r.P(1, 2) {
		b = PutTag(b, s.Max+1, WBytes)
		p := Pattern(r.In(65500, 65560), 1)
		b = append(PutVarint(b, uint64(len(p)), 1), p...)
	}
	flood := r.P(1, 12) // many other fields in a row
	if r.P(1, 100) {
		// Very many elements of next to nothing.
		for _, f := range s.Fields {
			if f.Kind != KRepMsg || r.P(1, 2) {
				continue
			}
			n := min([]int{300, 5000, 70000}[r.N(3)], 100+20e6/(f.Sub.Max+1))
			for n += r.N(n/8 + 1); n > 0; n-- {
				b = append(PutTag(b, f.Num, WBytes), 0)
			}
			break
		}
	}
	for n := r.In(1, 25); n > 0; n-- {
		if flood && r.P(1, 6) {
			num := s.Max + r.In(1, 5)
			for k := r.In(100, 1500); k > 0; k-- {
				b = append(PutTag(b, num, WVarint), byte(k&1))
			}
		}
		if len(s.Fields) > 0 {
			f := s.Fields[r.N(len(s.Fields))]
			if f.Kind == KRepMsg {
				o2 := o
				o2.Big, o2.Depth = 200, r.N(2)
				e := Frame(r, f.Sub, o2)
				if r.P(1, 6) {
					e = GenFault(r, f.Sub, e, nil).Apply(e)
				}
				b = PutTag(b, f.Num, WBytes)
				b = append(PutVarint(b, uint64(len(e)), 1), e...)
				continue
			}
		}
		// Something else in between, an unknown field at times.
		num := s.Max + r.In(1, 5)
		b = PutTag(b, num, WVarint)
		b = PutVarint(b, r.Scalar(), 1)
	}
	return b
}

type iterState struct {
	it   Iter
	f    *Field
	want [][]byte
	pos  int
	last Msg // element struct of the last step, if it still holds that element
	lst  []byte
}

func runIter(sc *Script, st *Stats) *Violation {
	w := NewWorld(sc, st)
	var its [8]*iterState
	active := func() (n int) {
		for _, o := range its {
			if o != nil {
				n++
			}
		}
		return
	}
	elems := map[string]Msg{}
	elem := func(s *Schema, l int) Msg {
		k := fmt.Sprintf("%p/%d", s, l%3)
		if elems[k] == nil {
			elems[k] = s.New()
		}
		for _, o := range its {
			if o != nil && o.last == elems[k] {
				o.last = nil
			}
		}
		return elems[k]
	}
	// step advances an iterator.
	step := func(p *Step, sl *Slot, i int) (bool, *Violation) {
		o := its[p.K]
		if o == nil {
			return false, nil
		}
		dst := elem(o.f.Sub, p.L)
		o.last = nil
		Limit(len(sl.m.Encode()) + 70000)
		ok, err := o.it.Next(dst)
		st.Note(uint64(p.K), Bit(ok), Bit(err != nil))
		if o.pos >= len(o.want) {
			if ok || err != nil {
				return false, violation("extra", i, "iterator %d over field %d: all %d elements were read, Next returned %v, %v", p.K, o.f.Num, len(o.want), ok, err)
			}
			st.Count("probe:end-reached")
			return false, nil
		}
		want := o.want[o.pos]
		o.pos++
		if !ok {
			return false, violation("missing", i, "iterator %d over field %d ended before element %d of %d", p.K, o.f.Num, o.pos-1, len(o.want))
		}
		if err != nil {
			st.Fault("damaged-element")
		}
		if d := checkElement(dst, err, o.f.Sub, want); d != "" {
			return false, violation("wrong", i, "iterator %d over field %d, element %d: %s", p.K, o.f.Num, o.pos-1, d)
		}
		if err == nil {
			o.last, o.lst = dst, want
		}
		return true, nil
	}
	for i := range sc.Steps {
		if spent(st) {
			break
		}
		p := &sc.Steps[i]
		if p.Op != "dec" {
			p.K, p.F2 = p.K&7, p.F2&7
		}
		st.Count("op:" + p.Op)
		st.NoteS(p.Op)
		v := guard(i, func() *Violation {
			sl := w.slot(p.N)
			size := len(sl.m.Encode())
			Limit(size)
			switch p.Op {
			case "it":
				j, f := sl.field(p.F)
				if j < 0 || f.Kind != KRepMsg || sl.model == nil || sl.model.Skip[f.Num] {
					return nil
				}
				its[p.K] = &iterState{it: sl.m.Iter(j), f: f, want: sl.model.R[f.Num]}
				if active() > 1 {
					st.Nontrivial()
				}
			case "inner":
				o := its[p.K]
				if o == nil || o.last == nil || p.F2 == p.K {
					return nil
				}
				m, status := Read(o.f.Sub, o.lst)
				if status != OK {
					return nil
				}
				in := &Slot{s: o.f.Sub, m: o.last}
				j, f := in.field(p.F)
				if j < 0 || f.Kind != KRepMsg || m.Skip[f.Num] {
					return nil
				}
				its[p.F2] = &iterState{it: o.last.Iter(j), f: f, want: m.R[f.Num]}
				st.Count("probe:nested-iterator")
				st.Nontrivial()
			case "copy":
				if o := its[p.K]; o != nil && p.F2 != p.K {
					its[p.F2] = &iterState{it: o.it.Copy(), f: o.f, want: o.want, pos: o.pos}
					st.Nontrivial()
				}
			case "next":
				_, v := step(p, sl, i)
				return v
			case "drain":
				for k := uint64(0); k <= p.V && !spent(st); k++ {
					if more, v := step(p, sl, i); v != nil || !more {
						return v
					}
				}
			case "elem":
				// The caller uses its element struct for something else.
				for _, o := range its {
					if o != nil {
						e := elem(o.f.Sub, p.L)
						e.Reset(nil)
						(&World{}).mutate(&Slot{s: o.f.Sub, m: e, model: NewModel()}, NewRng(p.V))
						break
					}
				}
			case "rewrite":
				// What iterators were over is gone.
				its = [8]*iterState{}
				if _, class, msg := w.Do(p); class != "" {
					st.Log("%s %s", class, msg)
				}
				st.Count("probe:buffer-rewritten")
			case "get":
				w.Do(p)
			default:
				// Building the messages: iterators in progress would be over
				// changed messages, so there are none.
				if active() > 0 {
					return nil
				}
				_, class, msg := w.Do(p)
				if class != "" {
					st.Log("%s %s", class, msg)
				}
			}
			return nil
		})
		if v != nil {
			return v
		}
	}
	return nil
}

func checkElement(dst Msg, err error, s *Schema, want []byte) string {
	return CheckElem(dst, err, s, want)
}
