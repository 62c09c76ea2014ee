package scen

import (
	"bytes"
	"fmt"

	. "verifsim/core"
)

// c07: one struct lives through many messages; each time it is decoded into or
// reset, a newly allocated struct is given the same bytes and both must behave
// the same from then on.
func init() {
	Scenarios["C07"] = &Scenario{
		Rule: "one script per seed: 2-10 lives of one struct; each begins with a decode (intact, damaged, of any size, into fresh, dirty or reused buffers) or a reset, continues with writes and reads done to the struct and to a new one side by side, and may end in misuse whose panic is recovered. Non-trivial: an earlier life failed, was damaged, panicked or outgrew the offset array; distinct by hash of (operation, outcome) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas", Stub: "channel, caller",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 4)
			g := newGen(r, sc)
			sc.MapSeed = r.U64()
			lives, big := r.In(2, 10), 0
			if r.P(1, 80) { // many short ones
				lives, big = r.In(40, 400), 60
			}
			for life := lives; life > 0; life-- {
				// Start.
				if life > 1 && r.P(1, 6) {
					// The buffer of its message receives another one.
					sc.Steps = append(sc.Steps, Step{Op: "rewrite", V: r.U64()})
				} else if r.P(3, 4) {
					w := weights{dec: 1, maxLen: 3000, fault: 35}
					if r.P(1, 8) {
						w.maxLen = 70000
					}
					p := g.step(&w)
					p.N = 0
					// Redraw the frame for message 0's schema.
					o := GenOpt(r)
					o.Mismatch = r.P(1, 6)
					if r.P(1, 8) {
						o.Big = r.In(60000, 75000)
					}
					if big > 0 && !r.P(1, 30) {
						o.Big, o.Flood, o.Depth = big, 0, r.N(2)
					}
					p.B = Frame(r, g.schemaOf(0), o)
					p.Faults = nil
					if r.P(1, 3) {
						p.Faults = []Fault{GenFault(r, g.schemaOf(0), p.B, nil)}
					} else if r.P(1, 4000) {
						p.Faults = []Fault{Vast(r, g.schemaOf(0), p.B)}
					}
					sc.Steps = append(sc.Steps, p)
				} else {
					sc.Steps = append(sc.Steps, Step{Op: "reset", K: r.N(5), L: r.N(400), V: r.U64()})
				}
				w := weights{set: 20, nest: 12, self: 5, rmw: 4, get: 12, dig: 2, maxLen: 400}.vary(r)
				if r.P(1, 8) {
					w.fill = 8
				}
				n := r.N(8)
				if big > 0 {
					w.fill, w.maxLen = 0, 20
					n = r.N(3)
				} else if r.P(1, 200) {
					w.fill, w.maxLen = 0, 20
					n = r.In(100, 600)
				}
				for ; n > 0; n-- {
					p := g.step(w)
					if p.Op != "nest" || r.P(1, 2) {
						p.N = 0
						if p.Op == "nest" {
							p.F = g.fieldOf(0, func(f *Field) bool { return f.Sub != nil })
							for i := range sc.Slots {
								if s := g.schemaOf(0); i > 0 && len(s.Fields) > 0 && g.schemaOf(i) == s.Fields[p.F%len(s.Fields)].Sub {
									p.N2 = i
								}
							}
						}
					}
					if p.Op != "nest" && len(g.schemaOf(0).Fields) > 0 {
						p.F %= len(g.schemaOf(0).Fields)
					}
					sc.Steps = append(sc.Steps, p)
				}
				if r.P(1, 4) && (big == 0 || r.P(1, 4)) {
					sc.Steps = append(sc.Steps, Step{Op: "misuse", K: r.N(3), V: r.U64(), L: r.In(1, 40)})
				}
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation { return runReuse(sc, st) })
		},
	}
}

func runReuse(sc *Script, st *Stats) *Violation {
	used := NewWorld(sc, st)
	shadow := NewWorld(sc, NewStats())
	past := false // something notable happened in an earlier life
	live := true  // both worlds' message 0 is comparable
	for i := range sc.Steps {
		if spent(st) {
			break
		}
		p := &sc.Steps[i]
		st.Count("op:" + p.Op)
		st.NoteS(p.Op)
		main := p.N%len(used.slots) == 0
		if p.Op == "misuse" {
			past = true
			st.Fault("recovered-panic")
			func() {
				defer func() {
					if recover() != nil {
						st.Count("probe:misuse-panicked")
					}
				}()
				m := used.slots[0].m
				Limit(len(m.Encode()) + 1000)
				switch p.K {
				case 0:
					m.Reset(Pattern(p.L, p.V))
				case 1:
					// Bytes that are no message, then use it anyway.
					m.Decode(Pattern(p.L, p.V))
					Digest(m, used.slots[0].s, p.L)
				case 2:
					m.Decode(Pattern(p.L, p.V))
					used.mutate(&Slot{s: used.slots[0].s, m: m, model: NewModel()}, NewRng(p.V))
				}
			}()
			live = false
			continue
		}
		if !live {
			// Nothing may depend on message 0 now.
			used.slots[0].model, shadow.slots[0].model = nil, nil
		}
		start := main && (p.Op == "dec" || p.Op == "reset" || p.Op == "rewrite")
		if !start && main && !live {
			continue
		}
		if start {
			// A new life. The other one starts with a new struct and, unless
			// the bytes are given, a new buffer.
			shadow.slots[0].m = shadow.slots[0].s.New()
			shadow.arena = nil
			if len(p.Faults) > 0 {
				past = true
			}
		}
		q := *p
		if p.Op == "reset" {
			q.K, q.L = 1, 0
		}
		if p.Op == "dec" {
			q.K = 0
		}
		if p.Op == "rewrite" {
			b := Rearrange(NewRng(p.V), used.slot(p.N).m.Encode())
			if !live || !main || b == nil {
				continue
			}
			past = true
			q = Step{Op: "dec", N: p.N, B: b}
		}
		var a, b outcome
		for k, w := range []*World{used, shadow} {
			o, s := &a, p
			if k == 1 {
				o, s = &b, &q
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						v := panicViolation(i, r, "")
						o.class, o.msg = v.Class, v.Msg
					}
				}()
				o.res, o.class, o.msg = w.Do(s)
			}()
		}
		if start {
			live = used.slots[0].model != nil
			if a.res == 1 {
				past = true
				st.Count("probe:failed-life")
			}
			if past {
				st.Nontrivial()
			}
		}
		x, y := used.slots[0], shadow.slots[0]
		if (a.class == "") != (b.class == "") || a.res != b.res {
			return violation("stale", i, "%s on message %d: reused struct %s, new struct %s", p.Op, p.N, a, b)
		}
		if a.class != "" {
			live = false
			continue
		}
		if !main || !live {
			continue
		}
		n := len(x.m.Encode())
		if n > 65534 {
			past = true
			st.Count("probe:beyond-offset-array")
			st.Note(2)
		}
		v := guard(i, func() *Violation {
			if !bytes.Equal(x.m.Encode(), y.m.Encode()) {
				return violation("stale", i, "after %s: reused struct holds %s, new struct %s", p.Op, shortHex(x.m.Encode()), shortHex(y.m.Encode()))
			}
			hx, tx := Digest(x.m, x.s, n)
			hy, ty := Digest(y.m, y.s, n)
			if hx != hy || tx != ty {
				return violation("stale", i, "after %s: %s", p.Op, differ(x, y, n))
			}
			return nil
		})
		if v != nil {
			if v.Class == "panic" || v.Class == "hang" {
				// Does the new struct do that as well?
				same := guard(i, func() *Violation { Digest(y.m, y.s, n); return nil })
				if same != nil {
					live = false
					continue
				}
			}
			return v
		}
	}
	return nil
}

func differ(x, y *Slot, n int) string {
	for i, f := range x.s.Fields {
		hx, _ := FieldDigest(x.m, x.s, i, n, 3)
		hy, _ := FieldDigest(y.m, y.s, i, n, 3)
		if hx != hy {
			return fmt.Sprintf("field %d (%s) differs between reused and new struct", f.Num, f.Kind)
		}
	}
	return "reused and new struct differ"
}
