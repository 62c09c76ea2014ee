package scen

import (
	. "verifsim/core"
)

// c04: a node holds several messages, changes them, writes checkpoints to its
// disk, crashes, restores them (damaged at times) and ships them to replicas.
func init() {
	Scenarios["C04"] = &Scenario{
		Rule: "one script per seed: 5-60 writes, self-assignments, nested read-modify-writes, resets, (damaged) decodes, checkpoints, crashes and restores over 2-5 messages; the reference model is compared with the bytes and with all accessors after every step. Non-trivial: at least one fault fired or a message outgrew the 65534-byte offset array; distinct by hash of (operation, field kind, outcome) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas, zero-copy accessors and iterators", Stub: "disk and replica transport (byte slices), reference reader",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 5)
			g := newGen(r, sc)
			w := weights{set: 30, nest: 14, self: 10, rmw: 6, reset: 3, dec: 5, ckpt: 3, restore: 4, crash: 1, ship: 3, fill: 1, rewrite: 3, maxLen: 2000, fault: 25}.vary(r)
			if r.P(1, 6) {
				w.fill *= 12
				w.maxLen = 40000
			}
			n := r.In(5, 60)
			huge := r.P(1, 80) // lengths of four bytes
			if huge {
				n = r.In(4, 14)
			}
			if !huge && r.P(1, 600) {
				w.vast = true
				w.dec = 12
				n = r.In(5, 30)
			} else if !huge && r.P(1, 120) { // a long life
				n = r.In(200, 1200)
				w.fill, w.maxLen = 0, 30
				w.reset, w.dec, w.restore = w.reset/4, w.dec/4, w.restore/4
			}
			for ; n > 0; n-- {
				p := g.step(w)
				if huge && r.P(1, 4) {
					p = Step{Op: "set", N: p.N, L: 1<<21 - 2 + r.N(5), V: r.U64()}
					p.F = g.fieldOf(p.N, blobField)
				}
				sc.Steps = append(sc.Steps, p)
			}
			sc.MapSeed = r.U64()
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation {
				w := NewWorld(sc, st)
				for i := range sc.Steps {
					if spent(st) {
						break
					}
					p := &sc.Steps[i]
					if v := guard(i, func() *Violation { return w.checked(i, p, st) }); v != nil {
						return v
					}
				}
				for n, sl := range w.slots {
					if v := guard(len(sc.Steps), func() *Violation {
						if d := w.Verify(sl); d != "" {
							return violation("mismatch", len(sc.Steps), "message %d at the end: %s", n, d)
						}
						return nil
					}); v != nil {
						return v
					}
				}
				return nil
			})
		},
	}
}

// checked executes a step and verifies the message it touched.
func (w *World) checked(i int, p *Step, st *Stats) *Violation {
	sl := w.slot(p.N)
	st.Count("op:" + p.Op)
	st.NoteS(p.Op)
	_, f := sl.field(p.F)
	if f != nil {
		st.Note(uint64(f.Kind))
	}
	_, class, msg := w.Do(p)
	if class != "" {
		return violation(class, i, "%s: %s", p.Op, msg)
	}
	n := len(sl.m.Encode())
	if n > 65534 {
		st.Count("probe:beyond-offset-array")
		st.Nontrivial()
		st.Note(1)
	}
	st.Log("%d %s m%d f%d -> %d bytes", i, p.Op, p.N, p.F, n)
	if p.Op == "crash" {
		for n, s := range w.slots {
			if d := w.Verify(s); d != "" {
				return violation("mismatch", i, "message %d after crash: %s", n, d)
			}
		}
		return nil
	}
	if d := w.Verify(sl); d != "" {
		return violation("mismatch", i, "message %d after %s: %s", p.N, p.Op, d)
	}
	return nil
}
