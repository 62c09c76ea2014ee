package scen

import (
	"bytes"

	. "verifsim/core"
	"verifsim/simrt"
)

// c18: replicas of a state machine hold messages that start from the same bytes
// and receive the same writes. c19: a node that changes a message whose schema
// it knows only in part.
func init() {
	Scenarios["C18"] = &Scenario{
		Rule: "one script per seed: two replicas of 2-5 messages apply the same 5-60 writes, decodes and resets; they differ in the order of maps, in the buffers they have, and in that each crashes at times, one message or all, and comes back from its own bytes in a new or a used struct. After every step bytes and results must be equal, at times and at the end everything readable. Non-trivial: a replica crashed or a message outgrew the 65534-byte offset array; distinct by hash of (operation, field kind, outcome) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas, zero-copy accessors and iterators", Stub: "replication and disk (byte slices)",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 4)
			g := newGen(r, sc)
			sc.MapSeed = r.U64()
			w := weights{set: 30, nest: 14, self: 10, rmw: 6, reset: 2, dec: 5, fill: 1, rewrite: 1, maxLen: 2000, fault: 15}.vary(r)
			if r.P(1, 6) {
				w.fill *= 12
				w.maxLen = 40000
			}
			n := r.In(5, 60)
			few := 0
			if r.P(1, 20) {
				n = r.In(60, 300)
				if r.P(1, 6) {
					n = r.In(300, 1000)
				}
				w.fill, w.maxLen = 0, 30
				w.reset, w.dec = w.reset/4, min(w.dec/4, 1)
				w.set *= 3
				few = r.N(4)
				for i := range sc.Slots {
					p := g.step(&weights{dec: 1, maxLen: 30})
					p.N = i
					sc.Steps = append(sc.Steps, p)
				}
			}
			crash := []int{40, 10, 3, 1}[r.N(4)]
			for ; n > 0; n-- {
				if r.P(1, crash) {
					sc.Steps = append(sc.Steps, Step{Op: "bounce", N: r.N(len(sc.Slots)), N2: r.N(2), K: r.N(16), V: r.U64()})
				}
				p := g.step(w)
				if few > 0 && p.Op == "set" {
					p.F %= few
				}
				sc.Steps = append(sc.Steps, p)
				if r.P(1, 10) {
					sc.Steps = append(sc.Steps, Step{Op: "dig", N: r.N(len(sc.Slots))})
				}
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation { return runReplicas(sc, st) })
		},
	}
	Scenarios["C19"] = &Scenario{
		Rule: "one script per seed: messages with fields that the node does not know (of any wire type, number and size, between, before and after the others, also in nested messages) are decoded, changed by 5-60 writes, checkpointed, restored after crashes and shipped; after every write the unknown fields must be in the bytes as they were, in their order. Non-trivial: a write to a message with unknown fields changed its length; distinct by hash of (operation, field kind, unknown fields) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas, zero-copy accessors and iterators", Stub: "nodes with other schema versions (reference encoder), disk and replica transport (byte slices)",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 4)
			g := newGen(r, sc)
			sc.MapSeed = r.U64()
			w := weights{set: 30, nest: 12, self: 8, rmw: 12, dec: 4, ckpt: 2, restore: 3, crash: 1, ship: 2, fill: 1, maxLen: 2000, fault: 10}.vary(r)
			if r.P(1, 6) {
				w.fill *= 12
				w.maxLen = 40000
			}
			if r.P(1, 2500) {
				w.vast = true
			}
			for i := range sc.Slots {
				p := g.step(&weights{dec: 1, maxLen: w.maxLen, vast: w.vast})
				p.N = i
				sc.Steps = append(sc.Steps, p)
			}
			for n := r.In(5, 60); n > 0; n-- {
				sc.Steps = append(sc.Steps, g.step(w))
			}
			for i := range sc.Steps {
				p := &sc.Steps[i]
				if p.Op != "dec" {
					continue
				}
				o := GenOpt(r)
				o.Unknown, o.Mismatch = true, r.P(1, 6)
				if o.Big > w.maxLen {
					o.Big = w.maxLen
				}
				s := g.schemaOf(p.N)
				p.B = Frame(r, s, o)
				if w.vast && r.P(1, 2) {
					p.Faults = []Fault{Vast(r, s, p.B)}
				} else if len(p.Faults) > 0 {
					p.Faults = []Fault{GenFault(r, s, p.B, nil)}
				}
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation {
				w := NewWorld(sc, st)
				for i := range sc.Steps {
					if spent(st) {
						break
					}
					p := &sc.Steps[i]
					if v := guard(i, func() *Violation { return w.preserves(i, p, st) }); v != nil {
						return v
					}
				}
				return nil
			})
		},
	}
	Scenarios["C20"] = &Scenario{
		Rule: "one script per seed: a writer overwrites 1-5 fields of each message, or all, over and over with values of other lengths, over decoded messages and its own checkpoints after crashes; after every write each field that has one value must occur once, or as often as it did in the message that was decoded (once more if that wrote it in another way than zeropb). Non-trivial: a field with a value got one of another length; distinct by hash of (operation, field kind, far) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas, zero-copy accessors", Stub: "peers (reference encoder), disk and replica transport (byte slices)",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 3)
			g := newGen(r, sc)
			sc.MapSeed = r.U64()
			w := weights{set: 60, nest: 8, self: 6, rmw: 6, reset: 1, dec: 2, ckpt: 2, restore: 3, crash: 1, ship: 1, fill: 1, maxLen: 400, fault: 10}.vary(r)
			if r.P(1, 5) {
				w.fill *= 8
				w.maxLen = 40000
			}
			n := r.In(10, 80)
			if r.P(1, 60) {
				n = r.In(200, 2000)
				w.fill, w.maxLen = 0, 30
			}
			few := r.N(6)
			for ; n > 0; n-- {
				p := g.step(w)
				if few > 0 && p.Op == "set" {
					p.F %= few
				}
				sc.Steps = append(sc.Steps, p)
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation {
				w := NewWorld(sc, st)
				for i := range sc.Steps {
					if spent(st) {
						break
					}
					p := &sc.Steps[i]
					if v := guard(i, func() *Violation { return w.replaces(i, p, st) }); v != nil {
						return v
					}
				}
				return nil
			})
		},
	}
}

func runReplicas(sc *Script, st *Stats) *Violation {
	ws := [2]*World{NewWorld(sc, st), NewWorld(sc, NewStats())}
	seeds := [2]uint64{sc.MapSeed, Mix(sc.MapSeed, 77)}
	for i := range sc.Steps {
		if spent(st) {
			break
		}
		p := &sc.Steps[i]
		st.Count("op:" + p.Op)
		st.NoteS(p.Op)
		a, b := ws[0].slot(p.N), ws[1].slot(p.N)
		if p.Op == "bounce" {
			k := p.N2 & 1
			w := ws[k]
			simrt.MapSeed = seeds[k]
			for n, sl := range w.slots {
				if sl.model == nil || sl != w.slot(p.N) && p.K < 12 {
					continue
				}
				st.Fault("crash")
				own := append([]byte(nil), sl.m.Encode()...)
				if p.K&4 == 0 {
					sl.m = sl.s.New()
				}
				if v := guard(i, func() *Violation {
					Limit(len(own))
					if err := sl.m.Decode(w.place(own, []int{0, 1, 3}[p.K&3%3], p.V)); err != nil {
						return violation("reject", i, "replica %d: message %d does not decode from its own bytes: %v: %s", k, n, err, shortHex(own))
					}
					return nil
				}); v != nil {
					return v
				}
			}
			continue
		}
		_, f := a.field(p.F)
		if f != nil {
			st.Note(uint64(f.Kind))
		}
		if p.Op == "nest" && p.K == 0 && (ws[0].slot(p.N2).model == nil) != (ws[1].slot(p.N2).model == nil) {
			return violation("diverged", i, "message %d is usable in one replica only", p.N2)
		}
		var out [2]outcome
		for k, w := range ws {
			q := *p
			switch p.Op {
			case "dec":
				q.K = []int{0, 1, 3}[(p.K+k)%3]
				q.V += uint64(k)
			case "reset":
				q.K += k * 3
				q.L /= 1 + k
			}
			simrt.MapSeed = seeds[k]
			o := &out[k]
			func() {
				defer func() {
					if r := recover(); r != nil {
						v := panicViolation(i, r, "")
						o.class, o.msg = v.Class, v.Msg
					}
				}()
				o.res, o.class, o.msg = w.Do(&q)
			}()
		}
		if (out[0].class == "") != (out[1].class == "") || out[0].res != out[1].res {
			return violation("diverged", i, "%s on message %d: one replica %s, the other %s", p.Op, p.N, out[0], out[1])
		}
		if out[0].class != "" {
			// Not this property's business.
			for _, w := range ws {
				w.slot(p.N).m.Reset(nil)
				w.slot(p.N).model = NewModel()
			}
			continue
		}
		if a.model == nil || b.model == nil {
			a.model, b.model = nil, nil
			continue
		}
		x, y := a.m.Encode(), b.m.Encode()
		if !bytes.Equal(x, y) {
			return violation("diverged", i, "after %s on message %d: one replica holds %s, the other %s", p.Op, p.N, shortHex(x), shortHex(y))
		}
		if len(x) > 65534 {
			st.Count("probe:beyond-offset-array")
			st.Nontrivial()
			st.Note(1)
		}
	}
	for n := range ws[0].slots {
		a, b := ws[0].slots[n], ws[1].slots[n]
		if a.model == nil || b.model == nil {
			continue
		}
		v := guard(len(sc.Steps), func() *Violation {
			size := len(a.m.Encode())
			hx, tx := Digest(a.m, a.s, size)
			hy, ty := Digest(b.m, b.s, size)
			if hx != hy || tx != ty {
				return violation("diverged", len(sc.Steps), "message %d at the end: %s", n, differ(a, b, size))
			}
			return nil
		})
		if v != nil {
			return v
		}
	}
	return nil
}

// unknown returns the fields of b that s does not have, one after the other.
func unknown(s *Schema, b []byte) (out []byte, n int) {
	fs, _ := Parse(b)
	for _, f := range fs {
		if f.Num > uint64(s.Max) || s.ByNum(int(f.Num)) == nil {
			out = append(out, b[f.Start:f.End]...)
			n++
		}
	}
	return out, n
}

// nestedUnknown does so for the last occurrence of a nested message.
func nestedUnknown(f *Field, b []byte) []byte {
	out, _ := unknown(f.Sub, lastNested(f, b))
	return out
}

func (w *World) preserves(i int, p *Step, st *Stats) *Violation {
	sl := w.slot(p.N)
	st.Count("op:" + p.Op)
	st.NoteS(p.Op)
	_, f := sl.field(p.F)
	if f != nil {
		st.Note(uint64(f.Kind))
	}
	write := sl.model != nil && (p.Op == "set" || p.Op == "fill" || p.Op == "nest" || p.Op == "self" || p.Op == "rmw")
	var before, nested []byte
	var n, size int
	if write {
		b := sl.m.Encode()
		size = len(b)
		before, n = unknown(sl.s, b)
		if p.Op == "rmw" && f != nil && f.Kind == KMsg {
			nested = append(nested, nestedUnknown(f, b)...)
		}
	}
	_, class, msg := w.Do(p)
	if class == "hang" {
		return violation(class, i, "%s: %s", p.Op, msg)
	}
	if class != "" {
		sl.m.Reset(nil)
		sl.model = NewModel()
		return nil
	}
	if !write {
		return nil
	}
	b := sl.m.Encode()
	after, k := unknown(sl.s, b)
	if _, s := Parse(b); s == Bad {
		return violation("lost", i, "after %s on message %d its bytes are no message: %s", p.Op, p.N, shortHex(b))
	}
	if !bytes.Equal(before, after) {
		return violation("lost", i, "after %s on message %d: %d unknown fields %s, before %d: %s", p.Op, p.N, k, shortHex(after), n, shortHex(before))
	}
	if p.Op == "rmw" && f != nil && f.Kind == KMsg && len(nested) > 0 {
		if got := nestedUnknown(f, b); !bytes.HasPrefix(got, nested) {
			return violation("lost", i, "after changes to field %d of message %d: unknown fields of the nested message are %s, before %s", f.Num, p.N, shortHex(got), shortHex(nested))
		}
		st.Count("probe:nested-unknown")
	}
	if n > 0 {
		st.Count("probe:write-with-unknown")
		if len(b) != size {
			st.Nontrivial()
			st.Note(uint64(n))
		}
	}
	return nil
}

// occ is how often a field occurs in a message.
type occ struct {
	n     int
	exact bool // the last one has the wire type of the schema and the shortest tag
}

// occurrences counts the occurrences of the fields that have one value.
func occurrences(s *Schema, b []byte) map[int]occ {
	m := map[int]occ{}
	fs, _ := Parse(b)
	for _, p := range fs {
		if p.Num > uint64(s.Max) {
			continue
		}
		f := s.ByNum(int(p.Num))
		if f == nil || f.Kind == KRep || f.Kind == KRepMsg {
			continue
		}
		o := m[f.Num]
		o.n++
		o.exact = p.WT == f.Kind.Wire() && p.Val-p.Start == VarintLen(p.Num<<3|uint64(p.WT))
		m[f.Num] = o
	}
	return m
}

// piled compares two states of a message, one write apart.
func piled(s *Schema, was map[int]occ, b []byte) (num, before, after int) {
	for f, o := range occurrences(s, b) {
		w := was[f]
		if w.n > 0 && !w.exact {
			// The old value may have to stay where it is.
			w.n++
		}
		if o.n > max(w.n, 1) && (num == 0 || f < num) {
			num, before, after = f, was[f].n, o.n
		}
	}
	return
}

// lastNested returns the bytes of a nested message.
func lastNested(f *Field, b []byte) []byte {
	fs, _ := Parse(b)
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].Num == uint64(f.Num) && fs[i].WT == WBytes {
			return b[fs[i].Pay:fs[i].End]
		}
	}
	return nil
}

func (w *World) replaces(i int, p *Step, st *Stats) *Violation {
	sl := w.slot(p.N)
	st.Count("op:" + p.Op)
	st.NoteS(p.Op)
	_, f := sl.field(p.F)
	if f != nil {
		st.Note(uint64(f.Kind))
	}
	write := sl.model != nil && (p.Op == "set" || p.Op == "fill" || p.Op == "nest" || p.Op == "self" || p.Op == "rmw")
	var was, nested map[int]occ
	var size int
	if write {
		b := sl.m.Encode()
		size = len(b)
		was = occurrences(sl.s, b)
		if p.Op == "rmw" && f != nil && f.Kind == KMsg {
			nested = occurrences(f.Sub, lastNested(f, b))
		}
	}
	_, class, msg := w.Do(p)
	if class == "hang" {
		return violation(class, i, "%s: %s", p.Op, msg)
	}
	if class != "" {
		sl.m.Reset(nil)
		sl.model = NewModel()
		return nil
	}
	if !write {
		return nil
	}
	b := sl.m.Encode()
	if num, n, k := piled(sl.s, was, b); num > 0 {
		return violation("piled-up", i, "after %s on message %d (%d bytes, before %d) field %d occurs %d times, before %d: %s", p.Op, p.N, len(b), size, num, k, n, shortHex(b))
	}
	if nested != nil {
		if num, n, k := piled(f.Sub, nested, lastNested(f, b)); num > 0 {
			return violation("piled-up", i, "after changes to field %d of message %d its field %d occurs %d times, before %d: %s", f.Num, p.N, num, k, n, shortHex(b))
		}
	}
	if len(b) != size {
		if f != nil && was[f.Num].n > 0 {
			st.Count("probe:replaced-by-other-length")
			st.Nontrivial()
		}
		if len(b) > 65534 {
			st.Count("probe:beyond-offset-array")
			st.Note(1)
		}
	}
	return nil
}
