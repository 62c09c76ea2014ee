package scen

import (
	"math/bits"

	. "verifsim/core"
	"verifsim/simrt"
)

// c21: the cost of operations, in statements executed by the code under test, on
// messages that were made to be expensive.
func init() {
	Scenarios["C21"] = &Scenario{
		Rule: "one script per seed: 1-3 structs decode 1-4 messages each, of up to tens of thousands of small fields, of one field with long contents, with nested messages or elements that have up to thousands of fields or are damaged, then 0-20 writes follow each. Statements executed are counted for each decode, read, full iteration and write and must stay within linear bounds (see DESIGN). Non-trivial: more than 100 fields or 1000 bytes; distinct by hash of (shape, operation, field kind, magnitude) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas, zero-copy accessors and iterators", Stub: "hostile peers (reference encoder), channel (byte slices)",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 3)
			g := newGen(r, sc)
			sc.MapSeed = r.U64()
			for n := r.In(1, 4) * len(sc.Slots); n > 0; n-- {
				p := Step{Op: "dec", N: r.N(len(sc.Slots)), K: []int{0, 1, 3}[r.N(3)], V: r.U64()}
				s := g.schemaOf(p.N)
				p.B, p.L = costly(r, s)
				if r.P(1, 6) {
					p.Faults = append(p.Faults, GenFault(r, s, p.B, nil))
				}
				sc.Steps = append(sc.Steps, p)
				for k := r.N(3) * r.N(11); k > 0; k-- {
					q := g.step(&weights{set: 10, maxLen: 500})
					q.N = p.N
					if j := g.fieldOf(p.N, func(f *Field) bool { return f.Sub != nil }); len(s.Fields) > 0 && s.Fields[j].Sub != nil && r.P(1, 4) {
						q.Op, q.F = "put", j
						q.B, _ = costly(r, s.Fields[j].Sub)
					}
					sc.Steps = append(sc.Steps, q)
				}
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation {
				w := NewWorld(sc, st)
				for i := range sc.Steps {
					if spent(st) {
						break
					}
					p := &sc.Steps[i]
					if v := guard(i, func() *Violation { return w.costs(i, p, st) }); v != nil {
						return v
					}
				}
				return nil
			})
		},
	}
}

// costly makes a message that is expensive to read in one way.
func costly(r *Rng, s *Schema) ([]byte, int) {
	o := FrameOpt{Shuffle: r.P(1, 2), Unknown: r.P(1, 3), Depth: 1, Big: r.N(300)}
	some := func() int { return 1 << uint(r.In(5, 13)) * r.In(50, 100) / 100 }
	var f *Field
	for _, x := range s.Fields {
		if x.Sub != nil && (f == nil || r.P(1, 2)) {
			f = x
		}
	}
	shape := r.N(5)
	if f == nil && shape >= 2 {
		shape = r.N(2)
	}
	switch shape {
	case 0: // many fields
		o.Flood = some() * (1 + r.N(2)*r.N(5))
	case 1: // long contents
		o.Big = r.In(1000, 70000)
		if r.P(1, 50) {
			o.Big = 1 << 21
		}
	case 2: // a nested message with many fields
		sub := FrameOpt{Depth: 1, Big: 100, Flood: some()}
		b := Frame(r, f.Sub, sub)
		if r.P(1, 3) {
			b = ApplyAll(b, []Fault{GenFault(r, f.Sub, b, nil)})
		}
		out := PutTag(Frame(r, s, o), f.Num, WBytes)
		out = PutVarint(out, uint64(len(b)), 1)
		return append(out, b...), shape
	case 3: // many elements
		n := min(some(), 50+4000000/(f.Sub.Max+50))
		out := Frame(r, s, o)
		e := Frame(r, f.Sub, FrameOpt{Big: 10})
		if len(e) > 40 {
			e = nil
		}
		for ; n > 0; n-- {
			out = PutTag(out, f.Num, WBytes)
			out = PutVarint(out, uint64(len(e)), 1)
			out = append(out, e...)
		}
		return out, shape
	case 4: // few elements with many other fields in between
		o.Flood = some()
		o.Dups = true
	}
	return Frame(r, s, o), shape
}

// What an operation may cost. The shipped code takes less than an eighth of it.
const (
	fieldCost = 200 // per field of the message that is looked at
	readCost  = 2000
)

// decodeCost bounds a decode: it looks at each top-level field once, whatever
// is in it, and clears what the struct had.
func decodeCost(s *Schema, b []byte) uint64 {
	fs, st := Parse(b)
	if st != OK && st != Bad {
		return 1 << 40 // the rest may be read or not
	}
	return readCost + fieldCost*uint64(len(fs)+1) + 20*uint64(s.Max)
}

func (w *World) costs(i int, p *Step, st *Stats) *Violation {
	sl := w.slot(p.N)
	st.Count("op:" + p.Op)
	st.NoteS(p.Op)
	j, f := sl.field(p.F)
	size := uint64(len(sl.m.Encode()))
	var class, msg string
	from := simrt.Steps()
	if p.Op != "put" {
		_, class, msg = w.Do(p)
	} else if f != nil && f.Sub != nil && sl.model != nil {
		src := f.Sub.New()
		Limit(len(p.B))
		if src.Decode(append([]byte(nil), p.B...)) != nil {
			return nil
		}
		from = simrt.Steps()
		if f.Kind == KMsg {
			sl.m.SetM(j, src)
		} else {
			sl.m.Append(j, src)
		}
	}
	cost := simrt.Steps() - from
	if class == "hang" {
		return violation(class, i, "%s: %s", p.Op, msg)
	}
	if class != "" {
		sl.m.Reset(nil)
		sl.model = NewModel()
		return nil
	}
	b := sl.m.Encode()
	if p.Op != "dec" {
		if f == nil || sl.model == nil {
			return nil
		}
		st.Note(uint64(f.Kind))
		if most := 4*readCost + 50*uint64(sl.s.Max) + 20*(size+uint64(len(b))); cost > most {
			return violation("cost", i, "%s of field %d (%s) of message %d took %d statements for %d bytes, at most %d expected", p.Op, f.Num, f.Kind, p.N, cost, len(b), most)
		}
		return w.readCosts(i, p, sl, b, j, st)
	}
	if most := decodeCost(sl.s, b); cost > most {
		fs, _ := Parse(b)
		return violation("cost", i, "decode of %d fields took %d statements, at most %d expected: %s", len(fs), cost, most, shortHex(b))
	}
	fs, _ := Parse(b)
	st.Note(uint64(p.L)<<8 | uint64(bits.Len(uint(len(fs)))))
	if len(fs) > 100 || len(b) > 1000 {
		st.Nontrivial()
	}
	if sl.model == nil {
		return nil
	}
	for j := range sl.s.Fields {
		if j > 40 {
			break
		}
		if v := w.readCosts(i, p, sl, b, j, st); v != nil {
			return v
		}
	}
	return nil
}

// readCosts reads a field, all of it.
func (w *World) readCosts(i int, p *Step, sl *Slot, b []byte, j int, st *Stats) *Violation {
	f := sl.s.Fields[j]
	Limit(len(b))
	from := simrt.Steps()
	most := uint64(readCost)
	switch {
	case f.Kind.Scalar():
		sl.m.GetU(j)
	case f.Kind == KString:
		sl.m.GetS(j)
	case f.Kind == KBytes:
		sl.m.GetB(j)
	case f.Kind == KMsg:
		dst := f.Sub.New()
		from = simrt.Steps()
		if ok, _ := sl.m.GetM(j, dst); ok {
			most += decodeCost(f.Sub, dst.Encode())
		}
	case f.Kind == KRepMsg:
		dst := f.Sub.New()
		fs, all := Parse(b)
		if all != OK {
			return nil
		}
		n := 0
		most += fieldCost * uint64(len(fs)+1)
		for _, e := range fs {
			if e.Num == uint64(f.Num) && e.WT == WBytes {
				most += decodeCost(f.Sub, b[e.Pay:e.End])
				n++
			}
		}
		if n*(f.Sub.Max+50) > 8000000 {
			return nil
		}
		from = simrt.Steps()
		it := sl.m.Iter(j)
		for k := 0; ; k++ {
			Limit(len(b))
			ok, err := it.Next(dst)
			if !ok && err == nil {
				break
			}
			if k > n {
				return violation("hang", i, "field %d of message %d has %d elements, its iterator has not ended yet", f.Num, p.N, n)
			}
		}
		if n > 100 {
			st.Count("probe:many-elements")
		}
	default:
		return nil
	}
	if cost := simrt.Steps() - from; cost > most {
		return violation("cost", i, "reading field %d (%s) of message %d, of %d bytes, took %d statements, at most %d expected", f.Num, f.Kind, p.N, len(b), cost, most)
	}
	return nil
}
