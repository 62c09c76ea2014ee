package scen

import (
	"bytes"
	"unsafe"

	. "verifsim/core"
)

// c09: callers that go on using, changing and growing everything they handed
// to the library or got from it.
func init() {
	Scenarios["C09"] = &Scenario{
		Rule: "one script per seed: 8-50 events: setters and appends from memory the caller keeps and scribbles over, growing of views and of nested messages read from a message, decodes and resets into the middle of larger guarded buffers, next to ordinary writes; after every event all messages are compared with their models and all memory the library does not own with snapshots. Non-trivial: a scribble, a growth or a guarded buffer; distinct by hash of (event, field kind) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas", Stub: "callers",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 4)
			g := newGen(r, sc)
			sc.MapSeed = r.U64()
			w := weights{set: 20, nest: 16, self: 3, reset: 1, dec: 2, ship: 2, maxLen: 300, fault: 10}.vary(r)
			if r.P(1, 8) {
				w.fill = 3
			}
			n := r.In(8, 50)
			if r.P(1, 100) {
				n, w.fill, w.maxLen = r.In(100, 400), 0, 40
			}
			for ; n > 0; n-- {
				if r.P(1, 2) {
					sc.Steps = append(sc.Steps, g.step(w))
					continue
				}
				p := Step{N: r.N(len(sc.Slots)), V: r.U64(), L: r.N(60), K: r.N(4)}
				switch r.Pick(4, 6, 4, 8, 3, 3, 4) {
				case 0:
					p.Op = "setheld"
					p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Kind == KBytes })
				case 1:
					p.Op = "scribble"
				case 2:
					p.Op = "growview"
					p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Kind == KBytes })
				case 3:
					p.Op = "growsub"
					p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Sub != nil })
				case 4:
					p.Op = "guardreset"
					p.L = r.N(200)
				case 5:
					p.Op = "guarddec"
					o := GenOpt(r)
					o.Big = 300
					p.B = Frame(r, g.schemaOf(p.N), o)
					p.K = r.N(4)
					if r.P(1, 2) {
						p.Faults = []Fault{GenFault(r, g.schemaOf(p.N), p.B, nil)}
					}
				case 6:
					p.Op = "setguard"
					p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Kind == KBytes || f.Kind == KString || f.Sub != nil })
					p.L = r.Len(200)
				}
				sc.Steps = append(sc.Steps, p)
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation { return runAlias(sc, st) })
		},
	}
}

// tracked memory: b is all of it, [lo,hi) is what the library was given.
type tracked struct {
	b, snap []byte
	lo, hi  int
	what    string
}

func addr(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[:1][0]))
}

func runAlias(sc *Script, st *Stats) *Violation {
	w := NewWorld(sc, st)
	held := make([][]byte, 4)
	for k := range held {
		held[k] = Pattern(64, uint64(k))
	}
	var mem []*tracked
	guardBuf := func(n, extra int, seed uint64, what string) []byte {
		b := Pattern(n+extra+64, seed)
		mem = append(mem, &tracked{b: b, snap: append([]byte(nil), b...), lo: 32, hi: 32 + n + extra, what: what})
		return b[32 : 32 : 32+n+extra]
	}
	for i := range sc.Steps {
		if spent(st) {
			break
		}
		p := &sc.Steps[i]
		st.Count("op:" + p.Op)
		st.NoteS(p.Op)
		sl := w.slot(p.N)
		j, f := sl.field(p.F)
		if f != nil {
			st.Note(uint64(f.Kind))
		}
		// Decoding and resetting must not write anywhere.
		reading := p.Op == "dec" || p.Op == "guarddec" || p.Op == "reset" || p.Op == "guardreset" || p.Op == "ship"
		owned := map[*tracked]bool{}
		own := func() {
			for _, t := range mem {
				for _, s := range w.slots {
					if a := addr(s.m.Encode()); a != 0 && a >= addr(t.b) && a < addr(t.b)+uintptr(len(t.b)) {
						owned[t] = true
					}
				}
			}
		}
		own()
		v := guard(i, func() *Violation {
			if j < 0 {
				return nil
			}
			def := sl.model != nil
			size := len(sl.m.Encode())
			Limit(size + 70000)
			switch p.Op {
			case "setheld":
				if !def || f.Kind != KBytes {
					return nil
				}
				h := held[p.K%4]
				lo := int(p.V % 32)
				x := h[lo : lo+p.L%32]
				sl.m.SetB(j, x)
				sl.model.B[f.Num] = append([]byte(nil), x...)
				delete(sl.model.Skip, f.Num)
			case "setguard":
				// The argument lies inside memory with something before and
				// after it, all of which stays the caller's.
				if !def || f.Kind != KBytes && f.Kind != KString && f.Sub == nil {
					return nil
				}
				val := Pattern(p.L, p.V)
				if f.Sub != nil {
					o := GenOpt(NewRng(p.V))
					o.Big, o.Depth = 200, 1
					val = Frame(NewRng(p.V), f.Sub, o)
				}
				extra := 0
				if p.K&1 == 1 {
					extra = 40
				}
				b := guardBuf(len(val), extra, p.V, "argument of an earlier setter")
				t := mem[len(mem)-1]
				copy(b[:len(val)], val)
				copy(t.snap, t.b)
				st.Fault("guarded-argument")
				if f.Sub == nil {
					if f.Kind == KString {
						// A string carved out of memory that changes once the call is over.
						sl.m.SetS(j, unsafe.String(unsafe.SliceData(b), len(val)))
					} else {
						sl.m.SetB(j, b[:len(val)])
					}
					sl.model.B[f.Num] = append([]byte(nil), val...)
					delete(sl.model.Skip, f.Num)
				} else {
					sub := f.Sub.New()
					if sub.Decode(b[:len(val)]) != nil {
						return nil
					}
					if f.Kind == KMsg {
						sl.m.SetM(j, sub)
						sl.model.B[f.Num] = val
						delete(sl.model.Skip, f.Num)
					} else {
						sl.m.Append(j, sub)
						sl.model.R[f.Num] = append(append([][]byte(nil), sl.model.R[f.Num]...), val)
					}
				}
				if !bytes.Equal(t.b, t.snap) {
					return violation("argument-changed", i, "%s changed its argument or the memory around it", f.Kind)
				}
			case "scribble":
				copy(held[p.K%4], Pattern(64, p.V))
				st.Fault("scribble")
			case "growview":
				if !def || f.Kind != KBytes {
					return nil
				}
				v := sl.m.GetB(j)
				_ = append(v, Pattern(1+p.L, p.V)...)
				st.Fault("grow-view")
				reading = true
			case "growsub":
				if !def || f.Sub == nil || sl.model.Skip[f.Num] {
					return nil
				}
				return growSub(w, sl, j, f, p, i, st)
			case "guardreset":
				b := guardBuf(p.L, 0, p.V, "buffer of an earlier Reset")
				sl.m.Reset(b)
				sl.model = NewModel()
				st.Fault("guarded-buffer")
			case "guarddec":
				extra := 0
				if p.K&1 == 1 {
					extra = 40
				}
				in := ApplyAll(p.B, p.Faults)
				for _, f := range p.Faults {
					st.Fault(f.K)
				}
				b := guardBuf(len(in), extra, p.V, "input of an earlier Decode")
				t := mem[len(mem)-1]
				copy(b[:len(in)], in)
				copy(t.snap, t.b)
				err := sl.m.Decode(b[:len(in)])
				sl.model = nil
				st.Fault("guarded-buffer")
				if err == nil {
					Digest(sl.m, sl.s, len(in))
					if m, s := Read(sl.s, append([]byte(nil), in...)); s == OK {
						sl.model = m
					}
				}
				if !bytes.Equal(t.b, t.snap) {
					return violation("input-changed", i, "decoding and reading changed the input or the memory around it")
				}
			default:
				_, class, msg := w.Do(p)
				if class != "" {
					st.Log("%s %s", class, msg)
					sl.model = nil
				}
			}
			return nil
		})
		if v != nil {
			return v
		}
		if p.Op == "dec" && len(mem) > 6 {
			mem = mem[1:]
		}
		own()
		for _, t := range mem {
			if owned[t] && !reading {
				copy(t.snap[t.lo:t.hi], t.b[t.lo:t.hi])
			}
			if !bytes.Equal(t.b, t.snap) {
				return violation("foreign-write", i, "%s changed memory that is not the message's: %s (owned %v)", p.Op, t.what, owned[t])
			}
		}
		for n, s := range w.slots {
			if v := guard(i, func() *Violation {
				if d := w.Verify(s); d != "" {
					return violation("alias", i, "after %s of message %d, message %d: %s", p.Op, p.N, n, d)
				}
				return nil
			}); v != nil {
				return v
			}
		}
	}
	return nil
}

// growSub changes a nested message through the struct it was read into. That
// may change the nested bytes in place, but no other field.
func growSub(w *World, sl *Slot, j int, f *Field, p *Step, i int, st *Stats) *Violation {
	dst := f.Sub.New()
	idx := 0
	if f.Kind == KMsg {
		if ok, err := sl.m.GetM(j, dst); !ok || err != nil {
			return nil
		}
	} else {
		it := sl.m.Iter(j)
		idx = int(p.V % 5)
		for n := 0; ; n++ {
			ok, err := it.Next(dst)
			if !ok {
				return nil
			}
			if n == idx {
				if err != nil {
					return nil
				}
				break
			}
		}
		if idx >= len(sl.model.R[f.Num]) {
			return nil
		}
	}
	sm, status := Read(f.Sub, append([]byte(nil), dst.Encode()...))
	if status != OK {
		return nil
	}
	sub := &Slot{s: f.Sub, m: dst, model: sm}
	r := NewRng(p.V)
	for n := r.In(1, 4); n > 0; n-- {
		w.mutate(sub, r)
		st.Fault("grow-nested")
	}
	if d := w.Verify(sub); d != "" {
		return violation("alias", i, "nested message after growing it: %s", d)
	}
	now, status := Read(sl.s, sl.m.Encode())
	if status != OK {
		return violation("alias", i, "growing a nested message of field %d made the enclosing message malformed: %s", f.Num, shortHex(sl.m.Encode()))
	}
	if f.Kind == KMsg {
		if len(now.B[f.Num]) != len(sl.model.B[f.Num]) {
			return violation("alias", i, "growing a nested message changed the framing of the enclosing one")
		}
		sl.model.B[f.Num] = append([]byte(nil), now.B[f.Num]...)
	} else {
		if len(now.R[f.Num]) != len(sl.model.R[f.Num]) || len(now.R[f.Num][idx]) != len(sl.model.R[f.Num][idx]) {
			return violation("alias", i, "growing an element changed the framing of the enclosing message")
		}
		l := append([][]byte(nil), sl.model.R[f.Num]...)
		l[idx] = append([]byte(nil), now.R[f.Num][idx]...)
		sl.model.R[f.Num] = l
	}
	return nil
}
