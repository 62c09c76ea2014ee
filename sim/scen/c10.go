package scen

import (
	"runtime"
	"runtime/debug"

	. "verifsim/core"
)

// c10: from a seeded point of a history on, the allocator has nothing to give:
// any request to it is the failure. Runs on an uninstrumented build.
func init() {
	Scenarios["C10"] = &Scenario{
		Rule: "one script per seed: a history of 0-25 writes, decodes (damaged at times) and resets without restriction, then memory is exhausted and 5-40 decodes, reads, iterations, sets and appends that fit the buffer must each complete without a single heap allocation. Non-trivial: at least one operation ran under exhaustion; distinct by hash of (operation, field kind, buffer state) sequence",
		Real: "runtime, generated golden types, code the generator under test wrote for drawn schemas, as shipped (not instrumented)", Stub: "allocator limit (allocation counting with the collector off)",
		Gen: func(r *Rng, sc *Script) {
			sc.Schemas = GenSchemas(r)
			GenSlots(r, sc, 4)
			g := newGen(r, sc)
			w := weights{set: 20, nest: 12, self: 4, reset: 3, dec: 6, maxLen: 400, fault: 30}.vary(r)
			if r.P(1, 10) {
				w.fill = 4
			}
			for n := r.N(25); n > 0; n-- {
				sc.Steps = append(sc.Steps, g.step(w))
			}
			sc.Steps = append(sc.Steps, Step{Op: "exhausted"})
			e := weights{set: 24, nest: 12, reset: 2, dec: 6, get: 20, maxLen: 200}
			if r.P(1, 8) {
				e.maxLen = 20000
			}
			n := r.In(5, 40)
			if r.P(1, 100) {
				n = r.In(200, 1000)
			}
			for ; n > 0; n-- {
				p := g.step(&e)
				if p.Op == "reset" {
					p.K = []int{0, 1, 4}[r.N(3)]
				}
				p.F2 = r.Pick(8, 8, 8, 1, 1) // slack of the buffer: exactly enough, or more
				sc.Steps = append(sc.Steps, p)
			}
		},
		Run: runAllocs,
	}
}

var memA, memB runtime.MemStats
var collected bool

// allocs counts the heap allocations of f.
func allocs(f func()) uint64 {
	runtime.ReadMemStats(&memA)
	f()
	runtime.ReadMemStats(&memB)
	return memB.Mallocs - memA.Mallocs
}

func runAllocs(sc *Script, st *Stats) *Violation {
	// The collector allocates, too (its workers, clean-ups): it runs between
	// runs only, to the end each time.
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	debug.SetGCPercent(-1)
	if runtime.ReadMemStats(&memA); !collected || memA.HeapAlloc > 256<<20 {
		collected = true
		runtime.GC()
	}
	w := NewWorld(sc, NewStats())
	subs := map[*Schema]Msg{}
	for _, s := range w.schemas {
		for _, f := range s.Fields {
			if f.Sub != nil && subs[f.Sub] == nil {
				subs[f.Sub] = f.Sub.New()
			}
		}
	}
	exhausted := false
	for i := range sc.Steps {
		p := &sc.Steps[i]
		st.Count("op:" + p.Op)
		st.NoteS(p.Op)
		if p.Op == "exhausted" {
			exhausted = true
			st.Fault("memory-exhausted")
			continue
		}
		if !exhausted {
			if guard(i, func() *Violation { w.Do(p); return nil }) != nil {
				w.slot(p.N).m = w.slot(p.N).s.New()
				w.slot(p.N).model = NewModel()
			}
			continue
		}
		v := guard(i, func() *Violation { return w.tight(i, p, st, subs) })
		if v != nil && v.Class == "alloc" {
			return v
		}
		if v != nil {
			// Not this property's business.
			w.slot(p.N).m = w.slot(p.N).s.New()
			w.slot(p.N).model = NewModel()
		}
	}
	return nil
}

var sink uint64
var sinkB []byte
var sinkS string

// tight does one step that must not allocate.
func (w *World) tight(i int, p *Step, st *Stats, subs map[*Schema]Msg) *Violation {
	sl := w.slot(p.N)
	j, f := sl.field(p.F)
	if j < 0 {
		return nil
	}
	m := sl.m
	size, room := len(m.Encode()), cap(m.Encode())-len(m.Encode())
	if size >= 65535 && p.Op != "reset" && p.Op != "dec" {
		return nil
	}
	var op func()
	name := p.Op
	need := 0
	tag := VarintLen(uint64(f.Num) << 3)
	var errp error
	switch p.Op {
	case "reset":
		b := m.Encode()[:0]
		if p.K == 1 {
			b = nil
		}
		op = func() { m.Reset(b) }
		sl.model = NewModel()
	case "dec":
		b := ApplyAll(p.B, p.Faults)
		if len(b) >= 65535 {
			return nil
		}
		if _, s := Parse(b); s != OK {
			return nil
		}
		b = w.place(b, p.K&1, p.V)
		sl.model = NewModel()
		op = func() { errp = m.Decode(b) }
	case "get":
		if sl.model == nil {
			return nil
		}
		name += " " + f.Kind.String()
		switch {
		case f.Kind == KRep:
			return nil
		case f.Kind.Scalar():
			op = func() { sink = m.GetU(j) }
		case f.Kind == KString:
			op = func() { sinkS = m.GetS(j) }
		case f.Kind == KBytes:
			op = func() { sinkB = m.GetB(j) }
		case f.Kind == KMsg:
			dst := subs[f.Sub]
			op = func() { _, errp = m.GetM(j, dst) }
		case f.Kind == KRepMsg:
			dst := subs[f.Sub]
			op = func() { _, errp = m.Count(j, dst) }
		}
	case "set", "nest":
		if sl.model == nil {
			return nil
		}
		name += " " + f.Kind.String()
		switch {
		case f.Kind.Scalar() && p.Op == "set":
			v := Canon(f.Kind, p.V)
			switch f.Kind.Wire() {
			case WVarint:
				need = tag + VarintLen(WireVal(f.Kind, v))
			case W32:
				need = tag + 4
			default:
				need = tag + 8
			}
			op = func() { m.SetU(j, v) }
		case (f.Kind == KString || f.Kind == KBytes) && p.Op == "set":
			n := p.L
			need = tag + VarintLen(uint64(n)) + n
			x := value(f.Kind, n, p.V)
			if f.Kind == KString {
				s := string(x)
				op = func() { m.SetS(j, s) }
			} else {
				op = func() { m.SetB(j, x) }
			}
		case f.Sub != nil && p.Op == "nest":
			o := w.slot(p.N2)
			if o.model == nil || o.s != f.Sub || o == sl || addr(o.m.Encode()) == addr(m.Encode()) {
				return nil
			}
			n := len(o.m.Encode())
			need = tag + VarintLen(uint64(n)) + n
			src := o.m
			if f.Kind == KMsg {
				op = func() { m.SetM(j, src) }
			} else {
				op = func() { m.Append(j, src) }
			}
		default:
			return nil
		}
		if size+need >= 65535 {
			return nil
		}
		if room < need {
			// Give the message a buffer with just enough room, or a bit more.
			nb := make([]byte, size, size+need+[]int{0, 1, 300, 70000, 300000}[p.F2%5])
			copy(nb, m.Encode())
			if m.Decode(nb) != nil {
				return nil
			}
		} else {
			st.Count("probe:had-room")
		}
	default:
		return nil
	}
	n := allocs(op)
	if errp != nil {
		sl.model = nil
		if p.Op == "get" {
			sl.model = NewModel()
		}
		return nil
	}
	st.Count("probe:tight-" + p.Op)
	st.Nontrivial()
	st.Note(uint64(f.Kind), Bit(room < need))
	if n > 0 {
		return violation("alloc", i, "%s of field %d on a message of %d bytes with room for %d (needs %d) allocated %d times", name, f.Num, size, room, need, n)
	}
	return nil
}
