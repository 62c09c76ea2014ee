package scen

import (
	"bytes"
	"fmt"

	. "verifsim/core"
)

// Slot is one message of a run with what it should hold; model is nil while
// that is unspecified (after a failed decode).
type Slot struct {
	s     *Schema
	m     Msg
	model *Model
}

// World is the state of one node: its messages and its disk.
type World struct {
	schemas []*Schema
	slots   []*Slot
	disk    []saved
	st      *Stats
	arena   []byte // a buffer that is used again and again
	max     int    // messages beyond this don't grow any more
}

type saved struct {
	b     []byte
	model *Model
}

// NewWorld returns a node with empty messages.
func NewWorld(sc *Script, st *Stats) *World {
	w := &World{schemas: Resolve(sc.Schemas), st: st, max: maxMsg}
	for _, p := range sc.Steps {
		if p.L > maxMsg || len(p.B) > maxMsg {
			w.max = max(w.max, 6<<20)
		}
		for _, f := range p.Faults {
			if f.Z > 0 {
				w.max = 160 << 20
			}
		}
	}
	for _, i := range sc.Slots {
		s := w.schemas[i%len(w.schemas)]
		w.slots = append(w.slots, &Slot{s: s, m: s.New(), model: NewModel()})
	}
	w.disk = make([]saved, len(w.slots))
	return w
}

func (w *World) slot(n int) *Slot {
	if n < 0 {
		n = -n
	}
	return w.slots[n%len(w.slots)]
}

func (s *Slot) field(i int) (int, *Field) {
	if len(s.s.Fields) == 0 {
		return -1, nil
	}
	if i < 0 {
		i = -i
	}
	i %= len(s.s.Fields)
	return i, s.s.Fields[i]
}

// value makes the bytes of a string or bytes value.
func value(k Kind, n int, seed uint64) []byte {
	b := Pattern(n, seed)
	if k == KString {
		Stringy(b, seed)
	}
	return b
}

//go:noinline
func setS(m Msg, i, n int, seed uint64) { m.SetS(i, string(value(KString, n, seed))) }

//go:noinline
func setB(m Msg, i, n int, seed uint64) { m.SetB(i, value(KBytes, n, seed)) }

//go:noinline
func nestTemp(m Msg, i int, f *Field, b []byte) bool {
	t := f.Sub.New()
	if t.Decode(append([]byte(nil), b...)) != nil {
		return false
	}
	if f.Kind == KMsg {
		m.SetM(i, t)
	} else {
		m.Append(i, t)
	}
	return true
}

const maxMsg = 200000

// Do executes one step on the real messages and the models. It returns a digest
// of what the step returned and, if something is wrong, a violation class and
// description.
func (w *World) Do(p *Step) (res uint64, class, msg string) {
	sl := w.slot(p.N)
	i, f := sl.field(p.F)
	if i < 0 {
		switch p.Op {
		case "reset", "dec", "restore", "ship", "rewrite", "ckpt", "crash", "dig":
			// Messages without fields have these as well.
		default:
			return
		}
	}
	size := len(sl.m.Encode())
	if size > w.max && p.Op != "reset" && p.Op != "rewrite" && p.Op != "dec" && p.Op != "crash" {
		return
	}
	Limit(size + p.L + len(p.B) + 70000)
	def := sl.model != nil
	setModel := func(b []byte) {
		sl.model.B[f.Num] = b
		delete(sl.model.Skip, f.Num)
	}
	switch p.Op {
	case "set", "fill":
		if !def {
			return
		}
		switch {
		case f.Kind.Scalar():
			v := Canon(f.Kind, p.V)
			sl.m.SetU(i, v)
			sl.model.U[f.Num] = v
			delete(sl.model.Skip, f.Num)
		case f.Kind == KString || f.Kind == KBytes:
			n := p.L
			if p.Op == "fill" {
				n = p.L - size - VarintLen(uint64(f.Num)<<3) - 3
				if old, ok := sl.model.B[f.Num]; ok {
					n += len(old) + VarintLen(uint64(f.Num)<<3) + VarintLen(uint64(len(old)))
				}
				if n < 0 {
					n = -n % 300
				}
			}
			if lim := w.max * 2 / 5; n > lim {
				n = lim
			}
			if f.Kind == KString {
				setS(sl.m, i, n, p.V)
			} else {
				setB(sl.m, i, n, p.V)
			}
			setModel(value(f.Kind, n, p.V))
		}
	case "nest":
		if p.K == 1 {
			// A temporary message, referenced by nobody else.
			if !def || f.Sub == nil {
				return
			}
			b := Frame(NewRng(p.V), f.Sub, FrameOpt{Depth: 1, Big: 600})
			if !nestTemp(sl.m, i, f, b) {
				return
			}
			if f.Kind == KMsg {
				setModel(b)
			} else {
				sl.model.R[f.Num] = append(sl.model.R[f.Num], b)
			}
			return
		}
		o := w.slot(p.N2)
		if !def || o.model == nil || f.Sub != o.s || o == sl || len(o.m.Encode()) > 70000 {
			return
		}
		b := append([]byte(nil), o.m.Encode()...)
		switch f.Kind {
		case KMsg:
			sl.m.SetM(i, o.m)
			setModel(b)
		case KRepMsg:
			sl.m.Append(i, o.m)
			sl.model.R[f.Num] = append(sl.model.R[f.Num], b)
		}
	case "self":
		if !def {
			return
		}
		w.self(sl, i, f, p, setModel)
	case "rmw":
		if !def || f.Kind != KMsg || sl.model.Skip[f.Num] {
			return
		}
		dst := f.Sub.New()
		ok, err := sl.m.GetM(i, dst)
		if !ok || err != nil {
			return
		}
		sub := &Slot{s: f.Sub, m: dst}
		sm, st := Read(f.Sub, append([]byte(nil), dst.Encode()...))
		if st != OK {
			return
		}
		sub.model = sm
		r := NewRng(p.V)
		for n := r.In(1, 3); n > 0; n-- {
			w.mutate(sub, r)
		}
		b := append([]byte(nil), dst.Encode()...)
		if d := compareBytes(f.Sub, b, sub.model); d != "" {
			return 0, "mismatch", "nested message after changes: " + d
		}
		sl.m.SetM(i, dst)
		setModel(b)
	case "reset":
		var b []byte
		switch p.K % 5 {
		case 0:
			b = sl.m.Encode()[:0]
		case 1:
		case 2:
			b = make([]byte, 0, p.L)
		case 3:
			b = Pattern(p.L, p.V)[:0]
		case 4:
			b = sl.m.Encode()
			b = b[len(b):]
		}
		sl.m.Reset(b)
		sl.model = NewModel()
	case "dec", "restore", "ship":
		return w.decode(sl, p)
	case "rewrite":
		// The message's buffer receives another message of the same length.
		if !def {
			return
		}
		if b := Rearrange(NewRng(p.V), sl.m.Encode()); b != nil {
			return w.decode(sl, &Step{Op: "dec", N: p.N, B: b, K: inPlace})
		}
	case "ckpt":
		if def {
			n := p.N % len(w.slots)
			w.disk[n] = saved{append([]byte(nil), sl.m.Encode()...), sl.model.Clone()}
		}
	case "crash":
		// Everything in memory is lost, the disk survives.
		w.st.Fault("crash")
		for n, s := range w.slots {
			s.m = s.s.New()
			s.model = NewModel()
			if d := w.disk[n]; d.model != nil {
				if err := s.m.Decode(append([]byte(nil), d.b...)); err != nil {
					return 0, "reject", fmt.Sprintf("decoding checkpoint of message %d: %v", n, err)
				}
				s.model = d.model.Clone()
			}
		}
	case "get":
		if !def {
			return
		}
		h, trouble := FieldDigest(sl.m, sl.s, i, size, 4)
		if trouble != "" {
			return h, "hang", trouble
		}
		return h, "", ""
	case "dig":
		if !def {
			return
		}
		h, trouble := Digest(sl.m, sl.s, size)
		if trouble != "" {
			return h, "hang", trouble
		}
		return HashBytes(h, sl.m.Encode()), "", ""
	}
	return
}

// mutate makes a small random change to a message and its model.
func (w *World) mutate(sl *Slot, r *Rng) {
	i, f := sl.field(r.N(64))
	if i < 0 {
		return
	}
	switch {
	case f.Kind.Scalar():
		v := Canon(f.Kind, r.Scalar())
		sl.m.SetU(i, v)
		sl.model.U[f.Num] = v
		delete(sl.model.Skip, f.Num)
	case f.Kind == KString || f.Kind == KBytes:
		n, seed := r.N(40), r.U64()
		if f.Kind == KString {
			setS(sl.m, i, n, seed)
		} else {
			setB(sl.m, i, n, seed)
		}
		sl.model.B[f.Num] = value(f.Kind, n, seed)
		delete(sl.model.Skip, f.Num)
	case f.Kind == KMsg || f.Kind == KRepMsg:
		o := f.Sub.New()
		om := &Slot{s: f.Sub, m: o, model: NewModel()}
		if r.P(2, 3) {
			j, g := om.field(r.N(64))
			if j >= 0 && g.Kind.Scalar() {
				o.SetU(j, Canon(g.Kind, r.Scalar()))
			}
		}
		b := append([]byte(nil), o.Encode()...)
		if f.Kind == KMsg {
			sl.m.SetM(i, o)
			sl.model.B[f.Num] = b
			delete(sl.model.Skip, f.Num)
		} else {
			sl.m.Append(i, o)
			sl.model.R[f.Num] = append(sl.model.R[f.Num], b)
		}
	}
}

// self sets or appends a value that is read from the same message.
func (w *World) self(sl *Slot, i int, f *Field, p *Step, setModel func([]byte)) {
	j, g := sl.field(p.F2)
	if sl.model.Skip[g.Num] {
		return
	}
	var view []byte
	var str string
	var sub Msg
	switch g.Kind {
	case KBytes:
		view = sl.m.GetB(j)
		str = string(view)
	case KString:
		str = sl.m.GetS(j)
		view = []byte(str)
	case KMsg:
		sub = g.Sub.New()
		if ok, err := sl.m.GetM(j, sub); !ok || err != nil {
			return
		}
	case KRepMsg:
		sub = g.Sub.New()
		it := sl.m.Iter(j)
		for n := int(p.V % 4); ; n-- {
			ok, err := it.Next(sub)
			if !ok || err != nil {
				return
			}
			if n <= 0 {
				break
			}
		}
	default:
		if g.Kind.Scalar() && f.Kind.Scalar() {
			v := Canon(f.Kind, sl.m.GetU(j))
			sl.m.SetU(i, v)
			sl.model.U[f.Num] = v
			delete(sl.model.Skip, f.Num)
		}
		return
	}
	if sub != nil && (f.Kind == KBytes || f.Kind == KString) {
		// The nested message as bytes, or a bytes value out of it.
		view = sub.Encode()
		if p.K%2 == 1 {
			for x, h := range g.Sub.Fields {
				if h.Kind == KBytes {
					view = sub.GetB(x)
					break
				}
			}
		}
		if f.Kind == KString {
			return
		}
	}
	switch f.Kind {
	case KBytes:
		lo, hi := 0, len(view)
		if p.K%3 == 2 && hi > 1 {
			lo = p.L % hi
			hi = lo + int(p.V%uint64(hi-lo+1))
		}
		b := append([]byte(nil), view[lo:hi]...)
		sl.m.SetB(i, view[lo:hi])
		setModel(b)
	case KString:
		if g.Kind != KString {
			return
		}
		lo, hi := 0, len(str)
		if p.K%3 == 2 && hi > 1 {
			lo = p.L % hi
			hi = lo + int(p.V%uint64(hi-lo+1))
		}
		b := []byte(str[lo:hi])
		sl.m.SetS(i, str[lo:hi])
		setModel(b)
	case KMsg:
		if sub == nil || f.Sub != g.Sub {
			return
		}
		b := append([]byte(nil), sub.Encode()...)
		sl.m.SetM(i, sub)
		setModel(b)
	case KRepMsg:
		if sub == nil || f.Sub != g.Sub {
			return
		}
		b := append([]byte(nil), sub.Encode()...)
		sl.m.Append(i, sub)
		sl.model.R[f.Num] = append(sl.model.R[f.Num], b)
	}
}

// inPlace is where a message of the same length was.
const inPlace = 1 << 10

// Place puts a frame into the kind of buffer a receiver has.
func (w *World) place(b []byte, k int, poison uint64) []byte {
	spare := 64
	if poison%37 == 7 {
		spare = 65536 + int(poison>>8%100000)
	}
	switch k % 4 {
	case 0:
		c := make([]byte, len(b))
		copy(c, b)
		return c[:len(b):len(b)]
	case 1: // a larger buffer with something behind the frame
		c := Pattern(len(b)+spare, poison)
		copy(c, b)
		return c[:len(b)]
	case 2: // the same buffer every time
		if cap(w.arena) < len(b)+16 {
			w.arena = Pattern(2*len(b)+256, poison)
		}
		w.arena = w.arena[:cap(w.arena)]
		copy(w.arena, b)
		return w.arena[:len(b)]
	default: // in the middle of a larger one
		c := Pattern(len(b)+136+spare, poison)
		copy(c[100:], b)
		return c[100 : 100+len(b)]
	}
}

func (w *World) decode(sl *Slot, p *Step) (res uint64, class, msg string) {
	var b []byte
	n := p.N % len(w.slots)
	if n < 0 {
		n = -n
	}
	switch p.Op {
	case "dec":
		b = p.B
	case "restore":
		if w.disk[n].model == nil {
			return
		}
		b = w.disk[n].b
	case "ship":
		o := w.slot(p.N2)
		if o.model == nil || o.s != sl.s || o == sl {
			return
		}
		b = o.m.Encode()
		if len(b) > w.max {
			return
		}
	}
	for _, f := range p.Faults {
		w.st.Fault(f.K)
	}
	b = ApplyAll(b, p.Faults)
	if p.K&8 != 0 {
		sl.m = sl.s.New()
	}
	var in []byte
	if p.K%4 == 2 {
		// Shared by all messages of the node that do this: they become stale.
		for _, o := range w.slots {
			if o != sl && sharesArena(w.arena, o.m.Encode()) {
				o.m.Reset(nil)
				o.model = NewModel()
			}
		}
	}
	if p.K == inPlace {
		in = sl.m.Encode()
		copy(in, b)
	} else {
		in = w.place(b, p.K, p.V)
	}
	Limit(len(in))
	err := sl.m.Decode(in)
	model, st := Read(sl.s, append([]byte(nil), b...))
	w.st.Note(uint64(st), Bit(err != nil))
	sl.model = nil
	if err != nil {
		w.st.Count("probe:decode-error")
		if st == OK {
			return 1, "reject", fmt.Sprintf("well-formed message rejected: %v: %s", err, shortHex(b))
		}
		return HashBytes(1, []byte(err.Error())), "", ""
	}
	w.st.Count("probe:decode-ok")
	if st == Bad {
		return 0, "accept", fmt.Sprintf("malformed message accepted: %s", shortHex(b))
	}
	if st == OK {
		sl.model = model
	}
	return 0, "", ""
}

func sharesArena(a, b []byte) bool {
	a = a[:cap(a)]
	if len(a) == 0 || cap(b) == 0 {
		return false
	}
	b = b[:cap(b)]
	return &a[len(a)-1] == &b[len(b)-1]
}

func shortHex(b []byte) string {
	if len(b) <= 60 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x...(%d bytes)", b[:48], len(b))
}

// compareBytes reads b with the reference reader and compares with the model.
func compareBytes(s *Schema, b []byte, want *Model) string {
	got, st := Read(s, b)
	if st == Bad {
		return "bytes are not a well-formed message: " + shortHex(b)
	}
	if st != OK {
		return ""
	}
	for _, f := range s.Fields {
		if want.Skip[f.Num] {
			continue
		}
		// A skip mark the model does not have is a field with two wire types,
		// which setting is allowed to leave behind as long as the last counts.
		n := f.Num
		switch {
		case f.Kind == KRep:
		case f.Kind.Scalar():
			if Canon(f.Kind, got.U[n]) != Canon(f.Kind, want.U[n]) {
				return fmt.Sprintf("field %d (%s) encoded as %#x, want %#x", n, f.Kind, got.U[n], want.U[n])
			}
		case f.Kind == KRepMsg:
			if len(got.R[n]) != len(want.R[n]) {
				return fmt.Sprintf("field %d: %d elements encoded, want %d", n, len(got.R[n]), len(want.R[n]))
			}
			for i := range got.R[n] {
				if !bytes.Equal(got.R[n][i], want.R[n][i]) {
					return fmt.Sprintf("field %d element %d: encoded %s, want %s", n, i, shortHex(got.R[n][i]), shortHex(want.R[n][i]))
				}
			}
		default:
			_, ok := got.B[n]
			_, wok := want.B[n]
			if !bytes.Equal(got.B[n], want.B[n]) || f.Kind == KMsg && ok != wok {
				return fmt.Sprintf("field %d (%s): encoded %s (present %v), want %s (present %v)", n, f.Kind, shortHex(got.B[n]), ok, shortHex(want.B[n]), wok)
			}
		}
	}
	return ""
}

// Verify checks the bytes and the accessors of a message against its model.
func (w *World) Verify(sl *Slot) string {
	if sl.model == nil {
		return ""
	}
	b := sl.m.Encode()
	if len(b) > w.max {
		return ""
	}
	if d := compareBytes(sl.s, b, sl.model); d != "" {
		return d
	}
	if d := Check(sl.m, sl.s, sl.model, len(b)); d != "" {
		return "accessors: " + d
	}
	fresh := sl.s.New()
	Limit(len(b))
	if err := fresh.Decode(append([]byte(nil), b...)); err != nil {
		return fmt.Sprintf("its own bytes do not decode: %v", err)
	}
	if d := Check(fresh, sl.s, sl.model, len(b)); d != "" {
		return "after decoding its bytes: " + d
	}
	return ""
}

// GenSlots picks the messages of a run so that nested messages have sources.
func GenSlots(r *Rng, sc *Script, max int) {
	n := len(sc.Schemas)
	sc.Slots = append(sc.Slots, 0)
	for i := 1; i < n && i < max; i++ {
		sc.Slots = append(sc.Slots, i)
	}
	for len(sc.Slots) < 2 || len(sc.Slots) < max && r.P(1, 2) {
		sc.Slots = append(sc.Slots, r.N(n))
	}
}

// Gen is the context for drawing steps.
type Gen struct {
	r       *Rng
	sc      *Script
	schemas []*Schema
}

func newGen(r *Rng, sc *Script) *Gen {
	return &Gen{r, sc, Resolve(sc.Schemas)}
}

func (g *Gen) schemaOf(n int) *Schema { return g.schemas[g.sc.Slots[n%len(g.sc.Slots)]] }

// fieldOf picks a field satisfying ok, else any.
func (g *Gen) fieldOf(n int, ok func(*Field) bool) int {
	s := g.schemaOf(n)
	if len(s.Fields) == 0 {
		return 0
	}
	k := g.r.N(len(s.Fields))
	for i := range s.Fields {
		if j := (k + i) % len(s.Fields); ok(s.Fields[j]) {
			return j
		}
	}
	return k
}

func blobField(f *Field) bool { return f.Kind == KString || f.Kind == KBytes }

// step draws one machine step. Weights select among the operations.
func (g *Gen) step(w *weights) Step {
	r := g.r
	p := Step{N: r.N(len(g.sc.Slots))}
	switch r.Pick(w.set, w.nest, w.self, w.rmw, w.reset, w.dec, w.ckpt, w.restore, w.crash, w.ship, w.fill, w.get, w.dig, w.rewrite) {
	case 0:
		p.Op = "set"
		p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Kind.Scalar() || blobField(f) })
		p.V = r.Scalar()
		p.L = r.Len(w.maxLen)
	case 1:
		p.Op = "nest"
		p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Sub != nil })
		if p.V = r.U64(); r.P(1, 4) {
			p.K = 1
		}
		s := g.schemaOf(p.N)
		if len(s.Fields) > 0 {
			sub := s.Fields[p.F].Sub
			k := r.N(len(g.sc.Slots))
			for i := range g.sc.Slots {
				j := (k + i) % len(g.sc.Slots)
				if j != p.N && g.schemaOf(j) == sub {
					p.N2 = j
					break
				}
			}
		}
	case 2:
		p.Op = "self"
		p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Kind.Wire() == WBytes || r.P(1, 6) })
		p.F2 = g.fieldOf(p.N, func(f *Field) bool { return f.Kind.Wire() == WBytes || r.P(1, 6) })
		if r.P(1, 4) {
			p.F2 = p.F
		}
		p.K, p.L, p.V = r.N(6), r.N(300), r.U64()>>uint(r.N(64))
	case 3:
		p.Op = "rmw"
		p.F = g.fieldOf(p.N, func(f *Field) bool { return f.Kind == KMsg })
		p.V = r.U64()
	case 4:
		p.Op = "reset"
		p.K, p.L, p.V = r.N(5), r.N(400), r.U64()
		if r.P(1, 30) {
			p.L = r.In(65000, 200000)
		}
	case 5:
		p.Op = "dec"
		o := GenOpt(r)
		o.Mismatch = r.P(1, 5)
		if o.Big > w.maxLen {
			o.Big = w.maxLen
		}
		p.B = Frame(r, g.schemaOf(p.N), o)
		p.K, p.V = r.N(4), r.U64()
		if r.P(w.fault, 100) {
			for n := r.In(1, 2); n > 0; n-- {
				p.Faults = append(p.Faults, GenFault(r, g.schemaOf(p.N), ApplyAll(p.B, p.Faults), nil))
			}
		} else if w.vast && r.P(1, 2) {
			p.Faults = append(p.Faults, Vast(r, g.schemaOf(p.N), p.B))
		}
	case 6:
		p.Op = "ckpt"
	case 7:
		p.Op = "restore"
		p.K = r.N(4) + 8*r.N(2)
		p.V = r.U64()
		if r.P(w.fault, 100) {
			p.Faults = []Fault{rawTear(r)}
		}
	case 8:
		p.Op = "crash"
	case 9:
		p.Op = "ship"
		p.N2 = r.N(len(g.sc.Slots))
		k := p.N2
		for i := range g.sc.Slots {
			j := (k + i) % len(g.sc.Slots)
			if j != p.N && g.schemaOf(j) == g.schemaOf(p.N) {
				p.N2 = j
				break
			}
		}
		p.K, p.V = r.N(4)+8*r.N(2), r.U64()
	case 10:
		p.Op = "fill"
		p.F = g.fieldOf(p.N, blobField)
		p.L = r.In(65520, 65545)
		p.V = r.U64()
	case 11:
		p.Op = "get"
		p.F = r.N(64)
		s := g.schemaOf(p.N)
		if len(s.Fields) > 0 {
			p.F %= len(s.Fields)
		}
	case 12:
		p.Op = "dig"
	case 13:
		p.Op = "rewrite"
		p.V = r.U64()
	}
	return p
}

func rawTear(r *Rng) Fault {
	at := r.N(300)
	switch r.N(3) {
	case 0:
		return Fault{K: "truncate", A: at, N: 1 << 20}
	case 1:
		return Fault{K: "torn-sector", A: at, N: 64, D: make([]byte, r.N(64))}
	default:
		return Fault{K: "byte", A: at, N: 1, D: []byte{byte(r.U64())}}
	}
}

type weights struct {
	set, nest, self, rmw, reset, dec, ckpt, restore, crash, ship, fill, get, dig, rewrite int
	maxLen                                                                                int
	vast                                                                                  bool
	fault                                                                                 int // percent of decodes that are damaged
}

// vary switches groups of operations off at random (swarm testing).
func (w weights) vary(r *Rng) *weights {
	for _, p := range []*int{&w.nest, &w.self, &w.rmw, &w.reset, &w.dec, &w.ckpt, &w.restore, &w.crash, &w.ship, &w.fill, &w.rewrite} {
		switch r.N(5) {
		case 0:
			*p = 0
		case 1:
			*p *= 4
		}
	}
	return &w
}
