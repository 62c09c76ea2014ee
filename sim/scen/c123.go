package scen

import (
	"bytes"

	. "verifsim/core"
)

// c01-c03: receivers reuse their message structs and buffers for what a channel
// or a disk delivers.
func init() {
	Scenarios["C01"] = &Scenario{
		Rule: "one script per seed: 1-8 frames written by a reference encoder, 1-4 storage/transport faults each, delivered to receivers that reuse structs and dirty buffers; everything readable is read twice, with different bytes behind the frame. Non-trivial: a fault fired; distinct by hash of (fault kinds, decode outcome) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas", Stub: "sender (reference encoder), channel, disk",
		Gen: genDamage(func(r *Rng) int { return r.In(1, 4) }, 100),
		Run: func(sc *Script, st *Stats) *Violation { return runReceive(sc, st, true, false) },
	}
	Scenarios["C02"] = &Scenario{
		Rule: "one script per seed: frames torn or malformed at any position (or intact, or cut at a field boundary), top level and nested; an independent parser says accept or reject and, for what is accepted, which fields remain. Non-trivial: a fault fired; distinct by hash of (fault kinds, parser verdict, decode outcome) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas", Stub: "sender (reference encoder), channel, disk",
		Gen: genDamage(func(r *Rng) int { return r.Pick(1, 5, 2) }, 100),
		Run: func(sc *Script, st *Stats) *Violation { return runReceive(sc, st, false, true) },
	}
	Scenarios["C03"] = &Scenario{
		Rule: "one script per seed: several senders emit messages as fragments (runs of whole fields); the channel reorders, duplicates, drops and interleaves fragments and fields; each receiver decodes what it has so far after every delivery and must read what the reference decoder reads. Non-trivial: a channel fault fired; distinct by hash of (channel faults, frame shape) sequence",
		Real: "runtime (instrumented), generated golden types, code the generator under test wrote for drawn schemas", Stub: "sender (reference encoder), channel",
		Gen: genChannel,
		Run: runChannel,
	}
}

func genDamage(faults func(*Rng) int, pct int) func(r *Rng, sc *Script) {
	return func(r *Rng, sc *Script) {
		sc.Schemas = GenSchemas(r)
		GenSlots(r, sc, 4)
		g := newGen(r, sc)
		sc.MapSeed = r.U64()
		other := []byte(nil)
		vast := r.P(1, 600)
		for n := r.In(1, 8); n > 0; n-- {
			p := Step{Op: "dec", N: r.N(len(sc.Slots)), K: r.N(4), V: r.U64()}
			o := GenOpt(r)
			o.Mismatch = r.P(1, 4)
			if o.Big < 10000 && r.P(1, 2) {
				o.Big = 100
			}
			s := g.schemaOf(p.N)
			p.B = Frame(r, s, o)
			cur := p.B
			if r.P(pct, 100) {
				for k := faults(r); k > 0; k-- {
					f := GenFault(r, s, cur, other)
					p.Faults = append(p.Faults, f)
					cur = f.Apply(cur)
				}
			}
			if vast && r.P(1, 2) {
				p.Faults = append(p.Faults, Vast(r, s, cur))
				if r.P(1, 2) {
					p.Faults = p.Faults[len(p.Faults)-1:]
				}
			}
			other = p.B
			sc.Steps = append(sc.Steps, p)
			if r.P(1, 8) {
				sc.Steps = append(sc.Steps, Step{Op: "reset", N: p.N, K: r.N(5), L: r.N(100), V: r.U64()})
			}
		}
	}
}

// runReceive delivers frames. With poison, what is read must not depend on the
// bytes around the frame; with oracle, the reference reader decides.
func runReceive(sc *Script, st *Stats, poison, oracle bool) *Violation {
	return solo(sc, st, func() *Violation {
		w := NewWorld(sc, st)
		for i := range sc.Steps {
			p := &sc.Steps[i]
			if v := guard(i, func() *Violation { return w.receive(i, p, st, poison, oracle) }); v != nil {
				return v
			}
		}
		return nil
	})
}

func (w *World) receive(i int, p *Step, st *Stats, poison, oracle bool) *Violation {
	sl := w.slot(p.N)
	st.Count("op:" + p.Op)
	st.NoteS(p.Op)
	_, class, msg := w.Do(p)
	if p.Op != "dec" {
		return nil
	}
	if class != "" && (oracle || class == "hang") {
		return violation(class, i, "%s", msg)
	}
	b := ApplyAll(p.B, p.Faults)
	got := sl.m.Encode()
	if !bytes.Equal(got, b) {
		return violation("mismatch", i, "decode changed the bytes from %s to %s", shortHex(b), shortHex(got))
	}
	if oracle {
		if sl.model != nil {
			if d := Check(sl.m, sl.s, sl.model, len(b)); d != "" {
				return violation("mismatch", i, "after %s: %s", faultNames(p.Faults), d)
			}
		}
		return nil
	}
	if !poison {
		return nil
	}
	// Decode again with other bytes around the frame: what is read must not
	// depend on them. (The reused struct only has to get through it.)
	var h [3]uint64
	var errs [3]bool
	for k := range h {
		buf := Pattern(len(b)+96, p.V+uint64(k)*977)
		if k == 1 {
			// Valid-looking small lengths and tags instead of noise.
			for x := range buf {
				buf[x] = byte(x % 3)
			}
		}
		copy(buf[32:], b)
		m := sl.s.New()
		if k == 2 {
			m = sl.m
		}
		Limit(len(b))
		err := m.Decode(buf[32 : 32+len(b)])
		errs[k] = err != nil
		if err == nil {
			d, trouble := Digest(m, sl.s, len(b))
			if trouble != "" {
				return violation("hang", i, "after %s: %s", faultNames(p.Faults), trouble)
			}
			h[k] = d
		}
	}
	if errs[0] != errs[1] {
		return violation("over-read", i, "after %s: whether decoding fails depends on bytes outside the message", faultNames(p.Faults))
	}
	if h[0] != h[1] {
		return violation("over-read", i, "after %s: values read depend on bytes outside the message", faultNames(p.Faults))
	}
	if !errs[0] {
		st.Count("probe:damaged-but-decodable")
	}
	return nil
}

func faultNames(fs []Fault) string {
	s := ""
	for _, f := range fs {
		if s != "" {
			s += "+"
		}
		s += f.K
	}
	if s == "" {
		return "no fault"
	}
	return s
}

// genChannel: Steps "frag" carry the bytes of a fragment to receiver N; K=1
// starts a new message there.
func genChannel(r *Rng, sc *Script) {
	sc.Schemas = GenSchemas(r)
	GenSlots(r, sc, 4)
	g := newGen(r, sc)
	sc.MapSeed = r.U64()
	type pkt struct {
		at int
		s  Step
	}
	var q []pkt
	now := 0
	perm, dup, drop := r.N(3), r.N(30), r.N(15)
	vast := r.P(1, 600)
	for n := r.In(1, 6); n > 0; n-- {
		dst := r.N(len(sc.Slots))
		o := GenOpt(r)
		b := Frame(r, g.schemaOf(dst), o)
		fs, st := Parse(b)
		if st != OK {
			panic("reference encoder wrote a malformed frame")
		}
		// Fragments are runs of whole fields.
		for i := 0; i < len(fs); {
			j := i + r.In(1, len(fs)-i)
			if perm == 0 {
				j = len(fs)
			}
			now += 2
			s := Step{Op: "frag", N: dst, B: b[fs[i].Start:fs[j-1].End], K: b2(i == 0 && r.P(1, 2)), V: r.U64()}
			i = j
			at := now
			if perm > 0 && r.P(perm, 4) {
				at += r.N(20)
				s.Faults = append(s.Faults, Fault{K: "delay"})
			}
			if r.P(drop, 100) {
				s.Faults = append(s.Faults, Fault{K: "drop"})
			}
			q = append(q, pkt{at, s})
			if r.P(dup, 100) {
				d := s
				d.K = 0
				d.Faults = append([]Fault(nil), Fault{K: "duplicate"})
				q = append(q, pkt{at + r.N(15), d})
			}
		}
		if vast && len(fs) > 0 {
			k := len(q) - 1 - r.N(min(3, len(q)))
			q[k].s.Faults = append(q[k].s.Faults, Vast(r, g.schemaOf(q[k].s.N), q[k].s.B))
			vast = r.P(1, 4)
		}
		if len(fs) == 0 {
			q = append(q, pkt{now, Step{Op: "frag", N: dst, K: 1, V: r.U64()}})
		}
	}
	// Deliver in order of arrival.
	for i := 1; i < len(q); i++ {
		for j := i; j > 0 && q[j].at < q[j-1].at; j-- {
			q[j], q[j-1] = q[j-1], q[j]
		}
	}
	for _, p := range q {
		if r.P(1, 6) {
			// Fields of the fragment overtake each other.
			if fs, st := Parse(p.s.B); st == OK && len(fs) > 1 {
				var b []byte
				for i := len(fs) - 1; i > 0; i-- {
					j := r.N(i + 1)
					fs[i], fs[j] = fs[j], fs[i]
				}
				for _, f := range fs {
					b = append(b, p.s.B[f.Start:f.End]...)
				}
				p.s.B = b
				p.s.Faults = append(p.s.Faults, Fault{K: "reorder-fields"})
			}
		}
		sc.Steps = append(sc.Steps, p.s)
	}
}

func b2(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runChannel(sc *Script, st *Stats) *Violation {
	return solo(sc, st, func() *Violation {
		w := NewWorld(sc, st)
		have := make([][]byte, len(w.slots))
		for i := range sc.Steps {
			p := &sc.Steps[i]
			if p.Op != "frag" {
				continue
			}
			st.Count("op:frag")
			dropped := false
			b, lim := p.B, maxMsg
			for _, f := range p.Faults {
				st.Fault(f.K)
				if f.Z > 0 {
					b, lim = f.Apply(b), 160<<20
				}
				dropped = dropped || f.K == "drop"
			}
			n := p.N % len(w.slots)
			if p.K&1 == 1 {
				have[n] = nil
			}
			if len(have[n]) > 1<<24 {
				lim = 160 << 20
			}
			if dropped || len(have[n])+len(b) > lim {
				continue
			}
			if len(have[n]) > 0 {
				st.Count("probe:concatenated")
			}
			have[n] = append(have[n][:len(have[n]):len(have[n])], b...)
			st.Note(uint64(n), uint64(len(have[n])))
			v := guard(i, func() *Violation {
				_, class, msg := w.Do(&Step{Op: "dec", N: n, B: have[n], K: int(p.V % 4), V: p.V})
				if class != "" {
					return violation(class, i, "%s", msg)
				}
				sl := w.slot(n)
				if sl.model == nil {
					return nil
				}
				if d := Check(sl.m, sl.s, sl.model, len(have[n])); d != "" {
					return violation("mismatch", i, "receiver %d: %s", n, d)
				}
				return nil
			})
			if v != nil {
				return v
			}
		}
		return nil
	})
}
