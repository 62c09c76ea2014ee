package core

import "bytes"

// GenSchemas draws the message types of a run: registered ones (generated
// code) and ad-hoc ones. Every schema a field refers to is in the list.
func GenSchemas(r *Rng, prefixes ...string) []*Schema {
	var out []*Schema
	pick := func() *Schema {
		if len(drawn) > 0 && (len(shipped) == 0 || r.P(1, 2)) {
			return Named(drawn[r.N(len(drawn))])
		}
		return Named(shipped[r.N(len(shipped))])
	}
	if len(namedOrder) > 0 && (!haveDyn || r.P(1, 2)) {
		// A registered type and everything it refers to.
		var add func(s *Schema)
		add = func(s *Schema) {
			for _, o := range out {
				if o.Name == s.Name {
					return
				}
			}
			out = append(out, &Schema{Name: s.Name})
			for _, f := range s.Fields {
				if f.Sub != nil {
					add(f.Sub)
				}
			}
		}
		add(pick())
		if r.P(1, 3) {
			add(pick())
		}
	}
	if haveDyn && (len(out) == 0 || r.P(1, 3)) {
		n := r.In(1, 3)
		base := len(out)
		for i := 0; i < n; i++ {
			out = append(out, genSchema(r, base, n))
		}
	}
	return out
}

func genSchema(r *Rng, base, n int) *Schema {
	s := &Schema{}
	nf := r.In(1, 10)
	max := 0
	switch r.N(5) {
	case 0, 1:
		max = nf + 1
	case 2:
		max = 20 + nf
	case 3:
		max = 200
	default:
		max = 3000
		if r.P(1, 20) {
			max = 70000
			if r.P(1, 30) {
				max = 1 << 18
			}
		}
	}
	used := map[int]bool{}
	for len(s.Fields) < nf {
		num := r.In(1, max)
		if r.P(1, 4) {
			num = []int{1, 15, 16, 17, 127, 128, 2047, 2048, 16383, 16384, 65535, 65536, 1<<18 - 1, 1 << 18}[r.N(14)]
			if num > max {
				continue
			}
		}
		if used[num] {
			continue
		}
		used[num] = true
		f := &Field{Num: num, Kind: Kind(r.N(int(KEnum) + 1))}
		switch r.N(10) {
		case 0, 1:
			f.Kind = KString
		case 2, 3:
			f.Kind = KBytes
		case 4:
			f.Kind = KMsg
			f.SubI = base + r.N(n) + 1
		case 5, 6:
			f.Kind = KRepMsg
			f.SubI = base + r.N(n) + 1
		case 7:
			if r.P(1, 3) {
				f.Kind = KRep
			}
		}
		s.Fields = append(s.Fields, f)
	}
	return s
}

// FrameOpt steers the reference encoder.
type FrameOpt struct {
	Shuffle  bool // fields in any order
	Dups     bool // singular fields several times
	Unknown  bool // fields no version of the schema has
	Overlong bool // varints with superfluous bytes
	Mismatch bool // known fields with another wire type
	Big      int  // budget for long payloads
	Depth    int
	Flood    int // this many tiny fields more
}

// GenOpt draws options.
func GenOpt(r *Rng) FrameOpt {
	o := FrameOpt{Shuffle: r.P(1, 2), Dups: r.P(1, 3), Unknown: r.P(1, 3), Overlong: r.P(1, 4), Depth: r.N(4), Big: 3000}
	if r.P(1, 20) {
		o.Big = r.In(60000, 70000)
	}
	if r.P(1, 50) {
		o.Flood = r.In(100, 600)
		if r.P(1, 3) {
			o.Flood = r.In(600, 3000)
			if r.P(1, 10) {
				o.Flood = r.In(3000, 80000)
			}
		}
	}
	if r.P(1, 500) {
		// Lengths of four bytes.
		o.Big = 1<<21 + r.In(0, 20000)
	}
	return o
}

// Frame draws a message and encodes it.
func Frame(r *Rng, s *Schema, o FrameOpt) []byte {
	big := o.Big
	b := frame(r, s, &o, o.Depth, &big)
	if o.Flood > 0 {
		b = flood(r, s, b, o.Flood)
	}
	if o.Big > 60000 && r.P(1, 3) || o.Big >= 2000 && r.P(1, 80) {
		b = space(r, s, b)
	}
	return b
}

// space puts a field no schema has between two places of a message (the begin or
// the end of a field or value, the end of the message) so that they are about a
// power of two apart.
func space(r *Rng, s *Schema, b []byte) []byte {
	fs, st := Parse(b)
	if st != OK || len(fs) == 0 {
		return b
	}
	f := fs[r.N(len(fs))]
	from, to, at := []int{f.Start, f.Val, f.Pay, f.End}[r.N(4)], len(b), f.End
	if r.P(1, 3) {
		if g := fs[r.N(len(fs))]; g.Start >= f.End {
			to, at = []int{g.Start, g.Val, g.Pay, g.End}[r.N(4)], g.Start
		}
	} else if r.P(1, 2) {
		from, to, at = 0, from, f.Start
	}
	want := 1<<[]uint{16, 16, 16, 16, 17, 15, 14, 8}[r.N(8)] + r.In(-12, 12)
	tag := PutTag(nil, s.Max+r.In(1, 5), WBytes)
	pad := want - (to - from)
	n := pad - len(tag) - VarintLen(uint64(max(pad, 1)))
	if n < 1 {
		return b
	}
	out := append([]byte(nil), b[:at]...)
	out = append(out, tag...)
	out = PutVarint(out, uint64(n), VarintLen(uint64(pad)))
	out = append(out, Pattern(n, r.U64())...)
	return append(out, b[at:]...)
}

// flood puts runs of tiny fields, which may or may not be known, between the
// fields of a message.
func flood(r *Rng, s *Schema, b []byte, n int) []byte {
	fs, st := Parse(b)
	if st != OK {
		return b
	}
	for _, f := range s.Fields {
		if f.Sub != nil {
			n = min(n, 100+20e6/(f.Sub.Max+1))
		}
	}
	num, wt := s.Max+r.In(1, 5), []int{WVarint, W64, WBytes, W32}[r.N(4)]
	if len(s.Fields) > 0 && r.P(1, 2) {
		f := s.Fields[r.N(len(s.Fields))]
		for _, g := range s.Fields {
			if g.Kind == KRepMsg && r.P(1, 2) {
				f = g
			}
		}
		num, wt = f.Num, f.Kind.Wire()
		if f.Kind == KRep {
			wt = WVarint
		}
	}
	run := func(out []byte, n int) []byte {
		for ; n > 0; n-- {
			out = PutTag(out, num, wt)
			switch wt {
			case WVarint:
				out = PutVarint(out, uint64(r.N(3)), 1)
			case WBytes:
				out = append(out, 0)
			default:
				out = PutNum(out, wt, r.Scalar(), 1)
			}
		}
		return out
	}
	at := r.N(len(fs) + 1)
	var out []byte
	for i, f := range fs {
		if i == at {
			out = run(out, n)
			at = -1
		}
		out = append(out, b[f.Start:f.End]...)
	}
	if at >= 0 {
		out = run(out, n)
	}
	return out
}

// Rearrange returns a different message of the same length that starts like b:
// fields change places and values. It returns nil if there is none.
func Rearrange(r *Rng, b []byte) []byte {
	fs, st := Parse(b)
	if st != OK || len(fs) == 0 {
		return nil
	}
	keep := r.N(len(fs))
	if r.P(1, 3) {
		keep = r.N(min(2, len(fs)))
	}
	out := append([]byte(nil), b[:fs[keep].Start]...)
	rest := append([]Raw(nil), fs[keep:]...)
	if !r.P(1, 4) {
		for i := len(rest) - 1; i > 0; i-- {
			j := r.N(i + 1)
			rest[i], rest[j] = rest[j], rest[i]
		}
	}
	some := r.N(3)
	for i := range rest {
		f := rest[i]
		at := len(out)
		out = append(out, b[f.Start:f.End]...)
		c := out[at:]
		if r.N(4) >= some {
			continue
		}
		pay := c[f.Pay-f.Start:]
		switch f.WT {
		case WVarint:
			pay[0] ^= 1 << uint(r.N(7))
		case WBytes:
			// Another number, the payload may be a nested message.
			o := fs[r.N(len(fs))]
			if o.WT == WBytes && o.Val-o.Start == f.Val-f.Start {
				copy(c, b[o.Start:o.Val])
			} else if in := Rearrange(r, pay); in != nil {
				copy(pay, in)
			}
		default:
			pay[r.N(len(pay))] ^= byte(r.U64())
		}
	}
	return out
}

func (o *FrameOpt) min(r *Rng) int {
	if o.Overlong && r.P(1, 4) {
		return r.In(2, 10)
	}
	return 1
}

func (o *FrameOpt) tagmin(r *Rng) int {
	if o.Overlong && r.P(1, 6) {
		return r.In(2, 6)
	}
	return 1
}

func (o *FrameOpt) tag(r *Rng, b []byte, num, wt int) []byte {
	return PutVarint(b, uint64(num)<<3|uint64(wt), o.tagmin(r))
}

func (o *FrameOpt) lenp(r *Rng, b, p []byte) []byte {
	b = PutVarint(b, uint64(len(p)), o.min(r))
	return append(b, p...)
}

// payload draws a byte string within the budget.
func payload(r *Rng, big *int) []byte {
	n := r.Len(*big)
	if *big > 50000 && r.P(1, 2) {
		n = r.In(*big-6000, *big)
	}
	*big -= n
	if *big < 0 {
		*big = 0
	}
	return Pattern(n, r.U64())
}

func frame(r *Rng, s *Schema, o *FrameOpt, depth int, big *int) []byte {
	var parts [][]byte
	one := func(f *Field) []byte {
		var b []byte
		wt := f.Kind.Wire()
		if o.Mismatch && r.P(1, 8) {
			wt = []int{WVarint, W64, WBytes, W32}[r.N(4)]
			if wt != f.Kind.Wire() {
				return o.any(r, b, f.Num, wt, big)
			}
		}
		b = o.tag(r, b, f.Num, wt)
		switch {
		case f.Kind.Scalar():
			min := 1
			if wt == WVarint {
				min = o.min(r)
			}
			v := WireVal(f.Kind, Canon(f.Kind, r.Scalar()))
			if wt == WVarint && f.Kind != KSint32 && r.P(1, 8) {
				v = r.Scalar() // a sender with a wider type
			}
			b = PutNum(b, wt, v, min)
		case f.Kind == KMsg || f.Kind == KRepMsg:
			var sub []byte
			if depth > 0 {
				sub = frame(r, f.Sub, o, depth-1, big)
			}
			b = o.lenp(r, b, sub)
		default:
			p := payload(r, big)
			if f.Kind == KString {
				Stringy(p, uint64(len(b)))
			}
			b = o.lenp(r, b, p)
		}
		return b
	}
	dens := r.In(1, 4)
	for _, f := range s.Fields {
		if !r.P(dens, 4) {
			continue
		}
		n := 1
		if f.Kind == KRepMsg {
			n = r.N(5)
			if r.P(1, 20) {
				n = r.In(5, 30)
			}
		} else if f.Kind == KRep {
			n = r.N(3)
			for i := 0; i < n; i++ {
				parts = append(parts, o.any(r, nil, f.Num, []int{WVarint, W64, WBytes, W32}[r.N(4)], big))
			}
			continue
		} else if o.Dups && r.P(1, 3) {
			n = r.In(2, 3)
		}
		for i := 0; i < n; i++ {
			parts = append(parts, one(f))
		}
	}
	if o.Unknown {
		for n := r.N(4); n > 0; n-- {
			var num int
			k := r.N(4)
			if len(s.Fields) == 0 {
				k = 1
			}
			switch k {
			case 0:
				num = r.In(1, s.Max+1)
			case 1:
				num = s.Max + r.In(1, 40)
			case 2:
				// One that a careless conversion takes for a known one.
				num = (s.Fields[r.N(len(s.Fields))].Num + r.In(1, 2)<<uint(r.In(4, 28))) & (1<<29 - 1)
				if num == 0 {
					continue
				}
			default:
				num = r.In(1, 1<<29-1)
			}
			if s.byNum[num] != nil {
				continue
			}
			wt := []int{WVarint, W64, WBytes, W32}[r.N(4)]
			rep := 1
			if r.P(1, 3) {
				rep = r.In(2, 4)
			}
			for ; rep > 0; rep-- {
				parts = append(parts, o.any(r, nil, num, wt, big))
			}
		}
	}
	if o.Shuffle {
		for i := len(parts) - 1; i > 0; i-- {
			j := r.N(i + 1)
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	return bytes.Join(parts, nil)
}

// any encodes a field of the wire type with any content.
func (o *FrameOpt) any(r *Rng, b []byte, num, wt int, big *int) []byte {
	b = o.tag(r, b, num, wt)
	switch wt {
	case WBytes:
		b = o.lenp(r, b, payload(r, big))
	case WVarint:
		b = PutVarint(b, r.Scalar(), o.min(r))
	default:
		b = PutNum(b, wt, r.Scalar(), 1)
	}
	return b
}
