package core

import (
	"bytes"
	"strings"
)

// Fault is one thing that happened to a frame on its way, always expressible as
// replacing N bytes at A by D and Z bytes of filler.
type Fault struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	N int    `json:"rm,omitempty"`
	D []byte `json:"d,omitempty"`
	Z int    `json:"z,omitempty"`
}

// Apply returns a new slice.
func (f Fault) Apply(b []byte) []byte {
	a, n := f.A, f.N
	if a > len(b) {
		a = len(b)
	}
	if n > len(b)-a {
		n = len(b) - a
	}
	out := make([]byte, 0, len(b)-n+len(f.D)+f.Z)
	out = append(out, b[:a]...)
	out = append(out, f.D...)
	if f.Z > 0 {
		k := len(out)
		out = out[:k+f.Z]
		for i := range out[k:] {
			out[k+i] = byte(i>>9 ^ i)
		}
	}
	return append(out, b[a+n:]...)
}

// Vast puts a field of more than 2^24 bytes between two fields of b, one the
// receiver knows or one that it doesn't.
func Vast(r *Rng, s *Schema, b []byte) Fault {
	at := 0
	if fs, _ := Parse(b); len(fs) > 0 {
		if f := fs[r.N(len(fs))]; r.P(2, 3) {
			at = f.Start
		} else {
			at = f.End
		}
	}
	num := uint64(s.Max + 1 + r.N(3))
	if r.P(1, 2) {
		for _, f := range s.Fields {
			if f.Kind == KString || f.Kind == KBytes {
				num = uint64(f.Num)
				break
			}
		}
	}
	z := 1<<24 + r.N(300) - 200
	if r.P(1, 4) {
		z += r.N(1 << 24)
	}
	if r.P(1, 16) {
		z = 1<<26 + r.N(300) - 200 // a limit that others have
	}
	d := PutVarint(nil, num<<3|WBytes, 1)
	return Fault{K: "vast-field", A: at, D: PutVarint(d, uint64(z), 1), Z: z}
}

// ApplyAll applies the faults in order.
func ApplyAll(b []byte, fs []Fault) []byte {
	b = append([]byte(nil), b...)
	for _, f := range fs {
		b = f.Apply(b)
	}
	return b
}

// badVarint returns a varint that no decoder accepts.
func badVarint(r *Rng) []byte {
	b := bytes.Repeat([]byte{0x80 | byte(r.N(128))}, r.In(10, 12))
	return append(b, byte(r.N(128)))
}

// hugeLens are length prefixes that break careless arithmetic.
func hugeLen(r *Rng, have int) []byte {
	var v uint64
	switch r.N(9) {
	case 0:
		v = uint64(have) + 1
	case 1:
		v = uint64(have) + uint64(r.In(1, 200))
	case 2:
		v = 1<<31 - uint64(r.N(3))
	case 3:
		v = 1<<32 - uint64(r.N(3))
	case 4:
		v = 1<<63 - uint64(r.N(3))
	case 5:
		v = 1 << 63
	case 6:
		v = -uint64(r.In(1, 40)) // wraps to a small step back
	case 7:
		v = -uint64(r.In(1, 1+have))
	default:
		v = r.U64() | 1<<40
	}
	return PutVarint(nil, v, 1)
}

// Storage and transport damage that knows nothing of the format.
func rawFault(r *Rng, b []byte, other []byte) Fault {
	n := len(b)
	at := r.N(n + 1)
	switch r.N(12) {
	case 0, 1:
		return Fault{K: "truncate", A: at, N: n - at}
	case 2:
		// The tail of a sector never reached the disk.
		sec := []int{16, 64, 512, 4096}[r.N(4)]
		end := (at/sec + 1) * sec
		if end > n {
			end = n
		}
		d := make([]byte, end-at)
		switch r.N(3) {
		case 1:
			for i := range d {
				d[i] = 0xff
			}
		case 2:
			copy(d, Pattern(len(d), r.U64()))
			if at < len(other) {
				copy(d, other[at:])
			}
		}
		return Fault{K: "torn-sector", A: at, N: end - at, D: d}
	case 3, 4, 5:
		if n == 0 {
			break
		}
		at = r.N(n)
		return Fault{K: "bit-flip", A: at, N: 1, D: []byte{b[at] ^ 1<<uint(r.N(8))}}
	case 6:
		if n == 0 {
			break
		}
		at = r.N(n)
		return Fault{K: "byte", A: at, N: 1, D: []byte{[]byte{0, 0x7f, 0x80, 0xff, 1, byte(r.U64())}[r.N(6)]}}
	case 7:
		return Fault{K: "lost-block", A: at, N: r.In(1, 1+n/2)}
	case 8:
		m := r.N(n - at + 1)
		return Fault{K: "dup-block", A: at, D: append([]byte(nil), b[at:at+m]...)}
	case 9:
		j := 0
		if len(other) > 0 {
			j = r.N(len(other))
		}
		return Fault{K: "splice", A: at, N: n - at, D: append([]byte(nil), other[j:]...)}
	case 10:
		return Fault{K: "insert", A: at, D: r.Bytes(r.In(1, 12))}
	case 11:
		if r.P(1, 3) {
			return Fault{K: "garbage", N: n, D: r.Bytes(r.N(40))}
		}
		return Fault{K: "trailing", A: n, D: r.Bytes(r.In(1, 6))}
	}
	return Fault{K: "insert", A: at, D: r.Bytes(r.In(1, 12))}
}

// wireFault damages a field in a way only a look at the format finds.
func wireFault(r *Rng, b []byte) (Fault, bool) {
	fs, _ := Parse(b)
	if len(fs) == 0 {
		return Fault{}, false
	}
	f := fs[r.N(len(fs))]
	cut := func(k string, a, n int, d []byte) (Fault, bool) { return Fault{K: k, A: a, N: n, D: d}, true }
	switch r.N(10) {
	case 0:
		return cut("cut-in-field", r.In(f.Start+1, f.End-1+b2i(f.End-f.Start == 1)), len(b), nil)
	case 1:
		return cut("cut-at-boundary", f.End, len(b), nil)
	case 2:
		wt := r.N(8)
		return cut("wire-type", f.Start, f.Val-f.Start, PutVarint(nil, f.Num<<3|uint64(wt), 1))
	case 3:
		if f.WT != WBytes {
			break
		}
		return cut("length", f.Val, f.Pay-f.Val, hugeLen(r, len(b)-f.Pay))
	case 4:
		if f.WT != WBytes {
			break
		}
		return cut("length", f.Val, f.Pay-f.Val, PutVarint(nil, uint64(r.N(f.End-f.Pay+3)), 1))
	case 5:
		switch f.WT {
		case WVarint, WBytes:
			return cut("long-varint", f.Val, f.Pay-f.Val+b2i(f.WT == WVarint)*(f.End-f.Val), badVarint(r))
		}
		return cut("long-tag", f.Start, f.Val-f.Start, badVarint(r))
	case 6:
		return cut("long-tag", f.Start, f.Val-f.Start, badVarint(r))
	case 7:
		return cut("field-zero", f.Start, f.Val-f.Start, []byte{byte(r.N(8))})
	case 8:
		num := []uint64{1<<29 - 1, 1 << 29, 1 << 32, 1 << 60, 1<<61 - 1, 1<<31 - 1, 1 << 31, 65536}[r.N(8)]
		return cut("field-number", f.Start, f.Val-f.Start, PutVarint(nil, num<<3|uint64(f.WT), 1))
	case 9:
		at := []int{f.Start, f.End}[r.N(2)]
		return cut("zero-fill", at, 0, make([]byte, r.In(1, 16)))
	}
	return Fault{}, false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// GenFault draws damage to b, which holds a message of schema s. Some of it is
// put inside a nested message whose enclosing lengths are made to fit.
func GenFault(r *Rng, s *Schema, b, other []byte) Fault {
	if r.P(1, 4) {
		if f, ok := nestedFault(r, s, b, other, 3); ok {
			return f
		}
	}
	if r.P(1, 2) {
		if f, ok := wireFault(r, b); ok {
			return f
		}
	}
	return rawFault(r, b, other)
}

func nestedFault(r *Rng, s *Schema, b, other []byte, depth int) (Fault, bool) {
	fs, _ := Parse(b)
	var c []Raw
	for _, f := range fs {
		if f.WT == WBytes && f.Num <= uint64(s.Max) {
			if g := s.byNum[int(f.Num)]; g != nil && g.Sub != nil {
				c = append(c, f)
			}
		}
	}
	if len(c) == 0 {
		return Fault{}, false
	}
	f := c[r.N(len(c))]
	g := s.byNum[int(f.Num)]
	sub := b[f.Pay:f.End]
	var in Fault
	ok := false
	if depth > 0 && r.P(1, 3) {
		in, ok = nestedFault(r, g.Sub, sub, other, depth-1)
	}
	if !ok && r.P(2, 3) {
		in, ok = wireFault(r, sub)
	}
	if !ok {
		in = rawFault(r, sub, other)
	}
	p := in.Apply(sub)
	return Fault{K: "nested/" + strings.TrimPrefix(in.K, "nested/"), A: f.Val, N: f.End - f.Val, D: append(PutVarint(nil, uint64(len(p)), 1), p...)}, true
}
