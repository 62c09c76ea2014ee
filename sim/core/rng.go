// Package core holds the parts every scenario shares: the random source, the
// schema model, an independent wire-format parser and encoder, drivers for the
// real message types, damage operators, scripts and the minimiser.
package core

// Rng is the only source of randomness in the harness.
type Rng struct{ s uint64 }

// NewRng returns a generator for the seed.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// Mix derives an independent seed.
func Mix(a ...uint64) uint64 {
	z := uint64(0x243F6A8885A308D3)
	for _, x := range a {
		z = mix(z ^ x)
	}
	return z
}

func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// U64 returns 64 random bits.
func (r *Rng) U64() uint64 { r.s += 0x9E3779B97F4A7C15; return mix(r.s) }

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability n/d.
func (r *Rng) P(n, d int) bool { return r.N(d) < n }

// Pick returns one of the weights' indices.
func (r *Rng) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

// Bytes fills a new slice.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// Pattern returns n bytes determined by seed, cheap for large n.
func Pattern(n int, seed uint64) []byte {
	if seed&7 == 5 && n > 0 {
		// One of a few, but for one byte or none.
		b := pattern(n, seed>>3&1)
		if at := mix(seed>>4) % uint64(n+n/4+1); at < uint64(n) {
			b[at] ^= byte(1 + seed>>12&63)
		}
		return b
	}
	return pattern(n, seed)
}

func pattern(n int, seed uint64) []byte {
	b := make([]byte, n)
	if n <= 64 {
		r := Rng{seed}
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	}
	z := mix(seed)
	for i := range b {
		if i&7 == 0 {
			z = z*6364136223846793005 + 1442695040888963407
		}
		b[i] = byte(z >> (8 * uint(i&7)))
	}
	return b
}

// Text returns n printable bytes.
func Text(n int, seed uint64) string {
	b := Pattern(n, seed)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return string(b)
}

// Stringy turns the bytes into what a string may hold: letters, characters of
// several bytes, or anything.
func Stringy(b []byte, seed uint64) {
	switch mix(seed) % 8 {
	case 0:
	case 1:
		for i := range b {
			switch b[i] % 3 {
			case 0:
				if i+2 < len(b) {
					copy(b[i:], "\u20ac")
				}
			case 1:
				b[i] = 0x80 | b[i]>>1
			}
		}
	default:
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
	}
}

// Scalar draws a value biased towards encodings of every length and sign.
func (r *Rng) Scalar() uint64 {
	switch r.N(8) {
	case 0:
		return uint64(r.N(3))
	case 1:
		return uint64(1)<<uint(r.N(64)) - uint64(r.N(2))
	case 2:
		return ^uint64(0) - uint64(r.N(3))
	case 3:
		return uint64(r.N(300))
	case 4:
		return uint64(1)<<(7*uint(r.In(1, 9))) - uint64(r.N(2))
	case 5:
		return uint64(int64(int32(r.U64())))
	case 6:
		return r.U64() >> uint(r.N(64))
	default:
		return r.U64()
	}
}

// Len draws a length biased towards length-prefix boundaries.
func (r *Rng) Len(max int) int {
	var n int
	switch r.N(10) {
	case 0:
		n = 0
	case 1, 2, 3, 4:
		n = r.N(12)
	case 5, 6:
		n = r.In(120, 135)
	case 7:
		n = r.N(400)
	case 8:
		n = r.In(16375, 16392)
	default:
		n = r.N(2000)
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}
