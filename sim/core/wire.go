package core

// An independent reading of the protobuf wire format. It is written from the
// format's specification and shares no code with the code under test.

// Raw is one encoded field.
type Raw struct {
	Num   uint64
	WT    int
	Start int    // of the tag
	Val   int    // first byte after the tag
	Pay   int    // first byte of the payload (WBytes), else Val
	End   int    // one past the field
	V     uint64 // number, for numeric wire types
}

// Status of a byte string as a message.
type Status int

// A byte string is well-formed, malformed, or something on which the
// specification and the documented restrictions leave room (groups, field
// numbers out of range, varints whose tenth byte overflows).
const (
	OK Status = iota
	Bad
	Either
)

func varint(b []byte) (v uint64, n int, st Status) {
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, 0, Bad
		}
		c := b[i]
		if i == 9 {
			if c >= 0x80 {
				return 0, 0, Bad
			}
			if c > 1 {
				return 0, 0, Either
			}
		}
		v |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return v, i + 1, OK
		}
	}
	return 0, 0, Bad
}

// Parse splits b into fields. With a status other than OK, the fields are those
// before the trouble.
func Parse(b []byte) ([]Raw, Status) {
	var fs []Raw
	for i := 0; i < len(b); {
		tag, n, st := varint(b[i:])
		if st != OK {
			return fs, st
		}
		r := Raw{Num: tag >> 3, WT: int(tag & 7), Start: i, Val: i + n}
		if r.Num == 0 {
			return fs, Bad
		}
		r.Pay = r.Val
		switch r.WT {
		case WVarint:
			v, n, st := varint(b[r.Val:])
			if st != OK {
				return fs, st
			}
			r.V, r.End = v, r.Val+n
		case W32:
			if len(b)-r.Val < 4 {
				return fs, Bad
			}
			for k := 3; k >= 0; k-- {
				r.V = r.V<<8 | uint64(b[r.Val+k])
			}
			r.End = r.Val + 4
		case W64:
			if len(b)-r.Val < 8 {
				return fs, Bad
			}
			for k := 7; k >= 0; k-- {
				r.V = r.V<<8 | uint64(b[r.Val+k])
			}
			r.End = r.Val + 8
		case WBytes:
			l, n, st := varint(b[r.Val:])
			if st != OK {
				return fs, st
			}
			r.Pay = r.Val + n
			if l > uint64(len(b)-r.Pay) {
				return fs, Bad
			}
			r.End = r.Pay + int(l)
		case 3, 4:
			return fs, Either
		default:
			return fs, Bad
		}
		if r.Num > 1<<29-1 {
			return fs, Either
		}
		fs = append(fs, r)
		i = r.End
	}
	return fs, OK
}

// PutVarint appends v in at least min bytes.
func PutVarint(b []byte, v uint64, min int) []byte {
	for n := 1; ; n++ {
		if v < 0x80 && n >= min {
			return append(b, byte(v))
		}
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
}

// VarintLen returns the minimal encoded size.
func VarintLen(v uint64) int {
	n := 1
	for v >= 0x80 {
		v >>= 7
		n++
	}
	return n
}

// PutTag appends a tag.
func PutTag(b []byte, num, wt int) []byte { return PutVarint(b, uint64(num)<<3|uint64(wt), 1) }

// PutFixed appends a little-endian number of n bytes.
func PutFixed(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

// PutNum appends the payload of a numeric field.
func PutNum(b []byte, wt int, w uint64, min int) []byte {
	switch wt {
	case W32:
		return PutFixed(b, w, 4)
	case W64:
		return PutFixed(b, w, 8)
	}
	return PutVarint(b, w, min)
}

// Model is what a message holds.
type Model struct {
	U    map[int]uint64 // canonical scalars by field number
	B    map[int][]byte // strings, bytes, nested messages
	R    map[int][][]byte
	Skip map[int]bool // values the specification leaves open
}

// NewModel returns an empty message.
func NewModel() *Model {
	return &Model{U: map[int]uint64{}, B: map[int][]byte{}, R: map[int][][]byte{}, Skip: map[int]bool{}}
}

// Clone copies the model; byte slices are shared and never written.
func (m *Model) Clone() *Model {
	n := NewModel()
	for k, v := range m.U {
		n.U[k] = v
	}
	for k, v := range m.B {
		n.B[k] = v
	}
	for k, v := range m.R {
		n.R[k] = append([][]byte(nil), v...)
	}
	for k, v := range m.Skip {
		n.Skip[k] = v
	}
	return n
}

// Read interprets well-formed bytes by the schema: last value of singular
// fields, all elements of repeated messages. A field any occurrence of which
// has another wire type than declared is marked Skip.
func Read(s *Schema, b []byte) (*Model, Status) {
	fs, st := Parse(b)
	m := NewModel()
	for _, r := range fs {
		if r.Num > uint64(s.Max) {
			continue
		}
		f := s.byNum[int(r.Num)]
		if f == nil || f.Kind == KRep {
			continue
		}
		if r.WT != f.Kind.Wire() {
			m.Skip[f.Num] = true
			continue
		}
		switch {
		case f.Kind.Scalar():
			v, exact := FromWire(f.Kind, r.V)
			m.U[f.Num] = v
			if !exact {
				m.Skip[f.Num] = true
			}
		case f.Kind == KRepMsg:
			m.R[f.Num] = append(m.R[f.Num], b[r.Pay:r.End:r.End])
		default:
			m.B[f.Num] = b[r.Pay:r.End:r.End]
		}
	}
	return m, st
}
