package core

import (
	"fmt"
	"math"
)

// Kind is a declared field type.
type Kind int

// The kinds. KRep is a repeated scalar, which the generated code has no
// accessors for; values of it only appear as fields a reader skips over.
const (
	KBool Kind = iota
	KInt32
	KInt64
	KUint32
	KUint64
	KSint32
	KSint64
	KFixed32
	KFixed64
	KSfixed32
	KSfixed64
	KFloat
	KDouble
	KEnum
	KString
	KBytes
	KMsg
	KRepMsg
	KRep
)

var kindNames = []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
	"sfixed32", "sfixed64", "float", "double", "enum", "string", "bytes", "msg", "repmsg", "rep"}

func (k Kind) String() string { return kindNames[k] }

// MarshalText makes scripts readable.
func (k Kind) MarshalText() ([]byte, error) { return []byte(kindNames[k]), nil }

// UnmarshalText is the inverse.
func (k *Kind) UnmarshalText(b []byte) error {
	for i, n := range kindNames {
		if n == string(b) {
			*k = Kind(i)
			return nil
		}
	}
	return fmt.Errorf("unknown kind %q", b)
}

// Wire types.
const (
	WVarint = 0
	W64     = 1
	WBytes  = 2
	W32     = 5
)

// Wire returns the wire type fields of this kind are encoded with.
func (k Kind) Wire() int {
	switch k {
	case KFixed64, KSfixed64, KDouble:
		return W64
	case KFixed32, KSfixed32, KFloat:
		return W32
	case KString, KBytes, KMsg, KRepMsg, KRep:
		return WBytes
	}
	return WVarint
}

// Scalar says whether values fit in a uint64.
func (k Kind) Scalar() bool { return k <= KEnum }

// Field of a schema.
type Field struct {
	Num  int     `json:"n"`
	Kind Kind    `json:"k"`
	SubI int     `json:"sub,omitempty"` // 1 + index of the message's schema in the script
	Name string  `json:"name,omitempty"`
	Sub  *Schema `json:"-"`
}

// Schema of a message type.
type Schema struct {
	// Name of a registered schema, the type generated code exists for; empty
	// for one that exists in this script only.
	Name   string   `json:"name,omitempty"`
	Fields []*Field `json:"fields,omitempty"`
	// New returns a new real message of this type.
	New func() Msg `json:"-"`
	// Max is the largest field number.
	Max int `json:"-"`

	byNum map[int]*Field
	rep   map[int]struct{}
}

// Init derives the unexported parts.
func (s *Schema) Init() {
	if s.byNum != nil {
		return
	}
	s.byNum = map[int]*Field{}
	s.rep = map[int]struct{}{}
	for _, f := range s.Fields {
		s.byNum[f.Num] = f
		if f.Num > s.Max {
			s.Max = f.Num
		}
		if f.Kind == KRep || f.Kind == KRepMsg {
			s.rep[f.Num] = struct{}{}
		}
		if f.Sub != nil {
			f.Sub.Init()
		}
	}
	if s.New == nil {
		s.New = func() Msg { return NewDyn(s) }
	}
}

var named = map[string]*Schema{}
var namedOrder, shipped, drawn []string

// Evo reports whether the schema's code was generated at check time.
func (s *Schema) Evo() bool {
	var f, v int
	var t string
	k, _ := fmt.Sscanf(s.Name, "f%dv%d.%s", &f, &v, &t)
	return k == 3
}

// Register adds the schema of a generated type.
func Register(s *Schema) {
	if named[s.Name] == nil {
		namedOrder = append(namedOrder, s.Name)
		if s.Evo() {
			drawn = append(drawn, s.Name)
		} else {
			shipped = append(shipped, s.Name)
		}
	}
	named[s.Name] = s
	for _, f := range s.Fields {
		if f.Num > maxNum {
			maxNum = f.Num
		}
	}
}

// Named returns a registered schema.
func Named(n string) *Schema {
	s := named[n]
	if s == nil {
		panic("no schema " + n)
	}
	s.Init()
	return s
}

// Resolve links the schemas of a script: registered ones by name, the others
// by index.
func Resolve(ss []*Schema) []*Schema {
	out := make([]*Schema, len(ss))
	for i, s := range ss {
		out[i] = s
		if s.Name != "" {
			out[i] = Named(s.Name)
		}
	}
	for _, s := range ss {
		if s.Name != "" {
			continue
		}
		for _, f := range s.Fields {
			if f.SubI > 0 && f.SubI <= len(out) {
				f.Sub = out[f.SubI-1]
			}
		}
	}
	runNum = 0
	for _, s := range out {
		s.Init()
		runNum = max(runNum, s.Max)
	}
	return out
}

// ByNum returns the field with the number, or nil.
func (s *Schema) ByNum(n int) *Field { return s.byNum[n] }

// Idx returns the index of the field.
func (s *Schema) Idx(f *Field) int {
	for i, g := range s.Fields {
		if g == f {
			return i
		}
	}
	return -1
}

// Msg is a real message as the scenarios see it; f is an index into
// Schema.Fields. Scalars travel as canonical uint64s, see Canon.
type Msg interface {
	Decode(b []byte) error
	Encode() []byte
	Reset(b []byte)
	GetU(f int) uint64
	GetS(f int) string
	GetB(f int) []byte
	SetU(f int, v uint64)
	SetS(f int, v string)
	SetB(f int, v []byte)
	GetM(f int, dst Msg) (bool, error)
	SetM(f int, src Msg)
	Append(f int, src Msg)
	Iter(f int) Iter
	// Count iterates to the end without allocating.
	Count(f int, dst Msg) (int, error)
}

// Iter is a real iterator.
type Iter interface {
	Next(dst Msg) (bool, error)
	Copy() Iter
}

// Canon reduces any 64-bit number to a value of the kind, in the canonical
// form GetU returns: sign- or zero-extended integers, float bits.
func Canon(k Kind, v uint64) uint64 {
	switch k {
	case KBool:
		return v & 1
	case KInt32, KSint32, KSfixed32:
		return uint64(int64(int32(v)))
	case KUint32, KFixed32, KEnum:
		return uint64(uint32(v))
	case KFloat:
		v = uint64(uint32(v))
		if f := math.Float32frombits(uint32(v)); f != f {
			v |= 1 << 22 // quiet NaN: signalling ones do not survive a copy on all machines
		}
		return v
	case KDouble:
		if f := math.Float64frombits(v); f != f {
			v |= 1 << 51
		}
		return v
	}
	return v
}

func zigzag(v int64) uint64   { return uint64(v)<<1 ^ uint64(v>>63) }
func unzigzag(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

// WireVal converts a canonical value to the number on the wire.
func WireVal(k Kind, v uint64) uint64 {
	switch k {
	case KSint32, KSint64:
		return zigzag(int64(v))
	case KSfixed32:
		return uint64(uint32(v))
	}
	return v
}

// FromWire converts the number on the wire to the canonical value; exact is
// false where decoders are known to differ (a sint32 out of range).
func FromWire(k Kind, w uint64) (v uint64, exact bool) {
	switch k {
	case KBool:
		if w != 0 {
			return 1, true
		}
		return 0, true
	case KSint32:
		return Canon(k, uint64(unzigzag(w))), w <= math.MaxUint32
	case KSint64:
		return uint64(unzigzag(w)), true
	case KFloat:
		return uint64(uint32(w)), true
	case KDouble:
		return w, true
	}
	return Canon(k, w), true
}

// Names lists the registered schemas in order of registration.
func Names() []string { return namedOrder }
