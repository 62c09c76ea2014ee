//go:build !nodyn

package core

import (
	"math"

	"github.com/danhhz/zeropb"
)

// Dyn is a message of an arbitrary schema on the real runtime. It does what
// generated code does, which is all a generated type consists of: a buffer, an
// array and a map for the offsets, and calls into the runtime.
type Dyn struct {
	s   *Schema
	buf []byte
	a   []uint16
	m   map[int]uint64
	rep zeropb.RepeatedFields
}

const haveDyn = true

// NewDyn returns an empty message.
func NewDyn(s *Schema) Msg {
	return &Dyn{s: s, a: make([]uint16, s.Max+1), rep: zeropb.RepeatedFields(s.rep)}
}

func (d *Dyn) o() zeropb.Offsets { return zeropb.WrapOffsets(d.a, &d.m) }

func (d *Dyn) Decode(b []byte) error {
	d.buf = b
	return zeropb.Decode(d.buf, d.o(), d.rep)
}
func (d *Dyn) Encode() []byte { return d.buf }
func (d *Dyn) Reset(b []byte) {
	if len(b) > 0 {
		panic(`buf must be empty`)
	}
	d.buf = b
	d.o().Clear()
}

func (d *Dyn) GetU(i int) uint64 {
	f := d.s.Fields[i]
	switch f.Kind {
	case KBool:
		return bit(zeropb.GetBool(d.buf, d.o(), f.Num))
	case KInt32:
		return uint64(int64(zeropb.GetInt32(d.buf, d.o(), f.Num)))
	case KInt64:
		return uint64(zeropb.GetInt64(d.buf, d.o(), f.Num))
	case KUint32, KEnum:
		return uint64(zeropb.GetUint32(d.buf, d.o(), f.Num))
	case KUint64:
		return zeropb.GetUint64(d.buf, d.o(), f.Num)
	case KSint32:
		return uint64(int64(zeropb.GetZigZagInt32(d.buf, d.o(), f.Num)))
	case KSint64:
		return uint64(zeropb.GetZigZagInt64(d.buf, d.o(), f.Num))
	case KFixed32:
		return uint64(zeropb.GetFixedUint32(d.buf, d.o(), f.Num))
	case KFixed64:
		return zeropb.GetFixedUint64(d.buf, d.o(), f.Num)
	case KSfixed32:
		return uint64(int64(zeropb.GetFixedInt32(d.buf, d.o(), f.Num)))
	case KSfixed64:
		return uint64(zeropb.GetFixedInt64(d.buf, d.o(), f.Num))
	case KFloat:
		return uint64(math.Float32bits(zeropb.GetFloat32(d.buf, d.o(), f.Num)))
	case KDouble:
		return math.Float64bits(zeropb.GetFloat64(d.buf, d.o(), f.Num))
	}
	panic("GetU")
}
func (d *Dyn) GetS(i int) string { return zeropb.GetString(d.buf, d.o(), d.s.Fields[i].Num) }
func (d *Dyn) GetB(i int) []byte { return zeropb.GetBytes(d.buf, d.o(), d.s.Fields[i].Num) }
func (d *Dyn) SetU(i int, v uint64) {
	f := d.s.Fields[i]
	switch f.Kind {
	case KBool:
		zeropb.SetBool(&d.buf, d.o(), f.Num, v != 0)
	case KInt32:
		zeropb.SetInt32(&d.buf, d.o(), f.Num, int32(v))
	case KInt64:
		zeropb.SetInt64(&d.buf, d.o(), f.Num, int64(v))
	case KUint32, KEnum:
		zeropb.SetUint32(&d.buf, d.o(), f.Num, uint32(v))
	case KUint64:
		zeropb.SetUint64(&d.buf, d.o(), f.Num, v)
	case KSint32:
		zeropb.SetZigZagInt32(&d.buf, d.o(), f.Num, int32(v))
	case KSint64:
		zeropb.SetZigZagInt64(&d.buf, d.o(), f.Num, int64(v))
	case KFixed32:
		zeropb.SetFixedUint32(&d.buf, d.o(), f.Num, uint32(v))
	case KFixed64:
		zeropb.SetFixedUint64(&d.buf, d.o(), f.Num, v)
	case KSfixed32:
		zeropb.SetFixedInt32(&d.buf, d.o(), f.Num, int32(v))
	case KSfixed64:
		zeropb.SetFixedInt64(&d.buf, d.o(), f.Num, int64(v))
	case KFloat:
		zeropb.SetFloat32(&d.buf, d.o(), f.Num, math.Float32frombits(uint32(v)))
	case KDouble:
		zeropb.SetFloat64(&d.buf, d.o(), f.Num, math.Float64frombits(v))
	default:
		panic("SetU")
	}
}
func (d *Dyn) SetS(i int, v string) { zeropb.SetString(&d.buf, d.o(), d.s.Fields[i].Num, v) }
func (d *Dyn) SetB(i int, v []byte) { zeropb.SetBytes(&d.buf, d.o(), d.s.Fields[i].Num, v) }
func (d *Dyn) GetM(i int, dst Msg) (bool, error) {
	buf := zeropb.GetBytes(d.buf, d.o(), d.s.Fields[i].Num)
	if buf == nil {
		return false, nil
	}
	return true, dst.Decode(buf)
}
func (d *Dyn) SetM(i int, src Msg) { zeropb.SetBytes(&d.buf, d.o(), d.s.Fields[i].Num, src.Encode()) }
func (d *Dyn) Append(i int, src Msg) {
	zeropb.AppendBytes(&d.buf, d.o(), d.s.Fields[i].Num, src.Encode())
}

// DynIter does what generated iterators do.
type DynIter struct {
	b   []byte
	num int
}

func (it *DynIter) Next(dst Msg) (bool, error) {
	var buf []byte
	it.b, buf = zeropb.FindNextField(it.b, it.num)
	if buf == nil {
		return false, nil
	}
	return true, dst.Decode(buf)
}
func (it *DynIter) Copy() Iter { c := *it; return &c }

func (d *Dyn) iter(i int) DynIter {
	n := d.s.Fields[i].Num
	return DynIter{zeropb.GetRepeatedNonPacked(d.buf, d.o(), n), n}
}
func (d *Dyn) Iter(i int) Iter { it := d.iter(i); return &it }
func (d *Dyn) Count(i int, dst Msg) (int, error) {
	it := d.iter(i)
	for n := 0; ; n++ {
		ok, err := it.Next(dst)
		if !ok || err != nil {
			return n, err
		}
	}
}
