package core

import (
	"bytes"
	"fmt"

	"verifsim/simrt"
)

// Limit arms the step budget of the next operation on n bytes of message. Every
// decode clears an array of the largest field number's size.
func Limit(n int) {
	simrt.SetLimit(300000 + 1000*uint64(min(n, 4<<20)) + 50*uint64(n) + 200*uint64(max(maxNum, runNum)))
}

// The largest field numbers of registered types and of the current run's.
var maxNum, runNum int

const maxDepth = 6

// Check compares everything readable from m with the model. It returns a
// description of the first difference.
func Check(m Msg, s *Schema, want *Model, size int) string {
	return check(m, s, want, size, maxDepth, new(work))
}

// work bounds how much one examination of a message descends into nested
// messages: decoding one costs as many steps as its largest field number. It
// depends on the message only, so that two examinations do the same.
type work int

func (w *work) deeper(s *Schema) bool {
	*w += work(s.Max) + 50
	return *w < 2e6
}

// CheckBytes compares m with what the reference reader makes of b.
func CheckBytes(m Msg, s *Schema, b []byte) string {
	want, st := Read(s, b)
	if st != OK {
		return ""
	}
	return check(m, s, want, len(b), maxDepth, new(work))
}

func check(m Msg, s *Schema, want *Model, size, depth int, c *work) string {
	for i, f := range s.Fields {
		Limit(size)
		if d := checkField(m, i, f, want, size, depth, c); d != "" {
			return fmt.Sprintf("field %d (%s): %s", f.Num, f.Kind, d)
		}
	}
	return ""
}

func short(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x...(%d bytes)", b[:32], len(b))
}

func checkField(m Msg, i int, f *Field, want *Model, size, depth int, c *work) string {
	skip := want.Skip[f.Num]
	switch {
	case f.Kind == KRep:
	case f.Kind.Scalar():
		got := m.GetU(i)
		if w := want.U[f.Num]; Canon(f.Kind, got) != Canon(f.Kind, w) && !skip {
			return fmt.Sprintf("got %#x, want %#x", got, w)
		}
	case f.Kind == KString:
		got := m.GetS(i)
		if w := want.B[f.Num]; got != string(w) && !skip {
			return fmt.Sprintf("got %s, want %s", short([]byte(got)), short(w))
		}
	case f.Kind == KBytes:
		got := m.GetB(i)
		if w := want.B[f.Num]; !bytes.Equal(got, w) && !skip {
			return fmt.Sprintf("got %s, want %s", short(got), short(w))
		}
	case f.Kind == KMsg:
		dst := f.Sub.New()
		w, has := want.B[f.Num]
		ok, err := m.GetM(i, dst)
		if skip {
			return ""
		}
		if ok != has {
			return fmt.Sprintf("present %v, want %v", ok, has)
		}
		if has {
			return checkElem(dst, err, f.Sub, w, depth, c)
		}
		if err != nil {
			return fmt.Sprintf("absent but error %v", err)
		}
	case f.Kind == KRepMsg:
		it := m.Iter(i)
		dst := f.Sub.New()
		ws := want.R[f.Num]
		for n := 0; ; n++ {
			Limit(size)
			ok, err := it.Next(dst)
			if n > size+4 {
				return "iteration does not end"
			}
			if !ok {
				if err != nil {
					return fmt.Sprintf("end of iteration reports error %v", err)
				}
				if n < len(ws) && !skip {
					return fmt.Sprintf("%d elements, want %d", n, len(ws))
				}
				for k := 0; k < 2; k++ {
					if ok, err := it.Next(dst); ok || err != nil {
						return fmt.Sprintf("after the end Next returned %v, %v", ok, err)
					}
				}
				return ""
			}
			if skip {
				continue
			}
			if n >= len(ws) {
				return fmt.Sprintf("more than %d elements", len(ws))
			}
			if d := checkElem(dst, err, f.Sub, ws[n], depth, c); d != "" {
				return fmt.Sprintf("element %d: %s", n, d)
			}
		}
	}
	return ""
}

// checkElem compares a decoded nested message with its bytes.
func checkElem(dst Msg, err error, s *Schema, w []byte, depth int, c *work) string {
	want, st := Read(s, w)
	if st == Bad && err == nil {
		return fmt.Sprintf("malformed nested message accepted: %s", short(w))
	}
	if st == OK && err != nil {
		return fmt.Sprintf("well-formed nested message rejected (%v): %s", err, short(w))
	}
	if st != OK || depth == 0 || !c.deeper(s) {
		return ""
	}
	if e := dst.Encode(); !bytes.Equal(e, w) {
		return fmt.Sprintf("nested message holds %s, want %s", short(e), short(w))
	}
	return check(dst, s, want, len(w), depth-1, c)
}

// Digest reads everything there is and returns a hash of the values. errs
// counts nested errors. It reports iterations that do not end.
func Digest(m Msg, s *Schema, size int) (h uint64, trouble string) {
	d := digester{h: 14695981039346656037}
	d.msg(m, s, size, maxDepth)
	return d.h, d.trouble
}

type digester struct {
	h       uint64
	trouble string
	c       work
}

func (d *digester) u(v uint64) { d.h = mix(d.h ^ v) }

func (d *digester) bytes(b []byte) {
	h := d.h
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	d.h = mix(h ^ uint64(len(b)))
}

// HashBytes hashes b.
func HashBytes(h uint64, b []byte) uint64 {
	d := digester{h: h}
	d.bytes(b)
	return d.h
}

func (d *digester) msg(m Msg, s *Schema, size, depth int) {
	for i := range s.Fields {
		Limit(size)
		d.field(m, s, i, size, depth)
	}
}

func (d *digester) field(m Msg, s *Schema, i, size, depth int) {
	f := s.Fields[i]
	switch {
	case f.Kind == KRep:
	case f.Kind.Scalar():
		d.u(Canon(f.Kind, m.GetU(i)))
	case f.Kind == KString:
		d.bytes([]byte(m.GetS(i)))
	case f.Kind == KBytes:
		d.bytes(m.GetB(i))
	case f.Kind == KMsg:
		dst := f.Sub.New()
		ok, err := m.GetM(i, dst)
		d.u(bit(ok) | bit(err != nil)<<1)
		if ok && err == nil && depth > 0 && d.c.deeper(f.Sub) {
			e := dst.Encode()
			d.bytes(e)
			d.msg(dst, f.Sub, len(e), depth-1)
		}
	case f.Kind == KRepMsg:
		dst := f.Sub.New()
		it := m.Iter(i)
		for n := 0; ; n++ {
			Limit(size)
			ok, err := it.Next(dst)
			d.u(bit(ok) | bit(err != nil)<<1)
			if !ok {
				if ok, _ := it.Next(dst); ok {
					d.trouble = fmt.Sprintf("field %d: iterator yields again after its end", f.Num)
				}
				return
			}
			if n > size+4 {
				d.trouble = fmt.Sprintf("field %d: iteration does not end", f.Num)
				return
			}
			if err == nil && depth > 0 && d.c.deeper(f.Sub) {
				e := dst.Encode()
				d.bytes(e)
				d.msg(dst, f.Sub, len(e), depth-1)
			}
		}
	}
}

// FieldDigest hashes one field.
func FieldDigest(m Msg, s *Schema, i, size, depth int) (uint64, string) {
	d := digester{h: 14695981039346656037}
	d.field(m, s, i, size, depth)
	return d.h, d.trouble
}

// CheckElem compares a decoded nested message with the bytes it should have.
func CheckElem(dst Msg, err error, s *Schema, w []byte) string {
	return checkElem(dst, err, s, w, 2, new(work))
}

// Bit is 1 for true.
func Bit(b bool) uint64 { return bit(b) }

func bit(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
