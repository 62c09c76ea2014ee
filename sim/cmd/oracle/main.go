// Command oracle compares the reference reader the checks judge by with what
// golang/protobuf reads, so that no check rests on a
// misreading of the encoding. No code under test is involved.
package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"

	. "verifsim/core"
	_ "verifsim/golden"

	"github.com/golang/protobuf/proto"
)

var compared, skipped, rejected int

// compare returns the first difference between x, a struct protobuf filled from
// b, and the reference reader's idea of b.
func compare(x reflect.Value, s *Schema, b []byte) string {
	raws, _ := Parse(b)
	count := map[uint64]int{}
	for _, f := range raws {
		count[f.Num]++
	}
	m, st := Read(s, b)
	if st == Either {
		return ""
	}
	if st != OK {
		return fmt.Sprintf("the reference reader rejects it (%v)", st)
	}
	t := x.Type()
	for i := 0; i < t.NumField(); i++ {
		tag := strings.Split(t.Field(i).Tag.Get("protobuf"), ",")
		if len(tag) < 2 {
			continue
		}
		num, _ := strconv.Atoi(tag[1])
		f := s.ByNum(num)
		if f == nil || f.Kind == KRep || m.Skip[num] {
			continue
		}
		v := x.Field(i)
		compared++
		switch f.Kind {
		case KMsg:
			if v.IsNil() != (m.B[num] == nil) {
				return fmt.Sprintf("field %d: presence", num)
			}
			if v.IsNil() || count[uint64(num)] > 1 {
				continue // merged by protobuf, replaced by zeropb (see README)
			}
			if d := compare(v.Elem(), f.Sub, m.B[num]); d != "" {
				return fmt.Sprintf("field %d: %s", num, d)
			}
		case KRepMsg:
			if v.Len() != len(m.R[num]) {
				return fmt.Sprintf("field %d: %d elements, %d read", num, v.Len(), len(m.R[num]))
			}
			for k := 0; k < v.Len(); k++ {
				if d := compare(v.Index(k).Elem(), f.Sub, m.R[num][k]); d != "" {
					return fmt.Sprintf("field %d[%d]: %s", num, k, d)
				}
			}
		case KString:
			if v.String() != string(m.B[num]) {
				return fmt.Sprintf("field %d: %q and %q", num, v.String(), m.B[num])
			}
		case KBytes:
			if string(v.Bytes()) != string(m.B[num]) {
				return fmt.Sprintf("field %d: %x and %x", num, v.Bytes(), m.B[num])
			}
		default:
			var w uint64
			switch v.Kind() {
			case reflect.Bool:
				w = Bit(v.Bool())
			case reflect.Int32, reflect.Int64:
				w = uint64(v.Int())
				if f.Kind == KEnum {
					w = uint64(uint32(v.Int()))
				}
			case reflect.Uint32, reflect.Uint64:
				w = v.Uint()
			case reflect.Float32:
				w = uint64(math.Float32bits(float32(v.Float())))
			case reflect.Float64:
				w = math.Float64bits(v.Float())
			}
			if f.Kind == KFloat && v.Float() != v.Float() {
				continue // the conversion above may change a NaN
			}
			if w != m.U[num] {
				return fmt.Sprintf("field %d (%v): %x and %x", num, f.Kind, w, m.U[num])
			}
		}
	}
	return ""
}

// TestMessage is golden/test.proto for golang/protobuf, without code of its own.
type TestMessage struct {
	Bool                 bool           `protobuf:"varint,1,opt,name=bool,proto3" json:"bool,omitempty"`
	Int32                int32          `protobuf:"varint,2,opt,name=int32,proto3" json:"int32,omitempty"`
	Int64                int64          `protobuf:"varint,3,opt,name=int64,proto3" json:"int64,omitempty"`
	Uint32               uint32         `protobuf:"varint,4,opt,name=uint32,proto3" json:"uint32,omitempty"`
	Uint64               uint64         `protobuf:"varint,5,opt,name=uint64,proto3" json:"uint64,omitempty"`
	Sint32               int32          `protobuf:"zigzag32,6,opt,name=sint32,proto3" json:"sint32,omitempty"`
	Sint64               int64          `protobuf:"zigzag64,7,opt,name=sint64,proto3" json:"sint64,omitempty"`
	Fixed32              uint32         `protobuf:"fixed32,8,opt,name=fixed32,proto3" json:"fixed32,omitempty"`
	Fixed64              uint64         `protobuf:"fixed64,9,opt,name=fixed64,proto3" json:"fixed64,omitempty"`
	Sfixed32             int32          `protobuf:"fixed32,10,opt,name=sfixed32,proto3" json:"sfixed32,omitempty"`
	Sfixed64             int64          `protobuf:"fixed64,11,opt,name=sfixed64,proto3" json:"sfixed64,omitempty"`
	Double               float64        `protobuf:"fixed64,12,opt,name=double,proto3" json:"double,omitempty"`
	Float                float32        `protobuf:"fixed32,13,opt,name=float,proto3" json:"float,omitempty"`
	String_              string         `protobuf:"bytes,14,opt,name=string,proto3" json:"string,omitempty"`
	ByteArray            []byte         `protobuf:"bytes,15,opt,name=byte_array,json=byteArray,proto3" json:"byte_array,omitempty"`
	Enum                 int32          `protobuf:"varint,16,opt,name=enum,proto3,enum=testzeropb.TestEnum" json:"enum,omitempty"`
	Message              *TestMessage   `protobuf:"bytes,17,opt,name=message,proto3" json:"message,omitempty"`
	Bools                []bool         `protobuf:"varint,18,rep,packed,name=bools,proto3" json:"bools,omitempty"`
	Int32S               []int32        `protobuf:"varint,19,rep,packed,name=int32s,proto3" json:"int32s,omitempty"`
	Int64S               []int64        `protobuf:"varint,20,rep,packed,name=int64s,proto3" json:"int64s,omitempty"`
	Uint32S              []uint32       `protobuf:"varint,21,rep,packed,name=uint32s,proto3" json:"uint32s,omitempty"`
	Uint64S              []uint64       `protobuf:"varint,22,rep,packed,name=uint64s,proto3" json:"uint64s,omitempty"`
	Sint32S              []int32        `protobuf:"zigzag32,23,rep,packed,name=sint32s,proto3" json:"sint32s,omitempty"`
	Sint64S              []int64        `protobuf:"zigzag64,24,rep,packed,name=sint64s,proto3" json:"sint64s,omitempty"`
	Fixed32S             []uint32       `protobuf:"fixed32,25,rep,packed,name=fixed32s,proto3" json:"fixed32s,omitempty"`
	Fixed64S             []uint64       `protobuf:"fixed64,26,rep,packed,name=fixed64s,proto3" json:"fixed64s,omitempty"`
	Sfixed32S            []int32        `protobuf:"fixed32,27,rep,packed,name=sfixed32s,proto3" json:"sfixed32s,omitempty"`
	Sfixed64S            []int64        `protobuf:"fixed64,28,rep,packed,name=sfixed64s,proto3" json:"sfixed64s,omitempty"`
	Doubles              []float64      `protobuf:"fixed64,29,rep,packed,name=doubles,proto3" json:"doubles,omitempty"`
	Floats               []float32      `protobuf:"fixed32,30,rep,packed,name=floats,proto3" json:"floats,omitempty"`
	Strings              []string       `protobuf:"bytes,31,rep,name=strings,proto3" json:"strings,omitempty"`
	ByteArrays           [][]byte       `protobuf:"bytes,32,rep,name=byte_arrays,json=byteArrays,proto3" json:"byte_arrays,omitempty"`
	Enums                []int32        `protobuf:"varint,33,rep,packed,name=enums,proto3,enum=testzeropb.TestEnum" json:"enums,omitempty"`
	Messages             []*TestMessage `protobuf:"bytes,34,rep,name=messages,proto3" json:"messages,omitempty"`
	XXX_NoUnkeyedLiteral struct{}       `json:"-"`
}

func (m *TestMessage) Reset()         { *m = TestMessage{} }
func (m *TestMessage) String() string { return proto.CompactTextString(m) }
func (*TestMessage) ProtoMessage()    {}

func main() {
	n, bad := 200000, 0
	var s *Schema
	{
		for _, k := range Names() {
			if strings.HasSuffix(k, "TestMessage") {
				s = Named(k)
			}
		}
	}
	for i := 0; i < n && bad < 5; i++ {
		r := NewRng(Mix(uint64(i), 77))
		b := Frame(r, s, GenOpt(r))
		if len(b) > 5000 {
			continue
		}
		if i%3 == 0 {
			b = ApplyAll(b, []Fault{GenFault(r, s, b, nil)})
		}
		var g TestMessage
		err := proto.Unmarshal(b, &g)
		_, st := Parse(b)
		if err != nil {
			// It is stricter: other wire types, field numbers beyond 29 bits,
			// damage in nested messages, which zeropb reads later.
			if st != OK {
				rejected++
			} else {
				skipped++
			}
			continue
		}
		if st != OK {
			skipped++
			continue
		}
		if d := compare(reflect.ValueOf(&g).Elem(), s, b); d != "" {
			bad++
			fmt.Printf("frame %d, golang/protobuf: %s\n%x\n", i, d, b)
		}
	}
	fmt.Printf("%d fields of %d frames compared, %d rejected by both, %d by one\n", compared, n, rejected, skipped)
	if bad > 0 {
		os.Exit(1)
	}
}
