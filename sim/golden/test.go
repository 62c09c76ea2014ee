// Code generated by verifsim/adapt. DO NOT EDIT.

package golden

import (
	g "github.com/danhhz/zeropb/golden/testzeropb"
	"math"
	"verifsim/core"
)

var _ = math.Pi

// test_TestMessage is a message type on the real generated code.
type test_TestMessage struct{ M g.TestMessage }

func (w *test_TestMessage) Decode(b []byte) error { return w.M.Decode(b) }
func (w *test_TestMessage) Encode() []byte        { return w.M.Encode() }
func (w *test_TestMessage) Reset(b []byte)        { w.M.Reset(b) }
func (w *test_TestMessage) GetU(i int) uint64 {
	switch i {
	case 0:
		return core.Bit(w.M.Bool())
	case 1:
		return uint64(int64(w.M.Int32()))
	case 2:
		return uint64(w.M.Int64())
	case 3:
		return uint64(w.M.Uint32())
	case 4:
		return w.M.Uint64()
	case 5:
		return uint64(int64(w.M.Sint32()))
	case 6:
		return uint64(w.M.Sint64())
	case 7:
		return uint64(w.M.Fixed32())
	case 8:
		return w.M.Fixed64()
	case 9:
		return uint64(int64(w.M.Sfixed32()))
	case 10:
		return uint64(w.M.Sfixed64())
	case 11:
		return math.Float64bits(w.M.Double())
	case 12:
		return uint64(math.Float32bits(w.M.Float()))
	case 15:
		return uint64(w.M.Enum())
	}
	panic("no such field")
}
func (w *test_TestMessage) SetU(i int, v uint64) {
	switch i {
	case 0:
		w.M.SetBool(v != 0)
		return
	case 1:
		w.M.SetInt32(int32(v))
		return
	case 2:
		w.M.SetInt64(int64(v))
		return
	case 3:
		w.M.SetUint32(uint32(v))
		return
	case 4:
		w.M.SetUint64(v)
		return
	case 5:
		w.M.SetSint32(int32(v))
		return
	case 6:
		w.M.SetSint64(int64(v))
		return
	case 7:
		w.M.SetFixed32(uint32(v))
		return
	case 8:
		w.M.SetFixed64(v)
		return
	case 9:
		w.M.SetSfixed32(int32(v))
		return
	case 10:
		w.M.SetSfixed64(int64(v))
		return
	case 11:
		w.M.SetDouble(math.Float64frombits(v))
		return
	case 12:
		w.M.SetFloat(math.Float32frombits(uint32(v)))
		return
	case 15:
		w.M.SetEnum(uint32(v))
		return
	}
	panic("no such field")
}
func (w *test_TestMessage) GetS(i int) string {
	switch i {
	case 13:
		return w.M.String()
	}
	panic("no such field")
}
func (w *test_TestMessage) SetS(i int, v string) {
	switch i {
	case 13:
		w.M.SetString(v)
		return
	}
	panic("no such field")
}
func (w *test_TestMessage) GetB(i int) []byte {
	switch i {
	case 14:
		return w.M.ByteArray()
	}
	panic("no such field")
}
func (w *test_TestMessage) SetB(i int, v []byte) {
	switch i {
	case 14:
		w.M.SetByteArray(v)
		return
	}
	panic("no such field")
}
func (w *test_TestMessage) GetM(i int, dst core.Msg) (bool, error) {
	switch i {
	case 16:
		return w.M.Message(&dst.(*test_TestMessage).M)
	}
	panic("no such field")
}
func (w *test_TestMessage) SetM(i int, src core.Msg) {
	switch i {
	case 16:
		w.M.SetMessage(src.(*test_TestMessage).M)
		return
	}
	panic("no such field")
}
func (w *test_TestMessage) Append(i int, src core.Msg) {
	switch i {
	case 23:
		w.M.AppendToMessages(src.(*test_TestMessage).M)
		return
	}
	panic("no such field")
}
func (w *test_TestMessage) Iter(i int) core.Iter {
	switch i {
	case 23:
		return core.MkIter(w.M.Messages(), func(m core.Msg) *g.TestMessage { return &m.(*test_TestMessage).M })
	}
	panic("no such field")
}
func (w *test_TestMessage) Count(i int, dst core.Msg) (int, error) {
	switch i {
	case 23:
		it := w.M.Messages()
		for n := 0; ; n++ {
			ok, err := it.Next(&dst.(*test_TestMessage).M)
			if !ok || err != nil {
				return n, err
			}
		}
	}
	panic("no such field")
}

func init() {
	s_TestMessage := &core.Schema{Name: "test.TestMessage", New: func() core.Msg { return new(test_TestMessage) }}
	s_TestMessage.Fields = []*core.Field{
		{Num: 1, Kind: core.Kind(0), Name: "bool"},                           // bool
		{Num: 2, Kind: core.Kind(1), Name: "int32"},                          // int32
		{Num: 3, Kind: core.Kind(2), Name: "int64"},                          // int64
		{Num: 4, Kind: core.Kind(3), Name: "uint32"},                         // uint32
		{Num: 5, Kind: core.Kind(4), Name: "uint64"},                         // uint64
		{Num: 6, Kind: core.Kind(5), Name: "sint32"},                         // sint32
		{Num: 7, Kind: core.Kind(6), Name: "sint64"},                         // sint64
		{Num: 8, Kind: core.Kind(7), Name: "fixed32"},                        // fixed32
		{Num: 9, Kind: core.Kind(8), Name: "fixed64"},                        // fixed64
		{Num: 10, Kind: core.Kind(9), Name: "sfixed32"},                      // sfixed32
		{Num: 11, Kind: core.Kind(10), Name: "sfixed64"},                     // sfixed64
		{Num: 12, Kind: core.Kind(12), Name: "double"},                       // double
		{Num: 13, Kind: core.Kind(11), Name: "float"},                        // float
		{Num: 14, Kind: core.Kind(14), Name: "string"},                       // string
		{Num: 15, Kind: core.Kind(15), Name: "byte_array"},                   // bytes
		{Num: 16, Kind: core.Kind(13), Name: "enum"},                         // enum
		{Num: 17, Kind: core.Kind(16), Name: "message", Sub: s_TestMessage},  // msg
		{Num: 18, Kind: core.Kind(18), Name: "bools"},                        // rep
		{Num: 19, Kind: core.Kind(18), Name: "int32s"},                       // rep
		{Num: 20, Kind: core.Kind(18), Name: "int64s"},                       // rep
		{Num: 29, Kind: core.Kind(18), Name: "doubles"},                      // rep
		{Num: 31, Kind: core.Kind(18), Name: "strings"},                      // rep
		{Num: 32, Kind: core.Kind(18), Name: "byte_arrays"},                  // rep
		{Num: 34, Kind: core.Kind(17), Name: "messages", Sub: s_TestMessage}, // repmsg
	}
	core.Register(s_TestMessage)
}
