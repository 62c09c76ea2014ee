// zref answers questions about code generation requests with the types that come
// with golang/protobuf, which owe nothing to the repository's. It is a process of
// its own because both register the same names.
//
// Each question is a byte ('d': draw a request; 'j': judge a text) and two byte
// strings after their lengths, the answer is one byte string.
package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"

	"verifsim/core"

	"github.com/golang/protobuf/proto"
	plugin "github.com/golang/protobuf/protoc-gen-go/plugin"
)

func main() {
	in, out := bufio.NewReader(os.Stdin), bufio.NewWriter(os.Stdout)
	str := func() []byte {
		var n uint32
		if err := binary.Read(in, binary.LittleEndian, &n); err != nil {
			os.Exit(0)
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(in, b); err != nil {
			os.Exit(0)
		}
		return b
	}
	for {
		op, err := in.ReadByte()
		if err != nil {
			return
		}
		a, b := str(), str()
		var res []byte
		switch op {
		case 'd':
			res = draw(core.NewRng(binary.LittleEndian.Uint64(a)))
		case 'j':
			res = []byte(judge(a, b))
		}
		binary.Write(out, binary.LittleEndian, uint32(len(res)))
		out.Write(res)
		if out.Flush() != nil {
			return
		}
	}
}

// judge says what is wrong with the text printed for a request: "" is nothing,
// "-" that there is no telling.
func judge(req, text []byte) string {
	var want, again, got plugin.CodeGeneratorRequest
	if err := proto.Unmarshal(req, &want); err != nil {
		return "these are not the bytes of a request: " + err.Error()
	}
	if err := proto.UnmarshalText(proto.MarshalTextString(&want), &again); err != nil || !proto.Equal(&want, &again) {
		return "-" // unknown fields and the like have no text to parse back
	}
	if err := proto.UnmarshalText(string(text), &got); err != nil {
		return "it does not parse: " + err.Error()
	}
	if !proto.Equal(&want, &got) {
		return "it is the text of a different request"
	}
	return ""
}

func draw(r *core.Rng) []byte {
	for {
		var q plugin.CodeGeneratorRequest
		fill(r, reflect.ValueOf(&q).Elem(), r.In(2, 7))
		b, err := proto.Marshal(&q)
		if err != nil {
			fmt.Fprintln(os.Stderr, "zref:", err)
			os.Exit(2)
		}
		if len(b) < 300000 {
			return b
		}
	}
}

func fill(r *core.Rng, v reflect.Value, depth int) {
	t := v.Type()
	dens := r.In(1, 5)
	for i := 0; i < t.NumField(); i++ {
		if strings.HasPrefix(t.Field(i).Name, "XXX_") {
			continue
		}
		tag := t.Field(i).Tag.Get("protobuf")
		if !strings.Contains(tag, ",req,") && !r.P(dens, 6) {
			continue
		}
		f := v.Field(i)
		switch {
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8:
			n := r.N(3)
			if r.P(1, 8) {
				n = r.In(3, 12)
			}
			for ; n > 0; n-- {
				e := reflect.New(f.Type().Elem()).Elem()
				if !value(r, e, tag, depth) {
					break
				}
				f.Set(reflect.Append(f, e))
			}
		default:
			value(r, f, tag, depth)
		}
	}
}

func value(r *core.Rng, f reflect.Value, tag string, depth int) bool {
	if f.Kind() == reflect.Ptr {
		p := reflect.New(f.Type().Elem())
		if p.Elem().Kind() == reflect.Struct {
			if depth <= 0 && !strings.Contains(tag, ",req,") {
				return false
			}
			fill(r, p.Elem(), depth-1)
		} else {
			value(r, p.Elem(), tag, depth)
		}
		f.Set(p)
		return true
	}
	switch f.Kind() {
	case reflect.Bool:
		f.SetBool(r.P(1, 2))
	case reflect.Int32, reflect.Int64:
		if i := strings.Index(tag, "enum="); i >= 0 {
			name := tag[i+5:]
			if j := strings.IndexByte(name, ','); j >= 0 {
				name = name[:j]
			}
			var vs []int
			for _, n := range proto.EnumValueMap(name) {
				vs = append(vs, int(n))
			}
			sort.Ints(vs)
			f.SetInt(int64(vs[r.N(len(vs))]))
			break
		}
		f.SetInt(int64(r.Scalar()))
		if f.Kind() == reflect.Int32 {
			f.SetInt(int64(int32(r.Scalar())))
		}
	case reflect.Uint64:
		f.SetUint(r.Scalar())
	case reflect.Float64:
		f.SetFloat([]float64{0, 1.5, -2, 1e300, 1e-300, 0.1}[r.N(6)])
	case reflect.String:
		f.SetString(text(r))
	case reflect.Slice:
		f.SetBytes(r.Bytes(r.Len(100)))
	}
	return true
}

func text(r *core.Rng) string {
	if r.P(1, 2) {
		return core.Text(r.N(20), r.U64())
	}
	odd := []rune("\"'\\\n\r\t\x00\x01\x7f ?#<>{}:;,.é世\u2028\U0001F600%d")
	var b []rune
	n := r.N(30)
	if r.P(1, 30) {
		n = r.In(1000, 9000)
	}
	for ; n > 0; n-- {
		if r.P(1, 3) {
			b = append(b, odd[r.N(len(odd))])
		} else {
			b = append(b, rune('a'+r.N(26)))
		}
	}
	return string(b)
}
