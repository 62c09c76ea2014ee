// Package adapt writes the Go source that puts generated message types behind
// core.Msg.
package adapt

import (
	"bytes"
	"fmt"
	"go/format"
	"unicode"

	"verifsim/core"
)

// Type is a generated type. Its schema's fields have names; Sub of message
// fields is the name of another Type in the same package.
type Type struct {
	Name   string
	Fields []Field
}

// Field of a Type.
type Field struct {
	Name string
	Num  int
	Kind core.Kind
	Sub  string
}

// GoName is the documented accessor name: the field's name in camel case.
func GoName(s string) string {
	out := ""
	up := true
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			up = true
			continue
		}
		if up {
			r = unicode.ToTitle(r)
			up = false
		}
		out += string(r)
	}
	return out
}

var getConv = map[core.Kind]string{
	core.KBool: "core.Bit(%s)", core.KInt32: "uint64(int64(%s))", core.KInt64: "uint64(%s)", core.KUint32: "uint64(%s)",
	core.KUint64: "%s", core.KSint32: "uint64(int64(%s))", core.KSint64: "uint64(%s)", core.KFixed32: "uint64(%s)",
	core.KFixed64: "%s", core.KSfixed32: "uint64(int64(%s))", core.KSfixed64: "uint64(%s)",
	core.KFloat: "uint64(math.Float32bits(%s))", core.KDouble: "math.Float64bits(%s)", core.KEnum: "uint64(%s)",
}

var setConv = map[core.Kind]string{
	core.KBool: "v != 0", core.KInt32: "int32(v)", core.KInt64: "int64(v)", core.KUint32: "uint32(v)",
	core.KUint64: "v", core.KSint32: "int32(v)", core.KSint64: "int64(v)", core.KFixed32: "uint32(v)",
	core.KFixed64: "v", core.KSfixed32: "int32(v)", core.KSfixed64: "int64(v)",
	core.KFloat: "math.Float32frombits(uint32(v))", core.KDouble: "math.Float64frombits(v)", core.KEnum: "uint32(v)",
}

// Source returns a file of package pkg with adapters for the types, which live
// in the package imported from path, registered as prefix.Name.
func Source(pkg, path, prefix string, types []Type) []byte {
	var b bytes.Buffer
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	p("// Code generated by verifsim/adapt. DO NOT EDIT.\n\npackage %s\n", pkg)
	p("import (\n\"math\"\ng %q\n\"verifsim/core\"\n)\n", path)
	p("var _ = math.Pi\n")
	for _, t := range types {
		w := prefix + "_" + t.Name
		p("// %s is a message type on the real generated code.", w)
		p("type %s struct{ M g.%s }\n", w, t.Name)
		p("func (w *%s) Decode(b []byte) error { return w.M.Decode(b) }", w)
		p("func (w *%s) Encode() []byte { return w.M.Encode() }", w)
		p("func (w *%s) Reset(b []byte) { w.M.Reset(b) }", w)
		sw := func(sig string, zero string, f func(i int, f Field) string) {
			p("func (w *%s) %s {\n\tswitch i {", w, sig)
			for i, fd := range t.Fields {
				if s := f(i, fd); s != "" {
					p("\tcase %d:\n\t\t%s", i, s)
				}
			}
			p("\t}\n\tpanic(\"no such field\")\n}")
		}
		sw("GetU(i int) uint64", "", func(i int, f Field) string {
			if !f.Kind.Scalar() {
				return ""
			}
			return "return " + fmt.Sprintf(getConv[f.Kind], "w.M."+GoName(f.Name)+"()")
		})
		sw("SetU(i int, v uint64)", "", func(i int, f Field) string {
			if !f.Kind.Scalar() {
				return ""
			}
			return fmt.Sprintf("w.M.Set%s(%s)\nreturn", GoName(f.Name), setConv[f.Kind])
		})
		one := func(sig string, k core.Kind, body string) {
			sw(sig, "", func(i int, f Field) string {
				if f.Kind != k {
					return ""
				}
				return fmt.Sprintf(body, GoName(f.Name), prefix+"_"+f.Sub, f.Sub)
			})
		}
		one("GetS(i int) string", core.KString, "return w.M.%[1]s()")
		one("SetS(i int, v string)", core.KString, "w.M.Set%[1]s(v)\nreturn")
		one("GetB(i int) []byte", core.KBytes, "return w.M.%[1]s()")
		one("SetB(i int, v []byte)", core.KBytes, "w.M.Set%[1]s(v)\nreturn")
		one("GetM(i int, dst core.Msg) (bool, error)", core.KMsg, "return w.M.%[1]s(&dst.(*%[2]s).M)")
		one("SetM(i int, src core.Msg)", core.KMsg, "w.M.Set%[1]s(src.(*%[2]s).M)\nreturn")
		one("Append(i int, src core.Msg)", core.KRepMsg, "w.M.AppendTo%[1]s(src.(*%[2]s).M)\nreturn")
		one("Iter(i int) core.Iter", core.KRepMsg, "return core.MkIter(w.M.%[1]s(), func(m core.Msg) *g.%[3]s { return &m.(*%[2]s).M })")
		one("Count(i int, dst core.Msg) (int, error)", core.KRepMsg, `it := w.M.%[1]s()
		for n := 0; ; n++ {
			ok, err := it.Next(&dst.(*%[2]s).M)
			if !ok || err != nil {
				return n, err
			}
		}`)
		p("")
	}
	p("func init() {")
	for _, t := range types {
		p("\t%s := &core.Schema{Name: %q, New: func() core.Msg { return new(%s) }}", "s_"+t.Name, prefix+"."+t.Name, prefix+"_"+t.Name)
	}
	for _, t := range types {
		p("\ts_%s.Fields = []*core.Field{", t.Name)
		for _, f := range t.Fields {
			sub := ""
			if f.Sub != "" {
				sub = ", Sub: s_" + f.Sub
			}
			p("\t\t{Num: %d, Kind: core.Kind(%d), Name: %q%s}, // %s", f.Num, int(f.Kind), f.Name, sub, f.Kind)
		}
		p("\t}\n\tcore.Register(s_%s)", t.Name)
	}
	p("}")
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	return out
}
