// Package evo draws families of compatible schema versions and encodes them as
// requests to the protoc plugin.
package evo

import (
	"fmt"
	"strings"

	"verifsim/adapt"
	"verifsim/core"
)

// Field of a message type in one version.
type Field struct {
	adapt.Field
	Label int    // 1 optional, 2 required, 3 repeated
	Omit  int    // parts of the descriptor to leave out
	Enum  string // type name of an enum
	Rep   int    // element descriptor type of a repeated scalar
	Extra []byte // more of its descriptor: options, default, oneof, ...
}

// Type is a message type in one version.
type Type struct {
	Name   string
	Fields []Field
	Extra  []byte
}

// File of a version.
type File struct {
	Name   string
	Types  []Type
	Enums  []string
	Skip   bool // in the request, but not to be generated
	Pkg    string
	Extra  []byte
	Proto2 int // 1: said, 2: unsaid
}

// Version of a family.
type Version struct {
	Pkg   string
	Files []File
}

// Types of all generated files.
func (v *Version) Types() []Type {
	var out []Type
	for _, f := range v.Files {
		if !f.Skip {
			out = append(out, f.Types...)
		}
	}
	return out
}

// Adapt returns the types in the form adapt.Source takes.
func (v *Version) Adapt() []adapt.Type {
	var out []adapt.Type
	for _, t := range v.Types() {
		a := adapt.Type{Name: t.Name}
		for _, f := range t.Fields {
			a.Fields = append(a.Fields, f.Field)
		}
		out = append(out, a)
	}
	return out
}

// A logical field keeps its number for ever and has one of these classes; the
// kinds of a class are compatible on the wire.
var classes = [][]core.Kind{
	{core.KInt32, core.KInt64, core.KUint32, core.KUint64, core.KBool, core.KEnum},
	{core.KInt32, core.KInt64},
	{core.KUint32, core.KUint64, core.KEnum},
	{core.KSint32, core.KSint64},
	{core.KFixed32, core.KSfixed32},
	{core.KFixed64, core.KSfixed64},
	{core.KFloat},
	{core.KDouble},
	{core.KString, core.KBytes},
	{core.KString},
	{core.KBytes},
	{core.KMsg},
	{core.KMsg, core.KRepMsg},
	{core.KRepMsg},
	{core.KMsg, core.KBytes},
	{core.KRep},
}

type logical struct {
	num   int
	class int
	sub   int
	names []string
	since int
	until int
	rep   int
}

var words = []string{"term", "index", "type", "data", "node_id", "log_term", "commit", "a", "b2", "x_1", "HTTPPort", "ref", "context", "peer_", "m", "offset_map",
	"zeropb", "len", "copy", "buffer", "next", "error", "string", "iterator", "self", "value9", "fooBar", "snake_case_name", "UPPER_CASE", "k__double", "err", "nil", "append",
	"int32", "uint64", "message", "map", "range", "bool", "panic", "float64", "byte", "i", "id", "n_100", "entry", "w", "q", "z1", "z2"}

var typeNames = []string{"Alpha", "Beta", "Gamma", "Delta", "Eps_Ilon", "Zeta9", "Entry", "M", "HTTP", "Snapshot"}

// Reserved accessor names: they would collide with the methods every generated
// type has.
func reserved(goName string) bool {
	switch goName {
	case "Encode", "Decode", "Reset", "":
		return true
	}
	return strings.HasPrefix(goName, "Set") || strings.HasPrefix(goName, "AppendTo")
}

func number(r *core.Rng, i int) int {
	switch r.N(12) {
	case 0:
		return r.In(14, 18)
	case 1:
		return r.In(126, 130)
	case 2:
		return r.In(2046, 2050)
	case 3:
		return r.In(100, 1000)
	case 4:
		if r.P(1, 6) {
			return r.In(16383, 16385)
		}
		return r.In(30, 70)
	case 6:
		if i%12 == 5 && r.P(1, 6) {
			// More than 16 bits, congruent to a likely one.
			return 65536 + r.In(1, 24)
		}
	case 5:
		if r.P(1, 12) {
			return r.In(30000, 33000)
		}
		return r.In(255, 258)
	}
	return r.In(1, 24)
}

// Family draws the i-th family of a seed.
func Family(seed uint64, i int) []Version {
	r := core.NewRng(core.Mix(seed, uint64(i), 0xE70))
	nv := r.In(3, 5)
	nt := r.In(2, 4)
	perm := append([]string(nil), typeNames...)
	for k := range perm {
		j := k + r.N(len(perm)-k)
		perm[k], perm[j] = perm[j], perm[k]
	}
	type ltype struct {
		name   string
		fields []*logical
	}
	ts := make([]*ltype, nt)
	for k := range ts {
		t := &ltype{name: perm[k]}
		ts[k] = t
		used := map[int]bool{}
		usedName := map[string]bool{}
		name := func() string {
			for {
				w := words[r.N(len(words))]
				if r.P(1, 5) {
					w = w + fmt.Sprint(r.N(99))
				}
				g := adapt.GoName(w)
				if !usedName[g] && !reserved(g) {
					usedName[g] = true
					return w
				}
			}
		}
		for n := r.In(3, 12); n > 0; n-- {
			f := &logical{num: number(r, i), class: r.N(len(classes)), until: nv, rep: []int{5, 3, 9, 1, 8, 12, 6}[r.N(7)]}
			large := i%12 == 5 && k == 0 && len(t.fields) == 0
			if large {
				f.num = 65536 + r.In(1, 24)
				f.class = []int{13, 13, 0, 8, 11}[r.N(5)]
			}
			if used[f.num] {
				continue
			}
			used[f.num] = true
			f.sub = r.N(nt)
			switch r.N(4) {
			case 0:
				f.since = r.In(0, nv-1)
			case 1:
				f.until = r.In(1, nv)
			case 2:
				f.since = r.N(nv)
				f.until = r.In(f.since+1, nv)
			}
			if large {
				f.since, f.until = 0, nv
			}
			nm := name()
			for v := 0; v < nv; v++ {
				if r.P(1, 10) {
					nm = name()
				}
				f.names = append(f.names, nm)
			}
			t.fields = append(t.fields, f)
		}
	}
	split := r.P(1, 3)
	nr := core.NewRng(core.Mix(seed, uint64(i), 0xE71))
	var vs []Version
	for v := 0; v < nv; v++ {
		pkg := fmt.Sprintf("f%dv%d", i, v)
		ver := Version{Pkg: pkg}
		main := File{Name: pkg + ".proto", Pkg: pkg, Enums: []string{"Color"}}
		if r.P(1, 4) {
			main.Name = "some/dir/" + main.Name
		}
		second := File{Name: pkg + "_more.proto", Pkg: pkg}
		for k, t := range ts {
			ty := Type{Name: t.name}
			for _, f := range t.fields {
				if v < f.since || v >= f.until {
					continue
				}
				ks := classes[f.class]
				kind := ks[r.N(len(ks))]
				x := Field{Field: adapt.Field{Name: f.names[v], Num: f.num, Kind: kind}, Label: r.In(1, 2)}
				switch kind {
				case core.KMsg:
					x.Sub = ts[f.sub].name
				case core.KRepMsg:
					x.Sub = ts[f.sub].name
					x.Label = 3
				case core.KRep:
					x.Label = 3
					x.Rep = f.rep
				case core.KEnum:
					x.Enum = "Color"
				}
				ty.Fields = append(ty.Fields, x)
			}
			// Declaration order is free.
			if r.P(1, 2) {
				for a := range ty.Fields {
					b := a + r.N(len(ty.Fields)-a)
					ty.Fields[a], ty.Fields[b] = ty.Fields[b], ty.Fields[a]
				}
			}
			if split && k%2 == 1 {
				second.Types = append(second.Types, ty)
			} else {
				main.Types = append(main.Types, ty)
			}
		}
		other := File{Name: "other.proto", Pkg: "other", Skip: true, Types: []Type{{Name: ts[0].name, Fields: []Field{{Field: adapt.Field{Name: "x", Num: 1, Kind: core.KInt32}, Label: 1}}}}}
		if r.P(1, 3) {
			ver.Files = append(ver.Files, other)
		}
		ver.Files = append(ver.Files, main)
		if len(second.Types) > 0 {
			ver.Files = append(ver.Files, second)
		}
		if r.P(1, 5) {
			ver.Files = append(ver.Files, File{Name: pkg + "_enums.proto", Pkg: pkg, Enums: []string{"Size"}})
		}
		if r.P(1, 4) && !ver.Files[0].Skip {
			ver.Files = append(ver.Files, other)
		}
		noise(nr, &ver)
		vs = append(vs, ver)
	}
	return vs
}

// noise adds what protoc sends along and what changes nothing about the
// messages: options, defaults, oneofs, comments, services, dependencies.
func noise(r *core.Rng, v *Version) {
	level := r.N(4) // 0: nothing
	if level == 0 {
		return
	}
	p := func(d int) bool { return r.P(level, d) }
	text := func() string {
		return []string{"", " A comment.\n", "x", " ünï\tcode \"quoted\" 'single' \\ \n// line\n/* block */\n", "a/b;c", strings.Repeat("long ", 60)}[r.N(6)]
	}
	for i := range v.Files {
		f := &v.Files[i]
		f.Proto2 = r.N(3)
		for k := range f.Types {
			t := &f.Types[k]
			oneofs := 0
			if p(8) {
				oneofs = r.In(1, 2)
			}
			for j := range t.Fields {
				x := &t.Fields[j]
				var o []byte
				if x.Label == 1 && x.Sub == "" && x.Rep == 0 && p(8) {
					d := "7"
					switch x.Kind {
					case core.KBool:
						d = "true"
					case core.KString, core.KBytes:
						d = text()
					case core.KEnum:
						d = "ColorONE"
					}
					x.Extra = str(x.Extra, 7, d)
				}
				if p(10) {
					o = num(o, 3, r.N(2)) // deprecated
				}
				if x.Rep != 0 && p(4) {
					o = num(o, 2, r.N(2)) // packed
				}
				if x.Sub != "" && p(6) {
					o = num(o, 5, r.N(2)) // lazy
				}
				if x.Kind == core.KString && p(6) {
					o = num(o, 1, r.N(3)) // ctype
				}
				if (x.Kind == core.KInt64 || x.Kind == core.KUint64) && p(6) {
					o = num(o, 6, r.N(3)) // jstype
				}
				if p(40) {
					o = num(o, 50001, r.N(1000)) // an extension
				}
				if o != nil || p(20) {
					x.Extra = str(x.Extra, 8, string(o))
				}
				if x.Label == 1 && oneofs > 0 && r.P(1, 3) {
					x.Extra = num(x.Extra, 9, r.N(oneofs))
				} else if x.Label == 1 && p(30) {
					x.Extra = num(x.Extra, 17, 1) // proto3_optional
				}
			}
			for ; oneofs > 0; oneofs-- {
				t.Extra = str(t.Extra, 8, string(str(nil, 1, fmt.Sprint("one", oneofs))))
			}
			if p(16) {
				t.Extra = str(t.Extra, 7, string(num(nil, 3, 1))) // deprecated
			}
			if p(16) {
				t.Extra = str(t.Extra, 5, string(num(num(nil, 1, 100000), 2, 200000))) // extension range
			}
			if p(16) {
				t.Extra = str(t.Extra, 9, string(num(num(nil, 1, 90000), 2, 90010))) // reserved
				t.Extra = str(t.Extra, 10, "gone")
			}
			if p(16) {
				e := str(nil, 1, "Inner")
				e = str(e, 2, string(num(str(nil, 1, "INNER_ZERO"), 2, 0)))
				t.Extra = str(t.Extra, 4, string(e)) // enum
			}
		}
		if p(8) {
			f.Extra = str(f.Extra, 3, "google/protobuf/descriptor.proto")
			if r.P(1, 2) {
				f.Extra = num(f.Extra, 10, 0)
			}
		}
		if p(6) {
			var o []byte
			if r.P(1, 2) {
				o = str(o, 1, "com.example.f")
			}
			if r.P(1, 2) {
				o = num(o, 9, r.In(1, 3))
			}
			if r.P(1, 3) {
				o = num(o, 23, 1)
			}
			f.Extra = str(f.Extra, 8, string(o))
		}
		if p(8) && len(f.Types) > 0 {
			n := "." + f.Pkg + "." + f.Types[0].Name
			m := str(str(str(nil, 1, "Call"), 2, n), 3, n)
			if r.P(1, 2) {
				m = num(m, 6, 1)
			}
			f.Extra = str(f.Extra, 6, string(str(str(nil, 1, "Service"), 2, string(m))))
		}
		if p(16) && len(f.Types) > 0 {
			x := str(str(nil, 1, "ext"), 2, "."+f.Pkg+"."+f.Types[0].Name)
			f.Extra = str(f.Extra, 7, string(num(num(num(x, 3, 100001), 4, 1), 5, 5)))
		}
		if p(6) {
			var info []byte
			for n := r.In(1, 20); n > 0; n-- {
				l := str(nil, 1, string([]byte{4, byte(r.N(3)), 2, byte(r.N(5))}))
				l = str(l, 2, string([]byte{byte(r.N(100)), 2, byte(r.N(80))}))
				if r.P(1, 2) {
					l = str(l, 3, text())
				}
				if r.P(1, 4) {
					l = str(l, 4, text())
				}
				if r.P(1, 4) {
					l = str(l, 6, text())
				}
				info = str(info, 1, string(l))
			}
			f.Extra = str(f.Extra, 9, string(info))
		}
	}
}

var descType = map[core.Kind]int{core.KBool: 8, core.KInt32: 5, core.KInt64: 3, core.KUint32: 13, core.KUint64: 4, core.KSint32: 17, core.KSint64: 18,
	core.KFixed32: 7, core.KFixed64: 6, core.KSfixed32: 15, core.KSfixed64: 16, core.KFloat: 2, core.KDouble: 1, core.KEnum: 14, core.KString: 9, core.KBytes: 12,
	core.KMsg: 11, core.KRepMsg: 11}

func str(b []byte, num int, s string) []byte {
	b = core.PutTag(b, num, core.WBytes)
	b = core.PutVarint(b, uint64(len(s)), 1)
	return append(b, s...)
}

func num(b []byte, n int, v int) []byte {
	b = core.PutTag(b, n, core.WVarint)
	return core.PutVarint(b, uint64(v), 1)
}

// What Sparse leaves out of a field's descriptor.
const (
	OmitName = 1 << iota
	OmitNum
	OmitLabel
	OmitSub
	OmitJSON
)

// Sparse makes the version's descriptors less regular than protoc's: parts
// left out, files and names to generate twice or in another order.
func Sparse(r *core.Rng, v *Version) {
	files := make([]File, 0, len(v.Files)+1)
	for _, f := range v.Files {
		f.Types = append([]Type(nil), f.Types...)
		for k := range f.Types {
			t := &f.Types[k]
			t.Fields = append([]Field(nil), t.Fields...)
			for j := range t.Fields {
				if r.P(1, 6) {
					t.Fields[j].Omit = 1 << uint(r.N(5))
				}
			}
		}
		files = append(files, f)
	}
	if n := len(files); n > 0 && r.P(1, 2) {
		f := files[r.N(n)]
		if r.P(1, 2) && len(f.Types) > 0 {
			f.Types = f.Types[:r.N(len(f.Types))]
		}
		files = append(files, f)
	}
	for i := range files {
		j := i + r.N(len(files)-i)
		files[i], files[j] = files[j], files[i]
	}
	v.Files = files
}

// Request encodes a CodeGeneratorRequest.
func Request(files []File) []byte {
	var req []byte
	for _, f := range files {
		if !f.Skip {
			req = str(req, 1, f.Name)
		}
	}
	for _, f := range files {
		fd := str(nil, 1, f.Name)
		fd = str(fd, 2, f.Pkg)
		for _, t := range f.Types {
			md := str(nil, 1, t.Name)
			for _, x := range t.Fields {
				var d []byte
				if x.Omit&OmitName == 0 {
					d = str(d, 1, x.Name)
				}
				if x.Omit&OmitNum == 0 {
					d = num(d, 3, x.Num)
				}
				if x.Omit&OmitLabel == 0 {
					d = num(d, 4, x.Label)
				}
				ty := descType[x.Kind]
				if x.Kind == core.KRep {
					ty = x.Rep
				}
				d = num(d, 5, ty)
				if x.Sub != "" && x.Omit&OmitSub == 0 {
					d = str(d, 6, "."+f.Pkg+"."+x.Sub)
				}
				if x.Enum != "" {
					d = str(d, 6, "."+f.Pkg+"."+x.Enum)
				}
				if x.Omit&OmitJSON == 0 {
					d = str(d, 10, jsonName(x.Name))
				}
				d = append(d, x.Extra...)
				md = str(md, 2, string(d))
			}
			md = append(md, t.Extra...)
			fd = str(fd, 4, string(md))
		}
		for _, e := range f.Enums {
			ed := str(nil, 1, e)
			for i, v := range []string{"ZERO", "ONE"} {
				ed = str(ed, 2, string(num(str(nil, 1, e+v), 2, i)))
			}
			fd = str(fd, 5, string(ed))
		}
		fd = append(fd, f.Extra...)
		switch f.Proto2 {
		case 0:
			fd = str(fd, 12, "proto3")
		case 1:
			fd = str(fd, 12, "proto2")
		}
		req = str(req, 15, string(fd))
	}
	return req
}

// jsonName is what protoc derives from a field's name.
func jsonName(s string) string {
	var b strings.Builder
	up := false
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b.WriteRune(c)
	}
	return b.String()
}

// Out is one file of a response.
type Out struct{ Name, Content string }

// Response reads a CodeGeneratorResponse.
func Response(b []byte) ([]Out, error) {
	rs, st := core.Parse(b)
	if st != core.OK {
		return nil, fmt.Errorf("response is not a well-formed message")
	}
	var out []Out
	for _, r := range rs {
		p := b[r.Pay:r.End]
		switch r.Num {
		case 1:
			return nil, fmt.Errorf("response holds an error: %s", p)
		case 15:
			fs, st := core.Parse(p)
			if st != core.OK {
				return nil, fmt.Errorf("file in the response is not a well-formed message")
			}
			var o Out
			for _, f := range fs {
				switch f.Num {
				case 1:
					o.Name = string(p[f.Pay:f.End])
				case 15:
					o.Content = string(p[f.Pay:f.End])
				}
			}
			out = append(out, o)
		}
	}
	return out, nil
}
