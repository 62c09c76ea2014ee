package scen

import (
	"fmt"
	"sort"

	. "verifsim/core"
)

// Which families of schema versions were generated for this build.
var (
	EvoSeed     uint64
	EvoFirst    int
	EvoN        int
	evoVersions map[int]int
	evoTypes    map[int][]string
)

func evoInit() {
	if evoVersions != nil {
		return
	}
	evoVersions, evoTypes = map[int]int{}, map[int][]string{}
	for _, n := range Names() {
		var f, v int
		var t string
		if k, _ := fmt.Sscanf(n, "f%dv%d.%s", &f, &v, &t); k != 3 {
			continue
		}
		if v+1 > evoVersions[f] {
			evoVersions[f] = v + 1
		}
		if v == 0 {
			evoTypes[f] = append(evoTypes[f], t)
		}
	}
	for _, t := range evoTypes {
		sort.Strings(t)
	}
}

func evoSchema(fam, ver int, typ string) *Schema {
	return Named(fmt.Sprintf("f%dv%d.%s", fam, ver, typ))
}

// uni is what a message holds, whatever version looks at it: its records, the
// last of a singular field counting.
type uni struct {
	recs []urec
	amb  map[int]bool // multiple elements replaced by one: the rest is open to those who see a repeated field
}

type urec struct {
	num int
	b   []byte
}

func (u *uni) bytes() []byte {
	var b []byte
	for _, r := range u.recs {
		b = append(b, r.b...)
	}
	return b
}

func (u *uni) clone() *uni {
	c := &uni{recs: append([]urec(nil), u.recs...), amb: map[int]bool{}}
	for k := range u.amb {
		c.amb[k] = true
	}
	return c
}

func uniOf(b []byte) (*uni, bool) {
	rs, st := Parse(b)
	u := &uni{amb: map[int]bool{}}
	for _, r := range rs {
		u.recs = append(u.recs, urec{int(r.Num), append([]byte(nil), b[r.Start:r.End]...)})
	}
	return u, st == OK
}

func (u *uni) set(f *Field, rec []byte) {
	n := 0
	keep := u.recs[:0:0]
	for _, r := range u.recs {
		if r.num == f.Num {
			n++
		} else {
			keep = append(keep, r)
		}
	}
	if n > 1 {
		u.amb[f.Num] = true
	}
	u.recs = append(keep, urec{f.Num, rec})
}

func (u *uni) add(f *Field, rec []byte) { u.recs = append(u.recs, urec{f.Num, rec}) }

func (u *uni) cat(o *uni) *uni {
	c := u.clone()
	c.recs = append(c.recs, o.recs...)
	for k := range o.amb {
		c.amb[k] = true
	}
	return c
}

// model is the message as a version sees it.
func (u *uni) model(s *Schema) *Model {
	m, _ := Read(s, u.bytes())
	for n := range u.amb {
		if f := s.ByNum(n); f != nil && f.Kind == KRepMsg {
			m.Skip[n] = true
		}
	}
	return m
}

func blobRec(num int, b []byte) []byte {
	r := PutTag(nil, num, WBytes)
	r = PutVarint(r, uint64(len(b)), 1)
	return append(r, b...)
}

type edoc struct {
	typ string
	s   *Schema
	m   Msg
	u   *uni
}

type enode struct {
	ver  int
	docs []*edoc
	disk []*eframe
}

type eframe struct {
	doc int
	b   []byte
	u   *uni
}

type eworld struct {
	fam   int
	nv    int
	nodes []*enode
	net   []*eframe
	st    *Stats
}

func (w *eworld) fresh(n *enode, typ string) *edoc {
	s := evoSchema(w.fam, n.ver, typ)
	return &edoc{typ, s, s.New(), &uni{amb: map[int]bool{}}}
}

// verify compares a message with its records as every version sees them.
func (w *eworld) verify(typ string, s *Schema, m Msg, u *uni) string {
	b := m.Encode()
	if len(b) > maxMsg {
		return ""
	}
	if d := Check(m, s, u.model(s), len(b)); d != "" {
		return fmt.Sprintf("accessors of %s: %s", s.Name, d)
	}
	for v := 0; v < w.nv; v++ {
		x := evoSchema(w.fam, v, typ)
		if d := compareBytes(x, b, u.model(x)); d != "" {
			return fmt.Sprintf("as a reader of %s sees it: %s", x.Name, d)
		}
	}
	return ""
}

// write performs one setter on a message and its records. src supplies a
// nested message of the type or nil.
func (w *eworld) write(s *Schema, m Msg, u *uni, i int, p *Step, src Msg) bool {
	if len(m.Encode()) > maxMsg/2 {
		return false
	}
	f := s.Fields[i]
	Limit(len(m.Encode()) + p.L + 70000)
	switch {
	case f.Kind.Scalar():
		v := Canon(f.Kind, p.V)
		m.SetU(i, v)
		r := PutTag(nil, f.Num, f.Kind.Wire())
		u.set(f, PutNum(r, f.Kind.Wire(), WireVal(f.Kind, v), 1))
	case f.Kind == KString:
		setS(m, i, p.L, p.V)
		u.set(f, blobRec(f.Num, value(KString, p.L, p.V)))
	case f.Kind == KBytes && src != nil:
		b := append([]byte(nil), src.Encode()...)
		m.SetB(i, src.Encode())
		u.set(f, blobRec(f.Num, b))
	case f.Kind == KBytes:
		b := value(KString, p.L, p.V)
		if p.K%4 != 0 {
			b = nil
		}
		m.SetB(i, append([]byte{}, b...))
		u.set(f, blobRec(f.Num, b))
	case src == nil:
		return false
	case f.Kind == KMsg:
		b := append([]byte(nil), src.Encode()...)
		m.SetM(i, src)
		u.set(f, blobRec(f.Num, b))
	case f.Kind == KRepMsg:
		b := append([]byte(nil), src.Encode()...)
		m.Append(i, src)
		u.add(f, blobRec(f.Num, b))
	default:
		return false
	}
	return true
}

func init() {
	Scenarios["C12"] = &Scenario{
		Rule: "one script per seed: 2-4 nodes, each running code that the generator under test wrote for one of the 3-5 versions of a drawn schema family, perform 10-50 writes, nested writes, read-modify-writes, sends, out-of-order / duplicated / dropped / concatenated deliveries, checkpoints, crashes and restarts with another version; after every step the message is compared, as each version of the schema sees it, with the records written. Non-trivial: versions differ between sender and receiver of a delivery, or across a restart; distinct by hash of (operation, node versions, field kind) sequence",
		Real: "cmd/protoc-gen-zeropb and generate (run at check time on the families' requests), the code it wrote, runtime (instrumented)", Stub: "network and disks (byte slices), protoc (requests are encoded by the harness), reference reader",
		Gen: func(r *Rng, sc *Script) {
			evoInit()
			if EvoN == 0 {
				panic("no generated families in this binary")
			}
			sc.Opt["evoseed"], sc.Opt["evon"], sc.Opt["evofirst"] = int(EvoSeed), EvoN, EvoFirst
			fam := EvoFirst + r.N(EvoN)
			sc.Opt["fam"] = fam
			n := r.In(2, 4)
			sc.Threads = n
			for i := 0; i < n; i++ {
				sc.Opt[fmt.Sprintf("ver%d", i)] = r.N(evoVersions[fam])
			}
			nt := len(evoTypes[fam])
			for i := 0; i < nt || i < 3; i++ {
				sc.Slots = append(sc.Slots, i%nt)
			}
			maxLen := 300
			if r.P(1, 8) {
				maxLen = 30000
			}
			wset, wnest, wrmw, wsend, wdel, wdisk := r.In(2, 20), r.In(1, 10), r.In(0, 6), r.In(2, 8), r.In(2, 12), r.In(0, 4)
			steps := r.In(10, 50)
			if r.P(1, 100) {
				steps = r.In(200, 600)
				maxLen = 20
			}
			for k := steps; k > 0; k-- {
				p := Step{T: r.N(n), N: r.N(len(sc.Slots)), F: r.N(1 << 10), V: r.Scalar()}
				switch r.Pick(wset, wnest, wrmw, wsend, wdel, wdisk, wdisk, wdisk, 1, 1) {
				case 0:
					p.Op, p.L, p.K = "set", r.Len(maxLen), r.N(8)
				case 1:
					p.Op, p.N2 = "nest", r.N(len(sc.Slots))
				case 2:
					p.Op, p.V = "rmw", r.U64()
				case 3:
					p.Op = "send"
				case 4:
					p.Op, p.K, p.L, p.V = "deliver", r.N(100), r.N(16), r.U64()
					if r.P(2, 3) {
						p.K = 0
					}
				case 5:
					p.Op = "ckpt"
				case 6:
					p.Op = "restore"
				case 7:
					p.Op, p.V = "restart", uint64(r.N(evoVersions[fam]))
				case 8:
					p.Op = "reset"
				case 9:
					ver := r.N(evoVersions[fam])
					p.Op = "foreign"
					o := GenOpt(r)
					o.Mismatch, o.Overlong = false, false // see C03, C04
					if o.Big > maxLen {
						o.Big = maxLen
					}
					p.B = Frame(r, evoSchema(fam, ver, evoTypes[fam][sc.Slots[p.N]]), o)
				}
				sc.Steps = append(sc.Steps, p)
			}
			sc.MapSeed = r.U64()
		},
		Run: func(sc *Script, st *Stats) *Violation {
			evoInit()
			if uint64(sc.Opt["evoseed"]) != EvoSeed || sc.Opt["fam"] < EvoFirst || sc.Opt["fam"] >= EvoFirst+EvoN {
				panic("this script needs another build")
			}
			return solo(sc, st, func() *Violation {
				w := &eworld{fam: sc.Opt["fam"], st: st}
				w.nv = evoVersions[w.fam]
				for i := 0; i < sc.Threads; i++ {
					n := &enode{ver: sc.Opt[fmt.Sprintf("ver%d", i)] % w.nv}
					for _, t := range sc.Slots {
						n.docs = append(n.docs, w.fresh(n, evoTypes[w.fam][t]))
						n.disk = append(n.disk, nil)
					}
					w.nodes = append(w.nodes, n)
				}
				for i := range sc.Steps {
					if spent(st) {
						break
					}
					if v := guard(i, func() *Violation { return w.do(i, &sc.Steps[i]) }); v != nil {
						return v
					}
				}
				return nil
			})
		},
	}
}

func (w *eworld) do(i int, p *Step) *Violation {
	n := w.nodes[p.T%len(w.nodes)]
	k := p.N % len(n.docs)
	d := n.docs[k]
	w.st.Count("op:" + p.Op)
	w.st.NoteS(p.Op)
	w.st.Note(uint64(n.ver))
	bad := func(what, msg string) *Violation {
		return violation("mismatch", i, "node %d (version %d), message %d (%s), %s: %s", p.T%len(w.nodes), n.ver, k, d.typ, what, msg)
	}
	decode := func(d *edoc, b []byte, u *uni, fresh bool) *Violation {
		if fresh {
			d.m = d.s.New()
		}
		c := append(make([]byte, 0, len(b)+9), b...)
		Limit(len(b))
		if err := d.m.Decode(c); err != nil {
			return violation("reject", i, "node %d (version %d) rejects a message of type %s: %v: %s", p.T%len(w.nodes), n.ver, d.typ, err, shortHex(b))
		}
		d.u = u.clone()
		return nil
	}
	x := -1
	if len(d.s.Fields) > 0 {
		x = p.F % len(d.s.Fields)
		w.st.Note(uint64(d.s.Fields[x].Kind))
	}
	switch p.Op {
	case "set":
		if x >= 0 {
			w.write(d.s, d.m, d.u, x, p, nil)
		}
	case "nest":
		for q := range d.s.Fields {
			// The first field from x on that can hold the other message.
			j := (x + q) % len(d.s.Fields)
			f := d.s.Fields[j]
			o := n.docs[p.N2%len(n.docs)]
			if o == d || f.Kind != KBytes && f.Sub != o.s || len(o.m.Encode()) > maxMsg/4 {
				continue
			}
			if f.Kind == KBytes && p.V%3 != 0 {
				continue
			}
			w.write(d.s, d.m, d.u, j, p, o.m)
			break
		}
	case "rmw":
		for q := range d.s.Fields {
			j := (x + q) % len(d.s.Fields)
			f := d.s.Fields[j]
			if f.Kind != KMsg {
				continue
			}
			sub := f.Sub.New()
			Limit(len(d.m.Encode()))
			ok, err := d.m.GetM(j, sub)
			if !ok || err != nil || len(f.Sub.Fields) == 0 {
				break
			}
			su, fine := uniOf(sub.Encode())
			if !fine {
				break
			}
			r := NewRng(p.V)
			for c := r.In(1, 3); c > 0; c-- {
				w.write(f.Sub, sub, su, r.N(len(f.Sub.Fields)), &Step{V: r.Scalar(), L: r.N(40)}, nil)
			}
			typ := f.Sub.Name[len(fmt.Sprintf("f%dv%d.", w.fam, n.ver)):]
			if s := w.verify(typ, f.Sub, sub, su); s != "" {
				return bad("nested message after changes", s)
			}
			b := append([]byte(nil), sub.Encode()...)
			d.m.SetM(j, sub)
			d.u.set(f, blobRec(f.Num, b))
			break
		}
	case "reset":
		d.m.Reset(d.m.Encode()[:0])
		d.u = &uni{amb: map[int]bool{}}
	case "send":
		if len(w.net) < 30 && len(d.m.Encode()) < maxMsg/2 {
			w.net = append(w.net, &eframe{k, append([]byte(nil), d.m.Encode()...), d.u.clone()})
			w.st.Note(uint64(len(w.net)))
		}
		return nil
	case "foreign":
		u, ok := uniOf(p.B)
		if ok && len(w.net) < 30 {
			w.net = append(w.net, &eframe{k, p.B, u})
		}
		return nil
	case "deliver":
		if len(w.net) == 0 {
			return nil
		}
		q := p.K % len(w.net)
		f := w.net[q]
		if q > 0 {
			w.st.Fault("reorder")
		}
		if p.L&3 == 3 && len(f.b) < maxMsg/4 {
			w.st.Fault("duplicate")
		} else {
			w.net = append(w.net[:q:q], w.net[q+1:]...)
		}
		if p.L == 4 {
			w.st.Fault("drop")
			return nil
		}
		k = f.doc
		d = n.docs[k]
		b, u := f.b, f.u
		if p.L&12 == 8 && len(d.m.Encode())+len(b) < maxMsg {
			// A retransmission glued to what is already there.
			w.st.Fault("concatenate")
			b = append(append([]byte(nil), d.m.Encode()...), b...)
			u = d.u.cat(u)
		}
		w.st.Nontrivial()
		w.st.Count("probe:delivered")
		if v := decode(d, b, u, p.V&1 == 0); v != nil {
			return v
		}
	case "ckpt":
		n.disk[k] = &eframe{k, append([]byte(nil), d.m.Encode()...), d.u.clone()}
		return nil
	case "restore":
		if f := n.disk[k]; f != nil {
			if v := decode(d, f.b, f.u, p.V&1 == 0); v != nil {
				return v
			}
		}
	case "restart":
		old := n.ver
		n.ver = int(p.V) % w.nv
		w.st.Fault("crash")
		if old != n.ver {
			w.st.Fault("version-change")
		}
		for k, d := range n.docs {
			n.docs[k] = w.fresh(n, d.typ)
			if f := n.disk[k]; f != nil {
				if v := decode(n.docs[k], f.b, f.u, false); v != nil {
					return v
				}
			}
		}
		for _, d := range n.docs {
			if s := w.verify(d.typ, d.s, d.m, d.u); s != "" {
				return bad("after restart", s)
			}
		}
		return nil
	}
	w.st.Log("%d %s node %d v%d m%d field %d -> %d bytes", i, p.Op, p.T, n.ver, k, x, len(d.m.Encode()))
	if s := w.verify(d.typ, d.s, d.m, d.u); s != "" {
		return bad("after "+p.Op, s)
	}
	return nil
}
