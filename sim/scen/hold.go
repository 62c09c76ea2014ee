package scen

import (
	"bytes"

	. "verifsim/core"
)

// heldView is a value obtained from a message and kept.
type heldView struct {
	slot int // -1: the message is gone
	b    []byte
	s    string
	want []byte
}

func (v *heldView) now() []byte {
	if v.b == nil {
		return []byte(v.s)
	}
	return v.b
}

// held are the values a thread keeps.
type held []*heldView

// hold reads a blob that the step chooses: a field, or a field of a nested
// message or element.
func (w *World) hold(p *Step) (res uint64, v *heldView) {
	sl := w.slot(p.N)
	if sl.model == nil {
		return 0, nil
	}
	m, s, r := sl.m, sl.s, NewRng(p.V)
	i, f := sl.field(p.F)
	for depth := 0; ; depth++ {
		if i < 0 {
			return 1, nil
		}
		Limit(len(sl.m.Encode()))
		v = &heldView{slot: p.N % len(w.slots)}
		switch f.Kind {
		case KRep:
			return 7, nil
		case KString:
			v.s = m.GetS(i)
			v.want = append([]byte(nil), v.s...)
			return HashBytes(2, v.want), v
		case KBytes:
			v.b = m.GetB(i)
			v.want = append([]byte(nil), v.b...)
			return HashBytes(3, v.want), v
		case KMsg:
			sub := f.Sub.New()
			if ok, err := m.GetM(i, sub); !ok || err != nil {
				return 4, nil
			}
			m = sub
		case KRepMsg:
			sub, it := f.Sub.New(), m.Iter(i)
			for n := r.N(3); ; n-- {
				if ok, err := it.Next(sub); !ok || err != nil {
					return 5, nil
				}
				if n == 0 {
					break
				}
			}
			m = sub
		default:
			return Canon(f.Kind, m.GetU(i)), nil
		}
		s = f.Sub
		if depth == 3 || r.P(1, 6) {
			// The nested message's bytes are a view, too.
			v.b = m.Encode()
			v.want = append([]byte(nil), v.b...)
			return HashBytes(6, v.want), v
		}
		i, f = -1, nil
		k := r.N(len(s.Fields) + 1)
		for j := range s.Fields {
			x := (j + k) % len(s.Fields)
			if i < 0 || blobField(s.Fields[x]) && !blobField(f) {
				i, f = x, s.Fields[x]
			}
		}
	}
}

// drop forgets what is no longer valid after a step. all tells whether buffers
// are shared between messages.
func (h *held) drop(w *World, p *Step) {
	switch p.Op {
	case "get", "dig", "hold", "ckpt", "sweep":
		return
	}
	n := p.N % len(w.slots)
	keep := (*h)[:0]
	for _, v := range *h {
		if v.slot != n && p.Op != "crash" && !(p.K%4 == 2 && (p.Op == "dec" || p.Op == "restore" || p.Op == "ship")) {
			keep = append(keep, v)
		}
	}
	*h = keep
}

// changed returns a held value that is not what it was.
func (h held) changed() *heldView {
	for _, v := range h {
		if !bytes.Equal(v.now(), v.want) {
			return v
		}
	}
	return nil
}

// hash is a digest of what the held values are now.
func (h held) hash() uint64 {
	x := uint64(len(h))
	for _, v := range h {
		x = HashBytes(x, v.now())
	}
	return x
}
