package core

// MkIter wraps a generated iterator.
func MkIter[T, E any, P interface {
	*T
	Next(*E) (bool, error)
}](v T, get func(Msg) *E) Iter {
	return &genIter[T, E, P]{v, get}
}

type genIter[T, E any, P interface {
	*T
	Next(*E) (bool, error)
}] struct {
	v   T
	get func(Msg) *E
}

func (g *genIter[T, E, P]) Next(dst Msg) (bool, error) { return P(&g.v).Next(g.get(dst)) }
func (g *genIter[T, E, P]) Copy() Iter                 { c := *g; return &c }
