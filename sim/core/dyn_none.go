//go:build nodyn

package core

// For code under test whose runtime no longer has the functions that dyn.go
// calls. Generated types do without those.

const haveDyn = false

// NewDyn isn't called.
func NewDyn(s *Schema) Msg { panic("no dynamic types in this build") }
