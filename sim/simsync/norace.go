//go:build !race

package simsync

func acquire[T any](p *T) {}
func release[T any](p *T) {}
