//go:build race

package simsync

import (
	"runtime"
	"unsafe"
)

func acquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
