package simrt

import (
	"fmt"
	"sort"
)

// MapSeed selects the iteration order of maps in instrumented code. It is part
// of a run's script.
var MapSeed uint64

// Order arranges n map entries in the order selected by MapSeed.
func Order(n int, key func(i int) interface{}, swap func(i, j int)) {
	sort.Sort(&ordered{n, key, swap})
	if MapSeed == 0 {
		return
	}
	z := MapSeed
	for i := n - 1; i > 0; i-- {
		z += 0x9E3779B97F4A7C15
		x := (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		x = (x ^ (x >> 27)) * 0x94D049BB133111EB
		swap(i, int((x>>33)%uint64(i+1)))
	}
}

type ordered struct {
	n    int
	key  func(i int) interface{}
	swap func(i, j int)
}

func (o *ordered) Len() int      { return o.n }
func (o *ordered) Swap(i, j int) { o.swap(i, j) }
func (o *ordered) Less(i, j int) bool {
	switch a := o.key(i).(type) {
	case int:
		return a < o.key(j).(int)
	case int32:
		return a < o.key(j).(int32)
	case int64:
		return a < o.key(j).(int64)
	case uint64:
		return a < o.key(j).(uint64)
	case string:
		return a < o.key(j).(string)
	default:
		return fmt.Sprint(a) < fmt.Sprint(o.key(j))
	}
}
