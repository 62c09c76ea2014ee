package scen

import (
	"time"

	. "verifsim/core"
	"verifsim/simrt"
)

func (sc *Script) clone() *Script {
	c := *sc
	c.Steps = append([]Step(nil), sc.Steps...)
	c.Switches = append([]simrt.Switch(nil), sc.Switches...)
	c.GCs = append([]uint64(nil), sc.GCs...)
	return &c
}

// Minimise shrinks a failing script while a violation of the same class stays.
// try must return the violation of a candidate or nil.
func Minimise(sc *Script, class string, try func(*Script) *Violation, budget time.Duration) (*Script, int) {
	deadline := time.Now().Add(budget)
	tries := 0
	best := sc
	ok := func(c *Script) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		v := try(c)
		if v != nil && v.Class == class {
			best = c
			return true
		}
		return false
	}
	for round := 0; round < 8 && time.Now().Before(deadline); round++ {
		before := tries
		changed := false
		// Steps, switches and collections: drop chunks of halving size.
		changed = ddmin(len(best.Steps), func(lo, hi int) bool {
			c := best.clone()
			c.Steps = append(c.Steps[:lo:lo], best.Steps[hi:]...)
			return ok(c)
		}, func() int { return len(best.Steps) }, deadline) || changed
		changed = ddmin(len(best.Switches), func(lo, hi int) bool {
			c := best.clone()
			c.Switches = append(c.Switches[:lo:lo], best.Switches[hi:]...)
			return ok(c)
		}, func() int { return len(best.Switches) }, deadline) || changed
		changed = ddmin(len(best.GCs), func(lo, hi int) bool {
			c := best.clone()
			c.GCs = append(c.GCs[:lo:lo], best.GCs[hi:]...)
			return ok(c)
		}, func() int { return len(best.GCs) }, deadline) || changed
		// Arguments.
		for i := 0; i < len(best.Steps); i++ {
			for again := true; again && time.Now().Before(deadline); {
				again = false
				for _, s := range shrink(best.Steps[i]) {
					c := best.clone()
					c.Steps[i] = s
					if ok(c) {
						again, changed = true, true
						break
					}
				}
			}
			// The frame, if it has one.
			if len(best.Steps[i].B) > 0 {
				changed = ddmin(len(best.Steps[i].B), func(lo, hi int) bool {
					c := best.clone()
					b := best.Steps[i].B
					c.Steps[i].B = append(append([]byte(nil), b[:lo]...), b[hi:]...)
					return ok(c)
				}, func() int { return len(best.Steps[i].B) }, deadline) || changed
			}
		}
		if best.MapSeed != 0 {
			c := best.clone()
			c.MapSeed = 0
			changed = ok(c) || changed
		}
		if !changed || tries == before {
			break
		}
	}
	return best, tries
}

func ddmin(n int, drop func(lo, hi int) bool, size func() int, deadline time.Time) bool {
	changed := false
	for chunk := n; chunk >= 1; chunk /= 2 {
		for lo := 0; lo < size() && time.Now().Before(deadline); {
			hi := lo + chunk
			if hi > size() {
				hi = size()
			}
			before := size()
			if lo < hi && drop(lo, hi) && size() < before {
				changed = true
			} else {
				lo += chunk
			}
		}
	}
	return changed
}

// shrink yields simpler versions of a step.
func shrink(s Step) []Step {
	var out []Step
	add := func(f func(*Step)) {
		c := s
		c.Faults = append([]Fault(nil), s.Faults...)
		f(&c)
		out = append(out, c)
	}
	for i := range s.Faults {
		add(func(c *Step) { c.Faults = append(c.Faults[:i], c.Faults[i+1:]...) })
	}
	for _, l := range []int{0, 1, s.L / 2, s.L - 1} {
		if l < s.L && l >= 0 {
			add(func(c *Step) { c.L = l })
		}
	}
	for _, v := range []uint64{0, 1, s.V >> 32, s.V >> 8, s.V / 2} {
		if v < s.V {
			add(func(c *Step) { c.V = v })
		}
	}
	if s.K > 0 {
		add(func(c *Step) { c.K = 0 })
	}
	for i, f := range s.Faults {
		if len(f.D) > 1 {
			add(func(c *Step) { c.Faults[i].D = f.D[:len(f.D)/2] })
		}
		if f.N > 1 && f.N < 1<<19 {
			add(func(c *Step) { c.Faults[i].N = f.N / 2 })
		}
	}
	return out
}
