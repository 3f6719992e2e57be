package main

import "math"

func runDepth(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	if cs.Std { // growth as log16 of the size, real hash, random seeds
		check := func() {
			n := float64(len(h.present))
			if n < 500 {
				return
			}
			h.chkN["depth_growth"]++
			d, want := h.c.Dep(), math.Log(n)/math.Log(16)
			stats.Extra["max_abs_deviation_from_log16_permille"] = max(stats.Extra["max_abs_deviation_from_log16_permille"], int64(1000*math.Abs(d-want)))
			if math.Abs(d-want) > 1 {
				failf("mean depth %v for %d randomly hashed keys; log16 of the size is %v", d, len(h.present), want)
			}
		}
		if d := h.c.Dep(); d != 0 {
			failf("mean depth of an empty container is %v", d)
		}
		h.run(func(k int) {
			if h.step&(h.step-1) == 0 {
				check()
			}
		})
		check()
		for _, k := range h.r.perm(h.n)[:h.n*9/10] {
			h.doDel(k)
		}
		check()
		for len(h.present) > 0 {
			h.doDel(h.present[0])
		}
		if d := h.c.Dep(); d != 0 {
			failf("mean depth of an emptied container is %v", d)
		}
		return h
	}
	h.checkDep()
	h.run(func(k int) {
		if h.n <= 100 || h.step%(h.n/50) == 0 {
			h.checkDep()
			if h.r.chance(1, 4) {
				h.disturb()
				h.checkDep()
			}
		}
	})
	h.checkDep()
	h.noteDepth()
	return h
}
