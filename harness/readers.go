package main

import (
	"sync"
	"time"
)

// ---- C08: many readers inside operations at the same moment --------------------------

// A gate holds goroutines inside operations (in hash functions of keys, in iteration
// callbacks) until every goroutine of a group is inside one or has finished.
type gate struct {
	mu              sync.Mutex
	total           int
	inside, outside int
	open            chan struct{}
}

// crowd, if set, is where every evaluation of a hash function waits. It is set while no
// other goroutine runs.
var crowd *gate

func (g *gate) proceed() bool {
	if g.inside+g.outside < g.total {
		return false
	}
	select {
	case <-g.open:
	default:
		close(g.open)
	}
	return true
}

// arrive waits inside an operation.
func (g *gate) arrive() {
	select {
	case <-g.open: // everyone passes from now on
		return
	default:
	}
	g.mu.Lock()
	g.inside++
	g.proceed()
	g.mu.Unlock()
	select {
	case <-g.open:
	case <-time.After(10 * time.Second): // operations that wait for each other are not judged here
		g.mu.Lock()
		g.total = 0
		g.proceed()
		g.mu.Unlock()
	}
}

// leave is called after the operation.
func (g *gate) leave() {
	g.mu.Lock()
	g.outside++
	g.proceed()
	g.mu.Unlock()
}

func runCrowd(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	h.phase(phases['g'], 2*cs.N, nil)
	for _, k := range h.r.perm(h.n)[:h.n/2] {
		if len(h.present) == 0 || h.val[k] < 0 && h.r.chance(1, 2) {
			h.doPut(k)
		}
	}
	for round := 0; round < 6; round++ {
		h.phase(phases['c'], 1+h.r.n(cs.N), nil)
		total := h.r.pick(3, 9, 18, 34, 66, 70, 130, 140, 260, 300, 600, 1100)
		g := &gate{total: total, open: make(chan struct{})}
		same := -1 // the operation that all of them are in
		if h.r.chance(3, 4) {
			same = h.r.n(5)
		}
		logs := make([]readerLog, total)
		order := h.contents(h.c)
		fs := make([]func(), total)
		for i := range fs {
			c, r := h.c, newRng(h.r.u64())
			if i > 0 {
				c = h.c.Copy()
			}
			fs[i] = func() {
				func() {
					defer g.leave()
					x := same
					if x < 0 {
						x = r.n(5)
					}
					h.crowded(c, r, x, g, order)
				}()
				h.reader(c, r, &logs[i], 1+r.n(2))
			}
		}
		crowd = g
		parallel(fs...)
		crowd = nil
		stats.Checks["readers_in_crowds"] += int64(total)
		stats.Checks["readers_held_inside_an_operation"] += int64(g.inside)
		if int64(g.inside) > stats.Extra["max_readers_inside_at_once"] {
			stats.Extra["max_readers_inside_at_once"] = int64(g.inside)
		}
		dep := h.c.Dep()
		order = h.contents(h.c)
		for i := range logs {
			if logs[i].iterated {
				h.sameOrder(order, logs[i].order, "concurrent iteration")
			}
			if logs[i].measured && logs[i].dep != dep {
				failf("concurrent depth was %v, is %v", logs[i].dep, dep)
			}
		}
	}
	return h
}

// crowded does one checked read that stays inside the operation at g.
func (h *H) crowded(c Cont, r *rng, x int, g *gate, order []int) {
	k := r.n(h.n)
	want := h.val[k]
	if x >= 2 && !h.isMap {
		x = r.n(2)
	}
	switch x {
	case 0:
		if len(order) == 0 {
			c.All(func(int, VP) bool { failf("concurrent iteration of an empty container called back"); return true })
			return
		}
		at, j, stop := r.n(len(order)), 0, len(order)
		if r.chance(1, 3) {
			stop = at + 1 + r.n(len(order)-at)
		}
		c.All(func(q int, p VP) bool {
			if j >= stop || q != order[j] {
				failf("concurrent iteration: call %d of %d passed key %d, want key %d", j+1, stop, q, order[min(j, len(order)-1)])
			}
			if j == at {
				if r.chance(1, 3) { // stays inside an operation inside this one
					h.crowded(c, r, 1, g, order)
				}
				g.arrive()
			}
			if p != nil && p.Load() != h.val[q] {
				failf("concurrent iteration: key %d has value %d, want %d", q, p.Load(), h.val[q])
			}
			j++
			return j < stop
		})
		if j != stop {
			failf("concurrent iteration made %d calls, want %d", j, stop)
		}
	case 1:
		if c.Has(k) != (want >= 0) {
			failf("lookup of key %d among %d concurrent reads: present=%v, want %v", k, g.total, want < 0, want >= 0)
		}
	case 2:
		if v, ok := c.Get(k); ok != (want >= 0) || ok && v != want {
			failf("lookup of key %d among %d concurrent reads: (%d,%v), want %d", k, g.total, v, ok, want)
		}
	case 3:
		if p := c.Ptr(k); (p != nil) != (want >= 0) || p != nil && p.Load() != want {
			failf("lookup of key %d among %d concurrent reads: wrong pointer, want value %d", k, g.total, want)
		}
	case 4:
		if v := c.Val(k); v != max(want, 0) {
			failf("lookup of key %d among %d concurrent reads: value %d, want %d", k, g.total, v, want)
		}
	}
}

func init() {
	cases := properties["C08"].Cases
	properties["C08"].Cases = func(tier string, seed uint64, variant string) []*Case {
		out := cases(tier, seed, variant)
		r := newRng(seed ^ 0xc40d)
		for i := tiered(tier, 1, 12); i > 0; i-- {
			for _, k := range filterKinds(valSubset("int")) {
				c := &Case{Kind: k.Name, N: 1 + r.n(60), Seed: r.u64(), Prof: profStrong(), Shape: "rand", Mix: "gc", Extra: 2}
				if r.chance(1, 2) {
					c.Prof = Profile{Name: "narrow", Alpha: 2 + r.n(4)}
				}
				out = append(out, c)
			}
		}
		return out
	}
}
