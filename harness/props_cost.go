package main

import (
	"math"
	"runtime"
	"runtime/metrics"
	"sync"
)

// ---- C20: work of operations ---------------------------------------------------

// The ticks variant counts every block of the package's code that is entered. The
// bounds are about eight times what was measured on the repository, so that only
// another order of growth exceeds them.
const (
	costBase   = 250 // an operation at the root
	costLevel  = 60  // for each further level
	costConst  = 24  // Len, Dep, Nil
	costEntry  = 25  // iteration: an entry
	costBranch = 60  // iteration: a branch
)

func (h *H) cost(k, lcp int, what string, f func()) {
	var large int64
	if h.large {
		large = largeBytes()
	}
	t := ticks()
	h.setOp(what)
	f()
	h.endOp()
	got := ticks() - t
	if h.large {
		h.chkN["large_allocations"]++
		if b := largeBytes() - large; b > largeLimit {
			failf("a single %s allocated %d bytes in large objects, with %d keys present", what, b, len(h.present))
		}
	}
	if got == 0 {
		panic("harness: no work counted")
	}
	h.chkN["cost_"+what]++
	bound := int64(costBase + costLevel*lcp)
	if got > bound {
		failf("%s of key %d took %d steps; it shares %d digits with any other of the %d present keys, so at most %d are allowed", what, k, got, lcp, len(h.present), bound)
	}
	if lcp < 4 {
		stats.Extra["max_steps_shallow_"+what] = max(stats.Extra["max_steps_shallow_"+what], got)
	}
	if lcp > 100 {
		stats.Extra["max_steps_per_level_deep_"+what] = max(stats.Extra["max_steps_per_level_deep_"+what], got/int64(lcp))
	}
	stats.Extra["max_cost_permille_of_bound"] = max(stats.Extra["max_cost_permille_of_bound"], got*1000/bound)
}

// branches returns the number of branches below the root: distinct common prefixes
// of present keys, of every length.
func (h *H) branches() int {
	g := h.needDigits()
	n, prev, run := 0, -1, 1<<30
	last := 0 // length of the prefix shared by the previous two
	for i, k := range g.ord {
		if i > 0 {
			run = min(run, g.lcp[i])
		}
		if h.val[k] < 0 {
			continue
		}
		if prev >= 0 {
			n += max(0, run-last)
			last = run
		}
		prev, run = k, 1<<30
	}
	return n
}

func runCost(cs *Case) *H {
	if cs.Mix == "growth" {
		return runGrowth(cs)
	}
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	if cs.Extra > 0 {
		h.budget = int64(cs.Extra)
	}
	cheap := func() {
		for _, o := range []struct {
			what string
			f    func()
		}{{"length", func() { h.c.Len() }}, {"depth", func() { h.c.Dep() }}, {"nil test", func() { h.c.Nil() }}} {
			t := ticks()
			o.f()
			if got := ticks() - t; got > costConst {
				failf("%s of a container with %d keys took %d steps, at most %d are allowed", o.what, len(h.present), got, costConst)
			}
			h.chkN["cost_constant"]++
		}
	}
	iterate := func() {
		b := h.branches()
		bound := int64(costBase + costEntry*len(h.present) + costBranch*b)
		t := ticks()
		n := 0
		h.c.All(func(int, VP) bool { n++; return true })
		got := ticks() - t
		if got > bound {
			failf("iteration of %d keys and %d branches took %d steps, at most %d are allowed", len(h.present), b, got, bound)
		}
		stats.Extra["max_iteration_cost_permille_of_bound"] = max(stats.Extra["max_iteration_cost_permille_of_bound"], got*1000/bound)
		h.chkN["cost_iteration"]++
	}
	one := func(k int) {
		l := h.maxLCP(k)
		stats.Extra["max_shared_digits"] = max(stats.Extra["max_shared_digits"], int64(l))
		switch h.r.n(4) {
		case 0:
			h.cost(k, l, "lookup", func() { h.c.Has(k) })
			if h.isMap {
				h.cost(k, l, "lookup", func() { h.c.Val(k) })
				h.cost(k, l, "lookup", func() { h.c.Ptr(k) })
			}
		case 1:
			old := h.val[k]
			h.cost(k, l, "deletion", func() { h.c.Del(k) })
			h.modelDel(k)
			if old >= 0 && h.r.chance(2, 3) {
				h.cost(k, l, "insertion", func() { h.c.Put(k, old) })
				h.modelPut(k, old)
			}
		default:
			v := h.newVal()
			if h.isMap && h.r.chance(1, 2) {
				h.cost(k, l, "modification", func() { h.c.Mod(k, func(p VP, _ bool) { p.Store(v) }) })
			} else {
				h.cost(k, l, "insertion", func() { h.c.Put(k, v) })
			}
			h.modelPut(k, v)
		}
		h.opc[3]++
	}
	cheap()
	iterate()
	every := 1 + h.cs.Ops/12
	h.run(func(k int) {
		one(h.r.n(h.n))
		cheap()
		if h.step%every == 0 {
			iterate()
			h.noteDepth()
		}
	})
	for t := 0; t < 400; t++ {
		one(h.r.n(h.n))
	}
	cheap()
	iterate()
	h.contents(h.c)
	h.noteDepth()
	return h
}

// allocated runs f, which operates n times on keys that share lcp digits with
// others at most, and bounds the memory allocated meanwhile, by the harness included.
func (h *H) allocated(what string, n, lcp int, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	got := int64(b.TotalAlloc-a.TotalAlloc) / int64(n)
	rounds := int64(lcp/16 + 2)
	l := int64(max(h.in.L, 64))
	bound := 4096 + 256*int64(lcp) + 8*l*rounds*rounds
	h.chkN["allocation_"+what]++
	stats.Extra["max_bytes_allocated_"+what] = max(stats.Extra["max_bytes_allocated_"+what], got)
	if got > bound {
		failf("%s allocated %d bytes on average, with %d keys present that share at most %d digits; at most %d are allowed", what, got, len(h.present), lcp, bound)
	}
}

// largeBytes returns how much memory has been allocated in objects of more than 32 KiB.
// Unlike memory in small objects, the runtime accounts for it at once.
func largeBytes() int64 {
	metrics.Read(largeSamples)
	n := largeSamples[0].Value.Uint64()
	hist := largeSamples[1].Value.Float64Histogram()
	for i, c := range hist.Counts {
		if up := hist.Buckets[i+1]; !math.IsInf(up, 1) {
			n -= c * (uint64(up) - 1)
		}
	}
	return int64(n)
}

var largeSamples = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}, {Name: "/gc/heap/allocs-by-size:bytes"}}

const largeLimit = 200 << 10

// runGrowth counts the work of every operation while a container grows beyond 65536
// keys and shrinks again, and measures allocations at several sizes.
func runGrowth(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	h.large = true
	lcp := 0
	g := h.needDigits()
	for _, l := range g.lcp {
		lcp = max(lcp, l)
	}
	probe := func() {
		n := 40
		keys := make([]int, n)
		for i := range keys {
			keys[i] = h.present[h.r.n(len(h.present))]
		}
		h.allocated("lookup", n, lcp, func() {
			for _, k := range keys {
				h.cost(k, lcp, "lookup", func() { h.c.Has(k) })
			}
		})
		h.allocated("overwrite", n, lcp, func() {
			for _, k := range keys {
				v := h.newVal()
				h.cost(k, lcp, "insertion", func() { h.c.Put(k, v) })
				h.modelPut(k, v)
			}
		})
		h.allocated("deletion", n, lcp, func() {
			for _, k := range keys {
				h.cost(k, lcp, "deletion", func() { h.c.Del(k) })
				h.modelDel(k)
			}
		})
		h.allocated("failed deletion", n, lcp, func() {
			for _, k := range keys {
				h.cost(k, lcp, "deletion", func() { h.c.Del(k) })
			}
		})
		h.allocated("failed lookup", n, lcp, func() {
			for _, k := range keys {
				h.cost(k, lcp, "lookup", func() { h.c.Has(k) })
			}
		})
		h.allocated("insertion", n, lcp, func() {
			for i, k := range keys {
				v := h.newVal()
				if h.isMap && i%2 == 0 {
					h.cost(k, lcp, "modification", func() { h.c.Mod(k, func(p VP, _ bool) { p.Store(v) }) })
				} else {
					h.cost(k, lcp, "insertion", func() { h.c.Put(k, v) })
				}
				h.modelPut(k, v)
			}
		})
		h.allocated("stopped iteration", n, lcp, func() {
			for range n {
				h.c.All(func(int, VP) bool { return false })
			}
		})
		h.allocated("length", n, lcp, func() {
			for range n {
				h.c.Len()
				h.c.Dep()
				h.c.Nil()
			}
		})
		h.opc[3] += int64(n) * 5
	}
	due := func() bool {
		n := len(h.present)
		return n&(n-1) == 0 || n%5000 == 0
	}
	for _, k := range h.r.perm(h.n) {
		if h.val[k] >= 0 {
			continue // by a probe
		}
		v := h.newVal()
		if h.isMap && h.r.chance(1, 3) {
			h.cost(k, lcp, "modification", func() { h.c.Mod(k, func(p VP, _ bool) { p.Store(v) }) })
		} else {
			h.cost(k, lcp, "insertion", func() { h.c.Put(k, v) })
		}
		h.modelPut(k, v)
		h.done(k, nil)
		if due() {
			probe()
		}
	}
	h.opc[0] += int64(h.n)
	h.contents(h.c)
	for _, k := range h.r.perm(h.n) {
		h.cost(k, lcp, "deletion", func() { h.c.Del(k) })
		h.modelDel(k)
		h.done(k, nil)
		if len(h.present) > 0 && due() {
			probe()
		}
	}
	h.opc[1] += int64(h.n)
	h.contents(h.c)
	return h
}

func growthCases(seed uint64) []*Case {
	var out []*Case
	for i, k := range filterKinds(valSubset("int")) {
		r := newRng(seed, 0x6707, uint64(i))
		c := &Case{Kind: k.Name, N: 66000 + r.n(3000), Ops: 1, Mix: "growth", Shape: "rand", Prof: profStrong(), Seed: r.u64()}
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = "fix"
		}
		out = append(out, c)
	}
	return out
}

func costCases(tier string, seed uint64, variant string) []*Case {
	out := genCases(filterKinds(valSubset("int", "big")), tiered(tier, 6, 300), seed, "cost", 6, true, func(c *Case, k *Kind, r *rng) {
		switch r.n(5) {
		case 0: // many keys
			c.N = 1500 + r.n(3000)
			c.Ops = c.N
			c.Prof = profStrong()
			c.Mix = []string{"FT", "FE", "gs", "FTgE"}[r.n(4)]
		case 1: // deep
			c.Prof = Profile{Name: "verydeep", Alpha: 16, PMax: 100 + r.n(300), NClass: 1 + r.n(3)}
			c.N = 2 + r.n(30)
			c.Ops = 40 + c.N*8
		case 2:
			c.Prof = Profile{Name: "deep48", Alpha: 16, PMax: 48, NClass: 1 + r.n(1+c.N/2)}
		}
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = []string{"fix", "fix", "long"}[r.n(3)]
			if c.Prof.PMax > 60 {
				c.Shape = "fix"
			}
		}
	})
	return append(append(out, abyssCases(seed)...), growthCases(seed)...)
}

// deepCostCases have long shared prefixes only.
func deepCostCases(tier string, seed uint64) []*Case {
	return append(genCases(filterKinds(valSubset("int")), tiered(tier, 3, 150), seed, "deepcost", 8, false, func(c *Case, k *Kind, r *rng) {
		c.Prof = Profile{Name: "verydeep", Alpha: 16, PMax: 60 + r.n(300), NClass: 1 + r.n(3)}
		c.N = 2 + r.n(60)
		c.Ops = 40 + c.N*8
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = "fix"
		}
	}), abyssCases(seed)...)
}

// abyssCases have chains of thousands of levels.
func abyssCases(seed uint64) (out []*Case) {
	for i, k := range filterKinds(valSubset("int")) {
		r := newRng(seed, 0xabcd, uint64(i))
		c := &Case{Kind: k.Name, N: 2 + r.n(3), Seed: r.u64(), Mix: "FEc", Ops: 20, Shape: "rand",
			Prof: Profile{Name: "abyss", Alpha: 16, PMax: 2000 + r.n(500), NClass: 1}}
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = "fix"
		}
		c.Extra = 40 * (c.Prof.PMax/16 + 3)
		out = append(out, c)
	}
	return out
}

// ---- C19: seeds ------------------------------------------------------------------

// runSeeds fills several containers of one type alike. Only their seeds differ.
func runSeeds(cs *Case) *H {
	setup(cs)
	uninstallHash()
	in := kindByName(cs.Kind).Inst(&Env{Shape: cs.Shape, N: cs.N, Seed: cs.Seed, Prof: cs.Prof})
	const G = 6
	hs := make([]*H, G)
	orders := make([][]int, G)
	for i := range hs {
		c2 := *cs
		h := newH(&c2, in, 0)
		h.kh = mix64(uint64(i) ^ cs.Seed)
		hs[i], curH = h, h
		if i > 0 {
			switch h.r.n(3) { // what came before has no influence
			case 0:
				h.c = hs[0].c.Fresh()
			case 1:
				for k := 0; k < h.n/2; k++ {
					h.doPut(k)
				}
				for k := 0; k < h.n/2; k++ {
					h.doDel(k)
				}
			}
		}
		h.r = newRng(cs.Seed, 21) // the same history for all
		h.run(nil)
		for k := 0; k < h.n; k++ {
			if h.val[k] < 0 {
				h.doPut(k)
			}
		}
		orders[i] = h.contents(h.c)
		h.sameOrder(orders[i], h.contents(h.c), "a repeated iteration")
		for j := 0; j < i; j++ {
			stats.Checks["pairs_of_orders"]++
			same := 0
			for t := range orders[i] {
				if orders[i][t] == orders[j][t] {
					same++
				}
			}
			// Random orders agree in about one position.
			if same > 20 {
				failf("two containers of %d keys have %d keys at the same position of their iteration, so they do not have independent seeds", h.n, same)
			}
			// Nor are they reversed or otherwise related: rank correlation.
			if rho := rankCorrelation(orders[i], orders[j]); math.Abs(rho)*math.Sqrt(float64(h.n)) > 9 {
				failf("the iteration orders of two containers of %d keys have rank correlation %.3f, so they do not have independent seeds", h.n, rho)
			}
			// Nor are keys which collide in one of them likely to collide in the other.
			near, pairs, p, conc, both := neighbours(orders[i], orders[j])
			sd := (float64(near) - p*float64(pairs)) / math.Sqrt(p*float64(pairs))
			stats.Extra["max_neighbour_deviation_permille_sd"] = max(stats.Extra["max_neighbour_deviation_permille_sd"], int64(1000*sd))
			if sd > 14 {
				failf("of %d pairs of keys that are close in the iteration order of a container of %d keys, %d are close in that of another one; about %.0f would be if they had independent seeds", pairs, h.n, near, p*float64(pairs))
			}
			dev := math.Abs(float64(conc)-float64(both)/2) / math.Sqrt(float64(both)/4+1)
			stats.Extra["max_concordance_deviation_permille_sd"] = max(stats.Extra["max_concordance_deviation_permille_sd"], int64(1000*dev))
			if dev > 14 {
				failf("of %d pairs of keys that are close in the iteration orders of two containers of %d keys, %d are in the same order; about half would be if they had independent seeds", both, h.n, conc)
			}
		}
	}
	for _, h := range hs[1:] {
		h.finish()
	}
	return hs[0]
}

// runManySeeds constructs tens of thousands of containers and compares the layouts
// of all containers of one type, and all seeds that custom keys get to see.
func runManySeeds(cs *Case) *H {
	setup(cs)
	uninstallHash()
	r := newRng(cs.Seed, 33)
	const K = 20
	type group struct {
		h    *H
		seen map[[K]int8]int // shared by all types with the same keys
	}
	const G = 8
	var gs []*group
	insts, seen := make([][]*Inst, G), map[string]map[[K]int8]int{}
	for _, k := range filterKinds(func(k *Kind) bool { return valSubset("int")(k) && k.KeyK != "weak" }) {
		c2 := *cs
		c2.Kind = k.Name
		shape := "rand"
		if k.KeyK == "string" || k.KeyK == "bytes" {
			shape = "fix"
		}
		in := k.Inst(&Env{Shape: shape, N: K, Seed: cs.Seed, Prof: cs.Prof})
		h := newH(&c2, in, 0)
		if seen[k.KeyK] == nil {
			seen[k.KeyK] = map[[K]int8]int{}
		}
		gs = append(gs, &group{h, seen[k.KeyK]})
		for j := range insts { // one for each goroutine
			insts[j] = append(insts[j], k.Inst(&Env{Shape: shape, N: K, Seed: cs.Seed, Prof: cs.Prof}))
		}
	}
	curH = gs[0].h
	var made [][2]any // made at once by several goroutines, not filled yet
	burst := func() {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(runtime.NumCPU()))
		var wg sync.WaitGroup
		start := make(chan bool)
		outs := make([][][2]any, G)
		for j := range outs {
			rj := newRng(r.u64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				t := rj.n(len(gs))
				for i := 0; i < 512; i++ {
					outs[j] = append(outs[j], [2]any{insts[j][t].New(), t})
					if i%16 == 0 {
						t = rj.n(len(gs))
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, o := range outs {
			made = append(made, o...)
		}
		stats.Extra["containers_made_in_parallel"] += int64(len(made))
	}
	var kept []Cont
	perm := r.perm(K)
	for i := 0; i < cs.N; i++ {
		g := gs[r.n(len(gs))]
		curOp.begin()
		var c Cont
		if cs.Extra == 0 {
			c = g.h.in.New()
		} else {
			if len(made) == 0 {
				burst()
			}
			m := made[len(made)-1]
			made = made[:len(made)-1]
			c, g = m[0].(Cont), gs[m[1].(int)]
		}
		for _, k := range perm {
			c.Put(k, k)
		}
		var o [K]int8
		n := 0
		c.All(func(k int, _ VP) bool {
			if n < K {
				o[n] = int8(k)
			}
			n++
			return true
		})
		curOp.end()
		if n != K {
			failf("iteration of %d keys made %d calls", K, n)
		}
		stats.Checks["layouts"]++
		stats.Ops += K
		if j, ok := g.seen[o]; ok {
			failf("containers %d and %d (of type %s), made by the same insertions of %d keys, iterate in the same order: they have the same seed", j, i, g.h.cs.Kind, K)
		}
		g.seen[o] = i
		switch r.n(8) { // some live on, some are emptied, most are dropped
		case 0:
			kept = append(kept, c)
		case 1:
			for _, k := range perm {
				c.Del(k)
			}
			kept = append(kept, c)
		}
	}
	for _, c := range kept {
		c.Len()
	}
	stats.Extra["containers_compared"] += int64(cs.N)
	return gs[0].h
}

// neighbours counts the pairs of keys that are close in a, how many of them are close
// in b too, which has probability p for independent orders, and how many of the latter
// are in the same order.
func neighbours(a, b []int) (near, pairs int, p float64, conc, both int) {
	n := len(a)
	rb := make([]int, n)
	for i, k := range b {
		rb[k] = i
	}
	w := max(1, n/64)
	for i := range a {
		for j := i + 1; j <= i+w && j < n; j++ {
			pairs++
			if d := rb[a[j]] - rb[a[i]]; d >= -w && d <= w {
				near++
				if d > 0 {
					conc++
				}
			}
		}
	}
	return near, pairs, 2 * float64(w) / float64(n), conc, near
}

func rankCorrelation(a, b []int) float64 {
	n := len(a)
	ra, rb := make([]int, n), make([]int, n)
	for i := range a {
		ra[a[i]], rb[b[i]] = i, i
	}
	sum := 0.0
	for k := range ra {
		d := float64(ra[k] - rb[k])
		sum += d * d
	}
	return 1 - 6*sum/(float64(n)*(float64(n)*float64(n)-1))
}

func init() {
	properties["C20"] = &Property{Cases: costCases, Run: runCost}
	properties["C19"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			ks := filterKinds(func(k *Kind) bool { return valSubset("int")(k) && k.KeyK != "weak" })
			many := genCases(ks[:1], tiered(tier, 8, 40), seed, "many", 1, false, func(c *Case, k *Kind, r *rng) {
				c.N, c.Mix, c.Prof = tiered(tier, 70000, 300000), "many", profStrong()
				if r.chance(1, 2) {
					c.N = 1000 + r.n(20000)
				}
			})
			for i, c := range many {
				c.Extra = i % 2
			}
			return append(many, genCases(ks, tiered(tier, 8, 300), seed, variant, 2, false, func(c *Case, k *Kind, r *rng) {
				c.N = 64 + r.n(200)
				c.Ops = c.N * 2
				if r.chance(1, 4) {
					c.N, c.Mix = 4000, "F"
					c.Ops = c.N
				}
				c.Prof = profStrong()
				c.Std = true
			})...)
		},
		Run: func(cs *Case) *H {
			if cs.Mix == "many" {
				return runManySeeds(cs)
			}
			return runSeeds(cs)
		},
	}
}
