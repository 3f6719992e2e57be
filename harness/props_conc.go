package main

import (
	"fmt"
	"sort"
	"sync"
)

// ---- running goroutines ------------------------------------------------------

// parallel runs fs at once, waits for all, and re-raises the first failure here.
// Nothing but the start and the end of the goroutines is synchronized.
func parallel(fs ...func()) {
	var wg sync.WaitGroup
	errs := make([]any, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = violation{describePanic(e)}
				}
			}()
			f()
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(e)
		}
	}
}

// ---- C08 ---------------------------------------------------------------------

// readerLog is what one reader saw and cannot be checked while others read.
type readerLog struct {
	iterated, measured bool
	order              []int
	dep                float64
}

// reader checks n random read operations against the (frozen) model.
func (h *H) reader(c Cont, r *rng, out *readerLog, n int) {
	size := len(h.present)
	for i := 0; i < n; i++ {
		x := r.n(12)
		if i == 0 {
			x = r.pick(0, 2, 2, 3) // nothing has read the container since the last write
		}
		switch x {
		case 0: // full iteration
			j := 0
			c.All(func(k int, p VP) bool {
				if j >= size || k < 0 || h.val[k] < 0 {
					failf("concurrent iteration: position %d is key %d", j, k)
				}
				if !out.iterated {
					out.order = append(out.order, k)
				} else if out.order[j] != k {
					failf("concurrent iteration: position %d is key %d, was key %d", j, k, out.order[j])
				}
				if p != nil && p.Load() != h.val[k] {
					failf("concurrent iteration: key %d has value %d, want %d", k, p.Load(), h.val[k])
				}
				j++
				return true
			})
			if j != size {
				failf("concurrent iteration visited %d keys, want %d", j, size)
			}
			out.iterated = true
		case 1: // partial iteration
			if size == 0 {
				continue
			}
			stop, j := 1+r.n(size), 0
			c.All(func(k int, p VP) bool { j++; return j < stop })
			if j != stop {
				failf("concurrent iteration stopped after %d keys, want %d", j, stop)
			}
		case 2:
			if l := c.Len(); l != uint(size) {
				failf("concurrent length is %d, want %d", l, size)
			}
			d := c.Dep()
			if out.measured && d != out.dep {
				failf("concurrent depth is %v, was %v", d, out.dep)
			}
			out.measured, out.dep = true, d
			if c.Nil() {
				failf("container reports nil")
			}
		default:
			k := r.n(h.n)
			want := h.val[k]
			if c.Has(k) != (want >= 0) {
				failf("concurrent lookup of key %d: present=%v, want %v", k, want < 0, want >= 0)
			}
			if !h.isMap {
				continue
			}
			v, ok := c.Get(k)
			p := c.Ptr(k)
			if want < 0 && (ok || p != nil || c.Val(k) != 0) || want >= 0 && (!ok || v != want || p == nil || p.Load() != want || c.Val(k) != want) {
				failf("concurrent lookup of key %d: (%d,%v), want value %d", k, v, ok, want)
			}
		}
	}
}

func runReaders(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	rounds := 4
	per := 1 + cs.Ops/rounds
	for round := 0; round < rounds; round++ {
		m := cs.Mix[round%len(cs.Mix)]
		if round == 0 && h.r.chance(1, 3) {
			// readers on a container that nothing was written to
		} else if round == 2 && h.r.chance(1, 3) {
			for len(h.present) > 0 {
				h.doDel(h.present[0])
			}
		} else if ph, ok := phases[m]; ok && ph.w != [7]int{} {
			h.phase(ph, per, nil)
		} else {
			h.phase(phases['g'], per, nil)
		}
		// the readers come first after the writes; what they saw is compared afterwards
		logs := make([]readerLog, 4)
		fs := make([]func(), len(logs))
		n := 60 + min(h.n, 200)
		for i := range fs {
			c, r := h.c, newRng(h.r.u64())
			if i > 0 {
				c = h.c.Copy()
			}
			fs[i] = func() { h.reader(c, r, &logs[i], n) }
		}
		parallel(fs...)
		stats.Checks["concurrent_reads"] += int64(n * len(fs))
		stats.Checks["reader_groups"]++
		order, dep := h.contents(h.c), h.c.Dep()
		for i := range logs {
			if logs[i].iterated {
				h.sameOrder(order, logs[i].order, "concurrent iteration")
			}
			if logs[i].measured && logs[i].dep != dep {
				failf("concurrent depth was %v, is %v", logs[i].dep, dep)
			}
		}
	}
	return h
}

// one event of a locked history
var lockOrders = map[uint64]bool{}

type event struct {
	g        int
	ver      int // writes: position among the writes; reads: number of writes before
	write    bool
	kind     byte
	k, v     int
	ok       bool
	old      int
	existed  bool
	calls    int
	contents map[int]int
	ln       uint
	dep      float64
}

func runLocked(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	var mu sync.RWMutex
	ver := 0
	const G = 6
	logs := make([][]event, G)
	c0 := h.c
	fs := make([]func(), G)
	ops := 30 + cs.Ops/2
	for g := range fs {
		c, r := c0.Copy(), newRng(h.r.u64())
		fs[g] = func() {
			log := make([]event, 0, ops)
			for i := 0; i < ops; i++ {
				k, v := r.n(h.n), (g+1)*1000000+i
				e := event{g: g, k: k, v: v}
				x := r.n(100)
				if x < 45 {
					e.write = true
					mu.Lock()
					e.ver = ver
					ver++
					switch {
					case x < 18:
						e.kind = 'p'
						c.Put(k, v)
					case x < 36 || !h.isMap:
						e.kind = 'd'
						c.Del(k)
					default:
						e.kind = 'm'
						c.Mod(k, func(p VP, existed bool) {
							e.calls++
							e.existed, e.old = existed, p.Load()
							p.Store(v)
						})
					}
					mu.Unlock()
				} else {
					mu.RLock()
					e.ver = ver
					switch {
					case x < 85:
						e.kind = 'r'
						e.v, e.ok = c.Get(k)
					case x < 93:
						e.kind = 'l'
						e.ln = c.Len()
						e.dep = c.Dep()
					default:
						e.kind = 'a'
						e.contents = map[int]int{}
						c.All(func(k int, p VP) bool {
							if _, dup := e.contents[k]; dup {
								failf("iteration in a locked history visited key %d twice", k)
							}
							v := 0
							if p != nil {
								v = p.Load()
							}
							e.contents[k] = v
							return true
						})
					}
					mu.RUnlock()
				}
				log = append(log, e)
			}
			logs[g] = log
		}
	}
	parallel(fs...)
	// The lock order is the linearization: replay the writes in that order and
	// require every result to be what the dictionary would return.
	var all []event
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.SliceStable(all, func(i, j int) bool {
		if all[i].ver != all[j].ver {
			return all[i].ver < all[j].ver
		}
		return !all[i].write && all[j].write
	})
	stats.Checks["locked_events"] += int64(len(all))
	stats.Checks["locked_histories"]++
	stats.Ops += int64(len(all))
	switches := int64(0)
	model := map[int]int{}
	last := -1
	depAt, depWas := -1, 0.0
	for i := range all {
		e := &all[i]
		if e.write {
			if e.g != last {
				switches++
				last = e.g
			}
		}
		old, has := model[e.k]
		switch e.kind {
		case 'p':
			model[e.k] = c0.Norm(e.v)
		case 'd':
			delete(model, e.k)
		case 'm':
			want := 0
			if has {
				want = old
			}
			if e.calls != 1 || e.existed != has || e.old != want {
				failf("locked history: modify of key %d after %d writes called back %d times with (%d,%v), want (%d,%v)", e.k, e.ver, e.calls, e.old, e.existed, want, has)
			}
			model[e.k] = c0.Norm(e.v)
		case 'r':
			if e.ok != has || has && e.v != old {
				failf("locked history: lookup of key %d after %d writes returned (%d,%v), want (%d,%v)", e.k, e.ver, e.v, e.ok, old, has)
			}
		case 'l':
			if e.ln != uint(len(model)) {
				failf("locked history: length after %d writes is %d, want %d", e.ver, e.ln, len(model))
			}
			if depAt == e.ver && e.dep != depWas {
				failf("locked history: depth after %d writes is %v and %v", e.ver, depWas, e.dep)
			}
			depAt, depWas = e.ver, e.dep
		case 'a':
			if len(e.contents) != len(model) {
				failf("locked history: iteration after %d writes visited %d keys, want %d", e.ver, len(e.contents), len(model))
			}
			for k, v := range model {
				if x, ok := e.contents[k]; !ok || x != v {
					failf("locked history: iteration after %d writes has key %d = (%d,%v), want %d", e.ver, k, x, ok, v)
				}
			}
		}
	}
	stats.Extra["writer_handovers"] += switches
	sig := uint64(len(all))
	for i := range all { // who ran in which order
		sig = mix64(sig ^ uint64(all[i].g) ^ uint64(all[i].kind)<<8)
	}
	if !lockOrders[sig] {
		lockOrders[sig] = true
		stats.Extra["distinct_lock_orders"]++
	}
	for k := range h.val {
		h.val[k] = -1
	}
	h.present = h.present[:0]
	for k, v := range model {
		h.val[k] = v
		h.present = append(h.present, k)
	}
	h.sweep()
	h.contents(h.c)
	h.checkLen()
	return h
}

// ---- C13 ---------------------------------------------------------------------

// runHandles drives one container through several handles.
func runHandles(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, oLookup)
	curH = h
	boxed := struct{ c Cont }{h.c.Copy()}
	byMap := map[string]Cont{"x": h.c.Copy().Copy()}
	h.handles = []Cont{h.c, h.c.Copy(), boxed.c, byMap["x"]}
	agree := func() {
		stats.Checks["handles_agree"]++
		for i, c := range h.handles {
			if c.Len() != uint(len(h.present)) || c.Dep() != h.handles[0].Dep() || c.Nil() {
				failf("handle %d reports length %d, depth %v; another handle of the same container length %d, depth %v", i, c.Len(), c.Dep(), h.handles[0].Len(), h.handles[0].Dep())
			}
		}
	}
	agree()
	h.run(func(k int) {
		agree()
		h.lookup(k)
		h.lookup(h.r.n(h.n))
		if h.r.chance(1, 6) {
			h.disturb()
			agree()
		}
		if h.step%(1+h.n/2) == 0 {
			if h.r.chance(1, 2) { // copies taken later are handles too
				h.handles[1+h.r.n(3)] = h.handles[h.r.n(4)].Copy()
			}
			for _, c := range h.handles {
				h.contents(c)
			}
			h.noteDepth()
		}
	})
	for _, c := range h.handles {
		h.contents(c)
	}
	return h
}

// runInterleaved runs several containers of one type over the same keys.
func runInterleaved(cs *Case) *H {
	in := setup(cs)
	hs := make([]*H, 4)
	for i := range hs {
		c2 := *cs
		c2.Seed ^= uint64(i)
		hs[i] = newH(&c2, in, oLookup)
		hs[i].kh = mix64(uint64(i) ^ cs.Seed)
	}
	h := hs[0]
	curH = h
	for step := 0; step < cs.Ops; step++ {
		m := cs.Mix[step*len(cs.Mix)/cs.Ops]
		ph, ok := phases[m]
		if !ok || ph.w == [7]int{} {
			ph = phases['c']
		}
		x := hs[h.r.n(len(hs))]
		curH = x
		k := -1
		x.phase(ph, 1, func(kk int) { k = kk })
		if k < 0 {
			continue
		}
		for _, y := range hs {
			curH = y
			y.lookup(k)
			y.checkLen()
			stats.Checks["bystander_checks"]++
		}
		if step%(1+cs.Ops/8) == 0 {
			for _, y := range hs {
				curH = y
				y.contents(y.c)
			}
		}
	}
	for _, y := range hs {
		curH = y
		y.sweep()
		y.contents(y.c)
		y.noteDepth()
	}
	for _, y := range hs[1:] {
		y.finish()
	}
	return h
}

// runParallel gives every goroutine a container of its own.
func runParallel(cs *Case) *H {
	setup(cs)
	const G = 6
	hs := make([]*H, G)
	fs := make([]func(), G)
	names := []string{cs.Kind, cs.Kind, cs.Kind}
	for i := range hs {
		c2 := *cs
		if cs.Std {
			c2.Kind = kinds[int(mix64(cs.Seed+uint64(i))%uint64(len(kinds)))].Name
			if i < len(names) {
				c2.Kind = names[i]
			}
		}
		c2.Seed = cs.Seed
		k := kindByName(c2.Kind)
		shape := cs.Shape
		if cs.Std {
			shape = "rand"
		}
		in := k.Inst(&Env{Shape: shape, N: cs.N, Seed: cs.Seed, Prof: cs.Prof})
		h := newH(&c2, in, oLookup)
		h.par = true
		h.chkN = map[string]int64{}
		h.r = newRng(cs.Seed, uint64(i))
		hs[i] = h
		fs[i] = func() {
			h.run(func(k int) {
				h.lookup(k)
				h.checkLen()
				if h.step%(1+h.n) == 0 {
					h.sweep()
					h.contents(h.c)
				}
			})
			h.sweep()
			h.contents(h.c)
			h.checkLen()
		}
	}
	parallel(fs...)
	stats.Checks["parallel_groups"]++
	for i, h := range hs {
		for n, v := range h.chkN {
			stats.Checks["parallel_"+n] += v
		}
		h.par = false
		h.state()
		if i > 0 {
			h.finish()
		}
	}
	return hs[0]
}

func init() {
	properties["C08"] = &Property{
		Multi: true,
		Cases: func(tier string, seed uint64, variant string) []*Case {
			return genCases(filterKinds(valSubset("int", "unit", "big", "string")), tiered(tier, 4, 120), seed, variant, 4, false, func(c *Case, k *Kind, r *rng) {
				c.Extra = r.n(2)
				if c.Extra == 1 {
					c.N = 1 + r.n(24) // contention on few keys
					c.Ops = 60 + r.n(200)
				} else if r.chance(1, 12) {
					c.N = 1000 + r.n(3000)
					c.Ops = 4 * c.N
					c.Mix = "gggc"
				} else if c.N > 150 {
					c.N = 150
				}
			})
		},
		Run: func(cs *Case) *H {
			if cs.Extra == 1 {
				return runLocked(cs)
			}
			if cs.Extra == 2 {
				return runCrowd(cs)
			}
			return runReaders(cs)
		},
	}
	properties["C13"] = &Property{
		Multi: true,
		Cases: func(tier string, seed uint64, variant string) []*Case {
			return genCases(append(filterKinds(valSubset("int", "big")), reKinds...), tiered(tier, 10, 240), seed, variant, 5, false, func(c *Case, k *Kind, r *rng) {
				c.Extra = r.n(5)
				if c.N > 120 {
					c.N = 120
				}
				c.Ops = 40 + 5*c.N
				middling(c, k, r)
				c.Std = c.Extra == 3 || c.Extra == 4 && r.chance(1, 2) // mixed types, no controlled hash
				if k.KeyK == "re" {
					c.Std = true
					c.N = min(c.N, 60)
				}
			})
		},
		Run: func(cs *Case) *H {
			switch cs.Extra {
			case 0:
				return runHandles(cs)
			case 1:
				return runInterleaved(cs)
			case 4:
				return runReentrant(cs)
			case 2, 3:
				if cs.Idx%9 == 0 {
					runNested(cs)
				}
				return runParallel(cs)
			}
			panic(fmt.Sprint("harness: ", cs.Extra))
		},
	}
}
