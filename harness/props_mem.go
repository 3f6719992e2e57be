package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// ---- C07: memory safety -----------------------------------------------------

// The deciding instruments are outside this file: the race variant compiles
// checkptr into every unsafe pointer conversion, the asan variant checks every
// load and store against the bounds of its heap object, and clobberfree
// overwrites whatever the garbage collector frees, so that data the collector
// cannot see turns into garbage the value and key oracles notice.
func runMem(cs *Case) *H {
	in := setup(cs)
	var stop atomic.Bool
	ended := make(chan int)
	go func() { // collections at arbitrary moments
		n := 0
		for !stop.Load() {
			runtime.GC()
			n++
			time.Sleep(time.Duration(100+n%7*50) * time.Microsecond)
		}
		ended <- n
	}()
	defer func() {
		stop.Store(true)
		stats.Extra["forced_gcs"] += int64(<-ended)
	}()
	h := newH(cs, in, oLookup)
	curH = h
	h.c = hopCont{h.c, newRng(cs.Seed, 8)}
	churn := make([][]byte, 64) // reuse freed memory quickly
	gc := func(int) {
		for i := 0; i < 4; i++ {
			b := make([]byte, 16<<uint(h.r.n(5)))
			for j := range b {
				b[j] = 0x5a
			}
			churn[h.r.n(len(churn))] = b
		}
	}
	h.onMod = func(k int, p VP) { // a collection in the middle of an operation
		if h.r.chance(1, 6) {
			runtime.GC()
			stats.Extra["gcs_inside_operations"]++
		}
	}
	every := 1 + h.n/3
	h.run(func(k int) {
		gc(k)
		h.lookup(k)
		h.lookup(h.r.n(h.n))
		if h.step%every == 0 {
			runtime.GC()
			stats.Extra["gcs_between_operations"]++
			h.sweep()
			i := 0
			h.setOp("all")
			h.c.All(func(k int, p VP) bool {
				if i++; i%17 == 0 {
					runtime.GC()
					stats.Extra["gcs_inside_operations"]++
				}
				if k < 0 || h.val[k] < 0 {
					failf("iteration reported a key that is not present")
				}
				if p != nil && p.Load() != h.val[k] {
					failf("iteration passed value %d for key %d, want %d", p.Load(), k, h.val[k])
				}
				return true
			})
			h.endOp()
			h.contents(h.c)
			h.checkGuards()
			h.noteDepth()
		}
	})
	runtime.GC()
	h.sweep()
	h.contents(h.c)
	h.checkGuards()
	guardOn = false
	return h
}

// ---- C09: deleted and overwritten data is released ---------------------------

type release struct {
	keys [][]func() bool
	vals map[int]func() bool
}

//go:noinline
func useStack(n int) int {
	var a [64]uint64
	for i := range a {
		a[i] = uint64(n + i)
	}
	if n > 0 {
		return useStack(n-1) + int(a[n%64])
	}
	return int(a[5])
}

func (h *H) checkRelease(rel *release) {
	runtime.GC()
	live := make(map[int]bool, len(h.present))
	for _, k := range h.present {
		if h.val[k] != 0 {
			live[h.val[k]] = true
		}
	}
	retained := func() string {
		for k, as := range rel.keys {
			if h.val[k] >= 0 {
				continue
			}
			for _, a := range as {
				if a() {
					return fmt.Sprintf("key %d is not present, but a key object passed for it is still reachable after garbage collection", k)
				}
			}
		}
		for v, a := range rel.vals {
			if !live[v] && a() {
				return fmt.Sprintf("value %d was overwritten or deleted, but is still reachable after garbage collection", v)
			}
		}
		return ""
	}
	msg := retained()
	for try := 0; msg != "" && try < 4; try++ {
		// Rule out stale words on this stack and a collection that was already under way.
		done := make(chan int)
		go func() { done <- useStack(200) }()
		<-done
		useStack(200)
		time.Sleep(time.Millisecond)
		runtime.GC()
		stats.Extra["release_rechecks"]++
		msg = retained()
	}
	if msg != "" {
		failf("%s", msg)
	}
	for v := range live {
		if a := rel.vals[v]; a != nil && !a() {
			failf("value %d is present, but was garbage collected", v)
		}
	}
	for k, as := range rel.keys {
		if h.val[k] < 0 {
			stats.Checks["keys_seen_released"] += int64(len(as))
			rel.keys[k] = as[:0]
			continue
		}
		n := 0
		for _, a := range as {
			if a() {
				as[n] = a
				n++
			}
		}
		if len(as) > 0 && n == 0 {
			failf("key %d is present, but every copy of it was garbage collected", k)
		}
		rel.keys[k] = as[:n]
	}
	for v := range rel.vals {
		if !live[v] {
			stats.Checks["values_seen_released"]++
			delete(rel.vals, v)
		}
	}
	stats.Checks["release_points"]++
	h.contents(h.c)
	runtime.KeepAlive(h.c)
}

func runRelease(cs *Case) *H {
	in := setup(cs)
	rel := &release{keys: make([][]func() bool, in.N), vals: map[int]func() bool{}}
	in.Tr(&tracker{
		key: func(k int, a func() bool) { rel.keys[k] = append(rel.keys[k], a) },
		val: func(v int, a func() bool) { rel.vals[v] = a },
	})
	h := newH(cs, in, 0)
	curH = h
	next := 1 + h.r.n(1+h.n/2)
	h.run(func(k int) {
		// reads, no-op deletes and failures before the collection must not leave anything behind
		if h.r.chance(1, 8) {
			h.disturb()
		}
		switch h.r.n(6) {
		case 0:
			h.lookup(h.r.n(h.n))
		case 1:
			if a := h.absent(); a >= 0 {
				h.doDel(a)
			}
		}
		if h.step >= next {
			next = h.step + 1 + h.r.n(1+cs.Ops/16)
			h.checkRelease(rel)
		}
	})
	h.checkRelease(rel)
	h.noteDepth()
	return h
}

// ---- C18: footprint ----------------------------------------------------------

func heapBytes() int64 {
	var m runtime.MemStats
	low := int64(1 << 62)
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		if x := int64(m.HeapAlloc); x < low {
			low = x
		}
	}
	return low
}

// footprint returns the memory that becomes free when *c is dropped.
func footprint(c *Cont) int64 {
	a := heapBytes()
	*c = nil
	b := heapBytes()
	return a - b
}

const footprintSlack = 1024

// tinyEntries reports kinds whose entries are pointer-free and smaller than 16
// bytes. The Go runtime packs such objects into shared 16-byte blocks, so up to
// 16 bytes per entry depend on what else was allocated at the time.
func tinyEntries(k *Kind) bool {
	small := k.KeyK == "int" || k.KeyK == "arr8"
	switch {
	case k.Type == "IntMap":
		return valSubset("int", "unit", "uint8")(k)
	case !k.IsMap:
		return small && k.Type != "IntSet"
	}
	return small && valSubset("unit")(k)
}

// repeated repeats a case whose measurement exceeds the bound: the history is
// the same every time, what the runtime itself allocates or frees meanwhile is not.
func repeated(cs *Case, once func(*Case) *H) (h *H) {
	for try := 0; ; try++ {
		var failed any
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(violation); !ok || try == 4 {
						panic(e)
					}
					failed = e
				}
			}()
			h = once(cs)
		}()
		if failed == nil {
			return h
		}
		stats.Extra["footprint_repeats"]++
	}
}

func runFootprint(cs *Case) *H {
	h := repeated(cs, footprintOnce)
	if newRng(cs.Seed, 9).chance(1, 3) {
		cycles(cs)
	}
	return h
}

// cycles builds, uses and drops containers with ever new keys. What they leave
// behind outside of themselves would make the heap grow in every cycle.
func cycles(cs *Case) {
	curProf = profStrong()
	gs := runtime.NumGoroutine()
	heap, grown := int64(0), 0
	for t := 0; t < 7 && (t < 3 || grown == t-1); t++ {
		in := kindByName(cs.Kind).Inst(&Env{Shape: cs.Shape, N: 300, Seed: cs.Seed + uint64(t)*7919, Prof: curProf})
		curProf.L = in.L
		r := newRng(cs.Seed, 10, uint64(t))
		c := in.New()
		use := func(k int, drop bool) {
			defer func() { recover() }()
			switch x := r.n(10); {
			case x < 5 || !c.IsMap():
				c.Put(k, r.n(1000))
			case x < 8:
				c.Mod(k, func(p VP, _ bool) { p.Store(r.n(1000)) })
			default:
				c.Mod(k, func(p VP, _ bool) { panic("stop") })
			}
			c.Has(r.n(in.N))
			if drop {
				c.Del(r.n(in.N))
			}
		}
		for k := 0; k < in.N; k++ {
			use(k, k%3 == 0)
		}
		n := r.n(in.N + 1)
		c.All(func(int, VP) bool { n--; return n > 0 })
		if t%2 == 0 {
			for k := 0; k < in.N; k++ {
				c.Del(k)
			}
		}
		in, c = nil, nil
		now := heapBytes()
		if t > 0 && now-heap > footprintSlack {
			grown++
		}
		heap = now
		stats.Checks["footprint_cycles"]++
	}
	if n := runtime.NumGoroutine(); n >= gs+3 { // at least one for each container: there were three or more
		failf("there are %d goroutines after building, using and dropping containers, before there were %d", n, gs)
	}
	if grown == 6 {
		failf("building, using and dropping a container with new keys grew the heap by more than %d bytes every time", footprintSlack)
	}
}

// failAll deletes and fails to modify every absent key, and overwrites every present
// one with what it is.
func (h *H) failAll() {
	n := 0
	for i, k := range h.r.perm(h.n) {
		if i >= 30000 {
			break
		}
		if h.val[k] >= 0 {
			h.setOp("read")
			h.c.Get(k)
			switch {
			case !h.isMap || i%3 == 0:
				h.c.Put(k, h.val[k])
			case i%3 == 1:
				h.c.Mod(k, func(p VP, _ bool) { p.Store(h.val[k]) })
			default:
				func() {
					defer recoverStop()
					h.c.Mod(k, func(VP, bool) { panic(stopPanic{}) })
				}()
			}
			h.endOp()
			continue
		}
		n++
		h.setOp("read")
		h.c.Has(k)
		if h.isMap {
			func() {
				defer recoverStop()
				h.c.Mod(k, func(VP, bool) { panic(stopPanic{}) })
			}()
		}
		if !h.isMap || h.r.chance(1, 2) {
			h.c.Del(k)
		}
		h.endOp()
	}
	stats.Checks["failed_operations"] += int64(n)
}

func footprintOnce(cs *Case) *H {
	sameRepr = true
	defer func() { sameRepr = false }()
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	h.run(nil)
	contents := func() map[int]int {
		m := map[int]int{}
		for _, k := range h.present {
			m[k] = h.val[k]
		}
		return m
	}
	want := contents()
	// reads, overwrites and failed deletes do not grow it
	h.trace = nil
	h.ptrs = nil
	reads := func(n int) {
		for i := 0; i < n; i++ {
			k := h.r.n(h.n)
			h.setOp("read")
			switch h.r.n(7) {
			case 0, 1:
				h.c.Has(k)
			case 2:
				if h.val[k] < 0 {
					h.c.Del(k)
				}
			case 3:
				if h.val[k] >= 0 {
					h.c.Put(k, h.val[k])
				}
			case 4:
				if h.val[k] >= 0 && h.isMap {
					h.c.Mod(k, func(p VP, _ bool) { p.Store(h.val[k]) })
				}
			case 6: // a modification that fails
				if h.isMap {
					func() {
						defer func() { recover() }()
						h.c.Mod(k, func(p VP, existed bool) { panic("stop") })
					}()
				}
			case 5:
				n := 3
				h.c.All(func(int, VP) bool { n--; return n > 0 })
			}
			h.endOp()
		}
	}
	reads(3)
	grown, before, after := int64(1<<62), int64(0), int64(0)
	for try := 0; try < 4 && grown > footprintSlack; try++ { // the runtime itself may allocate once
		before = heapBytes()
		reads(400)
		after = heapBytes()
		grown = min(grown, after-before)
	}
	stats.Checks["footprint_reads"]++
	if grown > footprintSlack {
		failf("reading, overwriting with equal values and failed deletes grew the heap from %d to %d bytes", before, after)
	}
	h.failAll()
	c := h.c
	f := c.Fresh()
	h.c = nil
	got := footprint(&c)
	fresh := f
	for k, v := range want {
		fresh.Put(k, v)
	}
	f = nil
	ref := footprint(&fresh)
	stats.Checks["footprint"]++
	d := got - ref
	if tinyEntries(kindByName(cs.Kind)) {
		d -= 16 * int64(len(want))
	}
	stats.Extra["footprint_bytes_compared"] += ref
	if d > footprintSlack {
		failf("a container with %d keys retains %d bytes after its history; freshly built with the same contents it retains %d", len(want), got, ref)
	}
	stats.Extra["max_footprint_excess_bytes"] = max(stats.Extra["max_footprint_excess_bytes"], d)
	if len(want) == 0 {
		stats.Checks["footprint_emptied"]++
		if got > 2048 {
			failf("an emptied container retains %d bytes", got)
		}
	}
	return h
}

func init() {
	properties["C07"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			rounds := tiered(tier, 3, 120)
			return genCases(kinds, rounds, seed, variant, 5, false, func(c *Case, k *Kind, r *rng) {
				if r.chance(1, 2) && strings.Contains("string bytes", k.KeyK) {
					c.Shape = "fat"
				}
				if c.N > 200 {
					c.N = 200
				}
				c.Ops = 40 + c.N*5
				middling(c, k, r)
			})
		},
		Run: runMem,
	}
	properties["C09"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			ks := filterKinds(releaseKinds)
			return genCases(ks, tiered(tier, 12, 400), seed, variant, 6, false, func(c *Case, k *Kind, r *rng) {
				if k.KeyK == "string" || k.KeyK == "bytes" || k.KeyK == "fold" {
					c.Shape = "fat"
				}
				if c.N > 150 {
					c.N = 150
				}
				c.Ops = 40 + c.N*6
				middling(c, k, r)
			})
		},
		Run: runRelease,
	}
	properties["C18"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			return genCases(filterKinds(valSubset("int", "unit", "big")), tiered(tier, 8, 200), seed, variant, 8, true, func(c *Case, k *Kind, r *rng) {
				if k.KeyK == "string" || k.KeyK == "bytes" || k.KeyK == "fold" {
					c.Shape = "fat"
				}
				switch r.n(6) { // growth, deep trees and emptying all matter
				case 0:
					c.Mix = []string{"FE", "FDE", "gdsdE"}[r.n(3)]
				case 1:
					c.Mix, c.N = "Fs", 200+r.n(800)
					c.Ops = c.N
				case 2, 3: // arrays that were large
					c.Mix, c.N = []string{"FT", "FTFT", "FTgT"}[r.n(3)], 300+r.n(1200)
					c.Ops = c.N
					if r.chance(2, 3) {
						c.Prof = profStrong()
					}
				}
			})
		},
		Run: runFootprint,
	}
	if os.Getenv("VERIF_GCPERCENT") != "" {
		debug.SetGCPercent(5)
	}
}

// releaseKinds have keys or values that can be watched.
func releaseKinds(k *Kind) bool {
	keys := k.KeyK == "string" || k.KeyK == "bytes" || k.KeyK == "fold" || k.KeyK == "rec" || strings.Contains("Map[PtrKey] Map[Iface] Map[Wide] Set[PtrKey] Set[Iface] Set[Wide]", k.Type)
	if !k.IsMap {
		return keys
	}
	return valSubset("ptr", "big", "string", "any")(k) || keys && valSubset("int", "unit")(k)
}
