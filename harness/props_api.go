package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
	"strings"

	"github.com/wdamron/amt"
)

// ---- C10: value pointers -----------------------------------------------------

func runPointers(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	sized := !strings.HasSuffix(cs.Kind, "/unit")
	keep := func(k int, p VP) {
		if len(h.ptrs[k]) < 6 {
			h.ptrs[k] = append(h.ptrs[k], p)
		} else {
			h.ptrs[k][h.r.n(6)] = p
		}
	}
	h.onMod = func(k int, p VP) { keep(k, p) }
	// Pointers to values that are no longer stored. They neither affect the map
	// nor are affected by it.
	type stale struct {
		p VP
		v *int // pointers to the same value share v
	}
	var old []stale
	var lastP VP
	var lastV *int
	if sized {
		h.detach = func(p VP, v int) {
			if lastV == nil || p.Addr() != lastP.Addr() {
				lastP, lastV = p, &v
			}
			if len(old) < 24 {
				old = append(old, stale{p, lastV})
			} else {
				old[h.r.n(len(old))] = stale{p, lastV}
			}
		}
	}
	detached := func() {
		for _, o := range old {
			h.chkN["detached_pointer"]++
			if x := o.p.Load(); x != *o.v {
				failf("a pointer to the value of a key that was deleted reads %d, but %d was there last", x, *o.v)
			}
			if h.r.chance(1, 12) {
				v := h.newVal()
				o.p.Store(v)
				*o.v = h.c.Norm(v)
			}
		}
		if h.r.chance(1, 20) { // an insertion that fails
			if a := h.absent(); a >= 0 && sized {
				v := h.newVal()
				var kept VP
				h.setOp("mod")
				func() {
					defer recoverStop()
					h.c.Mod(a, func(p VP, existed bool) {
						p.Store(v)
						kept = p
						panic(stopPanic{})
					})
				}()
				h.endOp()
				if kept != nil {
					lastV = nil
					h.detach(kept, h.c.Norm(v))
				}
			}
		}
	}
	check := func(k int) {
		if h.val[k] < 0 {
			return
		}
		ps := h.ptrs[k]
		for i, p := range ps {
			h.chkN["pointer"]++
			if x := p.Load(); x != h.val[k] {
				failf("a pointer taken earlier to the value of key %d reads %d, but the stored value is %d", k, x, h.val[k])
			}
			if sized && i > 0 && p.Addr() != ps[0].Addr() {
				failf("two pointers to the value of key %d differ", k)
			}
		}
	}
	h.run(func(k int) {
		check(k)
		detached()
		if h.r.chance(1, 6) {
			h.disturb()
		}
		for i := 0; i < 3; i++ {
			check(h.r.n(h.n))
		}
		if j := h.presentKey(); j >= 0 {
			switch h.r.n(4) {
			case 0:
				p := h.c.Ptr(j)
				if p == nil {
					failf("present key %d: Ptr returned nil", j)
				}
				keep(j, p)
			case 1: // write through any pointer; every read sees it
				if ps := h.ptrs[j]; len(ps) > 0 {
					v := h.newVal()
					h.note(fmt.Sprintf("*ptr(%d)=%d", j, v))
					ps[h.r.n(len(ps))].Store(v)
					h.val[j] = h.c.Norm(v)
					h.chkN["write_through_pointer"]++
					h.lookup(j)
					check(j)
				}
			}
		}
		if h.step%(1+h.n/2) == 0 {
			h.c.All(func(k int, p VP) bool {
				if k < 0 || h.val[k] < 0 {
					failf("iteration reported a key that is not present")
				}
				if x := p.Load(); x != h.val[k] {
					failf("iteration passed value %d for key %d, want %d", x, k, h.val[k])
				}
				if h.r.chance(1, 3) {
					keep(k, p)
				}
				return true
			})
			if h.r.chance(1, 3) { // the collector keeps and moves nothing that a pointer refers to
				runtime.GC()
			}
			for _, k := range h.present {
				check(k)
			}
			h.contents(h.c)
		}
	})
	for _, k := range h.present {
		check(k)
	}
	h.sweep()
	h.noteDepth()
	return h
}

// ---- C11: the modify callback ------------------------------------------------

type modPanic struct{ k int }

func (h *H) othersUnchanged(k int, where string) {
	h.chkN["reads_in_callback"]++
	for t := 0; t < min(h.n, 60); t++ {
		j := t
		if h.n > 60 {
			j = h.r.n(h.n)
		}
		if j == k {
			continue
		}
		v, ok := h.c.Get(j)
		if ok != (h.val[j] >= 0) || ok && v != h.val[j] {
			failf("%s of key %d: key %d reads (%d,%v), want %d", where, k, j, v, ok, h.val[j])
		}
		if p := h.c.Ptr(j); (p != nil) != ok {
			failf("%s of key %d: Ptr of key %d disagrees with Get", where, k, j)
		}
	}
	seen := 0
	self := 0
	h.c.All(func(j int, p VP) bool {
		if j == k {
			self = 1
			return true
		}
		if j < 0 || h.val[j] < 0 {
			failf("%s of key %d: iteration reported key %d, which is not present", where, k, j)
		}
		if x := p.Load(); x != h.val[j] {
			failf("%s of key %d: iteration has value %d for key %d, want %d", where, k, x, j, h.val[j])
		}
		seen++
		return true
	})
	want := len(h.present)
	if h.val[k] >= 0 {
		want--
		if self == 0 {
			failf("%s of present key %d: iteration did not visit that key", where, k)
		}
	}
	if seen != want {
		failf("%s of key %d: iteration visited %d other keys, want %d", where, k, seen, want)
	}
}

func (h *H) modFault(k int, goexit bool) {
	old := h.val[k]
	write := h.r.chance(1, 2)
	v := h.newVal()
	calls := 0
	h.note(fmt.Sprintf("mod %d=%d write=%v then fault goexit=%v", k, v, write, goexit))
	cb := func(p VP, existed bool) {
		calls++
		h.checkModCall(k, old, p, existed)
		if write {
			p.Store(v)
			if old >= 0 {
				h.val[k] = h.c.Norm(v)
			}
		}
		if goexit {
			runtime.Goexit()
		}
		panic(modPanic{k})
	}
	var raised any
	if goexit {
		done := make(chan any, 1)
		go func() {
			returned := false
			defer func() {
				e := recover()
				if e == nil && returned {
					e = violation{"modify returned although its callback exited the goroutine"}
				}
				done <- e
			}()
			h.setOp("mod")
			h.c.Mod(k, cb)
			returned = true
		}()
		raised = <-done
		h.chkN["goexit_callback"]++
	} else {
		func() {
			defer func() { raised = recover() }()
			h.setOp("mod")
			h.c.Mod(k, cb)
			raised = violation{"modify swallowed the panic of its callback"}
		}()
		h.chkN["panicking_callback"]++
		if m, ok := raised.(modPanic); ok && m.k == k {
			raised = nil
		} else if raised == nil {
			raised = violation{"modify swallowed the panic of its callback"}
		}
	}
	h.endOp()
	if raised != nil {
		panic(raised)
	}
	if calls != 1 {
		failf("modify of key %d called its callback %d times, want exactly 1", k, calls)
	}
	// everything is as before, and stays usable
	h.checkLen()
	h.contents(h.c)
	if h.n <= 60 {
		h.sweep()
	} else {
		h.lookup(k)
	}
}

func runMod(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, oMod|oLookup)
	curH = h
	h.onMod = func(k int, p VP) {
		if h.r.chance(1, 3+h.n/40) {
			h.othersUnchanged(k, "callback of modify")
		}
	}
	h.run(func(k int) {
		h.lookup(k)
		h.checkLen()
		if h.r.chance(1, 2+h.n/60) {
			j := h.r.n(h.n)
			if h.r.chance(2, 3) {
				if a := h.absent(); a >= 0 {
					j = a
				}
			}
			h.modFault(j, h.r.chance(1, 4))
		}
		if h.step%(1+h.n/2) == 0 {
			h.checkDep()
			h.checkCanon()
		}
	})
	h.sweep()
	h.contents(h.c)
	h.checkCanon()
	h.noteDepth()
	return h
}

// ---- C12: zero values ---------------------------------------------------------

func runZero(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, oLookup)
	curH = h
	inert := func(z Cont, what string) {
		stats.Checks["zero_value"]++
		if !z.Nil() {
			failf("%s does not report nil", what)
		}
		if z.Len() != 0 {
			failf("%s has length %d", what, z.Len())
		}
		if z.Dep() != 0 {
			failf("%s has depth %v", what, z.Dep())
		}
		if h.isMap {
			if v := z.Val(h.r.n(h.n)); v != 0 {
				failf("%s: Val returned %d", what, v)
			}
		}
	}
	mustPanic := func(op string, f func()) {
		stats.Checks["zero_value_panics"]++
		returned := false
		defer func() {
			if e := recover(); e == nil && returned {
				failf("%s on an uninitialized container returned instead of panicking", op)
			} else if _, ok := e.(violation); ok {
				panic(e)
			}
		}()
		f()
		returned = true
	}
	for i := 0; i < 6; i++ {
		z := h.c.Zero()
		k := h.r.n(h.n)
		inert(z, "an uninitialized container")
		called := func(what string) { failf("%s on an uninitialized container invoked the callback", what) }
		ops := []func(){
			func() { mustPanic("insertion", func() { z.Put(k, 7) }) },
			func() { mustPanic("deletion", func() { z.Del(k) }) },
			func() { mustPanic("membership", func() { z.Has(k) }) },
			func() {
				mustPanic("iteration", func() { z.All(func(int, VP) bool { called("iteration"); return true }) })
			},
		}
		if h.isMap {
			ops = append(ops, func() { mustPanic("lookup", func() { z.Get(k) }) },
				func() { mustPanic("pointer lookup", func() { z.Ptr(k) }) },
				func() {
					mustPanic("modification", func() { z.Mod(k, func(VP, bool) { called("modification") }) })
				})
		}
		for _, o := range h.r.perm(len(ops)) {
			ops[o]()
			inert(z, "an uninitialized container after a panic")
			inert(z.Copy(), "a copy of an uninitialized container")
			// an initialized container is not affected
			if h.c.Nil() || h.c.Len() != uint(len(h.present)) {
				failf("operating on an uninitialized container changed an initialized one")
			}
		}
		f := h.c.Fresh()
		if f.Nil() || f.Len() != 0 || f.Dep() != 0 {
			failf("a new container reports nil=%v, length %d, depth %v", f.Nil(), f.Len(), f.Dep())
		}
		f.All(func(k int, _ VP) bool { failf("a new container contains key %d", k); return true })
	}
	if h.c.Nil() || h.c.Len() != 0 || h.c.Dep() != 0 {
		failf("a new container reports nil=%v, length %d, depth %v", h.c.Nil(), h.c.Len(), h.c.Dep())
	}
	h.sweep()
	h.run(func(k int) {
		if h.c.Nil() || h.c.Copy().Nil() {
			failf("a constructed container reports nil (length %d)", h.c.Len())
		}
		if len(h.present) == 0 {
			stats.Checks["emptied"]++
			h.checkLen()
			h.checkDep()
			h.contents(h.c)
		}
	})
	for len(h.present) > 0 {
		h.doDel(h.present[0])
		if h.c.Nil() {
			failf("a constructed container reports nil (length %d)", h.c.Len())
		}
	}
	h.contents(h.c)
	h.checkLen()
	if d := h.c.Dep(); d != 0 {
		failf("an emptied container has depth %v", d)
	}
	h.sweep()
	return h
}

// ---- C13: nesting ---------------------------------------------------------------

// runNested stores containers in containers and works on them through the outer ones.
func runNested(cs *Case) {
	r := newRng(cs.Seed, 99)
	stats.Checks["nested"]++
	outer := amt.NewStringMap[amt.IntMap[int]]()
	sets := amt.NewIntMap[amt.StringSet]()
	gen := amt.NewMap[amt.String, amt.Map[amt.Int, amt.Set[amt.Int]]]()
	mo := map[string]map[int64]int{}
	ms := map[int64]map[string]bool{}
	mg := map[string]map[int]map[int]bool{}
	for i := 0; i < 600; i++ {
		s := fmt.Sprint("k", r.n(12))
		a, b := r.n(12)-6, r.n(30)-15
		in := outer.Val(s)
		if in.Nil() != (mo[s] == nil) {
			failf("nested: inner map %q reports nil=%v", s, in.Nil())
		}
		if in.Nil() {
			in = amt.NewIntMap[int]()
			outer.Set(s, in)
			mo[s] = map[int64]int{}
		}
		switch r.n(4) {
		case 0, 1:
			in.Set(int64(b), i)
			mo[s][int64(b)] = i
		case 2:
			in.Del(int64(b))
			delete(mo[s], int64(b))
		default:
			if r.chance(1, 8) {
				outer.Del(s)
				delete(mo, s)
			}
		}
		sets.Mod(int64(a), func(p *amt.StringSet, existed bool) {
			if existed != (ms[int64(a)] != nil) || existed == p.Nil() {
				failf("nested: modify of %d reports existed=%v, inner nil=%v", a, existed, p.Nil())
			}
			if !existed {
				*p = amt.NewStringSet()
				ms[int64(a)] = map[string]bool{}
			}
			p.Add(s)
			ms[int64(a)][s] = true
		})
		g := gen.Val(amt.String(s))
		if g.Nil() {
			g = amt.NewMap[amt.Int, amt.Set[amt.Int]]()
			gen.Set(amt.String(s), g)
			mg[s] = map[int]map[int]bool{}
		}
		gs, ok := g.Get(amt.Int(a))
		if ok != (mg[s][a] != nil) {
			failf("nested: generic inner map %q key %d present=%v", s, a, ok)
		}
		if !ok {
			gs = amt.NewSet[amt.Int]()
			g.Set(amt.Int(a), gs)
			mg[s][a] = map[int]bool{}
		}
		if r.chance(2, 3) {
			gs.Add(amt.Int(b))
			mg[s][a][b] = true
		} else {
			gs.Del(amt.Int(b))
			delete(mg[s][a], b)
		}
	}
	if outer.Len() != uint(len(mo)) || sets.Len() != uint(len(ms)) || gen.Len() != uint(len(mg)) {
		failf("nested: outer lengths %d %d %d, want %d %d %d", outer.Len(), sets.Len(), gen.Len(), len(mo), len(ms), len(mg))
	}
	outer.All(func(s string, p *amt.IntMap[int]) bool {
		if p.Len() != uint(len(mo[s])) {
			failf("nested: inner map %q has length %d, want %d", s, p.Len(), len(mo[s]))
		}
		for k, v := range mo[s] {
			if x, ok := p.Get(k); !ok || x != v {
				failf("nested: inner map %q key %d is (%d,%v), want %d", s, k, x, ok, v)
			}
		}
		return true
	})
	for a, m := range ms {
		in := sets.Val(a)
		if in.Len() != uint(len(m)) {
			failf("nested: inner set %d has length %d, want %d", a, in.Len(), len(m))
		}
		for s := range m {
			if !in.Has(s) {
				failf("nested: inner set %d lost %q", a, s)
			}
		}
	}
	for s, m := range mg {
		for a, m2 := range m {
			g := gen.Val(amt.String(s))
			gs := g.Val(amt.Int(a))
			if gs.Len() != uint(len(m2)) {
				failf("nested: generic inner set has length %d, want %d", gs.Len(), len(m2))
			}
			for b := range m2 {
				if !gs.Has(amt.Int(b)) {
					failf("nested: generic inner set lost %d", b)
				}
			}
		}
	}
}

// ---- C15: hash helpers ------------------------------------------------------------

func runHash(cs *Case) *H {
	setup(cs)
	r := newRng(cs.Seed, 5)
	h := &H{cs: cs, r: r, trace: nil, chkN: stats.Checks}
	curH = h
	seeds := []maphash.Seed{maphash.MakeSeed(), maphash.MakeSeed(), maphash.MakeSeed()}
	hash := func(what string, f func() uint64) uint64 {
		stats.Checks["hash_calls"]++
		stats.Ops++
		h.note(what)
		curOp.begin()
		defer curOp.end()
		return f()
	}
	iters := []uint{0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000}
	if cs.Extra == 1 {
		iters = append(iters, 4095, 65534, 65535, 65536, 65537, 100000)
	}
	for i := 0; i < 6; i++ {
		iters = append(iters, uint(r.n(2000)))
	}
	if controlled { // slow
		iters = iters[:12]
	}
	type hv struct {
		what string
	}
	seen := map[uint64]hv{}                          // HashBytes of distinct (content, seed, iter) of one length
	seenS, seenB := map[uint64]hv{}, map[uint64]hv{} // ... String.Hash, Bytes.Hash
	putIn := func(seen map[uint64]hv, x uint64, what string) {
		if o, dup := seen[x]; dup && o.what != what {
			failf("%s and %s hash to the same value %#x", what, o.what, x)
		}
		seen[x] = hv{what}
		stats.Checks["distinct_hashes"]++
	}
	put := func(x uint64, what string) { putIn(seen, x, what) }
	doneIter := map[uint]bool{}
	// integers
	ints := genInts("edge", 40, r)
	ints = append(ints, genInts("rand", 10, r)...)
	mentioned := map[int64]bool{}
	for _, k := range ints {
		if mentioned[k] {
			continue
		}
		mentioned[k] = true
		for si, s := range seeds {
			its := []uint{0, 1, uint(r.n(300))}
			if len(mentioned) <= 2 {
				its = iters
			}
			for _, it := range its {
				key := fmt.Sprintf("Int(%d) seed %d iter %d", k, si, it)
				a := hash(key, func() uint64 { return amt.Int(k).Hash(s, it) })
				if b := hash(key, func() uint64 { return amt.Int(k).Hash(s, it) }); a != b {
					failf("%s hashes to %#x and then to %#x", key, a, b)
				}
				put(a, key)
			}
		}
		for _, k2 := range ints[:8] {
			if e := amt.Int(k).Equal(amt.Int(k2)); e != (k == k2) {
				failf("Int(%d).Equal(%d) = %v", k, k2, e)
			}
		}
	}
	// strings and bytes, per length
	for _, l := range []int{1, 2, 3, 7, 8, 9, 16, 31, 32, 63, 64, 65, 127, 128, 129, 200, 1 + r.n(600)} {
		seen, seenS, seenB = map[uint64]hv{}, map[uint64]hv{}, map[uint64]hv{}
		base := make([]byte, l)
		for i := range base {
			base[i] = byte(r.u64())
		}
		keys := [][]byte{base}
		for t := 0; t < 6; t++ { // neighbours: one bit, one byte, swapped bytes
			b := append([]byte(nil), base...)
			switch t % 3 {
			case 0:
				b[r.n(l)] ^= 1 << uint(r.n(8))
			case 1:
				b[r.pick(0, l-1, l/2)] ^= byte(1 + r.n(255))
			default:
				i, j := r.n(l), r.n(l)
				b[i], b[j] = b[j], b[i]
			}
			keys = append(keys, b)
		}
		its := []uint{0, 1, 2, uint(r.n(40)), uint(r.n(600))}
		if controlled {
			its = its[:4]
		}
		if l == 8 || l == 1 {
			its = iters
		}
		for ki, b := range keys {
			for si, s := range seeds[:2] {
				for _, it := range its {
					if it > 3000 && ki > 0 {
						continue
					}
					doneIter[it] = true
					key := fmt.Sprintf("%x seed %d iter %d", b, si, it)
					x := hash("HashBytes "+key, func() uint64 { return amt.HashBytes(b, s, it) })
					put(x, key)
					c := make([]byte, len(b), len(b)+r.n(20)) // an equal copy elsewhere
					copy(c, b)
					if y := hash("HashBytes copy "+key, func() uint64 { return amt.HashBytes(c, s, it) }); y != x {
						failf("HashBytes of an equal copy of %s is %#x, not %#x", key, y, x)
					}
					bx := hash("Bytes "+key, func() uint64 { return amt.Bytes(b).Hash(s, it) })
					putIn(seenB, bx, "Bytes "+key)
					if bx != x {
						failf("HashBytes of %s is %#x, but Bytes.Hash is %#x", key, x, bx)
					}
					if y := hash("Bytes copy "+key, func() uint64 { return amt.Bytes(c).Hash(s, it) }); y != bx {
						failf("Bytes.Hash of an equal copy of %s is %#x, not %#x", key, y, bx)
					}
					sx := hash("String "+key, func() uint64 { return amt.String(b).Hash(s, it) })
					if y := hash("String copy "+key, func() uint64 { return amt.String(c).Hash(s, it) }); y != sx {
						failf("String.Hash of an equal copy of %s is %#x, not %#x", key, y, sx)
					}
					putIn(seenS, sx, "String "+key)
					if string(b) != string(c) {
						failf("hashing modified the key %s", key)
					}
				}
			}
			for _, b2 := range keys[:3] {
				eq := string(b) == string(b2)
				if amt.Bytes(b).Equal(amt.Bytes(b2)) != eq || amt.String(b).Equal(amt.String(b2)) != eq {
					failf("Equal of %x and %x is not %v", b, b2, eq)
				}
			}
		}
	}
	// the empty key hashes alike however it is represented
	for _, it := range []uint{0, 1, 255, 256, 1000} {
		s := seeds[0]
		a := hash("nil", func() uint64 { return amt.HashBytes(nil, s, it) })
		b := hash("empty", func() uint64 { return amt.HashBytes([]byte{}, s, it) })
		if a != b || hash("nil Bytes", func() uint64 { return amt.Bytes(nil).Hash(s, it) }) != amt.Bytes([]byte{}).Hash(s, it) || hash("empty string", func() uint64 { return amt.String("").Hash(s, it) }) != amt.String(strings.Clone("")).Hash(s, it) {
			failf("equal empty keys hash differently at iteration %d", it)
		}
	}
	// contents decide, also when the caller uses the same memory for different keys
	buf := make([]byte, 64)
	for t := 0; t < 60; t++ {
		l, s, it := 1+r.n(64), seeds[r.n(3)], uint(r.pick(0, 0, 0, 1, 2, r.n(40)))
		b := buf[:l]
		for i := range b {
			b[i] = byte(r.u64())
		}
		for n := 0; n < 4; n++ {
			key := fmt.Sprintf("%x iter %d", b, it)
			c := append([]byte(nil), b...)
			x := hash("HashBytes "+key, func() uint64 { return amt.HashBytes(b, s, it) })
			if y := hash("HashBytes copy "+key, func() uint64 { return amt.HashBytes(c, s, it) }); x != y {
				failf("HashBytes of %s is %#x in reused memory and %#x elsewhere", key, x, y)
			}
			x = hash("Bytes "+key, func() uint64 { return amt.Bytes(b).Hash(s, it) })
			if y := hash("Bytes copy "+key, func() uint64 { return amt.Bytes(c).Hash(s, it) }); x != y {
				failf("Bytes.Hash of %s is %#x in reused memory and %#x elsewhere", key, x, y)
			}
			b[r.n(l)] ^= byte(1 + r.n(255))
			hash("Bytes "+key, func() uint64 { return amt.Bytes(b).Hash(s, it) })
			hash("HashBytes "+key, func() uint64 { return amt.HashBytes(b, s, it) })
			b[r.n(l)] ^= byte(1 + r.n(255))
			stats.Checks["reused_memory"]++
		}
	}
	if !controlled {
		hashLong(r, seeds)
	}
	hashEqual(r)
	hashParallel(r, seeds)
	if !amt.Bytes(nil).Equal(amt.Bytes{}) || amt.Bytes(nil).Equal(amt.Bytes{0}) {
		failf("Equal of nil and empty byte slices is wrong")
	}
	stats.Extra["iteration_counts_tried"] = max(stats.Extra["iteration_counts_tried"], int64(len(doneIter)))
	stats.Extra["distinct_hashes_seen"] += int64(len(seen) + len(seenB) + len(seenS))
	// and used as keys: a history on the generic containers
	kind := []string{"Map[Int]/int", "Map[String]/int", "Map[Bytes]/int", "Map[Fold]/int", "Set[Int]", "Set[String]", "Set[Bytes]", "Set[Fold]"}[cs.Idx%8]
	c2 := *cs
	c2.Kind = kind
	c2.Extra = 0
	return runDict(&c2)
}

// hashLong hashes keys of up to 140000 bytes that differ in one byte.
func hashLong(r *rng, seeds []maphash.Seed) {
	for _, l := range []int{r.pick(33, 100, 128), r.pick(255, 256, 257), 200 + r.n(2000), r.pick(1023, 1024, 1025, 2048), r.pick(4095, 4096, 4097), 4000 + r.n(9000), r.pick(65535, 65536, 65537, 70000, 131073, 140000)} {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(r.u64())
		}
		s := seeds[r.n(len(seeds))]
		iter := uint(r.pick(0, 0, 0, 1, 2, 3, 17))
		if l > 20000 {
			iter = uint(r.n(2))
		}
		seen := map[uint64]int{}
		check := func(pos int) {
			curOp.begin()
			x := amt.HashBytes(b, s, iter)
			y, z := amt.Bytes(b).Hash(s, iter), amt.String(b).Hash(s, iter)
			curOp.end()
			if x != y {
				failf("HashBytes of a key of %d bytes is %#x, but Bytes.Hash is %#x", l, x, y)
			}
			for t, v := range []uint64{x, z ^ 0x5157} {
				if p, dup := seen[v]; dup {
					failf("keys of %d bytes that differ in one byte (at %d, at %d) have the same hash %#x at iteration %d (%s)", l, p, pos, v, iter, []string{"HashBytes", "String"}[t])
				}
				seen[v] = pos
			}
			stats.Checks["long_keys"]++
			stats.Ops += 3
		}
		check(-1)
		step := 1
		if l*l > 2<<20 {
			step = l * l / (2 << 20)
		}
		for i := r.n(step); i < l; i += 1 + r.n(2*step) {
			old := b[i]
			b[i] ^= byte(1 + r.n(255))
			check(i)
			b[i] = old
		}
		for _, i := range []int{l - 1, l - 2, 0, l / 2} {
			old := b[i]
			b[i]++
			if c := append([]byte(nil), b...); !amt.Bytes(c).Equal(amt.Bytes(b)) || !amt.String(c).Equal(amt.String(b)) {
				failf("equal keys of %d bytes are not Equal", l)
			} else if b[i]++; amt.Bytes(c).Equal(amt.Bytes(b)) || amt.String(c).Equal(amt.String(b)) {
				failf("keys of %d bytes that differ at %d are Equal", l, i)
			}
			b[i] = old
		}
	}
}

// hashEqual compares confusable keys.
func hashEqual(r *rng) {
	ks, _ := genStrings("edge", 60, r)
	for i, a := range ks {
		for j, b := range ks {
			stats.Checks["equal"]++
			if amt.String(a).Equal(amt.String(b)) != (i == j) || amt.Bytes(a).Equal(amt.Bytes(b)) != (i == j) {
				failf("Equal of %q and %q is not %v", a, b, i == j)
			}
		}
	}
	is := genInts("edge", 120, r)
	for i, a := range is {
		for j, b := range is {
			stats.Checks["equal"]++
			if amt.Int(a).Equal(amt.Int(b)) != (i == j) {
				failf("Int(%d).Equal(%d) is not %v", a, b, i == j)
			}
		}
	}
}

// hashParallel hashes from several goroutines at once.
func hashParallel(r *rng, seeds []maphash.Seed) {
	ks, _ := genStrings("var", 60, r)
	one := func(i int) uint64 {
		k, s, iter := ks[i%len(ks)], seeds[i%len(seeds)], uint(i%5)
		return amt.HashBytes([]byte(k), s, iter) ^ 3*amt.String(k).Hash(s, iter) ^ 5*amt.Int(i).Hash(s, iter) ^ 7*amt.Bytes(k).Hash(s, iter)
	}
	want := make([]uint64, 300)
	for i := range want {
		want[i] = one(i)
	}
	done := make(chan int)
	for g := 0; g < 4; g++ {
		go func() {
			for t := 0; t < 2*len(want); t++ {
				if i := (t*7 + g*31) % len(want); one(i) != want[i] {
					done <- i
					return
				}
			}
			done <- -1
		}()
	}
	bad := -1
	for g := 0; g < 4; g++ {
		if i := <-done; i >= 0 {
			bad = i
		}
	}
	if bad >= 0 {
		failf("hashing key %q while other goroutines hash as well gives another result", ks[bad%len(ks)])
	}
	stats.Checks["parallel_hashes"] += int64(8 * len(want))
}

// ---- C17: custom keys ---------------------------------------------------------------

// LogKey is a custom key that reports how it is used. It is not comparable with ==.
type LogKey struct {
	id   uint64
	rep  uint64
	junk []byte
}

type hashCall struct {
	id   uint64
	seed maphash.Seed
	iter uint
}

var hashLog []hashCall

func (k LogKey) Equal(o LogKey) bool { return k.id == o.id }
func (k LogKey) Hash(seed maphash.Seed, iter uint) uint64 {
	hashLog = append(hashLog, hashCall{k.id, seed, iter})
	return weakHash(k.id, iter)
}

var logIDs []uint64 // ids of the pool, by index

func logKS(shape string, n int, r *rng) *KS[LogKey] {
	ks := castKS(weakKS(shape, n, r), func(k WeakKey) LogKey { return LogKey{k.id, uint64(k.tag), []byte{byte(k.tag)}} },
		func(k LogKey) WeakKey { return WeakKey{id: k.id} })
	logIDs = logIDs[:0]
	for i := 0; i < ks.n; i++ {
		logIDs = append(logIDs, ks.mk(i, 0).id)
	}
	return ks
}

var seedsSeen = map[maphash.Seed]bool{}

func (h *H) maxLCP(k int) int {
	g := h.needDigits()
	best := 0
	run := 1 << 30
	for i := g.rank[k]; i > 0; i-- {
		run = min(run, g.lcp[i])
		if h.val[g.ord[i-1]] >= 0 {
			best = max(best, run)
			break
		}
	}
	run = 1 << 30
	for i := g.rank[k] + 1; i < h.n; i++ {
		run = min(run, g.lcp[i])
		if h.val[g.ord[i]] >= 0 {
			best = max(best, run)
			break
		}
	}
	return best
}

func runCustom(cs *Case) *H {
	in := setup(cs)
	uninstallHash() // real seeds; these keys do not use maphash for hashing
	hs := make([]*H, 3)
	seeds := make([]map[maphash.Seed]bool, len(hs))
	for i := range hs {
		hs[i] = newH(cs, in, oLookup)
		hs[i].kh = mix64(uint64(i) ^ cs.Seed)
		seeds[i] = map[maphash.Seed]bool{}
	}
	r := newRng(cs.Seed, 17)
	check := func(hi int, k int, bound int, what string) {
		id := logIDs[k]
		first, top := true, -1
		for _, c := range hashLog {
			stats.Checks["hash_calls"]++
			seeds[hi][c.seed] = true
			if len(seeds[hi]) > 1 {
				failf("%s of key %d hashed a key with a second seed", what, k)
			}
			if c.id != id {
				continue
			}
			if first && c.iter != 0 {
				failf("%s of key %d started hashing at iteration count %d", what, k, c.iter)
			}
			first = false
			if int(c.iter) > top+1 {
				failf("%s of key %d skipped from iteration count %d to %d", what, k, top, c.iter)
			}
			top = max(top, int(c.iter))
		}
		if top > bound/16 {
			failf("%s of key %d hashed with iteration count %d, although it shares only %d digits with any other present key", what, k, top, bound)
		}
		stats.Extra["max_iteration_count"] = max(stats.Extra["max_iteration_count"], int64(top))
		hashLog = hashLog[:0]
	}
	if cs.Prof.Name == "gulf" { // few operations: all on one container
		hs = hs[:1]
	}
	for step := 0; step < cs.Ops; step++ {
		hi := r.n(len(hs))
		h := hs[hi]
		curH = h
		k := r.n(h.n)
		m := cs.Mix[step*len(cs.Mix)/cs.Ops]
		if (m == 'F' || m == 'g') && h.val[k] >= 0 && r.chance(2, 3) {
			if a := h.absent(); a >= 0 {
				k = a
			}
		}
		if (m == 'E' || m == 's') && h.val[k] < 0 && r.chance(2, 3) {
			if p := h.presentKey(); p >= 0 {
				k = p
			}
		}
		bound := h.maxLCP(k)
		hashLog = hashLog[:0]
		switch x := r.n(10); {
		case x < 3:
			h.lookup(k) // several reads; each starts over, so only the seed and the bound apply
			top := 0
			for _, c := range hashLog {
				if c.id == logIDs[k] {
					top = max(top, int(c.iter))
				}
				seeds[hi][c.seed] = true
			}
			if len(seeds[hi]) > 1 {
				failf("lookup of key %d hashed a key with a second seed", k)
			}
			if top > bound/16 {
				failf("lookup of key %d hashed with iteration count %d, although it shares only %d digits with any other present key", k, top, bound)
			}
			hashLog = hashLog[:0]
			h.c.Has(k)
			check(hi, k, bound, "lookup")
		case (x < 6) == (m != 'E' && m != 's'):
			if h.isMap && r.chance(1, 2) {
				h.doMod(k)
				check(hi, k, bound, "modify")
			} else {
				h.doPut(k)
				check(hi, k, bound, "insertion")
			}
		default:
			h.doDel(k)
			check(hi, k, bound, "deletion")
		}
		h.done(k, nil)
		if step%(1+cs.Ops/6) == 0 {
			for _, y := range hs {
				curH = y
				y.sweep()
				y.contents(y.c)
				y.checkLen()
			}
		}
	}
	for hi, y := range hs {
		curH = y
		hashLog = hashLog[:0]
		y.sweep()
		for _, c := range hashLog {
			seeds[hi][c.seed] = true
		}
		if len(seeds[hi]) > 1 {
			failf("a container hashed keys with %d seeds", len(seeds[hi]))
		}
		y.contents(y.c)
		for s := range seeds[hi] {
			if seedsSeen[s] {
				failf("two containers use the same seed")
			}
			seedsSeen[s] = true
			stats.Checks["distinct_seeds"]++
		}
		y.noteDepth()
	}
	for _, y := range hs[1:] {
		y.finish()
	}
	return hs[0]
}

func init() {
	n := len(kinds)
	regGen("Map[Log]", "log", vsInt, logKS)
	regGen("Map[Log]", "log", vsBig, logKS)
	regGenSet("Set[Log]", "log", logKS)
	logKinds = append(logKinds, kinds[n:]...)
	kinds = kinds[:n]

	properties["C10"] = simple(0, 8, 400, isMap, func(c *Case, k *Kind, r *rng) {
		if c.N > 400 {
			c.N = 400
		}
		c.Ops = 40 + 8*c.N
	}, runPointers)
	properties["C11"] = simple(0, 6, 300, isMap, func(c *Case, k *Kind, r *rng) {
		if c.N > 120 {
			c.N = 120
		}
		c.Ops = 40 + 4*c.N
	}, runMod)
	properties["C12"] = simple(0, 4, 100, any_, func(c *Case, k *Kind, r *rng) {
		if c.N > 60 {
			c.N = 60
		}
		c.Ops = 30 + 3*c.N
	}, runZero)
	properties["C15"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			ks := filterKinds(func(k *Kind) bool { return k.Name == "Map[Int]/int" })
			rounds := tiered(tier, 48, 1200)
			if variant == "race" {
				rounds = tiered(tier, 8, 60)
			}
			return genCases(ks, rounds, seed, variant, 6, false, func(c *Case, k *Kind, r *rng) {
				c.Shape = "rand"
				c.Extra = r.n(8)
				c.Std = controlled || r.chance(1, 2)
			})
		},
		Run: runHash,
	}
	properties["C17"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			return append(deepCases(logKinds, tier, seed, variant), genCases(logKinds, tiered(tier, 120, 4000), seed, variant, 10, false, func(c *Case, k *Kind, r *rng) {
				switch r.n(4) {
				case 0:
					c.Prof = Profile{Name: "deep48", Alpha: 16, PMax: 48, NClass: 1 + r.n(1+c.N/2)}
				case 1:
					c.Prof = Profile{Name: "boundary", Alpha: 2 + r.n(15), PMax: 16*(1+r.n(3)) - 1 + r.n(3), NClass: 1 + r.n(3)}
				}
				if c.N > 150 {
					c.N = 150
				}
				c.Ops = 40 + 10*c.N
				middling(c, k, r)
			})...)
		},
		Run: runCustom,
	}
}

var logKinds []*Kind
