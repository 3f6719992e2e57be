package main

import (
	"hash/maphash"

	"github.com/wdamron/amt"
)

// ---- C13: operations inside operations ---------------------------------------------

// ReKey is a custom key whose methods use containers themselves.
type ReKey struct{ id uint64 }

func reuse(id uint64) {
	s := amt.NewIntSet()
	for i := uint64(0); i < 4; i++ {
		s.Add(int64(id + i))
	}
	s.Del(int64(id + 1))
	if !s.Has(int64(id)) || s.Has(int64(id+1)) || s.Len() != 3 {
		failf("a set used inside a method of a key has the wrong contents")
	}
	m := amt.NewMap[amt.String, int]()
	m.Set("x", int(id))
	m.Mod(amt.String("x"), func(p *int, existed bool) {
		if !existed || *p != int(id) {
			failf("a map used inside a method of a key called back with (%d,%v)", *p, existed)
		}
		*p++
	})
	m.Set("y", 0)
	if v, ok := m.Get("x"); !ok || v != int(id)+1 {
		failf("a map used inside a method of a key has lost an update")
	}
}

func (k ReKey) Equal(o ReKey) bool {
	reuse(k.id ^ o.id)
	return k.id == o.id
}

func (k ReKey) Hash(seed maphash.Seed, iter uint) uint64 {
	reuse(k.id + uint64(iter))
	return weakHash(k.id, iter)
}

func reKS(shape string, n int, r *rng) *KS[ReKey] {
	return castKS(weakKS(shape, n, r), func(k WeakKey) ReKey { return ReKey{k.id} }, func(k ReKey) WeakKey { return WeakKey{id: k.id} })
}

var reKinds []*Kind

func init() {
	n := len(kinds)
	regGen("Map[Re]", "re", vsInt, reKS)
	regGenSet("Set[Re]", "re", reKS)
	reKinds = append(reKinds, kinds[n:]...)
	kinds = kinds[:n]
}

// runReentrant works on several containers, some of the operations on one being
// started from callbacks of operations on others.
func runReentrant(cs *Case) *H {
	in := setup(cs)
	hs := make([]*H, 5)
	busy := make([]bool, len(hs))
	for i := range hs {
		c2 := *cs
		c2.Seed ^= uint64(i)
		in := in
		if cs.Std && i >= 2 {
			c2.Kind = kinds[int(mix64(cs.Seed+uint64(i))%uint64(len(kinds)))].Name
			in = kindByName(c2.Kind).Inst(&Env{Shape: "rand", N: cs.N, Seed: cs.Seed, Prof: cs.Prof})
		}
		hs[i] = newH(&c2, in, oLookup)
		hs[i].kh = mix64(uint64(i) ^ cs.Seed)
	}
	h0 := hs[0]
	r := h0.r
	var act func(level int)
	inside := func(h *H, level int) {
		for t := r.n(3); t >= 0; t-- {
			stats.Checks["operations_inside_operations"]++
			act(level + 1)
		}
		curH = h
	}
	act = func(level int) {
		i := r.n(len(hs))
		for busy[i] {
			i = (i + 1) % len(hs)
		}
		h := hs[i]
		curH = h
		k := r.n(h.n)
		x := r.n(12)
		if level >= 3 && x >= 8 {
			x = r.n(8)
		}
		switch {
		case x < 3:
			h.doPut(k)
		case x < 5:
			h.doDel(k)
		case x < 8:
			h.lookup(k)
		case x < 10 && h.isMap:
			busy[i] = true
			h.onMod = func(mk int, p VP) {
				inside(h, level)
				if mk != k || p.IsNil() {
					failf("the callback's pointer has changed")
				}
				if o := r.n(h.n); o != k { // others can be read meanwhile
					h.lookup(o)
				}
			}
			h.doMod(k)
			h.onMod = nil
			busy[i] = false
		case x < 11 && len(h.present) > 0:
			busy[i] = true
			left := 1 + r.n(6)
			want := h.contents(h.c)
			at := 0
			h.setOp("iterate")
			h.c.All(func(k int, p VP) bool {
				if at >= len(want) || k != want[at] {
					failf("iteration position %d is key %d, in an iteration without other operations inside it was another", at, k)
				}
				if h.isMap && p.Load() != h.val[k] {
					failf("iteration passed %d for key %d, want %d", p.Load(), k, h.val[k])
				}
				at++
				if left > 0 && r.chance(1, 3) {
					left--
					inside(h, level)
				}
				return true
			})
			h.endOp()
			if at != len(want) {
				failf("iteration visited %d of %d keys", at, len(want))
			}
			busy[i] = false
		default:
			h.doPut(k)
		}
		if level == 0 {
			for _, y := range hs {
				curH = y
				y.lookup(r.n(y.n))
				y.checkLen()
			}
			stats.Checks["bystander_checks"] += int64(len(hs))
		}
	}
	for step := 0; step < cs.Ops; step++ {
		h0.step = step
		act(0)
		if step%(1+cs.Ops/8) == 0 {
			for _, y := range hs {
				curH = y
				y.contents(y.c)
				y.state()
			}
		}
	}
	for _, y := range hs {
		curH = y
		y.sweep()
		y.contents(y.c)
	}
	for _, y := range hs[1:] {
		y.finish()
	}
	return h0
}
