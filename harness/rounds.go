package main

// Long histories on a small container: more calls of each operation than 16-bit counts hold.

func longCases(ks []*Kind, tier string, seed uint64, tag string) []*Case {
	var out []*Case
	for i, k := range ks {
		r := newRng(seed, strHash(tag), 0x10e9, uint64(i))
		c := &Case{Kind: k.Name, N: 10 + r.n(24), Seed: r.u64(), Shape: "rand", Mix: "long", Std: !controlled,
			Prof: Profile{Name: "long", Alpha: 3 + r.n(14), PMax: 18, NClass: 1 + r.n(6)}}
		c.Ops = tiered(tier, 66000+r.n(2000), 300000)
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = "fix"
		}
		out = append(out, c)
	}
	return out
}

func runLong(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	c, p := h.c, cs.Prop
	dict := p == "C01" || p == "C02"
	for k := 0; k < h.n; k += 2 {
		v := h.newVal()
		c.Put(k, v)
		h.modelPut(k, v)
	}
	length := func(what string, i, want int) {
		if p == "C04" {
			if l := c.Len(); l != uint(want) {
				failf("round %d: after %s the reported length is %d, but %d distinct keys are present", i, what, l, want)
			}
		}
	}
	with := make([]float64, h.n)
	depth := func(what string, i int, want float64) {
		if p == "C05" {
			if d := c.Dep(); d != want {
				failf("round %d: after %s the reported depth is %v; it was %v before with the same keys", i, what, d, want)
			}
		}
	}
	expect := func(what string, i, k, want int) {
		if !dict {
			return
		}
		if has := c.Has(k); has != (want >= 0) {
			failf("round %d: after %s key %d is reported present=%v", i, what, k, has)
		}
		if h.isMap {
			if got, ok := c.Get(k); ok != (want >= 0) || ok && got != want || !ok && got != 0 {
				failf("round %d: after %s Get of key %d returned (%d,%v), want %d", i, what, k, got, ok, want)
			}
			if got := c.Val(k); got != max(want, 0) {
				failf("round %d: after %s Val of key %d returned %d, want %d", i, what, k, got, want)
			}
		}
	}
	mod := func(i, k, old, v int) {
		calls := 0
		c.Mod(k, func(q VP, existed bool) {
			calls++
			if p != "C11" {
				q.Store(v)
				return
			}
			if x := q.Load(); existed != (old >= 0) || x != max(old, 0) {
				failf("round %d: modify of key %d (value %d) called its callback with value %d and %v", i, k, old, x, existed)
			}
			q.Store(v)
		})
		if p != "C11" {
			return
		}
		if calls != 1 {
			failf("round %d: modify of key %d called its callback %d times", i, k, calls)
		}
		if got, ok := c.Get(k); !ok || got != c.Norm(v) {
			failf("round %d: the callback stored %d for key %d, but Get returned (%d,%v)", i, c.Norm(v), k, got, ok)
		}
	}
	var order []int
	if p == "C06" || p == "C03" {
		order = h.contents(c)
	}
	var kept []VP // pointers to the values of keys that stay
	if p == "C10" {
		for k := 0; k < h.n; k += 2 {
			kept = append(kept, c.Ptr(k))
		}
	}
	if p == "C05" {
		h.checkDep()
	}
	base, n := c.Dep(), len(h.present)
	for i := 0; i < cs.Ops; i++ {
		k := 2*(i%(h.n/2)) + 1
		h.step++
		v, w, x := h.newVal(), h.newVal(), h.newVal()
		c.Put(k, v)
		if p == "C05" && i < h.n/2 {
			h.modelPut(k, v)
			h.checkDep()
			with[k] = c.Dep()
			h.modelDel(k)
		}
		length("an insertion", i, n+1)
		depth("an insertion", i, with[k])
		expect("an insertion", i, k, c.Norm(v))
		c.Put(k, w)
		length("an overwrite", i, n+1)
		depth("an overwrite", i, with[k])
		if h.isMap {
			expect("an overwrite", i, k, c.Norm(w))
			mod(i, k, c.Norm(w), x)
			length("a modification", i, n+1)
			depth("a modification", i, with[k])
			expect("a modification", i, k, c.Norm(x))
		}
		c.Del(k)
		length("a deletion", i, n)
		depth("a deletion", i, base)
		expect("a deletion", i, k, -1)
		c.Del(k)
		length("a deletion of an absent key", i, n)
		depth("a deletion of an absent key", i, base)
		if h.isMap {
			mod(i, k, -1, v)
			length("an insertion by modify", i, n+1)
			depth("an insertion by modify", i, with[k])
			expect("an insertion by modify", i, k, c.Norm(v))
			c.Del(k)
			length("a deletion", i, n)
			depth("a deletion", i, base)
			expect("a deletion", i, k, -1)
		}
		stay := 2 * (i % ((h.n + 1) / 2))
		expect("operations on other keys", i, stay, h.val[stay])
		if p == "C03" || p == "C06" && i%16 == 0 {
			at := 0
			c.All(func(k int, q VP) bool {
				if at >= len(order) || order[at] != k {
					failf("round %d: an iteration over the same keys visits other keys, or in another order", i)
				}
				if q != nil && p == "C03" && q.Load() != h.val[k] {
					failf("round %d: iteration passed value %d for key %d, want %d", i, q.Load(), k, h.val[k])
				}
				at++
				return true
			})
			if at != len(order) {
				failf("round %d: iteration made %d calls for %d keys", i, at, len(order))
			}
			if p == "C03" {
				at = 0
				c.All(func(int, VP) bool { at++; return false })
				if at != 1 {
					failf("round %d: iteration made %d calls although the first returned false", i, at)
				}
			}
		}
		if kept != nil {
			q := kept[stay/2]
			if got := q.Load(); got != h.val[stay] {
				failf("round %d: a pointer to the value of key %d reads %d, want %d", i, stay, got, h.val[stay])
			}
			q.Store(w)
			h.modelPut(stay, w)
			if got, ok := c.Get(stay); !ok || got != h.val[stay] {
				failf("round %d: %d was stored through a pointer to the value of key %d, but Get returned (%d,%v)", i, h.val[stay], stay, got, ok)
			}
			c.Put(stay, x)
			h.modelPut(stay, x)
			if got := q.Load(); got != h.val[stay] {
				failf("round %d: after a Set of key %d a pointer to its value reads %d, want %d", i, stay, got, h.val[stay])
			}
		}
	}
	h.opc[0] += 2 * int64(cs.Ops)
	h.opc[1] += 2 * int64(cs.Ops)
	h.chkN["rounds_of_long_history"] += int64(cs.Ops)
	h.contents(c)
	return h
}

func init() {
	for id, ks := range map[string]func(*Kind) bool{
		"C01": func(k *Kind) bool { return k.IsMap && valSubset("int", "unit")(k) }, "C02": isSet, "C03": valSubset("int"), "C04": valSubset("int"),
		"C05": valSubset("unit"), "C06": valSubset("unit"), "C10": func(k *Kind) bool { return k.IsMap && valSubset("int")(k) },
		"C11": func(k *Kind) bool { return k.IsMap && valSubset("int")(k) },
	} {
		prop := properties[id]
		cases, run := prop.Cases, prop.Run
		prop.Cases = func(tier string, seed uint64, variant string) []*Case {
			out := cases(tier, seed, variant)
			if controlled {
				out = append(out, longCases(filterKinds(ks), tier, seed, id)...)
			}
			return out
		}
		prop.Run = func(cs *Case) *H {
			if cs.Mix == "long" {
				return runLong(cs)
			}
			return run(cs)
		}
	}
}
