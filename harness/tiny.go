package main

import (
	"hash/maphash"
	"strings"
)

// ---- keys of unusual sizes, containers in unusual numbers ------------------------------

// ZeroKey is a custom key without any memory; there is one of it.
type ZeroKey struct{}

func (ZeroKey) Equal(ZeroKey) bool                       { return true }
func (ZeroKey) Hash(seed maphash.Seed, iter uint) uint64 { return weakHash(7, iter) }
func zeroKS(shape string, n int, r *rng) *KS[ZeroKey] {
	return &KS[ZeroKey]{n: 1, L: -1,
		mk:   func(int, uint64) ZeroKey { return ZeroKey{} },
		id:   func(ZeroKey) int { return 0 },
		hash: quietly(func(i, iter int) uint64 { return weakHash(7, uint(iter)) })}
}

// ZeroArr is the same for the array containers.
type ZeroArr struct{}

func (ZeroArr) KeyBytes() (b [64]byte) { return }
func zeroArrKS(shape string, n int, r *rng) *KS[ZeroArr] {
	return &KS[ZeroArr]{n: 1, L: 64,
		mk:   func(int, uint64) ZeroArr { return ZeroArr{} },
		id:   func(ZeroArr) int { return 0 },
		hash: func(i, iter int) uint64 { return hashContent(make([]byte, 64), iter) }}
}

// TinyKey makes entries of one or two bytes.
type TinyKey uint8

func (k TinyKey) Equal(o TinyKey) bool                     { return k == o }
func (k TinyKey) Hash(seed maphash.Seed, iter uint) uint64 { return weakHash(uint64(k), iter) }
func (k TinyKey) KeyBytes() (b [64]byte)                   { b[0] = byte(k); return }
func tinyKS(shape string, n int, r *rng) *KS[TinyKey] {
	n = min(n, 256)
	p := r.perm(256)
	pos := make([]int, 256)
	for i, k := range p {
		pos[k] = i
	}
	return &KS[TinyKey]{n: n, L: -1,
		mk: func(i int, _ uint64) TinyKey { return TinyKey(p[i]) },
		id: func(k TinyKey) int {
			if pos[k] < n {
				return pos[k]
			}
			return -1
		},
		hash: quietly(func(i, iter int) uint64 { return weakHash(uint64(p[i]), uint(iter)) })}
}

func tinyArrKS(shape string, n int, r *rng) *KS[TinyKey] {
	ks := tinyKS(shape, n, r)
	ks.L = 64
	ks.hash = func(i, iter int) uint64 { b := ks.mk(i, 0).KeyBytes(); return hashContent(b[:], iter) }
	return ks
}

func quietly(f func(i, iter int) uint64) func(i, iter int) uint64 {
	return func(i, iter int) uint64 {
		c := countHashes
		countHashes = false
		h := f(i, iter)
		countHashes = c
		return h
	}
}

var tinyKinds []*Kind

func regTiny[V any](vs *VS[V]) {
	regGen("Map[Zero]", "zero", vs, zeroKS)
	regArr("ArrMap[Zero]", "zeroarr", vs, zeroArrKS)
	regGen("Map[Tiny]", "tiny", vs, tinyKS)
	regArr("ArrMap[Tiny]", "tinyarr", vs, tinyArrKS)
}

func init() {
	n := len(kinds)
	regTiny(vsUnit)
	regTiny(vsByte)
	regTiny(vsPtr)
	regGenSet("Set[Zero]", "zero", zeroKS)
	regArrSet("ArrSet[Zero]", "zeroarr", zeroArrKS)
	regGenSet("Set[Tiny]", "tiny", tinyKS)
	regArrSet("ArrSet[Tiny]", "tinyarr", tinyArrKS)
	tinyKinds = append(tinyKinds, kinds[n:]...)
	kinds = kinds[:n]

	for id, f := range map[string]func(*Kind) bool{"C01": isMap, "C02": isSet, "C03": any_, "C04": any_, "C05": any_, "C06": any_, "C07": any_, "C10": isMap, "C11": isMap, "C12": any_} {
		var ks []*Kind
		for _, k := range tinyKinds {
			if f(k) {
				ks = append(ks, k)
			}
		}
		addCases(id, func(tier string, seed uint64, variant string) []*Case {
			return genCases(ks, tiered(tier, 2, 40), seed, variant+"tiny", 6, false, func(c *Case, k *Kind, r *rng) {
				c.N = min(c.N, 256)
				c.Shape = "rand"
				if strings.HasPrefix(k.KeyK, "zero") {
					c.N, c.Ops = 1, 60
				}
			})
		})
	}
	for id, f := range map[string]func(*Kind) bool{"C01": isMap, "C02": isSet, "C14": any_} {
		addCases(id, func(tier string, seed uint64, variant string) []*Case {
			var out []*Case
			for i := 0; i < tiered(tier, 1, 4); i++ {
				for j, k := range filterKinds(func(k *Kind) bool {
					return f(k) && (k.KeyK == "string" || k.KeyK == "bytes") && valSubset("int")(k)
				}) {
					r := newRng(seed, strHash(variant), 0x3e9a, uint64(i), uint64(j))
					n := 4 + r.n(4)
					if k.KeyK == "string" && r.chance(1, 2) {
						n = 3 // longer ones
					}
					out = append(out, &Case{Kind: k.Name, N: n, Ops: 36, Mix: "cFc", Shape: "mega", Seed: r.u64(),
						Prof: Profile{Name: "narrow", Alpha: 2 + r.n(2)}, Std: variant == "std"})
				}
			}
			return out
		})
	}
	addCases("C13", func(tier string, seed uint64, variant string) []*Case {
		var out []*Case
		for i, k := range filterKinds(bulkKinds) {
			r := newRng(seed, 0x7ab1e, uint64(i))
			out = append(out, &Case{Kind: k.Name, N: 40 + r.n(60), Ops: 66000 + r.n(4000), Mix: "c", Shape: "rand", Seed: r.u64(), Prof: profStrong(), Extra: 9, Std: true})
		}
		return out
	})
	run13 := properties["C13"].Run
	properties["C13"].Run = func(cs *Case) *H {
		if cs.Extra == 9 {
			return runMany(cs)
		}
		return run13(cs)
	}
	for id, f := range map[string]func(*Kind) bool{"C01": isMap, "C02": isSet, "C03": any_, "C04": any_} {
		addCases(id, func(tier string, seed uint64, variant string) []*Case {
			ks := filterKinds(func(k *Kind) bool { return f(k) && bulkKinds(k) })
			if tier == "quick" && id != "C04" {
				i := int(seed % uint64(len(ks)))
				ks = ks[i : i+1]
			}
			var out []*Case
			for i, k := range ks {
				r := newRng(seed, 0xb01c, uint64(i))
				c := &Case{Kind: k.Name, N: 1<<20 + 1 + r.n(30000), Mix: "c", Shape: "rand", Seed: r.u64(), Prof: profStrong(), Extra: -9, Std: true}
				if k.KeyK == "string" || k.KeyK == "bytes" {
					c.Shape = "fix"
				}
				out = append(out, c)
			}
			return out
		})
		run := properties[id].Run
		properties[id].Run = func(cs *Case) *H {
			if cs.Extra == -9 {
				return runBulk(cs)
			}
			return run(cs)
		}
	}
}

func addCases(id string, more func(tier string, seed uint64, variant string) []*Case) {
	cases := properties[id].Cases
	properties[id].Cases = func(tier string, seed uint64, variant string) []*Case {
		return append(cases(tier, seed, variant), more(tier, seed, variant)...)
	}
}

// bulkKinds are the ten container types.
func bulkKinds(k *Kind) bool {
	switch k.Type {
	case "IntMap", "StringMap", "BytesMap", "ArrMap[Arr8]", "Map[Int]":
		return valSubset("int")(k)
	case "IntSet", "StringSet", "BytesSet", "ArrSet[Arr8]", "Set[Int]":
		return true
	}
	return false
}

// runMany makes more containers than 16-bit numbers can tell apart, while all are still
// empty, and then looks for influences among them.
func runMany(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	cs2 := make([]Cont, cs.Ops)
	for i := range cs2 {
		cs2[i] = h.c.Fresh()
	}
	key := func(i int) int { return int(mix64(uint64(i)^cs.Seed) % uint64(in.N)) }
	for i, c := range cs2 {
		if i%3 != 2 {
			c.Put(key(i), i)
		}
	}
	for i, c := range cs2 {
		k, want := key(i), uint(1)
		if i%3 == 2 {
			want = 0
		}
		if l := c.Len(); l != want {
			failf("container %d of %d, which has been given %d keys, has length %d", i, len(cs2), want, l)
		}
		if c.Has(k) != (want == 1) || c.Has((k+1)%in.N) && in.N > 1 {
			failf("container %d of %d does not hold just the key put into it", i, len(cs2))
		}
		if h.isMap && want == 1 && c.Val(k) != c.Norm(i) {
			failf("container %d of %d holds value %d, want %d", i, len(cs2), c.Val(k), c.Norm(i))
		}
		n := uint(0)
		c.All(func(q int, p VP) bool { n++; return q == k })
		if n != want {
			failf("iteration of container %d of %d made %d calls, want %d", i, len(cs2), n, want)
		}
	}
	stats.Checks["containers_alive_at_once"] += int64(len(cs2))
	return h
}

// runBulk fills a container with more than a million keys and empties it.
func runBulk(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	c := h.c
	present := make([]bool, in.N)
	cnt := 0
	check := func() {
		stats.Checks["bulk_lookups"] += 1000
		if l := c.Len(); l != uint(cnt) {
			failf("length reported %d, but %d distinct keys are present", l, cnt)
		}
		for i := 0; i < 1000; i++ {
			k := h.r.n(in.N)
			if c.Has(k) != present[k] {
				failf("lookup of key %d with %d keys present: present=%v, want %v", k, cnt, !present[k], present[k])
			}
			if h.isMap && present[k] {
				if v := c.Val(k); v != c.Norm(k) {
					failf("lookup of key %d with %d keys present: value %d, want %d", k, cnt, v, c.Norm(k))
				}
			}
		}
	}
	all := func() {
		seen := make([]bool, in.N)
		n := 0
		h.setOp("all")
		c.All(func(k int, p VP) bool {
			if k < 0 || !present[k] || seen[k] {
				failf("iteration passed key %d, which is not present or was passed before, in call %d", k, n+1)
			}
			seen[k] = true
			n++
			return true
		})
		h.endOp()
		if n != cnt {
			failf("iteration made %d calls, want %d", n, cnt)
		}
		stats.Checks["bulk_iterations"]++
	}
	p := h.r.perm(in.N)
	for i, k := range p {
		h.setOp("put")
		c.Put(k, k)
		h.endOp()
		present[k] = true
		cnt++
		if cnt&(cnt-1) == 0 || (cnt-1)&(cnt-2) == 0 || i%100000 == 0 {
			check()
		}
	}
	check()
	all()
	q := h.r.perm(in.N)
	for i, k := range q {
		h.setOp("del")
		c.Del(k)
		h.endOp()
		present[k] = false
		cnt--
		if cnt&(cnt-1) == 0 || i%100000 == 0 {
			check()
			if cnt < 1000 {
				all()
			}
		}
	}
	check()
	all()
	return h
}
