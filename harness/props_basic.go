package main

import "strings"

func tiered(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// runDict is the dictionary/set monitor: results of every operation against a model.
func runDict(cs *Case) *H {
	in := setup(cs)
	h := newH(cs, in, oLookup)
	curH = h
	if cs.Extra > 0 {
		h.budget = int64(cs.Extra)
	}
	every := h.n
	if h.n <= 20 {
		every = 1
	} else if h.n <= 80 {
		every = 16
	}
	h.sweep()
	h.run(func(k int) {
		h.lookup(k)
		h.lookup(h.r.n(h.n))
		if h.r.chance(1, 12) {
			h.disturb()
		}
		if h.step%every == 0 {
			h.sweep()
			h.noteDepth()
		}
		if h.step%(every*4) == 0 {
			h.contents(h.c)
		}
	})
	h.sweep()
	h.contents(h.c)
	h.noteDepth()
	return h
}

func simple(or int, quickRounds, thoroughRounds int, ks func(*Kind) bool, tweak func(*Case, *Kind, *rng), run func(*Case) *H) *Property {
	return &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			return genCases(filterKinds(ks), tiered(tier, quickRounds, thoroughRounds), seed, variant, 8, true, tweak)
		},
		Run: run,
	}
}

func init() {
	properties["C01"] = simple(0, 8, 400, isMap, hugeKeys, runDict)
	properties["C02"] = simple(0, 30, 1500, isSet, hugeKeys, runDict)
	properties["C03"] = simple(0, 6, 300, valSubset("int", "string", "big", "unit"), nil, func(cs *Case) *H {
		in := setup(cs)
		h := newH(cs, in, 0)
		curH = h
		h.holding = true
		every := 1 + h.n/4
		h.checkIter()
		h.run(func(k int) {
			if h.r.chance(1, 8) {
				h.disturb()
			}
			if h.step%every == 0 {
				h.checkIter()
			}
		})
		h.checkIter()
		h.noteDepth()
		return h
	})
	properties["C04"] = simple(0, 8, 400, valSubset("int", "unit", "big"), nil, func(cs *Case) *H {
		in := setup(cs)
		h := newH(cs, in, 0)
		curH = h
		h.checkLen()
		h.run(func(k int) {
			h.checkLen()
			if h.r.chance(1, 6) {
				h.disturb()
				h.checkLen()
			}
			switch h.r.n(12) { // reads never change the length
			case 0:
				h.c.Has(h.r.n(h.n))
				h.checkLen()
			case 1:
				left := h.r.n(min(len(h.present), 1000) + 1)
				h.c.All(func(int, VP) bool { left--; return left > 0 })
				h.checkLen()
			case 2:
				h.c.Dep()
				if h.isMap {
					h.c.Ptr(h.r.n(h.n))
				}
				h.checkLen()
			}
			if h.step%(h.n+1) == 0 { // ... and the count is of distinct keys really there
				h.contents(h.c)
				if h.isMap { // overwriting every key changes nothing
					for _, k := range append([]int(nil), h.present...) {
						h.doPut(k)
					}
					h.checkLen()
				}
			}
		})
		h.contents(h.c)
		h.checkLen()
		h.noteDepth()
		return h
	})
	properties["C05"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			ks := filterKinds(valSubset("int", "unit"))
			if variant == "std" {
				var out []*Case
				for i, k := range ks {
					if k.KeyK == "weak" || strings.Contains(k.Type, "PtrKey") {
						continue // not hashed by maphash
					}
					for j, n := range []int{1000, 16384, tiered(tier, 30000, 400000)} {
						out = append(out, &Case{Kind: k.Name, N: n, Shape: "rand", Ops: n, Mix: "F", Seed: mix64(seed ^ uint64(i*8+j)), Std: true})
					}
				}
				return out
			}
			return genCases(ks, tiered(tier, 10, 500), seed, variant, 8, false, nil)
		},
		Run: runDepth,
	}
	properties["C06"] = simple(0, 6, 300, valSubset("int", "unit"), func(c *Case, k *Kind, r *rng) {
		if c.N > 600 {
			c.N = 600
		}
	}, func(cs *Case) *H {
		in := setup(cs)
		h := newH(cs, in, 0)
		curH = h
		every := 1 + h.n/3
		h.run(func(k int) {
			if h.r.chance(1, 6) {
				h.disturb()
			}
			if h.step%every == 0 {
				h.checkCanon()
			}
		})
		h.checkCanon()
		h.noteDepth()
		return h
	})
	properties["C16"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			if ticking {
				return deepCostCases(tier, seed)
			}
			return genCases(filterKinds(valSubset("int", "big")), tiered(tier, 12, 600), seed, variant, 8, false, func(c *Case, k *Kind, r *rng) {
				c.Extra = 300 // hash computations per operation
				switch r.n(7) {
				case 6: // more successive complete collisions than fit in a byte
					if !r.chance(1, 3) {
						c.Prof = Profile{Name: "oneclass", Alpha: 16, PMax: 1 + r.n(60), NClass: 1}
						break
					}
					c.Prof = Profile{Name: "abyss", Alpha: 16, PMax: 4080 + r.n(300), NClass: 1 + r.n(2)}
					c.N = 2 + r.n(3)
					c.Ops = 20
					c.Extra = 40 * (c.Prof.PMax/16 + 3)
				case 5: // many successive complete collisions
					c.Prof = Profile{Name: "verydeep", Alpha: 16, PMax: 100 + r.n(300), NClass: 1 + r.n(3)}
					c.N = 2 + r.n(30)
					c.Ops = 40 + c.N*8
					c.Extra = 1500
				case 0:
					c.Prof = Profile{Name: "deep48", Alpha: 16, PMax: 48, NClass: 1 + r.n(1+c.N/2)}
				case 1:
					c.Prof = Profile{Name: "boundary", Alpha: 2 + r.n(15), PMax: 16*(1+r.n(3)) - 1 + r.n(3), NClass: 1 + r.n(2)}
				case 2:
					c.Prof = Profile{Name: "deepnarrow", Alpha: 2 + r.n(3), PMax: 48, NClass: 1 + r.n(3)}
				case 3:
					c.Prof = Profile{Name: "oneclass", Alpha: 16, PMax: 1 + r.n(60), NClass: 1}
				default:
					c.Prof = Profile{Name: "pairs", Alpha: 16, PMax: 34, NClass: 1 + c.N/2}
				}
				if k.KeyK == "string" || k.KeyK == "bytes" {
					c.Shape = []string{"fix", "fix", "long"}[r.n(3)]
				}
			})
		},
		Run: func(cs *Case) *H {
			if ticking {
				return runCost(cs)
			}
			return runDict(cs)
		},
	}
	properties["C14"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			return genCases(filterKinds(func(k *Kind) bool {
				return k.KeyK != "weak" && k.KeyK != "fold" && valSubset("int", "string")(k)
			}), tiered(tier, 14, 600), seed, variant, 6, false, func(c *Case, k *Kind, r *rng) {
				switch k.KeyK {
				case "int", "arr8":
					c.Shape = []string{"edge", "hilo", "seq", "edge"}[r.n(4)]
				case "string", "bytes":
					c.Shape = []string{"edge", "var", "long"}[r.n(3)]
				}
				if c.N < 30 {
					c.N = 30
				}
				switch r.n(3) {
				case 0:
					c.Prof = profStrong()
				case 1:
					c.Prof = Profile{Name: "narrow", Alpha: 2 + r.n(4)}
				default:
					c.Prof = Profile{Name: "prefix15", Alpha: 16, PMax: 15, NClass: 1 + r.n(6)}
				}
				hugeKeys(c, k, r)
			})
		},
		Run: func(cs *Case) *H {
			in := setup(cs)
			guardOn = true
			h := newH(cs, in, oLookup)
			h.holding = true
			curH = h
			h.run(func(k int) {
				h.lookup(k)
				h.lookup(h.r.n(h.n))
				if h.step%(1+h.n/2) == 0 {
					h.sweep()
					h.contents(h.c)
					h.checkGuards()
				}
			})
			h.sweep()
			h.contents(h.c)
			h.checkGuards()
			guardOn = false
			h.noteDepth()
			return h
		},
	}
}
