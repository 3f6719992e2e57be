package main

// Case generation: fixed lists decided by the seed alone.

func profStrong() Profile { return Profile{Name: "strong", Alpha: 16} }

func pickProfile(r *rng, n int) Profile {
	switch r.n(8) {
	case 0:
		return profStrong()
	case 1:
		if n <= 60 && r.chance(1, 3) { // many complete collisions in succession
			return Profile{Name: "verydeep", Alpha: 16, PMax: 64 + r.n(260), NClass: 1 + r.n(3)}
		}
		return Profile{Name: "narrow", Alpha: 2 + r.n(4)}
	case 2:
		return Profile{Name: "prefix15", Alpha: 16, PMax: 15, NClass: 1 + r.n(1+n/3)}
	case 3:
		return Profile{Name: "deep48", Alpha: 16, PMax: 48, NClass: 1 + r.n(1+n/3)}
	case 4:
		return Profile{Name: "deepnarrow", Alpha: 2 + r.n(6), PMax: 40, NClass: 1 + r.n(4)}
	case 5:
		return Profile{Name: "oneclass", Alpha: 16, PMax: 1 + r.n(36), NClass: 1}
	case 6:
		return Profile{Name: "boundary", Alpha: 2 + r.n(15), PMax: 16*(1+r.n(3)) - 1 + r.n(3), NClass: 1 + r.n(3)}
	default:
		return Profile{Name: "prefix3", Alpha: 16, PMax: 3, NClass: 1 + r.n(1+n/2)}
	}
}

var mixes = []string{"gscs", "FE", "FDE", "gcs", "FEFE", "gmsE", "gdsd", "FsgcE", "cuc", "FDcD", "mmsm", "gsgsgsE", "c", "Fu", "dd", "FT", "FTgT"}

func pickShape(r *rng, keyk string) string {
	switch keyk {
	case "int", "arr8":
		return []string{"rand", "seq", "hilo", "edge"}[r.n(4)]
	case "string", "bytes":
		return []string{"fix", "fix", "fix", "var", "long", "edge"}[r.n(6)]
	case "arr64":
		return []string{"rand", "seq"}[r.n(2)]
	}
	return "rand"
}

func pickN(r *rng, large bool) int {
	switch r.n(10) {
	case 0:
		return 1 + r.n(3)
	case 1, 2:
		return 4 + r.n(8)
	case 3, 4, 5:
		return 12 + r.n(30)
	case 6, 7:
		return 40 + r.n(100)
	case 8:
		return 140 + r.n(300)
	default:
		if large {
			return 400 + r.n(2000)
		}
		return 60 + r.n(100)
	}
}

// genCases makes rounds*len(ks) cases: every kind is visited in each round.
func genCases(ks []*Kind, rounds int, seed uint64, tag string, opsPerKey int, large bool, tweak func(c *Case, k *Kind, r *rng)) []*Case {
	var out []*Case
	for round := 0; round < rounds; round++ {
		for i, k := range ks {
			r := newRng(seed, strHash(tag), uint64(round), uint64(i))
			c := &Case{Kind: k.Name, N: pickN(r, large), Seed: r.u64()}
			c.Prof = pickProfile(r, c.N)
			c.Shape = pickShape(r, k.KeyK)
			c.Mix = mixes[r.n(len(mixes))]
			c.Ops = 40 + c.N*opsPerKey
			if tweak != nil {
				tweak(c, k, r)
			}
			if !controlled {
				c.Std = true
			}
			out = append(out, c)
		}
	}
	return out
}

// middling makes a few cases of properties with small containers larger.
func middling(c *Case, k *Kind, r *rng) {
	if r.chance(1, 16) {
		c.N = 300 + r.n(1+r.n(2500))
		c.Ops = 2 * c.N
		c.Mix = []string{"FT", "FE", "Fs", "gc", "FTg"}[r.n(5)]
		c.Prof = []Profile{profStrong(), {Name: "narrow", Alpha: 6 + r.n(8)}, {Name: "pairs", Alpha: 16, PMax: 34, NClass: 1 + c.N/2}}[r.n(3)]
		if k.KeyK == "int" || k.KeyK == "arr8" {
			c.Shape = "rand"
		}
	}
}

// hugeKeys gives a few cases keys of 64 KiB and more.
func hugeKeys(c *Case, k *Kind, r *rng) {
	if (k.KeyK == "string" || k.KeyK == "bytes") && r.chance(1, 10) {
		c.Shape, c.N = "huge", 2+r.n(12)
		c.Ops = 30 + 3*c.N
		if c.Prof.PMax > 40 {
			c.Prof.PMax = 40
		}
	}
}

func isMap(k *Kind) bool { return k.IsMap }
func isSet(k *Kind) bool { return !k.IsMap }
func any_(k *Kind) bool  { return true }

// valSubset keeps all sets and the maps with the given value types.
func valSubset(vals ...string) func(*Kind) bool {
	return func(k *Kind) bool {
		if !k.IsMap {
			return true
		}
		for _, v := range vals {
			if k.Name == k.Type+"/"+v {
				return true
			}
		}
		return false
	}
}
