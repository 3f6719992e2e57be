package main

import "strings"

// scaleCases fill every container type beyond 65536 keys and thin it out again.
func scaleCases(ks []*Kind, tier string, seed uint64, tag string) []*Case {
	var out []*Case
	for i, k := range ks {
		r := newRng(seed, strHash(tag), 0x5ca1e, uint64(i))
		c := &Case{Kind: k.Name, N: 65600 + r.n(6000), Seed: r.u64(), Prof: profStrong(), Shape: "rand", Mix: "FT", Std: !controlled}
		if tier == "thorough" {
			c.N *= 1 + r.n(6)
		}
		c.Ops = c.N
		if controlled { // a few pairs of keys that collide deeply, at any size
			c.Prof = Profile{Name: "flecked", Alpha: 16, PMin: 12, PMax: 36, NClass: c.N / 2, Rare: 12}
		}
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = "fix"
		}
		out = append(out, c)
	}
	return out
}

// midCases are histories of a few thousand keys.
func midCases(ks []*Kind, tier string, seed uint64, tag string) []*Case {
	var out []*Case
	for round := 0; round < tiered(tier, 1, 20); round++ {
		for i, k := range ks {
			r := newRng(seed, strHash(tag), 0x31d, uint64(i), uint64(round))
			c := &Case{Kind: k.Name, N: 2000 + r.n(4000), Seed: r.u64(), Prof: profStrong(), Shape: "rand", Std: !controlled}
			c.Mix = []string{"FT", "FE", "Fs", "FTg", "gc"}[r.n(5)]
			c.Ops = c.N * 2
			if r.chance(1, 4) {
				c.Prof = Profile{Name: "narrow", Alpha: 4 + r.n(8)}
			}
			if k.KeyK == "string" || k.KeyK == "bytes" {
				c.Shape = "fix"
			}
			out = append(out, c)
		}
	}
	return out
}

// sweepCases take every container type through all sizes up to a few thousand and
// back, twice, so that branches at every level go through all numbers of items.
func sweepCases(ks []*Kind, tier string, seed uint64, tag string) []*Case {
	var out []*Case
	for round := 0; round < tiered(tier, 3, 30); round++ {
		for i, k := range ks {
			r := newRng(seed, strHash(tag), 0x53ee9, uint64(i), uint64(round))
			c := &Case{Kind: k.Name, N: 900 + r.n(1600), Seed: r.u64(), Prof: profStrong(), Shape: "rand", Mix: "FEFE", Extra: 300}
			c.Ops = c.N
			switch round % 3 {
			case 1:
				c.Prof = Profile{Name: "narrow", Alpha: 11 + r.n(5)}
			case 2: // most sizes see a deep collision
				c.N = 4100 + r.n(300)
				c.Prof = Profile{Name: "pairs", Alpha: 16, PMin: 14, PMax: 36, NClass: 1 + c.N/2}
			}
			if k.KeyK == "string" || k.KeyK == "bytes" {
				c.Shape = "fix"
			}
			out = append(out, c)
		}
	}
	return out
}

// deepCases are histories of a few keys that share hundreds of digits.
func deepCases(ks []*Kind, tier string, seed uint64, tag string) []*Case {
	var out []*Case
	for round := 0; round < tiered(tier, 1, 30); round++ {
		for i, k := range ks {
			r := newRng(seed, strHash(tag), 0xdee9, uint64(i), uint64(round))
			lo := []int{100, 120, 128, 200, 250, 256, 260, 500, 520}[r.n(9)]
			c := &Case{Kind: k.Name, N: 2 + r.n(9), Seed: r.u64(), Shape: "rand",
				Prof: Profile{Name: "chasm", Alpha: 16, PMin: lo, PMax: lo + r.n(lo), NClass: 1 + r.n(3)}}
			c.Mix = mixes[r.n(len(mixes))]
			c.Ops = 30 + c.N*4
			c.Extra = 20000
			if k.KeyK == "string" || k.KeyK == "bytes" {
				c.Shape = "fix"
			}
			out = append(out, c)
		}
	}
	for i, k := range ks { // counts of levels beyond 12 bits, of rehashes beyond 8
		r := newRng(seed, strHash(tag), 0x9f1f, uint64(i))
		c := &Case{Kind: k.Name, N: 4 + r.n(6), Seed: r.u64(), Shape: "rand", Mix: "FEFE",
			Prof: Profile{Name: "gulf", Alpha: 2 + r.n(15), PMin: 4097, PMax: 4097 + r.n(30), NClass: 1}}
		c.Ops = 8 * c.N
		c.Extra = 20000
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = "fix"
		}
		out = append(out, c)
	}
	return out
}

// pitCases have more than 65536 levels. Key types whose rounds are hashed from the
// start each time would take too long.
func pitCases(ks []*Kind, tier string, seed uint64, tag string) []*Case {
	var out []*Case
	for i, k := range ks {
		if k.KeyK != "weak" && strings.Contains(k.Type, "Map[") && !strings.Contains(k.Type, "ArrMap") ||
			k.KeyK != "weak" && strings.Contains(k.Type, "Set[") && !strings.Contains(k.Type, "ArrSet") {
			continue
		}
		r := newRng(seed, strHash(tag), 0xdee9, uint64(i))
		c := &Case{Kind: k.Name, N: 4 + r.n(3), Seed: r.u64(), Shape: "rand", Mix: "FE",
			Prof: Profile{Name: "pit", Alpha: 2 + r.n(3), PMin: 65540, PMax: 65540 + r.n(100), NClass: 1}}
		c.Ops = 2 * c.N
		c.Extra = 50 * c.Prof.PMax / 16
		if k.KeyK == "string" || k.KeyK == "bytes" {
			c.Shape = "fix"
		}
		out = append(out, c)
	}
	return out
}

func init() {
	for id, ks := range map[string]func(*Kind) bool{
		"C01": isMap, "C02": isSet, "C03": valSubset("int"), "C04": valSubset("int"), "C05": valSubset("int"), "C06": valSubset("int"),
		"C10": func(k *Kind) bool { return k.IsMap && valSubset("int")(k) }, "C11": func(k *Kind) bool { return k.IsMap && valSubset("int")(k) },
		"C16": valSubset("int", "string"), "C18": valSubset("int"), "C20": valSubset("int"), "C21": valSubset("int"),
		"C07": valSubset("ptr", "string"), "C08": valSubset("int"), "C09": releaseKinds, "C13": valSubset("int"), "C14": func(k *Kind) bool { return k.KeyK != "weak" && k.KeyK != "fold" && valSubset("int")(k) },
	} {
		cases := properties[id].Cases
		properties[id].Cases = func(tier string, seed uint64, variant string) []*Case {
			out := cases(tier, seed, variant)
			if !controlled {
				return out
			}
			n := len(out)
			out = append(out, deepCases(filterKinds(ks), tier, seed, id)...)
			switch id {
			case "C01", "C02", "C03", "C04", "C05", "C06", "C10", "C11", "C16", "C18", "C21":
				if !ticking {
					out = append(out, sweepCases(filterKinds(ks), tier, seed, id)...)
				}
			case "C07", "C08", "C09", "C13", "C14": // Extra selects what to do, and the keys must suit
				for _, c := range out[n:] {
					c.Extra = 0
					if k := kindByName(c.Kind).KeyK; id == "C09" && (k == "string" || k == "bytes" || k == "fold") {
						c.Shape = "fat"
					}
				}
			}
			switch id {
			case "C01", "C02", "C03", "C05", "C16", "C20":
				out = append(out, pitCases(filterKinds(ks), tier, seed, id)...)
			}
			return out
		}
	}
}

func init() { // after the files that define the properties
	for id, ks := range map[string]func(*Kind) bool{
		"C18": valSubset("unit"), "C01": func(k *Kind) bool { return k.IsMap && valSubset("int")(k) }, "C02": isSet, "C03": valSubset("unit"), "C04": valSubset("int"), "C05": valSubset("unit"),
	} {
		cases := properties[id].Cases
		properties[id].Cases = func(tier string, seed uint64, variant string) []*Case {
			out := cases(tier, seed, variant)
			if id == "C05" && variant == "std" {
				return out
			}
			n := len(out)
			out = append(out, scaleCases(filterKinds(ks), tier, seed, variant)...)
			if id == "C18" { // large branches that vanish
				for _, c := range scaleCases(filterKinds(ks), tier, seed+1, variant) {
					c.Mix, c.N = "FE", 20000
					out = append(out, c)
				}
			}
			for _, c := range out[n:] {
				if k := kindByName(c.Kind).KeyK; id == "C18" && (k == "string" || k == "bytes" || k == "fold") {
					c.Shape = "fat"
				}
			}
			return out
		}
	}
}

func init() {
	ints := func(k *Kind) bool { return k.IsMap && valSubset("int")(k) }
	for id, ks := range map[string]func(*Kind) bool{
		"C06": valSubset("unit"), "C10": ints, "C11": ints, "C12": valSubset("int"), "C14": valSubset("unit"), "C16": valSubset("unit"),
	} {
		cases := properties[id].Cases
		properties[id].Cases = func(tier string, seed uint64, variant string) []*Case {
			out := cases(tier, seed, variant)
			if id == "C16" && ticking || id == "C14" && variant == "std" {
				return out
			}
			for _, c := range midCases(filterKinds(ks), tier, seed, id) {
				k := kindByName(c.Kind)
				switch id {
				case "C14":
					if k.KeyK == "weak" || k.KeyK == "fold" {
						continue
					}
					if k.KeyK == "string" || k.KeyK == "bytes" {
						c.Shape = "var"
					}
				case "C16":
					c.Prof = Profile{Name: "pairs", Alpha: 16, PMax: 34, NClass: 1 + c.N/2}
					c.Extra = 300
				}
				out = append(out, c)
			}
			return out
		}
	}
}
