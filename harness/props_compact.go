package main

import (
	"sort"
	"unsafe"
)

// ---- C21: compact layout ------------------------------------------------------------

// slot has the documented size of what an entry or a branch takes in the array of
// the branch that it is in.
type slot struct {
	p    unsafe.Pointer
	a, b uint32
}

func slots(n int) unsafe.Pointer {
	switch {
	case n <= 4:
		return unsafe.Pointer(new([4]slot))
	case n <= 8:
		return unsafe.Pointer(new([8]slot))
	case n <= 12:
		return unsafe.Pointer(new([12]slot))
	}
	return unsafe.Pointer(new([16]slot))
}

// cellOf returns a new cell for an entry: the value and the key together. A value
// without size takes no space, unless it comes last.
func cellOf[K, V any](k K, v V) unsafe.Pointer {
	return unsafe.Pointer(&struct {
		v V
		k K
	}{v, k})
}

// Cell allocates what a container needs for an entry beside its slot; inline tells
// that the key is in the slot.
func (c *contM[K, V]) Cell(k, v int, inline bool) unsafe.Pointer {
	if inline {
		return unsafe.Pointer(&struct{ v V }{c.enc(v)})
	}
	return cellOf(c.key(k), c.enc(v))
}

func (c *contS[K]) Cell(k, _ int, inline bool) unsafe.Pointer {
	if inline {
		return nil
	}
	return cellOf(c.key(k), struct{}{})
}

// reference allocates the documented layout for entries sorted by their digits:
// their slots and cells, and nothing else.
type reference struct {
	h       *H
	inline  bool
	want    map[int]int
	dig     *digits
	slots   int
	entries int
}

func (f *reference) branch(c Cont, keys []int, depth int) unsafe.Pointer {
	n := 0
	for i, k := range keys {
		if i == 0 || f.dig.d[k][depth] != f.dig.d[keys[i-1]][depth] {
			n++
		}
	}
	if depth == 0 {
		n = 16
	}
	f.slots += (n + 3) / 4 * 4
	a := slots(n)
	for i, s := 0, 0; i < len(keys); s++ {
		j := i + 1
		for j < len(keys) && f.dig.d[keys[j]][depth] == f.dig.d[keys[i]][depth] {
			j++
		}
		at := (*slot)(unsafe.Add(a, uintptr(s)*unsafe.Sizeof(slot{})))
		if j == i+1 {
			at.p = c.(interface {
				Cell(k, v int, inline bool) unsafe.Pointer
			}).Cell(keys[i], f.want[keys[i]], f.inline)
			f.entries++
		} else {
			at.p = f.branch(c, keys[i:j], depth+1)
		}
		i = j
	}
	return a
}

func compactOnce(cs *Case) *H {
	sameRepr, keepKeys = true, cs.Seed&1 == 0
	defer func() { sameRepr, keepKeys = false, false }()
	in := setup(cs)
	h := newH(cs, in, 0)
	curH = h
	h.run(nil)
	h.failAll()
	h.noteDepth()
	dig := h.needDigits()
	keys := append([]int(nil), h.present...)
	want := map[int]int{}
	for _, k := range keys {
		want[k] = h.val[k]
	}
	h.trace, h.ptrs = nil, nil
	c := h.c
	empty := c.Fresh()
	h.c = nil
	got := footprint(&c)
	sort.Slice(keys, func(i, j int) bool { return dig.rank[keys[i]] < dig.rank[keys[j]] })
	k := kindByName(cs.Kind)
	f := &reference{h: h, inline: k.Type == "IntMap" || k.Type == "IntSet", want: want, dig: dig}
	ref := f.branch(empty, keys, 0)
	with := heapBytes()
	keep(ref)
	ref = nil
	doc := max(with-heapBytes(), int64(16*f.slots)) // whatever the runtime itself allocates meanwhile
	stats.Checks["layouts"]++
	stats.Extra["layout_bytes_compared"] += doc
	stats.Extra["layout_slots"] += int64(f.slots)
	stats.Extra["layout_entries"] += int64(f.entries)
	limit := doc + doc/100 + footprintSlack
	if tinyEntries(k) {
		limit += 16 * int64(len(want))
	}
	if got <= limit && doc > 20000 && !tinyEntries(k) {
		stats.Extra["max_layout_excess_bytes"] = max(stats.Extra["max_layout_excess_bytes"], got-doc)
		stats.Extra["max_layout_excess_permille"] = max(stats.Extra["max_layout_excess_permille"], (got-doc)*1000/doc)
	}
	if got > limit {
		failf("a container with %d keys retains %d bytes; %d slots and the cells of the entries take %d", len(want), got, f.slots, doc)
	}
	return h
}

//go:noinline
func keep(p unsafe.Pointer) { kept = p; kept = nil }

var kept unsafe.Pointer

func init() {
	properties["C21"] = &Property{
		Cases: func(tier string, seed uint64, variant string) []*Case {
			var full []*Case // sizes at which most branches above the leaves have arrays of one size
			for i, k := range filterKinds(valSubset("unit")) {
				for j, n := range []int{700, 1400, 2200, 4300, 9000} {
					c := &Case{Kind: k.Name, N: n, Ops: n, Mix: "F", Shape: "rand", Seed: mix64(seed ^ uint64(i*8+j)), Prof: profStrong()}
					switch k.KeyK {
					case "string", "bytes", "fold":
						c.Shape = "fat"
					}
					full = append(full, c)
				}
			}
			return append(full, genCases(filterKinds(valSubset("int", "string", "ptr", "big", "unit", "any", "slice")), tiered(tier, 3, 100), seed, variant, 3, false, func(c *Case, k *Kind, r *rng) {
				if !r.chance(1, 4) { // large enough to see a few bytes per entry
					c.N = 300 + r.n(4000)
					c.Ops = c.N
					c.Mix = []string{"F", "F", "g", "Fs", "FDu", "gm", "Fc", "FT"}[r.n(8)]
				}
				switch r.n(3) {
				case 0:
					c.Prof = profStrong()
				case 1:
					c.Prof = Profile{Name: "pairs", Alpha: 16, PMax: 34, NClass: 1 + c.N/2}
				}
				switch k.KeyK {
				case "string", "bytes", "fold": // no objects that the runtime packs into one block
					c.Shape = "fat"
				}
			})...)
		},
		Run: func(cs *Case) *H { return repeated(cs, compactOnce) },
	}
}
