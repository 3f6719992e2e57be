package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math"
	"strings"
	"unsafe"

	"github.com/wdamron/amt"
)

// KS is a pool of n distinct keys of type K.
type KS[K any] struct {
	n    int
	L    int                          // bytes hashed per round, 0 if it varies
	mk   func(i int, r uint64) K      // an equal copy of key i; r selects the representation
	id   func(K) int                  // pool index of a key reported by a container, or -1
	hash func(i int, iter int) uint64 // hash of round iter, as the container should see it
	wk   func(K) func() bool          // liveness probe for a key copy
	into func(buf *[]byte, i int) K   // key i in memory that the caller uses again, if the type allows that
}

// Fixed-array key types.
type Arr8 [8]byte

func (a Arr8) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }

type Arr64 [64]byte

func (a Arr64) KeyBytes() [64]byte { return a }

// WeakKey is a custom key with a hash of arbitrary quality.
type WeakKey struct {
	id  uint64
	tag uint32 // not part of the identity
}

func (k WeakKey) Equal(o WeakKey) bool                     { return k.id == o.id }
func (k WeakKey) Hash(seed maphash.Seed, iter uint) uint64 { return weakHash(k.id, iter) }

// PtrKey is a custom key behind a pointer; equality is by content.
type PtrKey struct{ p *fatKey }

type fatKey struct {
	WeakKey
	pad [4]uint64
}

func (k PtrKey) Equal(o PtrKey) bool                      { return k.p.id == o.p.id }
func (k PtrKey) Hash(seed maphash.Seed, iter uint) uint64 { return weakHash(k.p.id, iter) }

// FoldKey is a case-insensitive string, hashed with the package's helper.
type FoldKey string

func (k FoldKey) Equal(o FoldKey) bool { return strings.EqualFold(string(k), string(o)) }
func (k FoldKey) Hash(seed maphash.Seed, iter uint) uint64 {
	return amt.HashBytes([]byte(strings.ToLower(string(k))), seed, iter)
}

func rep(b []byte, n int) []byte { return bytes.Repeat(b, n) }

// hashContent evaluates the installed hash function without charging the call.
func hashContent(content []byte, iter int) uint64 {
	c := countHashes
	countHashes = false
	h := contentHash(curSeed, rep(content, iter+1))
	countHashes = c
	return h
}

func genInts(shape string, n int, r *rng) []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(k int64) {
		if !seen[k] && len(out) < n {
			seen[k] = true
			out = append(out, k)
		}
	}
	edges := []int64{0, -1, 1, math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, math.MaxUint32,
		math.MaxUint32 + 1, -math.MaxUint32, -math.MaxUint32 - 1, math.MinInt64 + 1, math.MaxInt64 - 1,
		math.MinInt32 - 1, math.MaxInt32 + 1, 1 << 32, 3 << 32, -(1 << 32), 1 << 31, 1 << 63 >> 1, 0xFFFF, 0x10000, 0x8000, 0xFF, 0x80}
	switch shape {
	case "edge":
		for _, e := range edges {
			add(e)
		}
		for i := 0; i < 64; i++ {
			add(1 << uint(i))
			add(-(1 << uint(i)))
			add(1<<uint(i) - 1)
			add(^(1 << uint(i)))
		}
	case "hilo": // few distinct low halves and few distinct high halves
		lo := []int64{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, int64(r.u64() >> 32)}
		for len(out) < n && len(seen) < 4096 {
			hi := int64(int32(r.u64()))
			if r.chance(1, 2) {
				hi = int64(r.n(5) - 2)
			}
			add(hi<<32 | lo[r.n(len(lo))])
		}
	case "seq":
		base := int64(r.u64()) >> uint(r.n(60))
		for i := int64(0); len(out) < n; i++ {
			add(base + i)
		}
	}
	for len(out) < n {
		add(int64(r.u64()))
	}
	return out
}

// genStrings returns n distinct byte strings and the common length (0: varying).
func genStrings(shape string, n int, r *rng) ([]string, int) {
	seen := map[string]bool{}
	var out []string
	add := func(k string) {
		if !seen[k] && len(out) < n {
			seen[k] = true
			out = append(out, k)
		}
	}
	rs := func(l int, alpha int) string {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(r.n(alpha))
			if alpha == 26 {
				b[i] += 'a'
			}
		}
		return string(b)
	}
	switch shape {
	case "var", "edge":
		base := rs(20, 256)
		for i := 0; i <= len(base); i++ { // prefixes, including the empty string
			add(base[:i])
		}
		for i := 0; i < 12; i++ {
			add(strings.Repeat("\x00", i))
			add("a" + strings.Repeat("\x00", i))
			add(strings.Repeat("ab", i))
		}
		for i := 0; i < 16; i++ { // one-byte differences
			b := []byte(base)
			b[i] ^= 1 << uint(r.n(8))
			add(string(b))
		}
		for len(out) < n {
			l := r.n(30)
			if r.chance(1, 12) { // around the sizes of buffers
				l = r.pick(32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)
			}
			add(rs(l, r.pick(2, 26, 256)))
		}
		p := r.perm(len(out))
		o2 := make([]string, len(out))
		for i, j := range p {
			o2[i] = out[j]
		}
		if shape == "edge" { // always include the empty string
			for i := range o2 {
				if o2[i] == "" {
					o2[0], o2[i] = o2[i], o2[0]
				}
			}
		}
		return o2, 0
	case "long": // longer than any hash buffer, differing in one byte
		l := r.pick(65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 2049, 4100, 8200)
		if n > 400 {
			l = min(l, 300)
		}
		base := []byte(rs(l, 256))
		for i := 0; i < 3*n && len(out) < n; i++ {
			b := append([]byte(nil), base...)
			b[r.pick(0, l/2, l-1, r.n(l))] = byte(r.u64())
			add(string(b))
		}
		for len(out) < n {
			add(rs(l, 256))
		}
		return out, l
	}
	if shape == "mega" { // longer than a mebibyte, different only near the end or the start
		l := r.pick(1<<20, 1<<20, 1<<21) + 200 + r.n(100)
		if n == 3 {
			l = 1<<24 + 200 + r.n(100)
		}
		base := []byte(strings.Repeat(rs(4096, 256), l/4096+1)[:l])
		add(string(base))
		for len(out) < n {
			b := append([]byte(nil), base...)
			b[r.pick(l-1, l-1-r.n(20), l-1-r.n(150), l-1-r.n(150), r.n(l))] ^= byte(1 + r.n(255))
			add(string(b))
		}
		return out, l
	}
	if shape == "huge" { // lengths around and beyond 64 KiB, many of them prefixes of each other
		base := rs(140000, 256)
		lens := []int{65535, 65536, 65537, 65536 + 1 + r.n(4000), 131071, 131072, 131073, 0, 1, 1 + r.n(4000), 32768, 99999}
		for len(out) < n {
			b := []byte(base[:lens[r.n(len(lens))]])
			if len(b) > 0 && r.chance(1, 2) {
				b[r.pick(0, len(b)-1, r.n(len(b)), max(len(b)-1-r.n(20), 0))] ^= byte(1 + r.n(255))
			}
			if r.chance(1, 3) { // two that agree modulo 64 KiB
				add(base[:len(b)%65536])
			}
			add(string(b))
		}
		return out, 0
	}
	l := 6
	if shape == "fat" { // copies are separate heap objects
		l = 40
	}
	for len(out) < n {
		add(rs(l, 26))
	}
	return out, l
}

func intKS(shape string, n int, r *rng) *KS[int64] {
	ks := genInts(shape, n, r)
	idm := map[int64]int{}
	for i, k := range ks {
		idm[k] = i
	}
	return &KS[int64]{n: len(ks), L: 8,
		mk: func(i int, r uint64) int64 { return ks[i] },
		id: func(k int64) int {
			if i, ok := idm[k]; ok {
				return i
			}
			return -1
		},
		hash: func(i, iter int) uint64 { return hashContent(le64(ks[i]), iter) }}
}

func le64(k int64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(uint64(k) >> (8 * uint(i)))
	}
	return b
}

func strKS(shape string, n int, r *rng) *KS[string] {
	ks, L := genStrings(shape, n, r)
	idm := map[string]int{}
	for i, k := range ks {
		idm[k] = i
	}
	return &KS[string]{n: len(ks), L: L,
		mk: func(i int, r uint64) string {
			if r&1 == 0 || shape == "fat" {
				return strings.Clone(ks[i])
			}
			return ks[i]
		},
		id: func(k string) int {
			if i, ok := idm[k]; ok {
				return i
			}
			return -1
		},
		hash: func(i, iter int) uint64 { return hashContent([]byte(ks[i]), iter) },
		wk:   aliveStr}
}

// guarded hands out byte slices whose surroundings are known, and can verify
// that neither the key bytes nor the surroundings were touched.
type guarded struct {
	buf  []byte
	want string
}

const guardByte = 0xA7
const guardLen = 24

var guardLog []guarded
var guardOn bool

func guardSlice(k string) []byte {
	buf := make([]byte, guardLen+len(k)+guardLen)
	for i := range buf {
		buf[i] = guardByte
	}
	copy(buf[guardLen:], k)
	guardLog = append(guardLog, guarded{buf, k})
	return buf[guardLen : guardLen+len(k)] // capacity extends into the guard
}

func (g *guarded) check() error {
	for i, c := range g.buf {
		w := byte(guardByte)
		if i >= guardLen && i < guardLen+len(g.want) {
			w = g.want[i-guardLen]
		}
		if c != w {
			return fmt.Errorf("caller's key slice for %q was modified at offset %d: %#x, was %#x", g.want, i-guardLen, c, w)
		}
	}
	return nil
}

func bytesKS(shape string, n int, r *rng) *KS[[]byte] {
	ks, L := genStrings(shape, n, r)
	idm := map[string]int{}
	for i, k := range ks {
		idm[k] = i
	}
	return &KS[[]byte]{n: len(ks), L: L,
		mk: func(i int, r uint64) []byte {
			if len(ks[i]) == 0 && r&2 == 0 {
				return nil
			}
			if guardOn {
				return guardSlice(ks[i])
			}
			return []byte(ks[i])
		},
		id: func(k []byte) int {
			if i, ok := idm[string(k)]; ok {
				return i
			}
			return -1
		},
		into: func(buf *[]byte, i int) []byte {
			if guardOn {
				return guardSlice(ks[i])
			}
			*buf = append((*buf)[:0], ks[i]...)
			return *buf
		},
		hash: func(i, iter int) uint64 { return hashContent([]byte(ks[i]), iter) },
		wk:   aliveBytes}
}

func castKS[K, J any](k *KS[K], to func(K) J, from func(J) K) *KS[J] {
	out := &KS[J]{n: k.n, L: k.L,
		mk:   func(i int, r uint64) J { return to(k.mk(i, r)) },
		id:   func(j J) int { return k.id(from(j)) },
		hash: k.hash}
	if k.into != nil {
		out.into = func(buf *[]byte, i int) J { return to(k.into(buf, i)) }
	}
	if k.wk != nil {
		out.wk = func(j J) func() bool { return k.wk(from(j)) }
	}
	return out
}

func arr8KS(shape string, n int, r *rng) *KS[Arr8] {
	is := genInts(shape, n, r)
	idm := map[Arr8]int{}
	ks := make([]Arr8, len(is))
	for i, k := range is {
		copy(ks[i][:], le64(k))
		idm[ks[i]] = i
	}
	return &KS[Arr8]{n: len(ks), L: 64,
		mk: func(i int, r uint64) Arr8 { return ks[i] },
		id: func(k Arr8) int {
			if i, ok := idm[k]; ok {
				return i
			}
			return -1
		},
		hash: func(i, iter int) uint64 { b := ks[i].KeyBytes(); return hashContent(b[:], iter) }}
}

func arr64KS(shape string, n int, r *rng) *KS[Arr64] {
	idm := map[Arr64]int{}
	var ks []Arr64
	var base Arr64
	if shape != "seq" {
		for i := range base {
			base[i] = byte(r.u64())
		}
	}
	for len(ks) < n {
		k := base
		if len(ks) < 64 { // each single byte
			k[len(ks)] ^= 1 << uint(r.n(8))
		} else {
			for j := 0; j < 4; j++ {
				k[r.n(64)] = byte(r.u64())
			}
		}
		if _, ok := idm[k]; !ok {
			idm[k] = len(ks)
			ks = append(ks, k)
		}
	}
	return &KS[Arr64]{n: len(ks), L: 64,
		mk: func(i int, r uint64) Arr64 { return ks[i] },
		id: func(k Arr64) int {
			if i, ok := idm[k]; ok {
				return i
			}
			return -1
		},
		hash: func(i, iter int) uint64 { return hashContent(ks[i][:], iter) }}
}

func weakKS(shape string, n int, r *rng) *KS[WeakKey] {
	is := genInts(shape, n, r)
	idm := map[uint64]int{}
	for i, k := range is {
		idm[uint64(k)] = i
	}
	return &KS[WeakKey]{n: len(is), L: -1,
		mk: func(i int, r uint64) WeakKey { return WeakKey{uint64(is[i]), uint32(r)} },
		id: func(k WeakKey) int {
			if i, ok := idm[k.id]; ok {
				return i
			}
			return -1
		},
		hash: func(i, iter int) uint64 {
			c := countHashes
			countHashes = false
			h := weakHash(uint64(is[i]), uint(iter))
			countHashes = c
			return h
		}}
}

func ptrKS(shape string, n int, r *rng) *KS[PtrKey] {
	ks := castKS(weakKS(shape, n, r), func(k WeakKey) PtrKey { return PtrKey{&fatKey{WeakKey: WeakKey{k.id, k.tag}}} },
		func(k PtrKey) WeakKey {
			if k.p == nil {
				return WeakKey{id: 0xdeadbeefdeadbeef}
			}
			return k.p.WeakKey
		})
	ks.wk = func(k PtrKey) func() bool { return alive(k.p) }
	return ks
}

func foldKS(shape string, n int, r *rng) *KS[FoldKey] {
	if shape != "fat" {
		shape = "fix"
	}
	ks, L := genStrings(shape, n, r) // lower-case letters only
	idm := map[string]int{}
	for i, k := range ks {
		idm[k] = i
	}
	return &KS[FoldKey]{n: len(ks), L: L,
		mk: func(i int, r uint64) FoldKey {
			b := []byte(ks[i])
			for j := range b {
				if r>>uint(j)&1 == 1 {
					b[j] -= 'a' - 'A'
				}
			}
			return FoldKey(b)
		},
		wk: func(k FoldKey) func() bool { return aliveStr(string(k)) },
		id: func(k FoldKey) int {
			if i, ok := idm[strings.ToLower(string(k))]; ok {
				return i
			}
			return -1
		},
		hash: func(i, iter int) uint64 { return hashContent([]byte(ks[i]), iter) }}
}

// generic Map/Set over the package's own key types
func gstringKS(shape string, n int, r *rng) *KS[amt.String] {
	return castKS(strKS(shape, n, r), func(k string) amt.String { return amt.String(k) }, func(k amt.String) string { return string(k) })
}
func gbytesKS(shape string, n int, r *rng) *KS[amt.Bytes] {
	return castKS(bytesKS(shape, n, r), func(k []byte) amt.Bytes { return amt.Bytes(k) }, func(k amt.Bytes) []byte { return []byte(k) })
}
func gintKS(shape string, n int, r *rng) *KS[amt.Int] {
	return castKS(intKS(shape, n, r), func(k int64) amt.Int { return amt.Int(k) }, func(k amt.Int) int64 { return int64(k) })
}

func addr[V any](p *V) unsafe.Pointer { return unsafe.Pointer(p) }

// Rec is a comparable key that is not a byte array: it has padding and refers to
// other memory, so equal keys differ bit by bit.
type Rec struct {
	tag  uint8
	id   uint64
	name string
}

func (r Rec) KeyBytes() (b [64]byte) {
	b[0] = r.tag
	copy(b[1:9], le64(int64(r.id)))
	copy(b[9:], r.name)
	return
}

func recName(id uint64) string { return fmt.Sprintf("record-%016x-of-the-pool", id) }

func recKS(shape string, n int, r *rng) *KS[Rec] {
	is := genInts(shape, n, r)
	idm := map[uint64]int{}
	for i, k := range is {
		idm[uint64(k)] = i
	}
	mk := func(i int) Rec {
		id := uint64(is[i])
		return Rec{uint8(id), id, recName(id)}
	}
	return &KS[Rec]{n: len(is), L: 64,
		mk: func(i int, _ uint64) Rec { return mk(i) },
		id: func(k Rec) int {
			if i, ok := idm[k.id]; ok && k == mk(i) {
				return i
			}
			return -1
		},
		wk:   func(k Rec) func() bool { return aliveStr(k.name) },
		hash: func(i, iter int) uint64 { b := mk(i).KeyBytes(); return hashContent(b[:], iter) }}
}

// IfKey is an interface as a custom key type.
type IfKey interface {
	Equal(IfKey) bool
	Hash(maphash.Seed, uint) uint64
	ident() uint64
}

type ifVal struct {
	id   uint64
	junk *[4]uint64
}

type ifPtr struct {
	id   uint64
	junk [4]uint64
}

func (k ifVal) ident() uint64                          { return k.id }
func (k *ifPtr) ident() uint64                         { return k.id }
func (k ifVal) Equal(o IfKey) bool                     { return k.id == o.ident() }
func (k *ifPtr) Equal(o IfKey) bool                    { return k.id == o.ident() }
func (k ifVal) Hash(_ maphash.Seed, iter uint) uint64  { return weakHash(k.id, iter) }
func (k *ifPtr) Hash(_ maphash.Seed, iter uint) uint64 { return weakHash(k.id, iter) }

func ifKS(shape string, n int, r *rng) *KS[IfKey] {
	w := weakKS(shape, n, r)
	ks := castKS(w, func(k WeakKey) IfKey {
		if k.tag&1 == 0 { // equal keys of different dynamic types
			return ifVal{k.id, &[4]uint64{uint64(k.tag)}}
		}
		return &ifPtr{k.id, [4]uint64{uint64(k.tag)}}
	}, func(k IfKey) WeakKey {
		if k == nil {
			return WeakKey{id: 0xdeadbeefdeadbeef}
		}
		return WeakKey{id: k.ident()}
	})
	ks.wk = func(k IfKey) func() bool {
		if v, ok := k.(ifVal); ok {
			return alive(v.junk)
		}
		return alive(k.(*ifPtr))
	}
	return ks
}

// WideKey is a large custom key.
type WideKey struct {
	pad  [11]uint64
	id   uint64
	s    string
	last uint8
}

func (k WideKey) Equal(o WideKey) bool                     { return k.id == o.id }
func (k WideKey) Hash(seed maphash.Seed, iter uint) uint64 { return weakHash(k.id, iter) }

func wideKS(shape string, n int, r *rng) *KS[WideKey] {
	ks := castKS(weakKS(shape, n, r), func(k WeakKey) WideKey {
		w := WideKey{id: k.id, s: recName(k.id), last: uint8(k.id)}
		for i := range w.pad {
			w.pad[i] = chk(k.id + uint64(i))
		}
		return w
	}, func(k WideKey) WeakKey {
		for i := range k.pad {
			if k.pad[i] != chk(k.id+uint64(i)) || k.last != uint8(k.id) || k.s != recName(k.id) {
				damaged("key with id %#x is damaged", k.id)
			}
		}
		return WeakKey{id: k.id}
	})
	ks.wk = func(k WideKey) func() bool { return aliveStr(k.s) }
	return ks
}
