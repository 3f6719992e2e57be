// Replacement for the standard library's hash/maphash/maphash.go, put in place
// at build time with `go build -overlay` (never written to GOROOT). It keeps the
// public API and contract of the package (a hash is a function of the seed and
// of all bytes written since the last reset) but
//   - VerifMakeSeed, when set, decides the seeds handed out by MakeSeed;
//   - VerifFn, when set, decides the hash of (seed, bytes);
//   - otherwise a fixed strong mixing function is used, so that runs replay.
// This is fault injection on the hash function: hash collisions that the real
// one produces once in 2^64 cases happen on demand.
package maphash

import (
	"hash"
	"internal/abi"
	"unsafe"
)

// VerifFn, if not nil, computes the hash of content under seed. It must not retain content.
var VerifFn func(seed uint64, content []byte) uint64

// VerifMakeSeed, if not nil, returns the next (non-zero) seed.
var VerifMakeSeed func() uint64

// VerifSeed exposes the number behind a Seed.
func VerifSeed(s Seed) uint64 { return s.s }

func verifMix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// VerifStrong is the default hash.
func VerifStrong(seed uint64, b []byte) uint64 {
	h := verifMix(seed ^ uint64(len(b))*0x9e3779b97f4a7c15)
	for len(b) >= 8 {
		w := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 |
			uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
		h = verifMix(h ^ w)
		h += 0x9e3779b97f4a7c15
		b = b[8:]
	}
	if len(b) > 0 {
		w := uint64(len(b)) << 56
		for i, c := range b {
			w |= uint64(c) << (8 * uint(i))
		}
		h = verifMix(h ^ w)
	}
	return verifMix(h + 0x632be59bd9b4e019)
}

func verifSum(seed uint64, b []byte) uint64 {
	if f := VerifFn; f != nil {
		return f(seed, b)
	}
	return VerifStrong(seed, b)
}

type Seed struct {
	s uint64
}

func Bytes(seed Seed, b []byte) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	return verifSum(seed.s, b)
}

func String(seed Seed, s string) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	return verifSum(seed.s, unsafe.Slice(unsafe.StringData(s), len(s)))
}

type Hash struct {
	_    [0]func()
	seed Seed
	n    int
	buf  [bufSize]byte // content, while it fits
	ext  []byte        // content, once it does not fit
	own  uintptr       // address of the Hash that may append to ext in place; others copy it
}

const bufSize = 128

func (h *Hash) initSeed() {
	for h.seed.s == 0 { // never a seed that VerifMakeSeed handed out
		h.seed.s = runtime_rand()
	}
}

func (h *Hash) content() []byte {
	if h.ext != nil {
		return h.ext
	}
	return h.buf[:h.n]
}

func (h *Hash) WriteByte(b byte) error {
	h.Write([]byte{b})
	return nil
}

func (h *Hash) Write(b []byte) (int, error) {
	if h.ext == nil && h.n+len(b) <= bufSize {
		h.n += copy(h.buf[h.n:], b)
		return len(b), nil
	}
	if self := uintptr(unsafe.Pointer(h)); h.ext != nil && h.own == self && len(b) <= cap(h.ext)-len(h.ext) {
		h.ext = append(h.ext, b...)
	} else {
		c := h.content()
		e := make([]byte, len(c)+len(b), len(c)+len(b)+len(c)/2)
		copy(e, c)
		copy(e[len(c):], b)
		h.ext, h.own = e, self
	}
	h.n = len(h.ext)
	return len(b), nil
}

func (h *Hash) WriteString(s string) (int, error) {
	return h.Write(unsafe.Slice(unsafe.StringData(s), len(s)))
}

func (h *Hash) Seed() Seed {
	h.initSeed()
	return h.seed
}

func (h *Hash) SetSeed(seed Seed) {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h.seed = seed
	h.n, h.ext = 0, nil
}

func (h *Hash) Reset() {
	h.initSeed()
	h.n, h.ext = 0, nil
}

func (h *Hash) Sum64() uint64 {
	h.initSeed()
	return verifSum(h.seed.s, h.content())
}

func MakeSeed() Seed {
	if f := VerifMakeSeed; f != nil {
		if s := f(); s != 0 {
			return Seed{s: s}
		}
	}
	for {
		if s := runtime_rand(); s != 0 {
			return Seed{s: s}
		}
	}
}

func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x>>0), byte(x>>8), byte(x>>16), byte(x>>24), byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56))
}

func (h *Hash) Size() int { return 8 }

func (h *Hash) BlockSize() int { return bufSize }

func (h *Hash) Clone() (hash.Cloner, error) {
	h.initSeed()
	r := *h
	return &r, nil
}

func Comparable[T comparable](seed Seed, v T) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	return comparableHash(v, seed)
}

func WriteComparable[T comparable](h *Hash, x T) {
	h.initSeed()
	c := comparableHash(x, h.seed)
	var b [8]byte
	for i := range b {
		b[i] = byte(c >> (8 * uint(i)))
	}
	h.Write(b[:])
}

func comparableHash[T comparable](v T, seed Seed) uint64 {
	var m map[T]struct{}
	mTyp := abi.TypeOf(m)
	hasher := (*abi.MapType)(unsafe.Pointer(mTyp)).Hasher
	return uint64(hasher(abi.NoEscape(unsafe.Pointer(&v)), uintptr(seed.s)))
}

//go:linkname runtime_rand runtime.rand
func runtime_rand() uint64
