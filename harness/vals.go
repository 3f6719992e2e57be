package main

import (
	"fmt"
	"strconv"
	"unsafe"
	"weak"
)

// A value space encodes small integers (0 is the type's zero value) as values of
// type V and decodes them, reporting damage.
type VS[V any] struct {
	name string
	enc  func(int) V
	dec  func(V) (int, error)
	norm func(int) int       // what an id reads back as
	wk   func(V) func() bool // liveness probe, nil if there is nothing to watch
}

func same(i int) int { return i }

type box struct {
	id, chk uint64
	pad     [3]uint64
}

func chk(id uint64) uint64 { return mix64(id ^ 0xC0FFEE) }

func newBox(i int) *box {
	b := &box{id: uint64(i), chk: chk(uint64(i))}
	for j := range b.pad {
		b.pad[j] = b.chk + uint64(j)
	}
	return b
}

func (b *box) check() (int, error) {
	if b.chk != chk(b.id) {
		return -1, fmt.Errorf("damaged object: id %#x checksum %#x", b.id, b.chk)
	}
	for j := range b.pad {
		if b.pad[j] != b.chk+uint64(j) {
			return -1, fmt.Errorf("damaged object: id %#x word %d is %#x", b.id, j, b.pad[j])
		}
	}
	return int(b.id), nil
}

type big struct {
	a   uint64
	p   *box
	s   string
	arr [5]uint64
	f   func() int
	b   bool
}

var vsInt = &VS[int]{"int", func(i int) int { return i }, func(v int) (int, error) { return v, nil }, same, nil}

var vsUnit = &VS[struct{}]{"unit", func(i int) struct{} { return struct{}{} }, func(struct{}) (int, error) { return 0, nil }, func(int) int { return 0 }, nil}

var vsByte = &VS[uint8]{"uint8", func(i int) uint8 { return uint8(i) }, func(v uint8) (int, error) { return int(v), nil }, func(i int) int { return i & 0xff }, nil}

// strVal is long enough not to share an allocation with other objects.
func strVal(i int) string {
	return "v" + strconv.Itoa(i) + "-" + strconv.FormatUint(chk(uint64(i))|1<<63, 16) + "-value-of-key"
}

func alive[T any](p *T) func() bool {
	if p == nil {
		return nil
	}
	w := weak.Make(p)
	return func() bool { return w.Value() != nil }
}

func aliveStr(s string) func() bool {
	if len(s) < 24 {
		return nil
	}
	return alive(unsafe.StringData(s))
}

func aliveBytes(b []byte) func() bool {
	if cap(b) < 24 {
		return nil
	}
	return alive(unsafe.SliceData(b))
}

var vsString = &VS[string]{"string",
	func(i int) string {
		if i == 0 {
			return ""
		}
		return strVal(i)
	},
	func(s string) (int, error) {
		if s == "" {
			return 0, nil
		}
		var i int
		for j := 1; j < len(s) && s[j] != '-'; j++ {
			i = i*10 + int(s[j]-'0')
		}
		if s != strVal(i) {
			return -1, fmt.Errorf("damaged string value %q", s)
		}
		return i, nil
	}, same, aliveStr}

var vsPtr = &VS[*box]{"ptr",
	func(i int) *box {
		if i == 0 {
			return nil
		}
		return newBox(i)
	},
	func(b *box) (int, error) {
		if b == nil {
			return 0, nil
		}
		return b.check()
	}, same, alive[box]}

var vsAny = &VS[any]{"any",
	func(i int) any {
		switch {
		case i == 0:
			return nil
		case i%4 == 0:
			return i
		case i%4 == 1:
			return newBox(i)
		case i%4 == 2:
			return vsString.enc(i)
		default:
			return [2]int{i, ^i}
		}
	},
	func(v any) (int, error) {
		switch x := v.(type) {
		case nil:
			return 0, nil
		case int:
			return x, nil
		case *box:
			return x.check()
		case string:
			return vsString.dec(x)
		case [2]int:
			if x[1] != ^x[0] {
				return -1, fmt.Errorf("damaged array value %v", x)
			}
			return x[0], nil
		}
		return -1, fmt.Errorf("unexpected dynamic type %T", v)
	}, same,
	func(v any) func() bool {
		switch x := v.(type) {
		case *box:
			return alive(x)
		case string:
			return aliveStr(x)
		}
		return nil
	}}

var vsBig = &VS[big]{"big",
	func(i int) big {
		if i == 0 {
			return big{}
		}
		b := big{a: uint64(i), p: newBox(i), s: vsString.enc(i), f: func() int { return i }, b: true}
		for j := range b.arr {
			b.arr[j] = mix64(uint64(i*8 + j))
		}
		return b
	},
	func(b big) (int, error) {
		if !b.b {
			if b.a != 0 || b.p != nil || b.s != "" || b.f != nil || b.arr != ([5]uint64{}) {
				return -1, fmt.Errorf("partly zeroed value, a=%#x", b.a)
			}
			return 0, nil
		}
		i := int(b.a)
		if j, err := b.p.check(); err != nil || j != i {
			return -1, fmt.Errorf("torn value: a=%d, p=%d (%v)", i, j, err)
		}
		if j, err := vsString.dec(b.s); err != nil || j != i {
			return -1, fmt.Errorf("torn value: a=%d, s=%d (%v)", i, j, err)
		}
		if b.f() != i {
			return -1, fmt.Errorf("torn value: a=%d, f()=%d", i, b.f())
		}
		for j := range b.arr {
			if b.arr[j] != mix64(uint64(i*8+j)) {
				return -1, fmt.Errorf("torn value: a=%d, arr[%d]=%#x", i, j, b.arr[j])
			}
		}
		return i, nil
	}, same, func(b big) func() bool { return alive(b.p) }}

// Sizes that are no multiple of a word, slices, and values larger than small.

var vsOdd = &VS[[5]byte]{"odd",
	func(i int) (v [5]byte) {
		if i != 0 {
			for j := 0; j < 4; j++ {
				v[j] = byte(i >> uint(8*j))
			}
			v[4] = byte(chk(uint64(i))) | 1
		}
		return
	},
	func(v [5]byte) (int, error) {
		i := int(v[0]) | int(v[1])<<8 | int(v[2])<<16 | int(v[3])<<24
		if i == 0 && v[4] != 0 || i != 0 && v[4] != byte(chk(uint64(i)))|1 {
			return -1, fmt.Errorf("damaged value % x", v)
		}
		return i, nil
	}, same, nil}

var vsSlice = &VS[[]byte]{"slice",
	func(i int) []byte {
		if i == 0 {
			return nil
		}
		return []byte(strVal(i))
	},
	func(b []byte) (int, error) {
		if b == nil {
			return 0, nil
		}
		if len(b) == 0 {
			return -1, fmt.Errorf("empty slice instead of nil")
		}
		return vsString.dec(string(b))
	}, same, aliveBytes}

type huge [260]uint64

var vsHuge = &VS[huge]{"huge",
	func(i int) (v huge) {
		if i != 0 {
			v[0] = uint64(i)
			c := chk(uint64(i))
			for j := 1; j < len(v); j++ {
				v[j] = c + uint64(j)
			}
		}
		return
	},
	func(v huge) (int, error) {
		c := uint64(0)
		if v[0] != 0 {
			c = chk(v[0])
		}
		for j := 1; j < len(v); j++ {
			if w := c + uint64(j); v[j] != w && (v[0] != 0 || v[j] != 0) {
				return -1, fmt.Errorf("damaged value: id %d, word %d is %#x", v[0], j, v[j])
			}
		}
		return int(v[0]), nil
	}, same, nil}
