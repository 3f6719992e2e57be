package main

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/wdamron/amt"
)

// The public API of the map and set types, as far as the checks use it.
type mapAPI[K, V any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Get(K) (V, bool)
	Val(K) V
	Ptr(K) *V
	Set(K, V)
	Mod(K, func(*V, bool))
	Del(K)
	All(func(K, *V) bool)
}

type setAPI[K any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Has(K) bool
	Add(K)
	Del(K)
	All(func(K) bool)
}

// VP is a handle on a *V returned by a container.
type VP interface {
	Load() int // -1 if damaged
	Store(int)
	Addr() unsafe.Pointer
	IsNil() bool
}

type vp[V any] struct {
	p  *V
	vs *VS[V]
	tr *tracker
}

func (v vp[V]) IsNil() bool          { return v.p == nil }
func (v vp[V]) Addr() unsafe.Pointer { return unsafe.Pointer(v.p) }
func (v vp[V]) Store(i int) {
	val := v.vs.enc(i)
	if v.tr != nil && v.vs.wk != nil {
		if a := v.vs.wk(val); a != nil {
			v.tr.val(i, a)
		}
	}
	*v.p = val
}
func (v vp[V]) Load() int {
	i, err := v.vs.dec(*v.p)
	if err != nil {
		damaged("value read through pointer: %v", err)
	}
	return i
}

func damaged(format string, args ...any) {
	failf("stored value is damaged: "+format, args...)
}

// Cont is a container over pool indices (keys) and value ids.
type Cont interface {
	IsMap() bool
	Nil() bool
	Len() uint
	Dep() float64
	Put(k, v int) // Set or Add
	Del(k int)
	Has(k int) bool
	Get(k int) (int, bool)
	Val(k int) int
	Ptr(k int) VP
	Mod(k int, f func(p VP, existed bool))
	All(f func(k int, p VP) bool)
	Hold() func() // keeps keys that an iteration hands out, and returns a check of them
	Zero() Cont   // the zero value of the same type
	Copy() Cont   // another handle on the same contents
	Fresh() Cont  // an empty container of the same type
	Norm(v int) int
}

type contM[K, V any] struct {
	m   mapAPI[K, V]
	in  *instM[K, V]
	r   *rng // representation of key copies; one per handle, so that handles may be used in parallel
	buf []byte
}

type instM[K, V any] struct {
	ks *KS[K]
	vs *VS[V]
	mk func() mapAPI[K, V]
	cp func(mapAPI[K, V]) mapAPI[K, V]
	tr *tracker
}

// tracker receives a liveness probe for every key copy and value given to a container.
type tracker struct {
	key func(k int, alive func() bool)
	val func(v int, alive func() bool)
}

// tmp returns a key for a call that does not store it: the caller may reuse the
// memory of the key afterwards, and done does so.
func (c *contM[K, V]) tmp(k int) K {
	if into := c.in.ks.into; into != nil && c.in.tr == nil && c.r.chance(1, 2) {
		return into(&c.buf, k)
	}
	return c.key(k)
}
func (c *contM[K, V]) done() { scribble(c.buf) }
func (c *contM[K, V]) key(k int) K {
	key := c.in.ks.mk(k, repr(c.r, k))
	if t := c.in.tr; t != nil && c.in.ks.wk != nil {
		if a := c.in.ks.wk(key); a != nil {
			t.key(k, a)
		}
	}
	return key
}
func (c *contM[K, V]) enc(v int) V {
	val := c.in.vs.enc(v)
	if t := c.in.tr; t != nil && c.in.vs.wk != nil {
		if a := c.in.vs.wk(val); a != nil {
			t.val(v, a)
		}
	}
	return val
}
func (c *contM[K, V]) IsMap() bool    { return true }
func (c *contM[K, V]) Nil() bool      { return c.m.Nil() }
func (c *contM[K, V]) Len() uint      { return c.m.Len() }
func (c *contM[K, V]) Dep() float64   { return c.m.Dep() }
func (c *contM[K, V]) Put(k, v int)   { c.m.Set(c.key(k), c.enc(v)) }
func (c *contM[K, V]) Del(k int)      { c.m.Del(c.tmp(k)); c.done() }
func (c *contM[K, V]) Norm(v int) int { return c.in.vs.norm(v) }
func (c *contM[K, V]) Copy() Cont     { return &contM[K, V]{c.in.cp(c.m), c.in, newRng(c.r.u64()), nil} }
func (c *contM[K, V]) Fresh() Cont    { return &contM[K, V]{c.in.mk(), c.in, newRng(c.r.u64()), nil} }
func (c *contM[K, V]) Zero() Cont {
	return &contM[K, V]{reflect.Zero(reflect.TypeOf(c.m)).Interface().(mapAPI[K, V]), c.in, newRng(c.r.u64()), nil}
}
func (c *contM[K, V]) dec(v V) int {
	i, err := c.in.vs.dec(v)
	if err != nil {
		damaged("value returned by lookup: %v", err)
	}
	return i
}
func (c *contM[K, V]) Has(k int) bool { _, ok := c.m.Get(c.tmp(k)); c.done(); return ok }
func (c *contM[K, V]) Get(k int) (int, bool) {
	v, ok := c.m.Get(c.tmp(k))
	c.done()
	return c.dec(v), ok
}
func (c *contM[K, V]) Val(k int) int { v := c.m.Val(c.tmp(k)); c.done(); return c.dec(v) }
func (c *contM[K, V]) Ptr(k int) VP {
	p := c.m.Ptr(c.tmp(k))
	c.done()
	if p != nil {
		return vp[V]{p, c.in.vs, c.in.tr}
	}
	return nil
}
func (c *contM[K, V]) Mod(k int, f func(VP, bool)) {
	c.m.Mod(c.key(k), func(p *V, existed bool) { f(vp[V]{p, c.in.vs, c.in.tr}, existed) })
}
func (c *contM[K, V]) All(f func(int, VP) bool) {
	c.m.All(func(k K, p *V) bool { return f(c.in.ks.id(k), vp[V]{p, c.in.vs, c.in.tr}) })
}
func (c *contM[K, V]) Hold() func() {
	var keys []K
	var ids []int
	c.m.All(func(k K, p *V) bool {
		keys, ids = append(keys, k), append(ids, c.in.ks.id(k))
		return len(keys) < 300
	})
	return func() { held(c.in.ks, keys, ids) }
}

// held checks keys that an iteration handed out, which the caller may have kept.
func held[K any](ks *KS[K], keys []K, ids []int) {
	for i, k := range keys {
		if got := ks.id(k); got != ids[i] {
			failf("key %d, as iteration handed it out (call %d of %d), has since changed (now key %d)", ids[i], i+1, len(keys), got)
		}
	}
}

type contS[K any] struct {
	s   setAPI[K]
	in  *instS[K]
	r   *rng
	buf []byte
}

type instS[K any] struct {
	ks *KS[K]
	mk func() setAPI[K]
	cp func(setAPI[K]) setAPI[K]
	tr *tracker
}

// tmp returns a key for a call that does not store it: the caller may reuse the
// memory of the key afterwards, and done does so.
func (c *contS[K]) tmp(k int) K {
	if into := c.in.ks.into; into != nil && c.in.tr == nil && c.r.chance(1, 2) {
		return into(&c.buf, k)
	}
	return c.key(k)
}
func (c *contS[K]) done() { scribble(c.buf) }
func (c *contS[K]) key(k int) K {
	key := c.in.ks.mk(k, repr(c.r, k))
	if t := c.in.tr; t != nil && c.in.ks.wk != nil {
		if a := c.in.ks.wk(key); a != nil {
			t.key(k, a)
		}
	}
	return key
}
func (c *contS[K]) Zero() Cont {
	return &contS[K]{reflect.Zero(reflect.TypeOf(c.s)).Interface().(setAPI[K]), c.in, newRng(c.r.u64()), nil}
}
func (c *contS[K]) IsMap() bool    { return false }
func (c *contS[K]) Nil() bool      { return c.s.Nil() }
func (c *contS[K]) Len() uint      { return c.s.Len() }
func (c *contS[K]) Dep() float64   { return c.s.Dep() }
func (c *contS[K]) Put(k, v int)   { c.s.Add(c.key(k)) }
func (c *contS[K]) Del(k int)      { c.s.Del(c.tmp(k)); c.done() }
func (c *contS[K]) Norm(v int) int { return 0 }
func (c *contS[K]) Copy() Cont     { return &contS[K]{c.in.cp(c.s), c.in, newRng(c.r.u64()), nil} }
func (c *contS[K]) Fresh() Cont    { return &contS[K]{c.in.mk(), c.in, newRng(c.r.u64()), nil} }
func (c *contS[K]) Has(k int) bool { ok := c.s.Has(c.tmp(k)); c.done(); return ok }
func (c *contS[K]) Get(k int) (int, bool) {
	return 0, c.Has(k)
}
func (c *contS[K]) Val(k int) int               { panic("harness: Val on a set") }
func (c *contS[K]) Ptr(k int) VP                { panic("harness: Ptr on a set") }
func (c *contS[K]) Mod(k int, f func(VP, bool)) { panic("harness: Mod on a set") }
func (c *contS[K]) All(f func(k int, p VP) bool) {
	c.s.All(func(k K) bool { return f(c.in.ks.id(k), nil) })
}
func (c *contS[K]) Hold() func() {
	var keys []K
	var ids []int
	c.s.All(func(k K) bool {
		keys, ids = append(keys, k), append(ids, c.in.ks.id(k))
		return len(keys) < 300
	})
	return func() { held(c.in.ks, keys, ids) }
}

// sameRepr makes every copy of a key look the same, where sizes are compared.
var sameRepr bool

// keepKeys makes the caller keep the one copy of each key that there is, so that what
// a container retains are its own copies of it.
var keepKeys bool

func keeping[K any](ks *KS[K]) *KS[K] {
	if keepKeys {
		mk, kept := ks.mk, map[int]K{}
		ks.mk = func(i int, r uint64) K {
			k, ok := kept[i]
			if !ok {
				k = mk(i, r)
				kept[i] = k
			}
			return k
		}
	}
	return ks
}

func repr(r *rng, k int) uint64 {
	if sameRepr {
		return mix64(uint64(k))
	}
	return r.u64()
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xEE
	}
}

// Env fixes key pool and hash function of one case.
type Env struct {
	Shape string
	N     int
	Seed  uint64
	Prof  Profile
}

// Inst is one container type bound to a key pool.
type Inst struct {
	New  func() Cont
	N    int
	L    int
	Hash func(i, iter int) uint64
	Tr   func(*tracker)
}

// Kind is one container type with one value type.
type Kind struct {
	Name  string // e.g. StringMap/big
	Type  string // e.g. StringMap
	KeyK  string // e.g. string
	IsMap bool
	Inst  func(e *Env) *Inst
}

var kinds []*Kind

func kindByName(n string) *Kind {
	for _, k := range kinds {
		if k.Name == n {
			return k
		}
	}
	for _, k := range append(append(logKinds[:len(logKinds):len(logKinds)], reKinds...), tinyKinds...) {
		if k.Name == n {
			return k
		}
	}
	panic("harness: no kind " + n)
}

func regMap[K, V any](typ, keyk string, vs *VS[V], ks func(string, int, *rng) *KS[K], mk func() mapAPI[K, V], cp func(mapAPI[K, V]) mapAPI[K, V]) {
	kinds = append(kinds, &Kind{Name: typ + "/" + vs.name, Type: typ, KeyK: keyk, IsMap: true,
		Inst: func(e *Env) *Inst {
			k := keeping(ks(e.Shape, e.N, newRng(e.Seed, 1)))
			in := &instM[K, V]{k, vs, mk, cp, nil}
			r := newRng(e.Seed, 2)
			return &Inst{func() Cont { return &contM[K, V]{in.mk(), in, newRng(r.u64()), nil} }, k.n, k.L, k.hash, func(t *tracker) { in.tr = t }}
		}})
}

func regSet[K any](typ, keyk string, ks func(string, int, *rng) *KS[K], mk func() setAPI[K], cp func(setAPI[K]) setAPI[K]) {
	kinds = append(kinds, &Kind{Name: typ, Type: typ, KeyK: keyk,
		Inst: func(e *Env) *Inst {
			k := keeping(ks(e.Shape, e.N, newRng(e.Seed, 1)))
			in := &instS[K]{k, mk, cp, nil}
			r := newRng(e.Seed, 2)
			return &Inst{func() Cont { return &contS[K]{in.mk(), in, newRng(r.u64()), nil} }, k.n, k.L, k.hash, func(t *tracker) { in.tr = t }}
		}})
}

func regVal[V any](vs *VS[V]) {
	regMap("IntMap", "int", vs, intKS, func() mapAPI[int64, V] { return amt.NewIntMap[V]() },
		func(m mapAPI[int64, V]) mapAPI[int64, V] { c := m.(amt.IntMap[V]); return c })
	regMap("StringMap", "string", vs, strKS, func() mapAPI[string, V] { return amt.NewStringMap[V]() },
		func(m mapAPI[string, V]) mapAPI[string, V] { c := m.(amt.StringMap[V]); return c })
	regMap("BytesMap", "bytes", vs, bytesKS, func() mapAPI[[]byte, V] { return amt.NewBytesMap[V]() },
		func(m mapAPI[[]byte, V]) mapAPI[[]byte, V] { c := m.(amt.BytesMap[V]); return c })
	regArr("ArrMap[Arr8]", "arr8", vs, arr8KS)
	regArr("ArrMap[Arr64]", "arr64", vs, arr64KS)
	regGen("Map[String]", "string", vs, gstringKS)
	regGen("Map[Bytes]", "bytes", vs, gbytesKS)
	regGen("Map[Int]", "int", vs, gintKS)
	regGen("Map[Weak]", "weak", vs, weakKS)
	regGen("Map[PtrKey]", "weak", vs, ptrKS)
	regGen("Map[Fold]", "fold", vs, foldKS)
	regArr("ArrMap[Rec]", "rec", vs, recKS)
	regGen("Map[Iface]", "weak", vs, ifKS)
	regGen("Map[Wide]", "weak", vs, wideKS)
}

func regArr[K amt.ArrKey, V any](typ, keyk string, vs *VS[V], ks func(string, int, *rng) *KS[K]) {
	regMap(typ, keyk, vs, ks, func() mapAPI[K, V] { return amt.NewArrMap[K, V]() },
		func(m mapAPI[K, V]) mapAPI[K, V] { c := m.(amt.ArrMap[K, V]); return c })
}

func regGen[K amt.Key[K], V any](typ, keyk string, vs *VS[V], ks func(string, int, *rng) *KS[K]) {
	regMap(typ, keyk, vs, ks, func() mapAPI[K, V] { return amt.NewMap[K, V]() },
		func(m mapAPI[K, V]) mapAPI[K, V] { c := m.(amt.Map[K, V]); return c })
}

func regArrSet[K amt.ArrKey](typ, keyk string, ks func(string, int, *rng) *KS[K]) {
	regSet(typ, keyk, ks, func() setAPI[K] { return amt.NewArrSet[K]() },
		func(m setAPI[K]) setAPI[K] { c := m.(amt.ArrSet[K]); return c })
}

func regGenSet[K amt.Key[K]](typ, keyk string, ks func(string, int, *rng) *KS[K]) {
	regSet(typ, keyk, ks, func() setAPI[K] { return amt.NewSet[K]() },
		func(m setAPI[K]) setAPI[K] { c := m.(amt.Set[K]); return c })
}

func init() {
	regVal(vsInt)
	regVal(vsString)
	regVal(vsUnit)
	regVal(vsByte)
	regVal(vsBig)
	regVal(vsPtr)
	regVal(vsAny)
	regVal(vsOdd)
	regVal(vsSlice)
	regVal(vsHuge)
	regSet("IntSet", "int", intKS, func() setAPI[int64] { return amt.NewIntSet() },
		func(m setAPI[int64]) setAPI[int64] { c := m.(amt.IntSet); return c })
	regSet("StringSet", "string", strKS, func() setAPI[string] { return amt.NewStringSet() },
		func(m setAPI[string]) setAPI[string] { c := m.(amt.StringSet); return c })
	regSet("BytesSet", "bytes", bytesKS, func() setAPI[[]byte] { return amt.NewBytesSet() },
		func(m setAPI[[]byte]) setAPI[[]byte] { c := m.(amt.BytesSet); return c })
	regArrSet("ArrSet[Arr8]", "arr8", arr8KS)
	regArrSet("ArrSet[Arr64]", "arr64", arr64KS)
	regGenSet("Set[String]", "string", gstringKS)
	regGenSet("Set[Bytes]", "bytes", gbytesKS)
	regGenSet("Set[Int]", "int", gintKS)
	regGenSet("Set[Weak]", "weak", weakKS)
	regGenSet("Set[PtrKey]", "weak", ptrKS)
	regGenSet("Set[Fold]", "fold", foldKS)
	regArrSet("ArrSet[Rec]", "rec", recKS)
	regGenSet("Set[Iface]", "weak", ifKS)
	regGenSet("Set[Wide]", "weak", wideKS)
	seen := map[string]bool{}
	for _, k := range kinds {
		if seen[k.Name] {
			panic(fmt.Sprint("harness: duplicate kind ", k.Name))
		}
		seen[k.Name] = true
	}
}

func filterKinds(f func(*Kind) bool) []*Kind {
	var out []*Kind
	for _, k := range kinds {
		if f(k) {
			out = append(out, k)
		}
	}
	return out
}
