package main

import "runtime/debug"

// hopCont runs some operations on a new goroutine, a random distance away from the
// end of its small stack, so that the stack is moved at any point of the operation.
type hopCont struct {
	Cont
	r *rng
}

//go:noinline
func atDepth(n int, f func()) byte {
	var pad [48]byte
	for i := range pad {
		pad[i] = byte(n + i)
	}
	if n == 0 {
		f()
		return pad[0]
	}
	return atDepth(n-1, f) + pad[n%len(pad)]
}

func (c hopCont) hop(f func()) {
	if !c.r.chance(1, 3) {
		f()
		return
	}
	n := c.r.n(60)
	done := make(chan any)
	go func() {
		debug.SetPanicOnFault(true)
		defer func() { done <- recover() }()
		atDepth(n, f)
	}()
	e := <-done
	stats.Extra["operations_on_small_stacks"]++
	if e != nil {
		panic(e)
	}
}

func (c hopCont) Put(k, v int) { c.hop(func() { c.Cont.Put(k, v) }) }
func (c hopCont) Del(k int)    { c.hop(func() { c.Cont.Del(k) }) }
func (c hopCont) Has(k int) (ok bool) {
	c.hop(func() { ok = c.Cont.Has(k) })
	return
}
func (c hopCont) Get(k int) (v int, ok bool) {
	c.hop(func() { v, ok = c.Cont.Get(k) })
	return
}
func (c hopCont) Val(k int) (v int) {
	c.hop(func() { v = c.Cont.Val(k) })
	return
}
func (c hopCont) Ptr(k int) (p VP) {
	c.hop(func() { p = c.Cont.Ptr(k) })
	return
}
func (c hopCont) Mod(k int, f func(VP, bool)) { c.hop(func() { c.Cont.Mod(k, f) }) }
func (c hopCont) All(f func(int, VP) bool)    { c.hop(func() { c.Cont.All(f) }) }
