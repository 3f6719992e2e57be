package main

import (
	"runtime"
	"strconv"
)

// disturb does things that leave the contents as they are: reads, iterations that
// are stopped or panic, deletes of absent keys, and modifications that fail.
func (h *H) disturb() {
	for t := h.r.n(3); t >= 0; t-- {
		k := h.r.n(h.n)
		x := h.r.n(10)
		if !h.isMap && x >= 6 {
			x -= 6
		}
		h.chkN["disturbances"]++
		h.setOp("disturb")
		switch x {
		case 0:
			h.c.Has(k)
		case 1:
			n := h.r.n(len(h.present) + 1)
			if n > 200 {
				n = h.r.n(200)
			}
			h.c.All(func(int, VP) bool { n--; return n > 0 })
		case 2:
			n := h.r.n(min(len(h.present), 200) + 1)
			func() {
				defer recoverStop()
				h.c.All(func(int, VP) bool {
					if n--; n <= 0 {
						panic(stopPanic{})
					}
					return true
				})
			}()
		case 3:
			if h.val[k] < 0 {
				h.c.Del(k)
			}
		case 4:
			h.c.Len()
			h.c.Dep()
			h.c.Nil()
		case 5:
			h.c.Get(k)
		case 6:
			h.c.Val(k)
			h.c.Ptr(k)
		default:
			v, write := h.newVal(), h.r.chance(1, 2)
			if h.r.chance(1, 2) {
				if a := h.absent(); a >= 0 {
					k = a
				}
			}
			h.note("failing mod " + strconv.Itoa(k))
			cb := func(p VP, existed bool) {
				if write {
					p.Store(v)
					if h.val[k] >= 0 {
						h.val[k] = h.c.Norm(v)
					}
				}
				if x == 9 {
					runtime.Goexit()
				}
				panic(stopPanic{})
			}
			if x < 9 {
				func() {
					defer recoverStop()
					h.c.Mod(k, cb)
				}()
				break
			}
			done := make(chan any)
			go func() {
				defer func() { done <- recover() }()
				h.c.Mod(k, cb)
			}()
			if e := <-done; e != nil {
				panic(e)
			}
		}
		h.endOp()
	}
}

func recoverStop() {
	if e := recover(); e != nil {
		if _, ok := e.(stopPanic); !ok {
			panic(e)
		}
	}
}
