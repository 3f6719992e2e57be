package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

// ---- violations -----------------------------------------------------------

type violation struct{ msg string }

func failf(format string, args ...any) { panic(violation{fmt.Sprintf(format, args...)}) }

// ---- cases ----------------------------------------------------------------

type Case struct {
	Prop  string
	Idx   int
	Kind  string
	Shape string
	N     int
	Ops   int
	Mix   string // sequence of phases
	Prof  Profile
	Seed  uint64
	Extra int // property specific
	Std   bool
}

func (c *Case) String() string {
	return fmt.Sprintf("%s#%d kind=%s shape=%s n=%d ops=%d mix=%s hash=%s(alpha=%d,pmax=%d,classes=%d) seed=%d extra=%d",
		c.Prop, c.Idx, c.Kind, c.Shape, c.N, c.Ops, c.Mix, c.Prof.Name, c.Prof.Alpha, c.Prof.PMax, c.Prof.NClass, c.Seed, c.Extra)
}

// ---- statistics -----------------------------------------------------------

type Stats struct {
	Cases       int
	Ops         int64
	OpKinds     map[string]int64
	Checks      map[string]int64 // oracle evaluations by name
	Kinds       map[string]int64 // operations per container kind
	Profiles    map[string]int64
	MaxRound    int
	MaxDepth    int
	MaxLen      int
	Distinct    int // distinct (kind, contents) states
	Nontrivial  int // ... in which some two present keys share a hash digit
	Extra       map[string]int64
	Samples     []string
	CutShort    bool
	stateSeen   map[uint64]bool
	sampleEvery int
}

var stats = &Stats{OpKinds: map[string]int64{}, Checks: map[string]int64{}, Kinds: map[string]int64{},
	Profiles: map[string]int64{}, Extra: map[string]int64{}, stateSeen: map[uint64]bool{}}

const maxStates = 1 << 21

// ---- history runner ---------------------------------------------------------

const (
	oLookup = 1 << iota // lookups and contents
	oLen
	oDep
	oCanon
	oIter
	oPtr
	oMod
	oGuard // caller's key bytes
	oGC
)

type H struct {
	cs      *Case
	in      *Inst
	c       Cont // the handle used for operations
	isMap   bool
	n       int
	val     []int // model: -1 absent
	present []int
	pos     []int
	r       *rng
	or      int
	trace   []string
	step    int
	sig     uint64
	nextVal int
	dig     *digits
	ptrs    map[int][]VP
	budget  int64
	kh      uint64
	opc     [8]int64
	chkN    map[string]int64
	holding bool // keep keys that iterations hand out
	held    []func()
	handles []Cont // if set, every operation goes through a random one
	par     bool   // several runners at once: touch no shared state
	onMod   func(k int, p VP)
	large   bool              // watch for large allocations
	detach  func(p VP, v int) // a pointer to a value whose key is deleted
}

func newH(cs *Case, in *Inst, or int) *H {
	h := &H{cs: cs, in: in, n: in.N, r: newRng(cs.Seed, 3), or: or, budget: max(20000, 60*int64(cs.Prof.PMax/16+3)), kh: strHash(cs.Kind) ^ cs.Seed, chkN: stats.Checks}
	h.val = make([]int, h.n)
	h.pos = make([]int, h.n)
	for i := range h.val {
		h.val[i], h.pos[i] = -1, -1
	}
	h.c = in.New()
	h.isMap = h.c.IsMap()
	h.ptrs = map[int][]VP{}
	return h
}

func (h *H) note(s string) {
	if len(h.trace) >= 6000 {
		h.trace = append(h.trace[:0], h.trace[3000:]...)
	}
	h.trace = append(h.trace, s)
}

func (h *H) setOp(s string) {
	if h.handles != nil {
		h.c = h.handles[h.r.n(len(h.handles))]
	}
	if h.par {
		return
	}
	resetBudget(h.budget)
	curOp.begin()
}
func (h *H) endOp() {
	if h.par {
		return
	}
	resetBudget(0)
	curOp.end()
}

func (h *H) modelPut(k, v int) {
	if h.val[k] < 0 {
		h.pos[k] = len(h.present)
		h.present = append(h.present, k)
		h.sig ^= mix64(h.kh ^ uint64(k))
	}
	h.val[k] = h.c.Norm(v)
}

func (h *H) modelDel(k int) {
	if h.val[k] < 0 {
		return
	}
	if h.detach != nil {
		for _, p := range h.ptrs[k] {
			h.detach(p, h.val[k])
		}
	}
	h.val[k] = -1
	p, last := h.pos[k], len(h.present)-1
	h.present[p] = h.present[last]
	h.pos[h.present[p]] = p
	h.present = h.present[:last]
	h.pos[k] = -1
	h.sig ^= mix64(h.kh ^ uint64(k))
	delete(h.ptrs, k)
}

func (h *H) newVal() int {
	h.nextVal++
	if h.r.chance(1, 40) {
		return 0
	}
	return h.nextVal
}

// ---- operations

func (h *H) doPut(k int) {
	v := h.newVal()
	h.note(fmt.Sprintf("put %d=%d", k, v))
	h.opc[0]++
	h.setOp("put")
	h.c.Put(k, v)
	h.endOp()
	h.modelPut(k, v)
}

func (h *H) doDel(k int) {
	h.note(fmt.Sprintf("del %d", k))
	h.opc[1]++
	h.setOp("del")
	h.c.Del(k)
	h.endOp()
	h.modelDel(k)
}

func (h *H) doMod(k int) {
	v := h.newVal()
	write := !h.r.chance(1, 8)
	h.note(fmt.Sprintf("mod %d=%d write=%v", k, v, write))
	h.opc[2]++
	calls := 0
	old := h.val[k]
	h.setOp("mod")
	h.c.Mod(k, func(p VP, existed bool) {
		calls++
		h.checkModCall(k, old, p, existed)
		if h.onMod != nil {
			h.onMod(k, p)
		}
		if write {
			p.Store(v)
		}
	})
	h.endOp()
	if h.or&(oMod|oLookup) != 0 && calls != 1 {
		failf("modify of key %d (present=%v) called its callback %d times, want exactly 1", k, old >= 0, calls)
	}
	if calls == 0 {
		return
	}
	switch {
	case write:
		h.modelPut(k, v)
	case old < 0:
		h.modelPut(k, 0)
	}
}

func (h *H) checkModCall(k, old int, p VP, existed bool) {
	if h.or&(oMod|oLookup) == 0 {
		return
	}
	h.chkN["modify_callback"]++
	if existed != (old >= 0) {
		failf("modify of key %d: callback told existed=%v, but the key is present=%v", k, existed, old >= 0)
	}
	if p.IsNil() {
		failf("modify of key %d: callback got a nil pointer", k)
	}
	want := old
	if old < 0 {
		want = 0
	}
	if got := p.Load(); got != want {
		failf("modify of key %d (existed=%v): callback sees value %d, want %d", k, existed, got, want)
	}
}

// ---- oracles

func (h *H) lookup(k int) {
	want := h.val[k]
	h.chkN["lookup"]++
	h.opc[3]++
	h.setOp("lookup")
	c := h.c
	has := c.Has(k)
	if has != (want >= 0) {
		failf("key %d: reported present=%v, want %v", k, has, want >= 0)
	}
	if h.isMap {
		got, ok := c.Get(k)
		v := c.Val(k)
		p := c.Ptr(k)
		if want < 0 {
			if ok || got != 0 {
				failf("absent key %d: Get returned (%d,%v), want (zero,false)", k, got, ok)
			}
			if v != 0 {
				failf("absent key %d: Val returned %d, want the zero value", k, v)
			}
			if p != nil {
				failf("absent key %d: Ptr returned a non-nil pointer", k)
			}
		} else {
			if !ok || got != want {
				failf("key %d: Get returned (%d,%v), want (%d,true)", k, got, ok, want)
			}
			if v != want {
				failf("key %d: Val returned %d, want %d", k, v, want)
			}
			if p == nil {
				failf("present key %d: Ptr returned nil", k)
			}
			if x := p.Load(); x != want {
				failf("key %d: value through Ptr is %d, want %d", k, x, want)
			}
		}
	}
	h.endOp()
}

func (h *H) sweep() {
	h.chkN["full_sweep"]++
	for k := 0; k < h.n; k++ {
		h.lookup(k)
	}
}

func (h *H) checkLen() {
	h.chkN["len"]++
	if l := h.c.Len(); l != uint(len(h.present)) {
		failf("length reported %d, but %d distinct keys are present", l, len(h.present))
	}
}

// contents compares a complete iteration with the model and returns the order.
func (h *H) contents(c Cont) []int {
	h.chkN["iteration"]++
	if h.holding {
		for _, f := range h.held { // keys that came out of earlier iterations
			f()
			h.chkN["held_keys"]++
		}
		if len(h.held) < 3 {
			h.held = append(h.held, c.Hold())
		} else if h.r.chance(1, 2) {
			h.held[h.r.n(3)] = c.Hold()
		}
	}
	order := make([]int, 0, len(h.present))
	seen := make(map[int]bool, len(h.present))
	h.setOp("all")
	c.All(func(k int, p VP) bool {
		if k < 0 {
			failf("iteration reported a key that was never inserted")
		}
		if h.val[k] < 0 {
			failf("iteration reported key %d, which is not present", k)
		}
		if seen[k] {
			failf("iteration reported key %d twice", k)
		}
		if p != nil {
			if p.IsNil() {
				failf("iteration passed a nil value pointer for key %d", k)
			}
			if x := p.Load(); x != h.val[k] {
				failf("iteration passed value %d for key %d, want %d", x, k, h.val[k])
			}
		}
		seen[k] = true
		order = append(order, k)
		if len(order) > len(h.present) {
			failf("iteration made more calls than there are keys")
		}
		return true
	})
	h.endOp()
	if len(order) != len(h.present) {
		for _, k := range h.present {
			if !seen[k] {
				failf("iteration visited %d of %d keys; key %d was not visited", len(order), len(h.present), k)
			}
		}
	}
	return order
}

// digits caches hash digits and the order of the pool by digit path.
type digits struct {
	d    [][]byte
	ord  []int // pool indices sorted by digit path
	lcp  []int // lcp[i]: common digits of ord[i-1] and ord[i]
	rank []int
}

func (h *H) needDigits() *digits {
	if h.dig != nil {
		return h.dig
	}
	rounds := h.cs.Prof.PMax/16 + 3
	if h.in.L == 0 && h.cs.Prof.PMax > 0 {
		rounds = 9
	}
	g := &digits{d: make([][]byte, h.n), rank: make([]int, h.n)}
	for i := range g.d {
		b := make([]byte, 0, 16*rounds)
		for r := 0; r < rounds; r++ {
			x := h.in.Hash(i, r)
			for j := 0; j < 16; j++ {
				b = append(b, byte(x&15))
				x >>= 4
			}
		}
		g.d[i] = b
		g.ord = append(g.ord, i)
	}
	sort.Slice(g.ord, func(a, b int) bool { return string(g.d[g.ord[a]]) < string(g.d[g.ord[b]]) })
	g.lcp = make([]int, h.n)
	for i, k := range g.ord {
		g.rank[k] = i
		if i > 0 {
			g.lcp[i] = lcp(g.d[g.ord[i-1]], g.d[k])
			if g.lcp[i] == len(g.d[k]) {
				panic(fmt.Sprintf("harness: keys %d and %d have identical digit paths", g.ord[i-1], k))
			}
		}
	}
	h.dig = g
	return g
}

func lcp(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// depths returns sum and maximum of entry depths, and per-key depth via f.
func (h *H) depths(f func(k, depth int)) (sum, max int) {
	g := h.needDigits()
	prev, run := -1, 1<<30 // previous present key and the lcp with the current position
	prevDepth := 0
	for i, k := range g.ord {
		if i > 0 && g.lcp[i] < run {
			run = g.lcp[i]
		}
		if h.val[k] < 0 {
			continue
		}
		l := 0
		if prev >= 0 {
			l = run
			if l > prevDepth {
				prevDepth = l
			}
			sum += prevDepth
			if prevDepth > max {
				max = prevDepth
			}
			if f != nil {
				f(prev, prevDepth)
			}
		}
		prev, prevDepth, run = k, l, 1<<30
	}
	if prev >= 0 {
		sum += prevDepth
		if prevDepth > max {
			max = prevDepth
		}
		if f != nil {
			f(prev, prevDepth)
		}
	}
	return
}

func (h *H) checkDep() {
	h.chkN["depth"]++
	sum, _ := h.depths(nil)
	want := 0.0
	if len(h.present) > 0 {
		want = float64(sum) / float64(len(h.present))
	}
	got := h.c.Dep()
	if !(math.Abs(got-want) <= 1e-9*(1+want)) {
		failf("reported mean depth %v, want %v (sum of depths %d over %d keys)", got, want, sum, len(h.present))
	}
}

func (h *H) checkCanon() {
	h.chkN["canonical"]++
	o1 := h.contents(h.c)
	d1 := h.c.Dep()
	for variant := 0; variant < 2; variant++ {
		h.setOp("fresh")
		f := h.c.Fresh()
		h.endOp()
		keys := append([]int(nil), h.present...)
		if variant == 0 {
			sort.Ints(keys)
		} else {
			p := h.r.perm(len(keys))
			k2 := make([]int, len(keys))
			for i, j := range p {
				k2[i] = keys[j]
			}
			keys = k2
		}
		for _, k := range keys {
			h.setOp("put")
			f.Put(k, h.val[k])
			h.endOp()
		}
		o2 := h.contents(f)
		if d2 := f.Dep(); d1 != d2 && math.Abs(d1-d2) > 1e-9*(1+d2) {
			failf("a container built only by insertions holds the same %d keys under the same seed but has mean depth %v, not %v", len(o2), d2, d1)
		}
		for i := range o1 {
			if o1[i] != o2[i] {
				failf("a container built only by insertions holds the same %d keys under the same seed but iterates in another order (position %d: key %d instead of %d)", len(o2), i, o2[i], o1[i])
			}
		}
	}
}

type stopPanic struct{}

func (h *H) checkIter() {
	o1 := h.contents(h.c)
	o2 := h.contents(h.c)
	h.sameOrder(o1, o2, "a repeated iteration")
	cnt := len(o1)
	if cnt == 0 {
		return
	}
	stops := []int{1, cnt, 1 + h.r.n(cnt), 1 + h.r.n(cnt)}
	if cnt <= 12 {
		stops = stops[:0]
		for i := 1; i <= cnt; i++ {
			stops = append(stops, i)
		}
	}
	for _, s := range stops { // early stop
		h.chkN["early_stop"]++
		calls := 0
		h.setOp("all")
		h.c.All(func(k int, p VP) bool {
			calls++
			if calls > s {
				failf("iteration continued after its callback returned false (call %d, stopped at %d of %d)", calls, s, cnt)
			}
			if k != o1[calls-1] {
				failf("iteration order changed without modification: position %d is key %d, was %d", calls-1, k, o1[calls-1])
			}
			return calls < s
		})
		h.endOp()
		if calls != s {
			failf("iteration made %d calls, want %d (stop requested at %d of %d)", calls, s, s, cnt)
		}
	}
	// panicking callback
	h.chkN["panicking_callback"]++
	at := 1 + h.r.n(cnt)
	func() {
		calls := 0
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopPanic); !ok {
					panic(e)
				}
			}
		}()
		h.setOp("all")
		h.c.All(func(k int, p VP) bool {
			calls++
			if calls == at {
				panic(stopPanic{})
			}
			return true
		})
		failf("a panic in the iteration callback at call %d of %d was swallowed", at, cnt)
	}()
	h.endOp()
	h.sameOrder(o1, h.contents(h.c), "iteration after a panicking callback")
	// iterations nested deeply, each of which goes on after the one inside it has ended
	if h.r.chance(1, 6) && curProf.PMax < 1000 { // recursive iteration needs stack
		h.chkN["deeply_nested"]++
		var nest func(d int)
		nest = func(d int) {
			j, stop, in := 0, 1+h.r.n(min(cnt, 4)), 0
			in = h.r.n(stop)
			h.c.All(func(k int, p VP) bool {
				if j >= stop || k != o1[j] {
					failf("iteration inside %d others, to be stopped at call %d: call %d passed key %d, want key %d", d, stop, j+1, k, o1[min(j, cnt-1)])
				}
				if j == in && d < 70 {
					nest(d + 1)
				}
				j++
				return j < stop
			})
			if j != stop {
				failf("iteration inside %d others made %d calls, want %d", d, j, stop)
			}
		}
		h.setOp("all")
		resetBudget(h.budget * 400)
		nest(0)
		h.endOp()
	}
	// nested iteration and reads, updates through the pointer
	if cnt <= 400 {
		h.chkN["nested"]++
		i := 0
		nestAt := h.r.n(cnt)
		h.setOp("all")
		resetBudget(h.budget * int64(1+cnt))
		h.c.All(func(k int, p VP) bool {
			if i < cnt && k != o1[i] {
				failf("iteration with a reading callback: position %d is key %d, was %d", i, k, o1[i])
			}
			if i == nestAt {
				j := 0
				h.c.All(func(k2 int, p2 VP) bool {
					if j >= cnt || k2 != o1[j] {
						failf("nested iteration: position %d is key %d", j, k2)
					}
					j++
					return true
				})
				if j != cnt {
					failf("nested iteration made %d calls, want %d", j, cnt)
				}
				j, stop := 0, 1+h.r.n(cnt)
				h.c.All(func(k2 int, p2 VP) bool {
					if j >= stop || k2 != o1[j] {
						failf("nested iteration stopped at %d: position %d is key %d", stop, j, k2)
					}
					j++
					return j < stop
				})
				if j != stop {
					failf("nested iteration made %d calls, want %d", j, stop)
				}
			}
			q := h.r.n(h.n)
			if h.c.Has(q) != (h.val[q] >= 0) {
				failf("lookup of key %d inside an iteration callback: want present=%v", q, h.val[q] >= 0)
			}
			if h.c.Len() != uint(cnt) {
				failf("length inside an iteration callback is %d, want %d", h.c.Len(), cnt)
			}
			if h.isMap {
				v := h.newVal()
				p.Store(v)
				h.val[k] = h.c.Norm(v)
				if x, ok := h.c.Get(k); !ok || x != h.val[k] {
					failf("update of key %d through the iteration pointer: Get returns (%d,%v), want %d", k, x, ok, h.val[k])
				}
			}
			if h.r.chance(1, 4) { // overwriting present keys is no insertion
				o := h.present[h.r.n(len(h.present))]
				v := h.newVal()
				if h.isMap && h.r.chance(1, 2) {
					h.c.Mod(o, func(p VP, existed bool) {
						if !existed || p.Load() != h.val[o] {
							failf("modify of present key %d inside an iteration callback: existed=%v", o, existed)
						}
						p.Store(v)
					})
				} else {
					h.c.Put(o, v)
				}
				h.val[o] = h.c.Norm(v)
				if h.c.Len() != uint(cnt) {
					failf("length is %d after overwriting a key inside an iteration callback, want %d", h.c.Len(), cnt)
				}
			}
			i++
			return true
		})
		h.endOp()
		if i != cnt {
			failf("iteration with a reading callback made %d calls, want %d", i, cnt)
		}
		h.sameOrder(o1, h.contents(h.c), "iteration after updates through pointers")
	}
}

func (h *H) sameOrder(a, b []int, what string) {
	if len(a) != len(b) {
		failf("%s visited %d keys, not %d", what, len(b), len(a))
	}
	for i := range a {
		if a[i] != b[i] {
			failf("%s used another order: position %d is key %d, was %d", what, i, b[i], a[i])
		}
	}
}

func (h *H) checkGuards() {
	h.chkN["key_bytes"] += int64(len(guardLog))
	for i := range guardLog {
		if err := guardLog[i].check(); err != nil {
			failf("%v", err)
		}
	}
	if len(guardLog) > 20000 {
		guardLog = guardLog[:0]
	}
}

// ---- phases

// phase weights: put-absent, put-present, mod-absent, mod-present, del-present, del-absent, read
type phase struct{ w [7]int }

var phases = map[byte]phase{
	'g': {[7]int{50, 5, 20, 5, 5, 3, 4}},    // grow
	's': {[7]int{5, 3, 3, 3, 60, 5, 4}},     // shrink
	'c': {[7]int{20, 10, 15, 10, 35, 5, 5}}, // churn
	'u': {[7]int{2, 40, 2, 40, 4, 5, 5}},    // update
	'm': {[7]int{3, 3, 45, 15, 40, 3, 3}},   // modify-heavy churn
	'd': {[7]int{25, 2, 10, 2, 30, 25, 5}},  // deletes, present and absent
	'F': {},                                 // fill completely
	'E': {},                                 // empty completely
	'D': {},                                 // one full delete/reinsert round robin
	'T': {},                                 // thin out to a random fraction
}

func (h *H) absent() int {
	for t := 0; t < 30; t++ {
		if k := h.r.n(h.n); h.val[k] < 0 {
			return k
		}
	}
	s := h.r.n(h.n)
	for i := 0; i < h.n; i++ {
		if k := (s + i) % h.n; h.val[k] < 0 {
			return k
		}
	}
	return -1
}

func (h *H) presentKey() int {
	if len(h.present) == 0 {
		return -1
	}
	return h.present[h.r.n(len(h.present))]
}

// run executes the case's phases, calling after(k) after every operation on key k.
func (h *H) run(after func(k int)) {
	per := h.cs.Ops / len(h.cs.Mix)
	if per < 1 {
		per = 1
	}
	for i := 0; i < len(h.cs.Mix); i++ {
		switch m := h.cs.Mix[i]; m {
		case 'F':
			for _, k := range h.r.perm(h.n) {
				if h.val[k] < 0 {
					h.one(k, h.isMap && h.r.chance(1, 3), false, after)
				}
			}
		case 'E':
			for _, k := range h.r.perm(h.n) {
				if h.val[k] >= 0 {
					h.one(k, false, true, after)
				}
			}
		case 'T':
			keep := 1 + h.r.n(7)
			for _, k := range h.r.perm(h.n) {
				if h.val[k] >= 0 && !h.r.chance(keep, 8) {
					h.one(k, false, true, after)
				}
			}
		case 'D':
			for _, k := range h.r.perm(h.n) {
				if h.val[k] >= 0 {
					h.one(k, false, true, after)
					if h.r.chance(2, 3) {
						h.one(k, h.isMap && h.r.chance(1, 3), false, after)
					}
				}
			}
		default:
			h.phase(phases[m], per, after)
		}
	}
}

func (h *H) one(k int, mod, del bool, after func(int)) {
	switch {
	case del:
		h.doDel(k)
	case mod:
		h.doMod(k)
	default:
		h.doPut(k)
	}
	h.done(k, after)
}

func (h *H) done(k int, after func(int)) {
	h.step++
	if !h.par {
		h.state()
	}
	if after != nil {
		after(k)
	}
}

func (h *H) state() {
	if len(h.present) > stats.MaxLen {
		stats.MaxLen = len(h.present)
	}
	if len(stats.stateSeen) < maxStates {
		s := h.sig ^ uint64(len(h.present))<<48
		if !stats.stateSeen[s] {
			stats.stateSeen[s] = true
			stats.Distinct++
			if len(h.present) > 16 {
				stats.Nontrivial++ // pigeonhole: 16 first digits
			} else if h.n <= 4096 && controlled && !h.cs.Std && len(h.present) > 1 {
				g := h.needDigits()
				var seen [16]bool
				for _, k := range h.present {
					d := g.d[k][0]
					if seen[d] {
						stats.Nontrivial++
						break
					}
					seen[d] = true
				}
			}
		}
	}
}

func (h *H) phase(ph phase, ops int, after func(int)) {
	tot := 0
	for _, w := range ph.w {
		tot += w
	}
	for o := 0; o < ops; o++ {
		x := h.r.n(tot)
		c := 0
		for x >= ph.w[c] {
			x -= ph.w[c]
			c++
		}
		k := -1
		switch c {
		case 0, 2, 5:
			k = h.absent()
		case 6:
			k = h.r.n(h.n)
		default:
			k = h.presentKey()
		}
		if k < 0 {
			continue
		}
		switch c {
		case 0, 1:
			h.doPut(k)
		case 2, 3:
			if h.isMap {
				h.doMod(k)
			} else {
				h.doPut(k)
			}
		case 4, 5:
			h.doDel(k)
		case 6:
			if h.or&oLookup != 0 {
				h.lookup(k)
			} else {
				h.c.Has(k)
			}
		}
		h.done(k, after)
	}
}

func (h *H) finish() {
	for i, n := range []string{"put", "del", "mod", "lookup"} {
		stats.OpKinds[n] += h.opc[i]
		stats.Ops += h.opc[i]
		stats.Kinds[h.cs.Kind] += h.opc[i]
	}
	stats.Profiles[h.cs.Prof.Name]++
	if h.dig != nil {
		if _, m := h.depths(nil); m > stats.MaxDepth {
			stats.MaxDepth = m
		}
	}
}

// noteDepth records how deep the current trie is.
func (h *H) noteDepth() {
	if !controlled || h.cs.Std || h.n > 5000 {
		return
	}
	if _, m := h.depths(nil); m > stats.MaxDepth {
		stats.MaxDepth = m
	}
}

func setup(cs *Case) *Inst {
	guardLog = guardLog[:0]
	guardOn = false
	curSeed = mix64(cs.Seed^0x5eed) | 1
	curProf = cs.Prof
	curProf.L = 0
	if cs.Std {
		uninstallHash()
	} else {
		installHash()
	}
	in := kindByName(cs.Kind).Inst(&Env{Shape: cs.Shape, N: cs.N, Seed: cs.Seed, Prof: cs.Prof})
	if in.L > 0 {
		curProf.L = in.L
	}
	if in.L == 0 && curProf.PMax > 0 {
		// Keys of varying length: the hash function cannot tell rounds apart, so
		// every round repeats the shared prefix. Leave enough free digits per
		// round that keys separate after a few rounds.
		curProf.PMax = min(curProf.PMax, 13)
		curProf.Alpha = max(curProf.Alpha, 4)
	}
	return in
}

func tail(t []string, n int) []string {
	if len(t) > n {
		return append([]string{fmt.Sprintf("... %d earlier steps", len(t)-n)}, t[len(t)-n:]...)
	}
	return t
}

func describePanic(e any) string {
	switch x := e.(type) {
	case violation:
		return x.msg
	case budgetExceeded:
		return "operation did not terminate within its budget of hash computations"
	}
	buf := make([]byte, 8192)
	buf = buf[:runtime.Stack(buf, false)]
	var keep []string
	for _, l := range strings.Split(string(buf), "\n") {
		if strings.Contains(l, "amt") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 6 {
			break
		}
	}
	return fmt.Sprintf("operation crashed: %v [%s]", e, strings.Join(keep, " | "))
}

var _ = unsafe.Pointer(nil)
