package main

// Profile describes a hash function by its 4-bit digits. Keys fall into classes;
// keys of one class share their first P digits (P <= PMax, chosen per class), the
// remaining digits are key-specific. Alpha limits how many digit values occur, so
// that small key sets produce deep tries.
type Profile struct {
	Name   string
	Alpha  int // 2..16 distinct digit values
	PMax   int // longest shared prefix, in digits; 16 digits per hash round
	PMin   int // if not 0: shortest shared prefix
	NClass int // number of classes
	Rare   int // if not 0: only one class in Rare shares any digits
	L      int // key length in bytes: content of n*L bytes is round n-1. 0: unknown
}

var (
	curProf Profile
	curSeed uint64

	// Hash-call accounting. Only in single-goroutine runs: no synchronization here,
	// because it would hide races from the race detector.
	countHashes bool
	hashCalls   int64
	hashBudget  int64
	maxRound    int
)

type budgetExceeded struct{}

func resetBudget(n int64) {
	if countHashes {
		hashCalls, hashBudget = 0, n
	}
}

func chargeHash(round int) {
	if crowd != nil {
		crowd.arrive()
	}
	if !countHashes {
		return
	}
	hashCalls++
	if round > maxRound {
		maxRound = round
	}
	if hashBudget > 0 && hashCalls > hashBudget {
		hashBudget = 0
		panic(budgetExceeded{})
	}
}

func classOf(p *Profile, seed, w uint64) (class uint64, prefix int) {
	if p.PMax == 0 || p.NClass == 0 {
		return 0, 0
	}
	class = mix64(seed^mix64(w)^0xc1a55) % uint64(p.NClass)
	r := mix64(class*0x9e37 ^ seed ^ 0x9f)
	if p.Rare > 0 && (r>>40)%uint64(p.Rare) != 0 {
		return class, 0
	}
	if p.PMin > 0 {
		return class, p.PMin + int((r>>8)%uint64(p.PMax-p.PMin+1))
	}
	switch r % 4 {
	case 0:
		prefix = p.PMax
	case 1: // around a rehash boundary
		prefix = 16*int(1+(r>>8)%3) - 1 + int((r>>16)%3)
	default:
		prefix = int((r >> 8) % uint64(p.PMax+1))
	}
	if prefix > p.PMax {
		prefix = p.PMax
	}
	return
}

// word returns the 64-bit hash of round for key identity w: 16 digits, first digit in the low bits.
func word(p *Profile, seed, w uint64, round int, maxPrefix int) uint64 {
	class, prefix := classOf(p, seed, w)
	if prefix > maxPrefix {
		prefix = maxPrefix
	}
	if p.Alpha >= 16 && prefix <= 16*round {
		return mix64(seed ^ w ^ mix64(uint64(round)+77))
	}
	off := mix64(seed^0x0ff) & 15
	var out uint64
	for i := 0; i < 16; i++ {
		g := 16*round + i
		var n uint64
		if g < prefix {
			n = mix64(seed ^ mix64(class+1) ^ uint64(g)*0x2545F4914F6CDD1D)
		} else {
			n = mix64(mix64(seed^w) ^ uint64(g)*0xD1342543DE82EF95)
		}
		n = (n >> 20) % uint64(p.Alpha)
		d := (n*5 + off) & 15
		out |= d << (4 * uint(i))
	}
	return out
}

func strongBytes(seed uint64, b []byte) uint64 {
	h := mix64(seed ^ uint64(len(b))*0x9e3779b97f4a7c15)
	for len(b) >= 8 {
		w := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 |
			uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
		h = mix64(h ^ w)
		b = b[8:]
	}
	if len(b) > 0 {
		w := uint64(len(b)) << 56
		for i, c := range b {
			w |= uint64(c) << (8 * uint(i))
		}
		h = mix64(h ^ w)
	}
	return h
}

// contentHash is installed as the hash function of hash/maphash in the controlled builds.
func contentHash(seed uint64, content []byte) uint64 {
	p := &curProf
	if p.L > 0 && len(content) > 0 && len(content)%p.L == 0 {
		round := len(content)/p.L - 1
		chargeHash(round)
		return word(p, seed, strongBytes(seed, content[:p.L]), round, 1<<30)
	}
	chargeHash(0)
	return word(p, seed, strongBytes(seed, content), 0, 15)
}

// weakHash is the hash of the custom key types.
func weakHash(id uint64, iter uint) uint64 {
	chargeHash(int(iter))
	return word(&curProf, curSeed, mix64(id^0x5eed), int(iter), 1<<30)
}
