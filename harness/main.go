package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

type Found struct {
	Case  *Case    `json:"case"`
	Desc  string   `json:"desc"`
	Msg   string   `json:"msg"`
	Step  int      `json:"step"`
	Trace []string `json:"trace"`
}

type Result struct {
	Prop       string   `json:"prop"`
	Variant    string   `json:"variant"`
	Shard      int      `json:"shard"`
	Done       bool     `json:"done"`
	Violations []*Found `json:"violations"`
	Stats      *Stats   `json:"stats"`
}

// A property supplies its cases and how to run one.
type Property struct {
	Cases func(tier string, seed uint64, variant string) []*Case
	Run   func(cs *Case) *H // panics with a violation
	Multi bool              // runs several goroutines: no per-operation accounting
}

var properties = map[string]*Property{}

var (
	outMu   sync.Mutex
	outPath string
	result  = &Result{Stats: stats}
	curCase *Case
	curH    *H
)

func writeResult() {
	b, err := json.Marshal(result)
	if err == nil {
		err = os.WriteFile(outPath, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot write result:", err)
		os.Exit(3)
	}
}

func report(cs *Case, h *H, msg string) {
	f := &Found{Case: cs, Desc: cs.String(), Msg: msg}
	if h != nil {
		f.Step = h.step
		f.Trace = tail(h.trace, 200)
	}
	result.Violations = append(result.Violations, f)
}

func runOne(p *Property, cs *Case) (ok bool) {
	curCase, curH = cs, nil
	defer func() {
		curOp.end()
		resetBudget(0)
		if e := recover(); e != nil {
			if s, is := e.(string); is && len(s) > 8 && s[:8] == "harness:" {
				panic(e)
			}
			outMu.Lock()
			report(cs, curH, describePanic(e))
			outMu.Unlock()
			ok = false
		}
	}()
	if h := p.Run(cs); h != nil {
		h.finish()
	}
	return true
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard index")
	shards := flag.Int("shards", 1, "number of shards")
	out := flag.String("out", "", "result file")
	progress := flag.String("progress", "", "file naming the case being run")
	variant := flag.String("variant", "ctl", "build variant")
	one := flag.Int("case", -1, "run only this case")
	list := flag.Bool("list", false, "list cases")
	maxv := flag.Int("maxviol", 1, "stop after this many violations")
	budget := flag.Float64("budget", 0, "start no further case after this many seconds (0: no limit)")
	flag.Parse()
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown property", *prop)
		os.Exit(3)
	}
	cases := p.Cases(*tier, *seed, *variant)
	for i, c := range cases {
		c.Prop, c.Idx = *prop, i
	}
	if *list {
		for _, c := range cases {
			fmt.Println(c)
		}
		return
	}
	if *one < 0 { // a mixture, so that every shard and a run cut short see all kinds
		p := newRng(*seed, strHash(*prop), 0x0dde2).perm(len(cases))
		mixed := make([]*Case, len(cases))
		for i, j := range p {
			mixed[i] = cases[j]
		}
		cases = mixed
	}
	outPath = *out
	result.Prop, result.Variant, result.Shard = *prop, *variant, *shard
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	countHashes = !p.Multi
	curOp.use = !p.Multi
	warmMetrics()
	hung := func(msg string) {
		outMu.Lock()
		f := &Found{Case: curCase, Desc: curCase.String(), Msg: msg}
		if curH != nil {
			f.Step = curH.step
		}
		result.Violations = append(result.Violations, f)
		writeResult0()
		os.Exit(1)
	}
	if p.Multi { // several goroutines: a whole case is the unit
		curCaseOp.use, curCaseOp.unit, curCaseOp.limit = true, "case", 240
		go curCaseOp.watch(hung)
	} else {
		go curOp.watch(hung)
	}
	var pf *os.File
	if *progress != "" {
		var err error
		if pf, err = os.Create(*progress); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
	}
	start, times := time.Now(), os.Getenv("VERIF_TIMES") != ""
	for i, c := range cases {
		if *budget > 0 && time.Since(start).Seconds() > *budget {
			stats.CutShort = true
			break
		}
		if *one >= 0 {
			if c.Idx != *one {
				continue
			}
		} else if i%*shards != *shard {
			continue
		}
		if pf != nil {
			b, _ := json.Marshal(c)
			pf.WriteAt(append(b, '\n'), 0)
			pf.Truncate(int64(len(b) + 1))
		}
		stats.Cases++
		curCaseOp.begin()
		if len(stats.Samples) < 3 {
			stats.Samples = append(stats.Samples, c.String())
		}
		t := time.Now()
		ok := runOne(p, c)
		if times {
			fmt.Fprintf(os.Stderr, "%8.3f s %s\n", time.Since(t).Seconds(), c)
		}
		if !ok && len(result.Violations) >= *maxv {
			break
		}
	}
	stats.MaxRound = maxRound
	result.Done = true
	outMu.Lock()
	writeResult()
	if len(result.Violations) > 0 {
		os.Exit(1)
	}
}

// writeResult0 writes a minimal result: the statistics may be changing concurrently.
func writeResult0() {
	s := result.Stats
	result.Stats = &Stats{}
	writeResult()
	result.Stats = s
}
