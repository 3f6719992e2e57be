package main

import (
	"fmt"
	"regexp"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// curOp tracks the container operation in progress, so that a non-terminating
// operation is reported as a violation. The verdict is on CPU time consumed by one
// operation (millions of times the normal cost), not on wall-clock time, or on
// memory growth during one operation.
type opTracker struct {
	seq    atomic.Uint64
	active atomic.Bool
	use    bool
	unit   string
	limit  float64 // CPU seconds
}

var (
	curOp     = opTracker{unit: "operation", limit: 30}
	curCaseOp opTracker
)

func (o *opTracker) begin() {
	if o.use {
		o.seq.Add(1)
		o.active.Store(true)
	}
}

func (o *opTracker) end() {
	if o.use {
		o.active.Store(false)
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(0, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const heapLimit = 3 << 30

func (o *opTracker) watch(report func(msg string)) {
	var last uint64
	var since float64
	var wall time.Time
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		if !o.active.Load() {
			last = 0
			continue
		}
		seq := o.seq.Load()
		cpu := cpuSeconds()
		if seq != last {
			last, since, wall = seq, cpu, time.Now()
			continue
		}
		if time.Since(wall) > 25*time.Second {
			id, st := blocked()
			for i := 0; i < 10 && id != "" && o.active.Load() && o.seq.Load() == seq; i++ {
				time.Sleep(time.Second)
				was := id
				if id, st = blocked(); id != was {
					id = ""
				}
			}
			if id != "" && o.active.Load() && o.seq.Load() == seq {
				report(o.unit + " does not proceed: a goroutine has been waiting in it for half a minute\n" + st)
				return
			}
			wall = time.Now().Add(-20 * time.Second) // look again in a while
		}
		metrics.Read(s)
		if h := s[0].Value.Uint64(); h > heapLimit {
			report(o.unit + " did not terminate: heap grew beyond 3 GiB during a single " + o.unit)
			return
		}
		if cpu-since > o.limit {
			report(fmt.Sprintf("%s did not terminate within %g s of CPU time", o.unit, o.limit))
			return
		}
	}
}

func warmMetrics() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
}

var waiting = regexp.MustCompile(`^(goroutine \d+) .*\[(chan receive|chan send|select|semacquire|sync\.)`)

// blocked returns a goroutine that is waiting for another one inside the code under
// test, and its stack, if there is one. Waiting is a state of the goroutine, whatever
// the load of the machine.
func blocked() (id, stack string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if m := waiting.FindStringSubmatch(g); m != nil && strings.Contains(g, "wdamron/amt.") {
			return m[1], g[:min(len(g), 3000)]
		}
	}
	return "", ""
}
