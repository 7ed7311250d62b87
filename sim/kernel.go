package main

import (
	"context"
	"fmt"
	"os"
	"time"
)

// prng is a splitmix64 generator: every decision of the simulator is drawn
// from one of a handful of streams derived from the run's seed.
type prng struct{ s uint64 }

func (r *prng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *prng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *prng) f() float64         { return float64(r.u64()>>11) / (1 << 53) }
func (r *prng) p(p float64) bool   { return r.f() < p }
func (r *prng) rng(lo, hi int) int { return lo + r.n(hi-lo+1) }
func (r *prng) sub(tag uint64) *prng {
	x := prng{r.s ^ (tag+1)*0xd6e8feb86659fd93}
	x.u64()
	return &prng{x.u64()}
}

// A gate is one point where the system under test waits for the outside world
// (a database statement, an HTTP exchange). Nothing behind a gate happens until
// the scheduler grants it.
type gate struct {
	seq       uint64
	kind      string
	desc      string
	gen       uint32
	tag       uint32 // which part of the proxy the goroutine belongs to (see rtSetTag)
	ready     time.Time
	ch        chan struct{}
	run       func() bool // executed by the scheduler; false = not finished (blocked), stays pending
	blocked   bool        // waiting for a database lock
	abandoned bool
	stalled   bool
	deadlock  bool
	longpoll  bool // waiting for the homeserver to have news
	jitter    int
	origin    string // db gates: on whose behalf (see origin)
	dev       *hsDevice
}

type kernel struct {
	txnFault bool
	gates    []*gate
	seq      uint64
	wake     chan struct{}
	sched    *prng // which pending item is handled next
	fault    *prng
	t0       time.Time
	log      []string
	logOn    bool
	traceDB  bool
	logFile  *os.File
	loghash  uint64
	steps    int
	grantN   map[string]int
	faultN   map[string]int
	probe    map[string]int
	dead     bool
	curGen   uint32
	onGate   func(g *gate)
}

func newKernel() *kernel {
	return &kernel{wake: make(chan struct{}, 1), grantN: map[string]int{}, faultN: map[string]int{}, probe: map[string]int{}, t0: time.Now(), loghash: 14695981039346656037}
}

func (k *kernel) now() time.Duration { return time.Since(k.t0) }

// logf appends to the run's event log. It never draws randomness or reads a
// real clock.
func (k *kernel) logf(format string, a ...interface{}) {
	s := fmt.Sprintf("%9.3f ", k.now().Seconds()) + fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		k.loghash = (k.loghash ^ uint64(s[i])) * 0x100000001b3
	}
	if k.logOn {
		k.logFile.WriteString(s + "\n")
	}
}

func (k *kernel) poke() {
	select {
	case k.wake <- struct{}{}:
	default:
	}
}

// enter posts a gate and waits until the scheduler grants it or ctx ends.
// It reports whether the gate was granted.
func (k *kernel) enter(ctx context.Context, g *gate) bool {
	k.seq++
	g.seq = k.seq
	g.ch = make(chan struct{})
	g.gen = rtGetGen()
	if g.ready.IsZero() {
		g.ready = time.Now()
	}
	if g.gen != 0 && g.gen < k.curGen {
		select {} // a crashed process performs no I/O
	}
	k.gates = append(k.gates, g)
	if k.onGate != nil {
		k.onGate(g)
	}
	k.poke()
	if ctx == nil || ctx.Done() == nil {
		<-g.ch
		return true
	}
	select {
	case <-g.ch:
		return true
	case <-ctx.Done():
		select {
		case <-g.ch:
			return true
		default:
		}
		g.abandoned = true
		k.remove(g)
		return false
	}
}

func (k *kernel) remove(g *gate) {
	for i, x := range k.gates {
		if x == g {
			k.gates = append(k.gates[:i:i], k.gates[i+1:]...)
			return
		}
	}
}

// ready gates at the current instant, in arrival order.
func (k *kernel) eligible() []*gate {
	var out []*gate
	now := time.Now()
	for _, g := range k.gates {
		if g.gen != 0 && g.gen < k.curGen {
			continue
		}
		if !g.blocked && !g.ready.After(now) {
			out = append(out, g)
		}
	}
	return out
}

func (k *kernel) grant(g *gate) {
	k.steps++
	k.grantN[g.kind]++
	if g.run() {
		k.remove(g)
		close(g.ch)
	}
}

// raw writes to the log file only.
func (k *kernel) raw(format string, a ...interface{}) {
	if k.logOn {
		fmt.Fprintf(k.logFile, format+"\n", a...)
	}
}
