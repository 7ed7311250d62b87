// Added to package runtime by the simulator's build overlay (never part of the
// shipped binary): a seeded scheduler for the goroutines of a synctest bubble.
package runtime

import (
	"internal/runtime/atomic"
	"internal/runtime/math"
	_ "unsafe"
)

var sim struct {
	on       bool
	sched    uint64 // PRNG deciding which runnable goroutine runs next, yields, select order
	rnd      uint64 // PRNG behind rand() as seen by bubbled goroutines (map seeds, math/rand, ...)
	yield    uint32 // yield probability, in 1/65536, at each synchronisation operation
	hash     uint64 // running hash of scheduling decisions
	switches uint64
	yields   uint64
	trace    []uint64
	gen      uint32 // goroutines whose generation is in (0,gen) are frozen
}

func simnext(s *uint64) uint64 {
	*s += 0xa0761d6478bd642f
	hi, lo := math.Mul64(*s, *s^0xe7037ed1a0b428db)
	return hi ^ lo
}

//go:linkname simStart
func simStart(schedSeed, rndSeed uint64, yield uint32) {
	sim.sched, sim.rnd, sim.yield = schedSeed, rndSeed, yield
	sim.on = true
}

//go:linkname simSetYield
func simSetYield(yield uint32) { sim.yield = yield }

//go:linkname simStats
func simStats() (hash, switches, yields uint64) { return sim.hash, sim.switches, sim.yields }

// simSetGen assigns the calling goroutine (and everything it starts from now
// on) to generation g. Generation 0 is the simulator itself.
//
//go:linkname simSetGen
func simSetGen(g uint32) { getg().simgen = g }

//go:linkname simGetGen
func simGetGen() uint32 { return getg().simgen }

//go:linkname simSetTag
func simSetTag(t uint32) { getg().simtag = t }

//go:linkname simGetTag
func simGetTag() uint32 { return getg().simtag }

// simFreeze stops every goroutine whose generation is in (0,g) from ever
// running again: the in-process equivalent of kill -9.
//
//go:linkname simFreeze
func simFreeze(g uint32) { sim.gen = g }

//go:nosplit
func simBubbled() bool {
	gp := getg()
	if gp == nil || gp.m == nil {
		return false
	}
	c := gp.m.curg
	return c != nil && c.bubble != nil
}

func simFrozen(gp *g) bool {
	return sim.on && gp.simgen != 0 && gp.simgen < sim.gen
}

// simPick reorders the local run queue so that a seeded choice among the
// runnable bubbled goroutines comes first. Only one P exists.
func simPick(pp *p) {
	// fold runnext into the queue
	if next := pp.runnext; next != 0 {
		h := atomic.LoadAcq(&pp.runqhead)
		t := pp.runqtail
		if t-h >= uint32(len(pp.runq)) || next.ptr().bubble == nil {
			return
		}
		if pp.runnext.cas(next, 0) {
			pp.runq[t%uint32(len(pp.runq))].set(next.ptr())
			atomic.StoreRel(&pp.runqtail, t+1)
		}
	}
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	n := uint32(0)
	for i := h; i != t; i++ {
		gp := pp.runq[i%uint32(len(pp.runq))].ptr()
		if gp.bubble == nil {
			// non-simulated goroutines (runtime helpers) always go first
			l := uint32(len(pp.runq))
			x := pp.runq[i%l]
			for j := i; j != h; j-- {
				pp.runq[j%l] = pp.runq[(j-1)%l]
			}
			pp.runq[h%l] = x
			return
		}
		n++
	}
	if n == 0 {
		return
	}
	k := uint32(0)
	if n > 1 {
		k = uint32(simnext(&sim.sched)>>32) % n
	}
	gp := pp.runq[(h+k)%uint32(len(pp.runq))].ptr()
	if n > 1 {
		sim.hash = (sim.hash ^ (uint64(k)<<32 | uint64(n)) ^ uint64(gp.startpc)) * 0x100000001b3
		sim.switches++
		if sim.trace != nil && int(sim.switches) < len(sim.trace)/2 {
			sim.trace[2*sim.switches] = uint64(k)<<32 | uint64(n)
			sim.trace[2*sim.switches+1] = uint64(gp.startpc)
		}
	}
	simSwap(pp, h, h+k)
}

func simSwap(pp *p, i, j uint32) {
	l := uint32(len(pp.runq))
	a, b := pp.runq[i%l], pp.runq[j%l]
	pp.runq[i%l], pp.runq[j%l] = b, a
}

//go:linkname sync_simYield sync.runtime_simYield
func sync_simYield() { simYield() }

func simYield() {
	if sim.yield == 0 || !sim.on {
		return
	}
	gp := getg()
	if gp.bubble == nil || gp.simgen == 0 || gp.m.locks != 0 || gp.m.mallocing != 0 || gp != gp.m.curg {
		return
	}
	if uint32(simnext(&sim.sched)>>48) < sim.yield {
		sim.yields++
		mcall(gosched_m)
	}
}

func simSelectRandn(n uint32) uint32 {
	if sim.on && getg().bubble != nil {
		return uint32((simnext(&sim.sched) >> 33) % uint64(n))
	}
	return cheaprandn(n)
}

//go:linkname simTrace
func simTrace(n int) []uint64 {
	if n > 0 {
		sim.trace = make([]uint64, n)
	}
	return sim.trace
}

func simTimerRand() uint32 {
	if sim.on {
		return uint32(simnext(&sim.sched) >> 33)
	}
	return cheaprand()
}

// simTick makes the system under test see time pass between two looks at the
// clock, as it does on a real machine (code that waits for "not before t" would
// otherwise spin for ever at exactly t).
func simTick() {
	if gp := getg(); sim.on && gp.simgen != 0 && gp.bubble != nil {
		gp.bubble.now++
	}
}
