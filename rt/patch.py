#!/usr/bin/env python3
"""Write patched copies of a few Go 1.25 runtime/sync files and print an overlay
map. The patches make the goroutine scheduler, select order, map order and
math/rand deterministic (seeded) for goroutines inside the simulation bubble."""
import json, os, sys

def main(goroot, out, extra):
    here = os.path.dirname(os.path.abspath(__file__))
    os.makedirs(out, exist_ok=True)
    rep = {}
    def patch(rel, *subs):
        src = os.path.join(goroot, "src", rel)
        s = open(src).read()
        for old, new, count in subs:
            if s.count(old) != count:
                sys.exit("patch.py: %s: expected %d occurrence(s) of %r, found %d" % (rel, count, old, s.count(old)))
            s = s.replace(old, new)
        dst = os.path.join(out, rel.replace("/", "__"))
        write(dst, s)
        rep[src] = dst
    patch("runtime/runtime2.go",
        ("	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simgen  uint32\n	simtag  uint32\n", 1),
        ("	waitReasonSynctestSelect:        true,\n}",
         "	waitReasonSynctestSelect:        true,\n	waitReasonSyncMutexLock: true,\n	waitReasonSyncRWMutexRLock: true,\n	waitReasonSyncRWMutexLock: true,\n	waitReasonSyncWaitGroupWait: true,\n	waitReasonChanReceive: true,\n	waitReasonChanSend: true,\n	waitReasonSelect: true,\n}", 1))
    patch("runtime/proc.go",
        ("const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1 << 60", 1),
        ("		if s == _Psyscall {\n			// Retake", "		if s == _Psyscall && !sim.on {\n			// Retake", 1),
        ("	dropg()\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n\n// Gosched continuation on g0.",
         "	dropg()\n	if sim.on && gp.bubble != nil {\n		runqput(getg().m.p.ptr(), gp, false)\n		schedule()\n	}\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n\n// Gosched continuation on g0.", 1),
        ("	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if !sim.on && pp.schedtick%61 == 0 && !sched.runq.empty() {", 1),
        ("func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if sim.on {\n		simPick(pp)\n	}\n", 1),
        ("		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		newg.simgen = callergp.simgen\n		newg.simtag = callergp.simtag\n", 1),
        ("	mp.clearAllpSnapshot()\n\n	if debug.dontfreezetheworld", "	mp.clearAllpSnapshot()\n	if simFrozen(gp) {\n		gp.waitreason = waitReasonSelectNoCases\n		casgstatus(gp, _Grunnable, _Gwaiting)\n		if mp.spinning {\n			resetspinning()\n		}\n		goto top\n	}\n\n	if debug.dontfreezetheworld", 1))
    patch("runtime/rand.go",
        ("	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	seed[0] = 7\n	if true {\n	} else if len(startupRand) >= 16 &&", 1),
        ("	mp := getg().m\n	c := &mp.chacha8\n", "	if sim.on && simBubbled() {\n		return simnext(&sim.rnd)\n	}\n	mp := getg().m\n	c := &mp.chacha8\n", 1))
    patch("runtime/time.go",
        ("			t.rand = cheaprand()\n", "			t.rand = simTimerRand()\n", 1),
        ("		sec = bubble.now / (1000 * 1000 * 1000)\n", "		simTick()\n		sec = bubble.now / (1000 * 1000 * 1000)\n", 1),
        ("		return gp.bubble.now\n", "		simTick()\n		return gp.bubble.now\n", 1))
    patch("runtime/synctest.go",
        ("		if next < bubble.now {\n			throw(\"time went backwards\")\n		}\n", "", 1),
        ("		bubble.now = next\n", "		bubble.now = max(next, bubble.now)\n", 1))
    patch("runtime/select.go",
        ("		j := cheaprandn(uint32(norder + 1))", "		j := simSelectRandn(uint32(norder + 1))", 1),
        ("	gp := getg()\n	if debugSelect {\n		print(\"select: cas0=\"", "	simYield()\n	gp := getg()\n	if debugSelect {\n		print(\"select: cas0=\"", 1))
    patch("runtime/chan.go",
        ("func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n	simYield()\n", 1),
        ("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n	simYield()\n", 1))
    patch("internal/sync/mutex.go", ("	starvationThresholdNs = 1e6", "	starvationThresholdNs = 1e18", 1))
    patch("sync/mutex.go",
        ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	runtime_simYield()\n", 1),
        ("func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n", "func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n	runtime_simYield()\n", 1))
    patch("sync/rwmutex.go",
        ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_simYield()\n", 1),
        ("func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n	runtime_simYield()\n", 1))
    patch("sync/hashtriemap.go",
        *[("func (m *Map) %s {\n" % sig, "func (m *Map) %s {\n	runtime_simYield()\n" % sig, 1) for sig in (
            "Load(key any) (value any, ok bool)",
            "Store(key, value any)",
            "LoadOrStore(key, value any) (actual any, loaded bool)",
            "LoadAndDelete(key any) (value any, loaded bool)",
            "Delete(key any)",
            "CompareAndSwap(key, old, new any) (swapped bool)")])
    patch("sync/runtime.go", ("// defined in package runtime\n", "// defined in package runtime\n\nfunc runtime_simYield()\n", 1))
    rep[os.path.join(goroot, "src/runtime/sim_runtime.go")] = os.path.join(here, "sim_runtime.go")
    rep.update(extra)
    write(os.path.join(out, "overlay.json"), json.dumps({"Replace": rep}, indent=1, sort_keys=True))

def write(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    with open(p, "w") as f:
        f.write(s)

if __name__ == "__main__":
    extra = {}
    for a in sys.argv[3:]:
        k, v = a.split("=", 1)
        extra[k] = v
    main(sys.argv[1], sys.argv[2], extra)
