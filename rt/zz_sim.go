// Deterministic simulation scheduler, compiled into a private copy of the Go
// runtime (see /verif/tool/overlay.py). With simOn false nothing changes.
//
// While a run is active every user goroutine created is a "sim goroutine"
// (simid != 0). Exactly one runs at a time; who runs next is decided here,
// from the run's seed, at every SimYield (one before each statement of the
// code under test) and every time a goroutine blocks or ends. The harness's
// main goroutine (the driver) gets control back only when no sim goroutine is
// runnable. Clocks read simNow. Nothing here is race-instrumented.
package runtime

import "unsafe"

const (
	simMaxQ     = 8192
	simMaxTrace = 1 << 16
	simMaxLog   = 1 << 17
	simMaxG     = 4096
)

// SimConfig drives one run.
type SimConfig struct {
	Seed      uint64
	SwitchP   uint32 // per-yield switch probability, out of 1<<20
	TickP     uint32 // per-yield clock tick probability, out of 1<<20
	TickMax   int64  // largest tick, ns
	BlockRnd  bool   // random pick when a goroutine blocks (else FIFO)
	PCT       bool   // priority scheduling with random change points
	PCTDepth  uint32 // change points
	PCTSteps  uint32 // expected length of the run, in yields
	Starve    uint32 // bit mask over simid%8: starved goroutines
	StepCap   uint64 // yields before the fair tail phase
	FairCap   uint64 // further yields, under fair scheduling, before livelock
	StartNow  int64  // monotonic ns
	StartWall int64  // wall ns
	Replay    bool   // follow Decisions instead of the policy
	Decisions []SimDecision
}

// SimDecision is one non-default scheduling decision: goroutine G, at its
// K-th decision point, switched to goroutine To (or, with Tick != 0, advanced
// the clock first).
type SimDecision struct {
	G, K, To uint32
	Tick     int64
}

// SimRec is one recorded observation.
type SimRec struct {
	Seq     uint64
	Now     int64
	G       int32
	Kind    int32
	A, B, C int64
}

var (
	simOn      bool
	simCfg     SimConfig
	simq       [simMaxQ]guintptr
	simqn      int
	simNow     int64
	simWallOff int64
	simDriver  guintptr
	simWaiting bool
	simStatus  int32
	simSteps   uint64
	simSwitch  uint64
	simTicks   uint64
	simTickNS  int64
	simNextID  uint32
	simLive    int32
	simLast    guintptr
	simLastID  uint32
	simLastK   uint32
	simHash    uint64
	simSeqN    uint64
	simTrace   *[simMaxTrace]SimDecision
	simTraceH  *[4]uint64 // shared header: run index, decisions, overflow, unused
	simTraceN  int
	simTraceOv bool
	simPrioN   int32
	simPrio    [simMaxG]int32
	simCP      [64]uint64
	simLogBuf  [simMaxLog]SimRec
	simLogN    int
	simLogOv   bool
	simRandN   uint64
	simAlive   [simMaxG]guintptr
	simRaceX   uint64
	simNotes   uint64
	simUnfair  uint64
	simRunN    uint64
)

//go:nosplit
func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simH(kind uint64, g, k uint32) uint64 {
	return simMix(simCfg.Seed ^ simMix(kind<<56^uint64(g)<<32^uint64(k)))
}

// SimTraceTo sets the memory the schedule trace is written to (a shared file
// mapping, so that it survives a crash of the process).
func SimTraceTo(p unsafe.Pointer) {
	simTraceH = (*[4]uint64)(p)
	simTrace = (*[simMaxTrace]SimDecision)(add(p, 64))
}

// SimTraceBytes is the size of that memory.
const SimTraceBytes = 64 + simMaxTrace*24

// SimBegin starts a run. The caller becomes the driver.
func SimBegin(c *SimConfig) {
	if simOn {
		throw("SimBegin: run active")
	}
	simCfg = *c
	simqn = 0
	simNow = c.StartNow
	simWallOff = c.StartWall - c.StartNow
	simStatus = 0
	simSteps, simSwitch, simTicks = 0, 0, 0
	simTickNS = 0
	simNextID, simLive = 0, 0
	simHash, simSeqN, simRandN = 0, 0, 0
	simTraceN, simLogN = 0, 0
	simTraceOv, simLogOv = false, false
	simTraceH[1], simTraceH[2] = 0, 0
	simLastID, simLastK = 0, 0
	simPrioN = 0
	simNotes = 0
	simUnfair = 0
	for i := range simAlive {
		simAlive[i] = 0
	}
	for i := range simCP {
		simCP[i] = 0
	}
	if c.PCT {
		n := int(c.PCTDepth)
		if n > len(simCP) {
			n = len(simCP)
		}
		for i := 0; i < n; i++ {
			simCP[i] = 1 + simH(7, uint32(i), 1)%uint64(c.PCTSteps+1)
		}
	}
	simDriver.set(getg())
	getg().simk, getg().simr, getg().simf, getg().simm = 0, 0, 0, 0
	simForce, simForced, simWaiting = 0, false, false
	simRunN++
	simOn = true
}

// SimEnd ends the run.
func SimEnd() { simOn = false }

// SimRunID numbers the runs of this process; 0 when none is active.
func SimRunID() uint64 {
	if !simOn {
		return 0
	}
	return simRunN
}

// SimRun runs sim goroutines until none is runnable (0) or the step budget is
// exhausted (1). Only the driver may call it.
func SimRun() int {
	gp := getg()
	if !simOn || simDriver.ptr() != gp {
		throw("SimRun: not the driver")
	}
	simStatus = 0
	simWaiting = true
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
	if raceenabled {
		raceacquire(unsafe.Pointer(&simRaceX))
	}
	return int(simStatus)
}

// SimNextTimer returns the time of the earliest pending timer, or -1.
func SimNextTimer() int64 {
	w := timeSleepUntil()
	if w == maxWhen {
		return -1
	}
	return w
}

func SimNow() int64            { return simNow }
func SimWall() int64           { return simNow + simWallOff }
func SimAdvanceTo(t int64)     { if t > simNow { simNow = t } }
func SimWallJump(d int64)      { simWallOff += d }
func SimLive() int             { return int(simLive) }
func SimSteps() uint64         { return simSteps }
func SimSwitches() uint64      { return simSwitch }
func SimTicks() (uint64, int64) { return simTicks, simTickNS }
func SimHash() uint64          { return simHash }
func SimSelf() int32           { return int32(getg().simid) }
func SimQueued() int           { return simqn }
func SimActive() bool          { return simOn }

// SimDescribe reports living goroutines: wait reason of the i-th living goroutine.
func SimDescribe(f func(id int32, wait string, startpc, gopc uintptr)) {
	for i := range simAlive {
		if gp := simAlive[i].ptr(); gp != nil && gp.simid == uint32(i) && gp.simid != 0 {
			f(int32(i), gp.waitreason.String(), gp.startpc, gp.gopc)
		}
	}
}

// SimBlocked reports whether living goroutine id is blocked (not runnable).
func SimBlocked(id int32) bool {
	if id <= 0 || id >= simMaxG {
		return false
	}
	gp := simAlive[id].ptr()
	return gp != nil && gp.simid == uint32(id) && readgstatus(gp)&^_Gscan == _Gwaiting
}

// SimTrace copies out the non-default decisions taken.
func SimTrace() ([]SimDecision, bool) {
	r := make([]SimDecision, simTraceN)
	copy(r, simTrace[:simTraceN])
	return r, simTraceOv
}

// SimSeq returns the next global event sequence number.
func SimSeq() uint64 { simSeqN++; return simSeqN }

// SimLog records an observation and returns its sequence number.
func SimLog(kind int32, a, b, c int64) uint64 {
	simSeqN++
	if simLogN >= simMaxLog {
		simLogOv = true
		return simSeqN
	}
	r := &simLogBuf[simLogN]
	simLogN++
	r.Seq, r.Now, r.G, r.Kind, r.A, r.B, r.C = simSeqN, simNow, int32(getg().simid), kind, a, b, c
	h := simMix(uint64(kind)<<40 ^ uint64(getg().simid)<<20 ^ uint64(a))
	simNotes = simMix(simNotes ^ h ^ simMix(uint64(b)^simMix(uint64(c))))
	return simSeqN
}

// SimLogHash is a digest of everything recorded so far.
func SimLogHash() uint64 { return simNotes }

// SimLogLen and SimLogAt read the record.
func SimLogLen() int         { return simLogN }
func SimLogAt(i int) SimRec  { return simLogBuf[i] }
func SimLogOverflow() bool   { return simLogOv }

// SimRand is a per-goroutine deterministic stream for fault decisions taken
// inside simulated devices.
func SimRand() uint64 {
	gp := getg()
	gp.simf++
	return simH(3, gp.simid, gp.simf)
}

//go:nosplit
func simRandFor(kind uint64) (uint64, bool) {
	if !simOn {
		return 0, false
	}
	gp := getg()
	if mp := gp.m; mp != nil && gp == mp.g0 {
		simRandN++
		return simMix(simCfg.Seed ^ simMix(0xabcd<<32^simRandN)), true
	}
	if kind == 4 {
		// Map seeds and the like: how many are drawn depends on caches.
		gp.simm++
		return simH(kind, gp.simid, gp.simm), true
	}
	gp.simr++
	return simH(kind, gp.simid, gp.simr), true
}

// simMapRand seeds maps and their iterations. It depends on how far the
// goroutine has come, not on how many maps there were: that differs between
// builds, as not every map needs a seed.
//
//go:nosplit
func simMapRand() uint64 {
	gp := getg()
	if mp := gp.m; mp != nil && gp == mp.g0 {
		return simH(5, 0, 0)
	}
	return simH(5, gp.simid, gp.simk)
}

//go:nosplit
func simSelRand(n uint32) (uint32, bool) {
	x, ok := simRandFor(2)
	if !ok {
		return 0, false
	}
	return uint32((uint64(uint32(x)) * uint64(n)) >> 32), true
}

// simBorn is called by newproc1 for user goroutines while a run is active.
func simBorn(gp *g) {
	simNextID++
	gp.simid = simNextID
	gp.simk, gp.simr, gp.simf, gp.simm = 0, 0, 0, 0
	simLive++
	if simNextID < simMaxG {
		simAlive[simNextID].set(gp)
		simPrio[simNextID] = int32(simH(6, simNextID, 0) & 0x3fffffff)
	}
}

func simDied(gp *g) {
	if gp.simid != 0 {
		if simOn && gp.simid < simMaxG && simAlive[gp.simid].ptr() == gp {
			simAlive[gp.simid] = 0
			simLive--
		}
		simLastID, simLastK = gp.simid, gp.simk+1
		gp.simid = 0
	}
}

func simGoexitRace() {
	if simOn && getg().simid != 0 {
		racereleasemerge(unsafe.Pointer(&simRaceX))
	}
}

//go:nowritebarrierrec
func simReady(gp *g) {
	if simqn >= simMaxQ {
		throw("sim run queue overflow")
	}
	simq[simqn].set(gp)
	simqn++
}

func simRemove(i int) *g {
	gp := simq[i].ptr()
	for j := i + 1; j < simqn; j++ {
		simq[j-1] = simq[j]
	}
	simqn--
	simq[simqn] = 0
	return gp
}

func simFind(id uint32) int {
	for i := 0; i < simqn; i++ {
		if simq[i].ptr().simid == id {
			return i
		}
	}
	return -1
}

func simNote(g, k, to uint32, tick int64) {
	if simTraceN >= simMaxTrace {
		simTraceOv = true
		simTraceH[2] = 1
		return
	}
	simTrace[simTraceN] = SimDecision{g, k, to, tick}
	simTraceN++
	simTraceH[1] = uint64(simTraceN)
}

func simLookup(g, k uint32) *SimDecision {
	// Decisions are sorted by (G, K).
	lo, hi := 0, len(simCfg.Decisions)
	for lo < hi {
		m := (lo + hi) / 2
		d := &simCfg.Decisions[m]
		if d.G < g || d.G == g && d.K < k {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(simCfg.Decisions) {
		d := &simCfg.Decisions[lo]
		if d.G == g && d.K == k {
			return d
		}
	}
	return nil
}

func simStarved(id uint32) bool { return simCfg.Starve&(1<<(id&7)) != 0 }

func simPrioOf(id uint32) int32 {
	if id >= simMaxG {
		return 0
	}
	return simPrio[id]
}

// simChoose picks an index in simq for the decision h.
func simChoose(h uint64) int {
	if simCfg.PCT {
		best := 0
		for i := 1; i < simqn; i++ {
			if simPrioOf(simq[i].ptr().simid) > simPrioOf(simq[best].ptr().simid) {
				best = i
			}
		}
		return best
	}
	i := int(h % uint64(simqn))
	if simCfg.Starve != 0 && simStarved(simq[i].ptr().simid) && (h>>20)&63 != 0 {
		for j := 0; j < simqn; j++ {
			if c := (i + j) % simqn; !simStarved(simq[c].ptr().simid) {
				return c
			}
		}
	}
	return i
}

// simPick is called by findRunnable on the scheduler stack.
func simPick() *g {
	if simqn == 0 || simStatus != 0 {
		return nil
	}
	i := 0
	g, k := simLastID, simLastK
	if simUnfair == 0 {
		if t := simForce; t != 0 {
			simForce = 0
			if j := simFind(t); j >= 0 {
				i = j
			}
		} else if simCfg.Replay {
			if d := simLookup(g, k); d != nil {
				if j := simFind(d.To); j >= 0 {
					i = j
				}
			}
		} else if simqn > 1 {
			if simCfg.PCT || simCfg.BlockRnd {
				i = simChoose(simH(1, g, k))
			}
		}
		if i != 0 && !simForced {
			simNote(g, k, simq[i].ptr().simid, 0)
		}
	}
	simForced = false
	gp := simRemove(i)
	simHash = simMix(simHash ^ uint64(gp.simid)<<32 ^ uint64(gp.simk))
	simSwitch++
	return gp
}

var (
	simForce  uint32
	simForced bool
)

// SimYield is one scheduling point.
func SimYield() {
	if !simOn {
		return
	}
	gp := getg()
	if gp.simid == 0 || gp.m.locks != 0 {
		return
	}
	gp.simk++
	simSteps++
	if simSteps > simCfg.StepCap {
		simFair(gp)
		return
	}
	if simCfg.Replay {
		d := simLookup(gp.simid, gp.simk)
		if d == nil {
			return
		}
		if d.Tick != 0 {
			simNow += d.Tick
			simTicks++
			simTickNS += d.Tick
		}
		simNote(gp.simid, gp.simk, d.To, d.Tick)
		simSwitchTo(gp, d.To)
		return
	}
	h := simH(0, gp.simid, gp.simk)
	var tick int64
	if simCfg.TickP != 0 && uint32(h>>40)&0xfffff < simCfg.TickP {
		h2 := simMix(h)
		tick = 1 + int64(h2%uint64(simCfg.TickMax))
		if h2>>60 < 8 { // small ticks half of the time
			tick = 1 + tick%(1+simCfg.TickMax/1000)
		}
		simNow += tick
		simTicks++
		simTickNS += tick
	}
	if simCfg.PCT {
		n := int(simCfg.PCTDepth)
		if n > len(simCP) {
			n = len(simCP)
		}
		for i := 0; i < n; i++ {
			if simCP[i] == simSteps && gp.simid < simMaxG {
				simPrioN--
				simPrio[gp.simid] = simPrioN
			}
		}
		to := gp.simid
		if simqn > 0 {
			if j := simChoose(0); simPrioOf(simq[j].ptr().simid) > simPrioOf(gp.simid) {
				to = simq[j].ptr().simid
			}
		}
		if to != gp.simid || tick != 0 {
			simNote(gp.simid, gp.simk, to, tick)
			simSwitchTo(gp, to)
		}
		return
	}
	to := gp.simid
	if uint32(h)&0xfffff < simCfg.SwitchP && simqn > 0 {
		to = simq[simChoose(h>>20)].ptr().simid
	}
	if to != gp.simid || tick != 0 {
		simNote(gp.simid, gp.simk, to, tick)
		simSwitchTo(gp, to)
	}
}

func simFair(gp *g) {
	simUnfair++
	if simUnfair > simCfg.FairCap {
		simStatus = 1
		simSwitchTo(gp, 0)
		return
	}
	if simUnfair&7 == 0 {
		simSwitchTo(gp, 0)
	}
}

func simSwitchTo(gp *g, to uint32) {
	simForce = to
	simForced = true
	simLastID, simLastK = gp.simid, gp.simk
	mcall(simyield_m)
}

func simyield_m(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	simReady(gp)
	schedule()
}

// simParked and simGosched note the goroutine that gives up the processor, so
// that the pick that follows is keyed by it.
func simParked(gp *g) {
	if simOn && gp.simid != 0 {
		gp.simk++
		simLastID, simLastK = gp.simid, gp.simk
	}
}

func simGosched(gp *g) {
	if simOn && gp.simid != 0 {
		gp.simk++
		simSteps++
		simLastID, simLastK = gp.simid, gp.simk
		if simCfg.PCT && gp.simid < simMaxG {
			simPrioN--
			simPrio[gp.simid] = simPrioN
		}
		if simSteps > simCfg.StepCap {
			simUnfair++
			if simUnfair > simCfg.FairCap {
				simStatus = 1
			}
		}
	}
}

// simIdle hands control back to the driver when nothing else can run.
func simIdle() *g {
	if !simWaiting {
		return nil
	}
	gp := simDriver.ptr()
	if gp == nil || readgstatus(gp)&^_Gscan != _Gwaiting {
		return nil
	}
	simWaiting = false
	casgstatus(gp, _Gwaiting, _Grunnable)
	return gp
}

// SimPublish orders everything this goroutine did before it ahead of what the
// driver does after its next SimRun returns, for the race detector.
func SimPublish() {
	if raceenabled {
		racereleasemerge(unsafe.Pointer(&simRaceX))
	}
}
