// Simulation support added to package runtime (overlay; not part of the
// repository under test).  Everything here runs with GOMAXPROCS=1, without
// sysmon and with faketime, so the only source of nondeterminism left in the
// scheduler is the seeded stream below.

package runtime

// simOn is set while a simulated execution is in progress.
var simOn bool

// simState drives maps, select, hash seeds, temp names, crypto/rand...
var simState uint64 = 0x9e3779b97f4a7c15

// simSched drives the choice of the next goroutine.
var simSched uint64 = 0x1234567

var (
	simMapRandom   bool = true // false: map iteration etc. use a constant stream
	simSchedRandom bool        // false: plain FIFO order
	simSchedLimit  uint64      // number of scheduling decisions taken at random; afterwards FIFO
	simYieldNum    uint32      // a yield point switches with probability simYieldNum/1024
	simYieldSite   uint32      // nonzero: yields only at sites with hash(site)&simYieldSite==0

	simDecisions uint64 // decisions with more than one candidate
	simHash      uint64 // hash of all decisions
	simSteps     uint64
	simStepMax   uint64
	simYields    uint64
	simStepFn    func()
	simWallOff   int64
	simGran      int64 // resolution of the wall clock
	simSiteFn    func(uint32)
)

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simPick returns which of n runnable goroutines runs next; 0 is the default.
//
//go:nosplit
func simPick(n uint32) uint32 {
	if n <= 1 {
		return 0
	}
	simDecisions++
	var r uint32
	if simSchedRandom && simDecisions <= simSchedLimit {
		r = uint32(simNext(&simSched)>>11) % n
	}
	simHash = (simHash ^ uint64(n)<<32 ^ uint64(r)) * 0x100000001b3
	return r
}

type SimConfig struct {
	Seed        uint64
	MapRandom   bool
	SchedRandom bool
	SchedLimit  uint64
	YieldNum    uint32
	YieldSite   uint32
	StepMax     uint64
	StepFn      func()
	StartTime   int64
	Gran        int64
}

// SimStart begins a simulated execution.
func SimStart(c SimConfig) {
	s := c.Seed
	simState = simNext(&s)
	simSched = simNext(&s)
	simMapRandom = c.MapRandom
	simSchedRandom = c.SchedRandom
	simSchedLimit = c.SchedLimit
	simYieldNum = c.YieldNum
	simYieldSite = c.YieldSite
	simDecisions, simHash, simSteps, simYields = 0, 0xcbf29ce484222325, 0, 0
	simStepMax = c.StepMax
	simStepFn = c.StepFn
	simWallOff = 0
	simGran = c.Gran
	// The sampling of allocations draws random numbers, at points that depend on
	// everything allocated so far, also by the harness.
	MemProfileRate = 0
	mp := acquirem()
	if mc := getMCache(mp); mc != nil {
		mc.nextSample = 1 << 62
	}
	releasem(mp)
	if c.StartTime != 0 {
		// faketime itself never goes back; the difference is an offset.
		simWallOff = c.StartTime - faketime
	}
	simOn = true
}

// SimStop ends it.
func SimStop() {
	simOn = false
	simSchedRandom = false
	simYieldNum = 0
}

type SimStats struct {
	Decisions, Hash, Steps, Yields uint64
}

func SimGetStats() SimStats {
	return SimStats{simDecisions, simHash, simSteps, simYields}
}

// simSites is the set of the statements that were reached.
var simSites [1 << 12]uint64

func SimSites() (out []uint32) {
	for i, w := range simSites {
		for b := 0; w != 0; b, w = b+1, w>>1 {
			if w&1 != 0 {
				out = append(out, uint32(i*64+b))
			}
		}
	}
	return out
}

// SimYield is inserted before the statements of the code under test.
func SimYield(site uint32) {
	if !simOn {
		return
	}
	if b := site & (1<<18 - 1); simSites[b/64]&(1<<(b%64)) == 0 {
		simSites[b/64] |= 1 << (b % 64)
	}
	simSteps++
	if simStepMax != 0 && simSteps > simStepMax && simStepFn != nil {
		f := simStepFn
		simStepFn = nil
		f()
	}
	if simYieldNum == 0 || simDecisions >= simSchedLimit {
		return
	}
	if simYieldSite != 0 && (site*2654435761>>16)&simYieldSite != 0 {
		return
	}
	if uint32(simNext(&simSched)>>20)&1023 < simYieldNum {
		simYields++
		Gosched()
	}
}

// SimRand draws from the environment stream.
func SimRand() uint64 { return simNext(&simState) }

// SimAdvance moves the simulated clock forward.
func SimAdvance(ns int64) { faketime += ns }

// SimJumpWall makes the wall clock (not the monotonic clock) jump.
func SimJumpWall(ns int64) { simWallOff += ns }

func SimWall() int64 { return faketime + simWallOff }
func SimMono() int64 { return faketime }

// SimSetProc makes the calling goroutine (and the ones it starts) belong to
// simulated process id.
func SimSetProc(id int32) { getg().simproc = id }
func SimGetProc() int32   { return getg().simproc }
