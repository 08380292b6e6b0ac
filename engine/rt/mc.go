// Controlled scheduling for stateless model checking. This file is compiled into package runtime through
// 'go build -overlay'; see /verif/DESIGN.md. Everything runs on a single P.
//
// Controlled goroutines are the ones that belong to the bubble of the running execution (g.bubble == mc.bubble),
// the controller is the goroutine that called MCRun.

package runtime

import (
	"internal/runtime/sys"
	"unsafe"
)

const (
	mcMaxDec     = 1 << 18
	mcMaxStalled = 256

	// kinds of decisions
	MCKindPoint      = 0 // a scheduling point of the running goroutine: 0 continue, 1 stall until quiescence
	MCKindSelect     = 1 // more than one case of a select is ready
	MCKindRelease    = 2 // quiescence, and more than one goroutine is stalled
	MCKindChoose     = 3 // choice of the harness (fault, environment action)
	MCKindPointSleep = 4 // a scheduling point: 0 continue, 1 sleep
	MCKindPointBoth  = 5 // a scheduling point: 0 continue, 1 stall, 2 sleep

	// how an execution ended
	MCDone     = 0 // main returned, everything quiescent
	MCDeadlock = 1 // main did not return, nothing is runnable and no timer is pending
	MCLimit    = 2 // step limit: somebody spins
	MCHorizon  = 3 // virtual time horizon reached before main returned
	MCSpin     = 4 // a goroutine spins without passing any point
)

type mcState struct {
	active   bool
	parked   bool // the controller is parked in mcIdle
	ctl      guintptr
	bubble   *synctestBubble
	runq     gQueue
	stalled  [mcMaxStalled]guintptr
	nstalled int
	idlers   [mcMaxStalled]guintptr
	nidlers  int
	rng      uint64 // for maps and math/rand
	crng     uint64 // for decisions of the runtime which depend on more than the execution
	tseq     uint32 // timers due at the same instant fire in the order in which they were set

	devIdx [64]int32
	devAlt [64]int32
	ndev   int
	curdev int
	badDev bool // a deviation asked for an alternative which does not exist

	ndec     int
	points   bool // scheduling points are decisions
	selects  bool
	sleepNs  int64
	steps    int64
	maxSteps int64
	preempts int64
	status   int
	horizon  int64
	switches int64

	selStreak int64 // selects with more than one ready case in a row without a switch
	selAt     int64

	runAt, runFrom int64 // how long the running goroutine has been running
}

var mc mcState

// mcDec logs the decisions: kind<<28 | alternatives<<20 | site.
var mcDec [mcMaxDec]uint32

func mcRand() uint64 {
	mc.rng += 0x9e3779b97f4a7c15
	z := mc.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mcCheapRand() uint64 {
	mc.crng = mc.crng*6364136223846793005 + 1442695040888963407
	return mc.crng >> 32
}

// mcEnqueue takes over a runnable goroutine of the execution.
func mcEnqueue(gp *g) bool {
	if mc.active && gp.bubble != nil {
		mc.runq.pushBack(gp)
		return true
	}
	return false
}

// mcPreempted takes over a goroutine preempted by sysmon.
func mcPreempted(gp *g) bool {
	if mc.active && gp.bubble != nil {
		mc.preempts++
		if mc.preempts > 400 {
			// It has been spinning for seconds. It never runs again.
			mc.status = MCSpin
			return true
		}
		mc.runq.push(gp)
		return true
	}
	return false
}

// mcPick returns the next goroutine to run, or nil when the ordinary scheduler has to decide.
func mcPick() *g {
	if !mc.active {
		return nil
	}
	if gp := mc.runq.pop(); gp != nil {
		mc.switches++
		return gp
	}
	if mc.parked {
		gp := mc.ctl.ptr()
		mc.parked = false
		casgstatus(gp, _Gwaiting, _Grunnable)
		return gp
	}
	return nil
}

// mcDecide registers a decision with n alternatives and returns the one to take.
//
//go:nosplit
func mcDecide(kind uint32, n int, site int32) int {
	idx := mc.ndec
	if idx >= mcMaxDec {
		return 0
	}
	mc.ndec++
	if n > 255 {
		n = 255
	}
	mcDec[idx] = kind<<28 | uint32(n)<<20 | uint32(site)&0xfffff
	if mc.curdev < mc.ndev && mc.devIdx[mc.curdev] == int32(idx) {
		alt := int(mc.devAlt[mc.curdev])
		mc.curdev++
		if alt >= n {
			mc.badDev = true
			return 0
		}
		return alt
	}
	return 0
}

// MCPoint is a scheduling point.
func MCPoint(site int32) {
	gp := getg()
	if !mc.active || gp.bubble == nil {
		return
	}
	mc.steps++
	mc.preempts = 0
	if mc.steps > mc.maxSteps {
		mc.status = MCLimit
		gopark(nil, nil, waitReasonSynctestWait, traceBlockGeneric, 1)
	}
	// A goroutine that keeps running for long gives way, and stalled ones do not wait for quiescence then: a real
	// scheduler is fair.
	if mc.runAt != mc.switches {
		mc.runAt, mc.runFrom = mc.switches, mc.steps
	} else if mc.steps-mc.runFrom > 1000 {
		mc.runFrom = mc.steps
		if mc.runq.empty() && mc.nstalled > 0 {
			rel := mc.stalled[0].ptr()
			copy(mc.stalled[:mc.nstalled], mc.stalled[1:mc.nstalled])
			mc.nstalled--
			goready(rel, 1)
		}
		if !mc.runq.empty() {
			gopark(mcYieldCommit, nil, waitReasonSynctestWait, traceBlockGeneric, 1)
		}
	}
	if !mc.points {
		return
	}
	canStall := !mc.runq.empty() || mc.nstalled > 0
	switch {
	case canStall && mc.sleepNs > 0:
		switch mcDecide(MCKindPointBoth, 3, site) {
		case 1:
			mcStall()
		case 2:
			timeSleep(mc.sleepNs)
		}
	case canStall:
		if mcDecide(MCKindPoint, 2, site) == 1 {
			mcStall()
		}
	case mc.sleepNs > 0:
		if mcDecide(MCKindPointSleep, 2, site) == 1 {
			timeSleep(mc.sleepNs)
		}
	}
}

func mcYieldCommit(gp *g, _ unsafe.Pointer) bool {
	casgstatus(gp, _Gwaiting, _Grunnable)
	mc.runq.pushBack(gp)
	return true
}

func mcStall() {
	if mc.nstalled < mcMaxStalled {
		gopark(mcStallCommit, nil, waitReasonSynctestWait, traceBlockGeneric, 1)
	}
}

func mcStallCommit(gp *g, _ unsafe.Pointer) bool {
	mc.stalled[mc.nstalled].set(gp)
	mc.nstalled++
	return true
}

// MCWaitIdle parks the caller until nothing else can run without time advancing.
func MCWaitIdle() {
	if !mc.active || getg().bubble == nil {
		return
	}
	if mc.nidlers < mcMaxStalled {
		gopark(mcIdlerCommit, nil, waitReasonSynctestWait, traceBlockGeneric, 1)
	}
}

func mcIdlerCommit(gp *g, _ unsafe.Pointer) bool {
	mc.idlers[mc.nidlers].set(gp)
	mc.nidlers++
	return true
}

// MCChoose is a choice of the harness between n alternatives.
func MCChoose(n int, site int32) int {
	if !mc.active || getg().bubble == nil || n < 2 {
		return 0
	}
	return mcDecide(MCKindChoose, n, site)
}

// MCPoints switches the decisions at scheduling points and selects on or off.
func MCPoints(points, selects bool) { mc.points, mc.selects = points, selects }

// MCInside tells if the caller is under control.
func MCInside() bool { return mc.active && getg().bubble != nil }

// MCNow returns the virtual time of the execution.
func MCNow() int64 { return mc.bubble.now }

// mcSelect moves the chosen ready case to the front of pollorder. All channels are locked.
func mcSelect(scases []scase, pollorder []uint16, nsends int, gp *g) {
	if !mc.active || gp.bubble == nil {
		return
	}
	nready := 0
	for _, casei := range pollorder {
		if mcCaseReady(&scases[casei], int(casei) < nsends) {
			nready++
		}
	}
	if nready < 2 || !mc.selects {
		return
	}
	k := mcDecide(MCKindSelect, nready, int32(len(scases)))
	if mc.selAt == mc.switches {
		mc.selStreak++
	} else {
		mc.selAt, mc.selStreak = mc.switches, 0
	}
	if mc.selStreak > 16 {
		// a real select is fair
		k = (k + int(mc.selStreak)) % nready
	}
	if k == 0 {
		return
	}
	for i, casei := range pollorder {
		if mcCaseReady(&scases[casei], int(casei) < nsends) {
			if k == 0 {
				pollorder[0], pollorder[i] = pollorder[i], pollorder[0]
				return
			}
			k--
		}
	}
}

func mcCaseReady(cas *scase, send bool) bool {
	c := cas.c
	if c.closed != 0 {
		return true
	}
	q := &c.sendq
	if send {
		if c.qcount < c.dataqsiz {
			return true
		}
		q = &c.recvq
	} else if c.qcount > 0 {
		return true
	}
	for sg := q.first; sg != nil; sg = sg.next {
		if !sg.isSelect || sg.g.selectDone.Load() == 0 {
			return true
		}
	}
	return false
}

// MCRun runs f in a fresh bubble under the control of the deviations and returns how the execution ended
// and how many decisions it took.
func MCRun(f func(), devs []int32, points, selects bool, sleepNs, maxSteps, horizonNs int64) (status, ndec int, badDev bool, steps, switches int64) {
	gp := getg()
	if gp.bubble != nil || mc.active {
		panic("MCRun: nested")
	}
	bubble := &synctestBubble{
		id:      bubbleGen.Add(1),
		total:   1,
		running: 1,
		active:  1 << 20, // never idle by its own judgement
		root:    gp,
	}
	const baseTime = 946684800000000000
	bubble.now = baseTime
	lockInit(&bubble.mu, lockRankSynctest)
	lockInit(&bubble.timers.mu, lockRankTimers)
	mc.bubble = bubble
	mc.runq = gQueue{}
	mc.nstalled, mc.nidlers = 0, 0
	mc.rng, mc.tseq = 42, 0
	mc.ndev = len(devs) / 2
	for i := 0; i < mc.ndev; i++ {
		mc.devIdx[i], mc.devAlt[i] = devs[2*i], devs[2*i+1]
	}
	mc.selStreak, mc.selAt = 0, -1
	mc.runAt, mc.runFrom = -1, 0
	mc.curdev, mc.badDev, mc.ndec = 0, false, 0
	mc.points, mc.selects = points, selects
	mc.sleepNs = sleepNs
	mc.steps, mc.maxSteps, mc.preempts, mc.switches = 0, maxSteps, 0, 0
	mc.status = MCDone
	mc.ctl.set(gp)
	mc.parked = false
	gp.bubble = bubble
	mc.active = true

	pc := sys.GetCallerPC()
	systemstack(func() {
		fv := *(**funcval)(unsafe.Pointer(&f))
		bubble.main = newproc1(fv, gp, pc, false, waitReasonZero)
		mc.runq.pushBack(bubble.main)
	})
	for {
		systemstack(func() {
			curg := gp.m.curg
			gp.m.curg = nil
			gp.bubble.timers.check(bubble.now, bubble)
			gp.m.curg = curg
		})
		if !mc.runq.empty() {
			gopark(mcCtlCommit, nil, waitReasonSynctestRun, traceBlockSynctest, 0)
		}
		if mc.nstalled > 0 {
			k := 0
			if mc.nstalled > 1 {
				k = mcDecide(MCKindRelease, mc.nstalled, 0)
			}
			rel := mc.stalled[k].ptr()
			copy(mc.stalled[k:mc.nstalled], mc.stalled[k+1:mc.nstalled])
			mc.nstalled--
			goready(rel, 0)
			continue
		}
		if mc.status != MCDone {
			break
		}
		if mc.nidlers > 0 {
			rel := mc.idlers[0].ptr()
			copy(mc.idlers[:mc.nidlers], mc.idlers[1:mc.nidlers])
			mc.nidlers--
			goready(rel, 0)
			continue
		}
		if bubble.done {
			break
		}
		next := bubble.timers.wakeTime()
		if next == 0 {
			mc.status = MCDeadlock
			break
		}
		if next-baseTime > horizonNs {
			mc.status = MCHorizon
			break
		}
		if next > bubble.now {
			bubble.now = next
		}
	}
	mc.active = false
	gp.bubble = nil
	return mc.status, mc.ndec, mc.badDev || mc.curdev < mc.ndev, mc.steps, mc.switches
}

func mcCtlCommit(gp *g, _ unsafe.Pointer) bool {
	mc.parked = true
	return true
}

// MCLog copies the decisions of the last execution.
func MCLog(n int) []uint32 {
	if n > mcMaxDec {
		n = mcMaxDec
	}
	return append([]uint32(nil), mcDec[:n]...)
}

// MCTotal returns the number of goroutines of the execution, the caller included.
func MCTotal() int { return mc.bubble.total }
