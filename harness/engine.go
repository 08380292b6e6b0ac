package main

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Scenario is a closed program around the code under test. Body runs under the controlled scheduler; it must be
// deterministic but for scheduling.
type Scenario struct {
	Name  string
	Dims  []int // the case space is the product of the dimensions
	Body  func(x *X)
	Quick int // deviation bound
	Full  int // deviation bound of the thorough tier
	// OnlyFull keeps the scenario out of the quick tier
	OnlyFull bool
	// SleepFor, if positive, adds an alternative to every scheduling point: the goroutine is delayed that long
	SleepFor time.Duration
	Horizon  time.Duration
	MaxSteps int64
	// NoPoints: scheduling points are no decisions (selects still are)
	NoPoints bool
	// QuickCase tells which cases belong to the quick tier, default all
	QuickCase func(d []int) bool
	// Skip tells which cases are void
	Skip func(d []int) bool

	quick bool   // only the quick tier's cases
	key   string // name in the statistics, default Name
}

func (s *Scenario) statKey() string {
	if s.key != "" {
		return s.key
	}
	return s.Name
}

func (s *Scenario) cases() int {
	n := 1
	for _, d := range s.Dims {
		n *= d
	}
	return n
}

func (s *Scenario) decode(c int) []int {
	d := make([]int, len(s.Dims))
	for i := len(s.Dims) - 1; i >= 0; i-- {
		d[i] = c % s.Dims[i]
		c /= s.Dims[i]
	}
	return d
}

// X is one execution.
type X struct {
	sc      *Scenario
	D       []int
	fails   []Failure
	log     []string
	verbose bool
	cleanup []func()
	over    bool
}

// Failure is a broken property.
type Failure struct {
	Tag string `json:"tag"`
	Msg string `json:"msg"`
}

// Fail records a broken property. The tag names the way it is broken, independently of inputs.
func (x *X) Fail(tag, format string, args ...any) {
	if len(x.fails) < 8 {
		x.fails = append(x.fails, Failure{tag, fmt.Sprintf(format, args...)})
	}
	x.Ev("FAIL %s: %s", tag, fmt.Sprintf(format, args...))
}

// Ev logs an observation.
func (x *X) Ev(format string, args ...any) {
	if len(x.log) < 4000 {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Idle waits until nothing can run without time advancing.
func (x *X) Idle() { runtime.MCWaitIdle() }

// Settle lets d pass and waits for idleness.
func (x *X) Settle(d time.Duration) {
	time.Sleep(d)
	runtime.MCWaitIdle()
}

// Choose is an environment decision.
func (x *X) Choose(n int, site int32) int { return runtime.MCChoose(n, site) }

// Cleanup registers work for the end of the body.
func (x *X) Cleanup(f func()) { x.cleanup = append(x.cleanup, f) }

// Result of one execution.
type Result struct {
	Fails    []Failure
	Log      []string
	Status   int
	Dec      []uint32
	Steps    int64
	Switches int64
	Bad      bool
	Outcome  uint64
}

var statusNames = []string{"done", "deadlock", "step-limit", "horizon", "spin"}

// execute runs the scenario once.
func execute(sc *Scenario, cas int, devs []int32) Result {
	resetRand()
	x := &X{sc: sc, D: sc.decode(cas)}
	maxSteps := sc.MaxSteps
	if maxSteps == 0 {
		maxSteps = 20000000
	}
	horizon := sc.Horizon
	if horizon == 0 {
		horizon = 24 * time.Hour
	}
	status, ndec, bad, steps, switches := runtime.MCRun(func() {
		sc.Body(x)
		x.over = true
		// the clean-up is deterministic, it takes no decisions
		runtime.MCPoints(false, false)
		for i := len(x.cleanup) - 1; i >= 0; i-- {
			x.cleanup[i]()
		}
		runtime.MCWaitIdle()
	}, devs, !sc.NoPoints, true, int64(sc.SleepFor), maxSteps, int64(horizon))
	if !x.over {
		x.Fail("stuck-"+statusNames[status], "the scenario cannot end: %s", statusNames[status])
	} else if status == runtime.MCLimit || status == runtime.MCSpin {
		x.Fail("spin", "a goroutine spins: %s", statusNames[status])
	}
	if raceBuild {
		// only races count, what else can be wrong is another property
		races.take()
		x.fails = races.failures()
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(strings.Join(x.log, "\n")))
	return Result{Fails: x.fails, Log: x.log, Status: status, Dec: runtime.MCLog(ndec), Steps: steps,
		Switches: switches, Bad: bad, Outcome: h.Sum64()}
}

// Spec identifies an execution.
type Spec struct {
	Scenario string  `json:"scenario"`
	Case     int     `json:"case"`
	Devs     []int32 `json:"devs"`
}

// Stats of the exploration of a scenario in one shard.
type Stats struct {
	Scenario  string   `json:"scenario"`
	Bound     int      `json:"bound"`
	Cases     int      `json:"cases"`
	Execs     int64    `json:"execs"`
	States    int64    `json:"states"`
	Trans     int64    `json:"transitions"`
	MaxDec    int      `json:"max_decisions"`
	Diverged  int64    `json:"diverged"`
	Outcomes  []uint64 `json:"outcomes"`
	Sample    []string `json:"sample,omitempty"`
	SampleDev []int32  `json:"sample_devs,omitempty"`
	Done      bool     `json:"done"`
}

type explorer struct {
	prop     string
	shard, n int
	deadline time.Time
	full     bool
	setCur   func(sc int, cas int, devs []int32)
	report   func(v Violation)
	seen     map[string]int
	resume   *token
	recycle  func(token)
	execs    int
	cur      *Stats
	outcomes map[uint64]bool
	hist     []Spec // the executions of this process, the oldest forgotten
}

const maxHistory = 4096

// remember adds an execution to the history. What the code under test keeps in package variables depends on it.
func (e *explorer) remember(sc *Scenario, cas int, devs []int32) {
	if len(e.hist) >= 2*maxHistory {
		e.hist = append(e.hist[:0], e.hist[maxHistory:]...)
	}
	e.hist = append(e.hist, Spec{sc.Name, cas, append([]int32{}, devs...)})
}

// Violation found by a shard.
type Violation struct {
	Spec Spec      `json:"spec"`
	Fail []Failure `json:"fail"`
	Log  []string  `json:"log"`
	// History of executions in the same process before it
	History []Spec `json:"history,omitempty"`
}

type token struct {
	Sc      int     `json:"sc"`
	Case    int     `json:"case"`
	Devs    []int32 `json:"devs"`
	Crashed bool    `json:"crashed"`
}

var errDeadline = fmt.Errorf("deadline")

func (e *explorer) expired() bool { return time.Now().After(e.deadline) }

func (e *explorer) gc(scIdx, cas int, devs []int32) {
	e.execs++
	if e.execs%64 != 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 192<<20 {
		debug.SetGCPercent(100)
		runtime.GC()
		debug.SetGCPercent(-1)
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 128<<20 || ms.Sys > 1800<<20 || raceBuild {
			e.recycle(token{Sc: scIdx, Case: cas, Devs: devs})
		}
	}
	if n := runtime.NumGoroutine(); n > 60000 || raceBuild && n > 4000 {
		e.recycle(token{Sc: scIdx, Case: cas, Devs: devs})
	}
}

// explore enumerates all executions of a case with at most bound deviations.
func (e *explorer) explore(sc *Scenario, scIdx, cas, bound int, shardDevs bool, st *Stats, outcomes map[uint64]bool) error {
	var rec func(devs []int32, depth, states int) error
	rec = func(devs []int32, depth, base int) error {
		if e.expired() {
			return errDeadline
		}
		skipJudge := false
		var from *token
		if e.resume != nil && e.resume.Sc == scIdx && e.resume.Case == cas {
			// fast forward: run the ancestors of the token for their decisions only
			from = e.resume
			skipJudge = true
			if len(devs) == len(from.Devs) {
				e.resume = nil
				if from.Crashed {
					return nil
				}
				from = nil
			}
		}
		e.setCur(scIdx, cas, devs)
		r := execute(sc, cas, devs)
		e.remember(sc, cas, devs)
		e.setCur(scIdx, cas, nil)
		if r.Bad {
			st.Diverged++
		}
		// every shard runs the root for its decisions, shard 0 judges it
		mine := !(shardDevs && depth == 0 && e.shard != 0)
		if !skipJudge && mine {
			st.Execs++
			st.States += int64(len(r.Dec) - base)
			if base == 0 {
				st.States++
			}
			st.Trans += r.Switches + int64(len(r.Dec)-base)
			if len(r.Dec) > st.MaxDec {
				st.MaxDec = len(r.Dec)
			}
			outcomes[r.Outcome] = true
			if st.Sample == nil || (len(devs) > 0 && len(st.SampleDev) == 0) {
				st.Sample, st.SampleDev = clip(r.Log, 60), append([]int32(nil), devs...)
			}
			if len(r.Fails) > 0 {
				e.violation(sc, cas, devs, r)
			}
		}
		dec := r.Dec
		e.gc(scIdx, cas, append([]int32(nil), devs...))
		if depth >= bound || r.Status == runtime.MCSpin {
			return nil
		}
		start := 0
		if len(devs) > 0 {
			start = int(devs[len(devs)-2]) + 1
		}
		for idx := start; idx < len(dec); idx++ {
			n := int(dec[idx] >> 20 & 0xff)
			if depth == 0 && shardDevs && idx%e.n != e.shard {
				continue
			}
			for alt := 1; alt < n; alt++ {
				if from != nil && e.resume != nil {
					ti, ta := int(from.Devs[len(devs)]), int(from.Devs[len(devs)+1])
					if idx < ti || idx == ti && alt < ta {
						continue
					}
				}
				child := append(append(make([]int32, 0, len(devs)+2), devs...), int32(idx), int32(alt))
				if err := rec(child, depth+1, idx); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return rec(nil, 0, 0)
}

func (e *explorer) violation(sc *Scenario, cas int, devs []int32, r Result) {
	key := sc.Name
	for _, f := range r.Fails {
		key += "/" + f.Tag
	}
	if e.seen[key]++; e.seen[key] > 2 {
		return
	}
	h := e.hist[:len(e.hist)-1]
	if len(h) > maxHistory {
		h = h[len(h)-maxHistory:]
	}
	e.report(Violation{Spec{sc.Name, cas, append([]int32{}, devs...)}, r.Fails, clip(r.Log, 200), h})
}

func clip(l []string, n int) []string {
	if len(l) > n {
		l = append(append([]string{}, l[:n]...), fmt.Sprintf("... %d more", len(l)-n))
	}
	for i := range l {
		if len(l[i]) > 400 {
			l = append([]string{}, l...)
			l[i] = l[i][:400] + "..."
		}
	}
	return l
}

// run explores all scenarios of the property that this shard is responsible for. maxBound limits the bound, and
// the exploration goes bound by bound over all scenarios.
func (e *explorer) run(scs []*Scenario, emit func(Stats)) {
	for scIdx, sc := range scs {
		if e.resume != nil && scIdx < e.resume.Sc {
			continue
		}
		bound := sc.Quick
		if e.full {
			bound = sc.Full
		}
		st := Stats{Scenario: sc.statKey(), Bound: bound}
		e.cur = &st
		outcomes := map[uint64]bool{}
		e.outcomes = outcomes
		// every scenario gets its share of the time that is left
		end := e.deadline
		if left := len(scs) - scIdx; e.full && !sc.quick && left > 1 {
			e.deadline = time.Now().Add(time.Until(end) / time.Duration(left))
		}
		n := sc.cases()
		byCase := n >= 4*e.n || bound == 0
		err := error(nil)
		warm := false
		for cas := 0; cas < n && err == nil; cas++ {
			if byCase && cas%e.n != e.shard {
				continue
			}
			if e.resume != nil && e.resume.Sc == scIdx && cas < e.resume.Case {
				continue
			}
			if t := e.resume; t != nil && t.Sc == scIdx && t.Case == cas && t.Crashed && len(t.Devs) == 0 {
				e.resume = nil
				continue
			}
			d := sc.decode(cas)
			if sc.Skip != nil && sc.Skip(d) || (!e.full || sc.quick) && sc.QuickCase != nil && !sc.QuickCase(d) {
				continue
			}
			if !warm {
				// the first execution in a process fills caches of the libraries, it does not count
				warm = true
				e.setCur(scIdx, cas, []int32{-1})
				if r := execute(sc, cas, nil); raceBuild {
					// a race is reported once per process
					races.pending = r.Fails
				}
				e.remember(sc, cas, nil)
			}
			again := e.resume != nil && e.resume.Sc == scIdx && e.resume.Case == cas
			if (byCase || e.shard == 0) && !again {
				st.Cases++
			}
			err = e.explore(sc, scIdx, cas, bound, !byCase, &st, outcomes)
		}
		st.Done = err == nil
		e.deadline = end
		e.flushOutcomes()
		emit(st)
	}
}

func (e *explorer) flushOutcomes() {
	for o := range e.outcomes {
		if len(e.cur.Outcomes) < 20000 {
			e.cur.Outcomes = append(e.cur.Outcomes, o)
		}
	}
}

// Goroutines returns the number of goroutines of the execution.
func (x *X) Goroutines() int { return runtime.MCTotal() }

// Census checks that there are as many goroutines as before.
func (x *X) Census(base int, format string, args ...any) {
	x.Idle()
	n := runtime.MCTotal()
	if n == base {
		return
	}
	if n < base {
		x.Fail("census", "%s: %d goroutines, %d before", fmt.Sprintf(format, args...), n, base)
		return
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	sum := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "synctest bubble") {
			continue
		}
		var top, by string
		for _, l := range strings.Split(g, "\n") {
			if top == "" && strings.HasPrefix(l, "github.com/philippseith/signalr") {
				top = l[:strings.LastIndex(l, "(")]
			}
			if strings.HasPrefix(l, "created by ") {
				by = strings.TrimPrefix(strings.Split(l, " in goroutine")[0], "created by ")
			}
		}
		if i := strings.Index(g, "["); i >= 0 {
			if j := strings.Index(g[i:], ","); j >= 0 {
				top += g[i:i+j] + "]"
			}
		}
		sum[strings.ReplaceAll(top+" by "+by, "github.com/philippseith/", "")]++
	}
	x.Fail("leak", "%s: %d goroutines, %d before: %v", fmt.Sprintf(format, args...), n, base, sum)
}
