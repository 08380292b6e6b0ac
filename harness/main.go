package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/google/uuid"
)

// Property is what a check decides.
type Property struct {
	ID          string
	Title       string
	Scenarios   func() []*Scenario
	Rule        string
	Assumptions []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

var (
	fMode   = flag.String("mode", "check", "check, shard, replay, list")
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fShard  = flag.Int("shard", 0, "")
	fShards = flag.Int("shards", 8, "")
	fUntil  = flag.Int64("until", 0, "deadline, unix ms")
	fCur    = flag.String("cur", "", "file for the current spec")
	fResume = flag.String("resume", "", "resume token")
	fSpec   = flag.String("spec", "", "spec to replay (JSON or file)")
	fVerif  = flag.String("verif", "/verif", "")
	fBudget = flag.Int("budget", 100, "seconds of exploration")
	fOnly   = flag.String("only", "", "only scenarios with this prefix (debugging)")
	fBound  = flag.Int("bound", -1, "override the deviation bound (debugging)")
	fTrace  = flag.Bool("trace", false, "replay: print decisions and goroutines")
	fSites  = flag.String("sites", "", "sites file")
)

func main() {
	flag.Parse()
	p := properties[*fProp]
	if *fMode == "list" {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range properties[id].Scenarios() {
				fmt.Println(id, s.Name, s.cases(), s.Quick, s.Full)
			}
		}
		return
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *fProp)
		os.Exit(3)
	}
	if (*fMode == "shard" || *fMode == "replay") && !raceBuild {
		// code that asks for gigabytes has to fail here and not in the sandbox
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	}
	switch *fMode {
	case "shard":
		os.Exit(shardMain(p))
	case "replay":
		os.Exit(replayMain(p))
	case "determ":
		os.Exit(determMain(p))
	default:
		os.Exit(checkMain(p))
	}
}

func scenarios(p *Property) []*Scenario {
	var out []*Scenario
	for _, s := range p.Scenarios() {
		if s.OnlyFull && *fTier != "thorough" {
			continue
		}
		if *fOnly != "" && !strings.HasPrefix(s.Name, *fOnly) {
			continue
		}
		if *fBound >= 0 {
			s.Quick, s.Full = *fBound, *fBound
		}
		out = append(out, s)
	}
	if *fTier != "thorough" {
		return out
	}
	// the thorough tier runs the quick one first, so that it is never less, then deepens what can be deepened
	var all []*Scenario
	for _, s := range out {
		if !s.OnlyFull {
			q := *s
			q.Full, q.quick = q.Quick, true
			all = append(all, &q)
		}
	}
	for _, s := range out {
		if s.OnlyFull || s.Full > s.Quick || s.QuickCase != nil {
			s.key = s.Name + " (deep)"
			all = append(all, s)
		}
	}
	return all
}

type detRand struct{ r *rand.Rand }

func (d detRand) Read(p []byte) (int, error) { return d.r.Read(p) }

func setupDeterminism() {
	resetRand()
	uuid.SetRand(nil)
	debug.SetGCPercent(-1)
}

// resetRand makes the ids that the code under test draws the same in every execution.
func resetRand() {
	r := detRand{rand.New(rand.NewSource(1))}
	crand.Reader = r
	uuid.SetRand(r)
}

func shardMain(p *Property) int {
	setupDeterminism()
	cur, err := os.OpenFile(*fCur, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	buf := make([]byte, 256)
	out := bufio.NewWriter(os.Stdout)
	emit := func(kind string, v any) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(out, "%s %s\n", kind, b)
		_ = out.Flush()
	}
	scs := scenarios(p)
	e := &explorer{prop: p.ID, shard: *fShard, n: *fShards, deadline: time.UnixMilli(*fUntil), full: *fTier == "thorough",
		seen: map[string]int{}}
	e.setCur = func(sc, cas int, devs []int32) {
		b := buf[:0]
		b = binary.LittleEndian.AppendUint32(b, uint32(sc))
		b = binary.LittleEndian.AppendUint32(b, uint32(cas))
		b = binary.LittleEndian.AppendUint32(b, uint32(len(devs)))
		for _, d := range devs {
			b = binary.LittleEndian.AppendUint32(b, uint32(d))
		}
		_, _ = cur.WriteAt(b, 0)
	}
	e.report = func(v Violation) { emit("VIOL", v) }
	if *fResume != "" {
		e.resume = &token{}
		if err := json.Unmarshal([]byte(*fResume), e.resume); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	e.recycle = func(t token) {
		e.flushOutcomes()
		emit("STAT", *e.cur)
		emit("RECYCLE", t)
		os.Exit(77)
	}
	e.run(scs, func(s Stats) { emit("STAT", s) })
	emit("END", 0)
	return 0
}

func readCur(file string) (sc, cas int, devs []int32, ok bool) {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 12 {
		return
	}
	sc = int(binary.LittleEndian.Uint32(b))
	cas = int(binary.LittleEndian.Uint32(b[4:]))
	n := int(binary.LittleEndian.Uint32(b[8:]))
	for i := 0; i < n && 12+4*i+4 <= len(b); i++ {
		devs = append(devs, int32(binary.LittleEndian.Uint32(b[12+4*i:])))
	}
	if len(devs) == 1 { // warm-up
		devs = nil
	}
	return sc, cas, devs, true
}

// determMain is a self-check: the same execution must take the same decisions.
func determMain(p *Property) int {
	setupDeterminism()
	rc := 0
	for _, s := range scenarios(p) {
		for c := 0; c < s.cases(); c++ {
			if s.Skip != nil && s.Skip(s.decode(c)) {
				continue
			}
			execute(s, c, nil)
			a := execute(s, c, nil)
			for i := 0; i < 3; i++ {
				b := execute(s, c, nil)
				n := min(len(a.Dec), len(b.Dec))
				k := 0
				for k < n && a.Dec[k] == b.Dec[k] {
					k++
				}
				if k < n || len(a.Dec) != len(b.Dec) || strings.Join(a.Log, "\n") != strings.Join(b.Log, "\n") {
					rc = 1
					fmt.Printf("%s case %d (%v): %d/%d decisions, first difference at %d", s.Name, c, s.decode(c), len(a.Dec), len(b.Dec), k)
					if k < n {
						fmt.Printf(" (site %d kind %d n %d / site %d kind %d n %d)", a.Dec[k]&0xfffff, a.Dec[k]>>28, a.Dec[k]>>20&0xff, b.Dec[k]&0xfffff, b.Dec[k]>>28, b.Dec[k]>>20&0xff)
					}
					fmt.Println()
					break
				}
			}
		}
	}
	return rc
}

func replayMain(p *Property) int {
	setupDeterminism()
	b := []byte(*fSpec)
	if !strings.HasPrefix(*fSpec, "{") {
		var err error
		if b, err = os.ReadFile(*fSpec); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	var v struct {
		Spec
		Inner   *Spec  `json:"spec"`
		History []Spec `json:"history"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	spec := v.Spec
	if v.Inner != nil {
		spec = *v.Inner
	}
	scs := p.Scenarios()
	var early []Failure
	for _, h := range v.History {
		for _, s := range scs {
			if s.Name == h.Scenario {
				early = append(early, execute(s, h.Case, h.Devs).Fails...)
			}
		}
	}
	for _, s := range scs {
		if s.Name != spec.Scenario {
			continue
		}
		if v.History == nil {
			early = execute(s, spec.Case, nil).Fails
		}
		r := execute(s, spec.Case, spec.Devs)
		if raceBuild {
			// a race is reported once per process
			r.Fails = append(early, r.Fails...)
		}
		out := map[string]any{"fail": r.Fails, "status": statusNames[r.Status], "bad": r.Bad, "ndec": len(r.Dec), "log": r.Log}
		if *fTrace {
			sites := map[int]string{}
			if sb, err := os.ReadFile(*fSites); err == nil {
				for _, l := range strings.Split(string(sb), "\n") {
					var id int
					var w string
					if n, _ := fmt.Sscan(l, &id, &w); n == 2 {
						sites[id] = w
					}
				}
			}
			for i, d := range r.Dec {
				fmt.Printf("%5d kind=%d n=%d site=%s\n", i, d>>28, d>>20&0xff, sites[int(d&0xfffff)])
			}
			st := make([]byte, 1<<20)
			st = st[:runtime.Stack(st, true)]
			fmt.Println(string(st))
		}
		j, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(j))
		if len(r.Fails) > 0 {
			return 1
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	return 3
}

type finding struct {
	Property  string `json:"property"`
	Status    string `json:"status"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

func loadFindings(prop string) map[string]finding {
	out := map[string]finding{}
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.jsonl"))
	if err != nil {
		return out
	}
	for _, l := range bytes.Split(b, []byte("\n")) {
		var f finding
		if json.Unmarshal(l, &f) == nil && f.Property == prop && f.Status == "open" {
			out[f.Signature] = f
		}
	}
	return out
}

type merged struct {
	Stats
	outcomes map[uint64]bool
	finished int
}

func checkMain(p *Property) int {
	start := time.Now()
	scs := scenarios(p)
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer func() { _ = os.RemoveAll(tmp) }()
	deadline := start.Add(time.Duration(*fBudget) * time.Second)
	findings := loadFindings(p.ID)
	var mx sync.Mutex
	stats := map[string]*merged{}
	for _, s := range scs {
		stats[s.statKey()] = &merged{outcomes: map[uint64]bool{}}
	}
	var unconfirmed []Violation
	known := map[string]Violation{}
	var bad *Violation
	var harnessErrors []string
	stop := make(chan struct{})
	var stopOnce sync.Once
	confirming := sync.Mutex{}
	judged := map[string]bool{}
	tries := map[string]int{}
	args := func(extra ...string) []string {
		a := []string{"-prop", p.ID, "-tier", *fTier, "-verif", *fVerif, "-bound", fmt.Sprint(*fBound), "-only", *fOnly}
		return append(a, extra...)
	}
	env := append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all", "GODEBUG=",
		"GORACE=log_path="+filepath.Join(tmp, "race")+" exitcode=0 history_size=4 atexit_sleep_ms=0")
	judge := func(v Violation) {
		confirming.Lock()
		defer confirming.Unlock()
		mx.Lock()
		done := bad != nil
		mx.Unlock()
		if done {
			return
		}
		sig := func(f Failure) string { return v.Spec.Scenario + "/" + f.Tag }
		fresh := false
		for _, f := range v.Fail {
			if !judged[sig(f)] {
				fresh = true
			}
		}
		if !fresh {
			return
		}
		// confirm in fresh processes
		counts := map[string]int{}
		msgs := map[string]string{}
		const rounds = 4
		var log []string
		replay := func(history []Spec) {
			spec, _ := json.Marshal(Violation{Spec: v.Spec, History: history})
			file := filepath.Join(tmp, "replay.json")
			if err := os.WriteFile(file, spec, 0o600); err != nil {
				return
			}
			cmd := exec.Command(self, args("-mode", "replay", "-spec", file)...)
			cmd.Env = env
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err := runTimeout(cmd, 120*time.Second)
			var r struct {
				Fail []Failure `json:"fail"`
				Log  []string  `json:"log"`
			}
			if json.Unmarshal(so.Bytes(), &r) == nil && (err == nil || len(r.Fail) > 0) {
				for _, f := range r.Fail {
					counts[f.Tag]++
					msgs[f.Tag] = f.Msg
				}
				log = r.Log
			} else if err != nil {
				tag := crashTag(se.String())
				counts[tag]++
				msgs[tag] = crashMsg(se.String())
			}
		}
		// a failure of one execution in a fresh process is a failure, even when replays of it differ because of something
		// outside of the scheduler's control. Only processes which die for unknown reasons have to do this every time
		found := func() bool {
			for tag := range counts {
				if tag != "process-died" {
					return true
				}
			}
			return false
		}
		for i := 0; i < rounds && !found(); i++ {
			replay(nil)
		}
		var history []Spec
		if len(counts) == 0 && len(v.History) > 0 {
			// it depends on what ran before in the process: find how much of that is needed
			for n := 1; len(counts) == 0; n *= 4 {
				if n > len(v.History) {
					n = len(v.History)
				}
				history = v.History[len(v.History)-n:]
				replay(history)
				if n == len(v.History) {
					break
				}
			}
			for i := 1; i < rounds && len(counts) > 0 && !found(); i++ {
				replay(history)
			}
		}
		for tag, n := range counts {
			if raceBuild && tag == "process-panic" {
				// not a race
				judged[v.Spec.Scenario+"/"+tag] = true
				continue
			}
			f := Failure{tag, msgs[tag]}
			s := v.Spec.Scenario + "/" + tag
			if tag == "process-died" && n < rounds {
				continue
			}
			judged[s] = true
			if _, ok := findings[s]; ok {
				known[s] = Violation{v.Spec, []Failure{f}, log, nil}
				continue
			}
			if strings.HasPrefix(tag, "engine-") {
				harnessErrors = append(harnessErrors, tag+": "+msgs[tag])
				continue
			}
			mx.Lock()
			bad = &Violation{v.Spec, []Failure{f}, log, history}
			mx.Unlock()
			stopOnce.Do(func() { close(stop) })
			return
		}
		for _, f := range v.Fail {
			if !judged[sig(f)] {
				u := v
				u.History = nil
				unconfirmed = append(unconfirmed, u)
				// give up when several executions have not been confirmed
				if tries[sig(f)]++; tries[sig(f)] >= 5 {
					judged[sig(f)] = true
				}
			}
		}
	}
	var wg sync.WaitGroup
	procs := make([]*exec.Cmd, *fShards)
	for i := 0; i < *fShards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			resume := ""
			crashes := 0
			for {
				select {
				case <-stop:
					return
				default:
				}
				cur := filepath.Join(tmp, fmt.Sprintf("cur%d", i))
				cmd := exec.Command(self, args("-mode", "shard", "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(*fShards),
					"-until", fmt.Sprint(deadline.UnixMilli()), "-cur", cur, "-resume", resume)...)
				cmd.Env = env
				var se bytes.Buffer
				cmd.Stderr = &tailWriter{buf: &se, max: 1 << 16}
				so, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					mx.Lock()
					harnessErrors = append(harnessErrors, err.Error())
					mx.Unlock()
					return
				}
				mx.Lock()
				procs[i] = cmd
				mx.Unlock()
				done := make(chan struct{})
				go func() {
					select {
					case <-stop:
						_ = cmd.Process.Kill()
					case <-done:
					case <-time.After(time.Until(deadline) + 60*time.Second):
						_ = cmd.Process.Kill()
					}
				}()
				next, ended := "", false
				sc := bufio.NewScanner(so)
				sc.Buffer(make([]byte, 1<<20), 64<<20)
				for sc.Scan() {
					line := sc.Text()
					kind, rest, _ := strings.Cut(line, " ")
					switch kind {
					case "STAT":
						var s Stats
						if json.Unmarshal([]byte(rest), &s) == nil {
							mx.Lock()
							m := stats[s.Scenario]
							m.add(s)
							mx.Unlock()
						}
					case "VIOL":
						var v Violation
						if json.Unmarshal([]byte(rest), &v) == nil {
							judge(v)
						}
					case "RECYCLE":
						next = rest
					case "END":
						ended = true
					}
				}
				werr := cmd.Wait()
				close(done)
				if ended {
					return
				}
				if next != "" {
					resume = next
					continue
				}
				select {
				case <-stop:
					return
				default:
				}
				if time.Now().After(deadline) {
					return
				}
				// crashed
				scIdx, cas, devs, ok := readCur(cur)
				if !ok || scIdx >= len(scs) {
					mx.Lock()
					harnessErrors = append(harnessErrors, fmt.Sprintf("shard %d: %v: %s", i, werr, tail(se.String(), 2000)))
					mx.Unlock()
					return
				}
				judge(Violation{Spec{scs[scIdx].Name, cas, append([]int32{}, devs...)}, []Failure{{crashTag(se.String()), crashMsg(se.String())}}, nil, nil})
				crashes++
				if crashes > 40 {
					return
				}
				b, _ := json.Marshal(token{scIdx, cas, devs, true})
				resume = string(b)
			}
		}(i)
	}
	wg.Wait()

	// evidence
	var execs, states, trans, diverged int64
	distinct := 0
	exhaustive := true
	var samples []any
	table := []any{}
	for _, s := range scs {
		m := stats[s.statKey()]
		execs += m.Execs
		states += m.States
		trans += m.Trans
		diverged += m.Diverged
		distinct += len(m.outcomes)
		fin := m.finished >= *fShards
		if !fin {
			exhaustive = false
		}
		bound := s.Quick
		if *fTier == "thorough" {
			bound = s.Full
		}
		table = append(table, map[string]any{"scenario": s.statKey(), "cases": m.Cases, "deviation_bound": bound, "executions": m.Execs,
			"states": m.States, "transitions": m.Trans, "max_decisions": m.MaxDec, "distinct_outcomes": len(m.outcomes),
			"diverged": m.Diverged, "complete": fin})
		if len(samples) < 4 && m.Sample != nil {
			samples = append(samples, map[string]any{"scenario": s.Name, "deviations": m.SampleDev, "observations": clip(m.Sample, 40)})
		}
	}
	if samples == nil {
		samples = []any{}
	}
	viol := 0
	if bad != nil {
		viol = 1
	}
	seed := 1
	_, _ = fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": execs,
		"evaluations": execs, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": samples,
		"exhaustive": exhaustive && bad == nil && len(harnessErrors) == 0, "scenarios": table, "diverged_replays": diverged,
		"unconfirmed": unconfirmed, "harness_errors": harnessErrors, "known_findings_seen": len(known),
		"explanation": "Stateless exploration of the real code: every execution runs the unmodified implementation under a controlled scheduler; " +
			"states are the distinct decision points visited, transitions the scheduling steps taken, and every trace is a trace of the implementation.",
	}
	ev := map[string]any{"property": p.ID, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{"single processor, sequentially consistent interleavings at statement granularity; standard library calls are atomic unless they block",
			"virtual time: computing takes no time"}, p.Assumptions...),
		"wall_s": time.Since(start).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d distinct outcomes, exhaustive=%v, %.1fs\n", p.ID, *fTier, execs, states,
		trans, distinct, cov["exhaustive"], time.Since(start).Seconds())
	for _, t := range table {
		j, _ := json.Marshal(t)
		fmt.Println("  ", string(j))
	}
	for _, u := range unconfirmed {
		fmt.Printf("  unconfirmed: %+v %+v\n", u.Spec, u.Fail)
	}
	for _, h := range harnessErrors {
		fmt.Println("  harness error:", h)
	}
	var ks []string
	for s := range known {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	// every listed finding is printed, whether this tier's bounds reach it or not
	var fs []string
	for s := range findings {
		fs = append(fs, s)
	}
	sort.Strings(fs)
	for _, s := range fs {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, findings[s].What, s)
	}
	if bad != nil {
		dir := filepath.Join(*fVerif, "evidence", "replay")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", p.ID, strings.ReplaceAll(bad.Spec.Scenario, "/", "_")))
		b, _ := json.MarshalIndent(bad, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("scenario %s case %d deviations %v\n", bad.Spec.Scenario, bad.Spec.Case, bad.Spec.Devs)
		for _, f := range bad.Fail {
			fmt.Printf("  %s: %s\n", f.Tag, clip([]string{f.Msg}, 1)[0])
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	return 0
}

func (m *merged) add(s Stats) {
	m.Cases += s.Cases
	m.Execs += s.Execs
	m.States += s.States
	m.Trans += s.Trans
	m.Diverged += s.Diverged
	if s.MaxDec > m.MaxDec {
		m.MaxDec = s.MaxDec
	}
	for _, o := range s.Outcomes {
		m.outcomes[o] = true
	}
	if s.Sample != nil && (m.Sample == nil || len(m.SampleDev) == 0) {
		m.Sample, m.SampleDev = s.Sample, s.SampleDev
	}
	if s.Done {
		m.finished++
	}
}

func runTimeout(cmd *exec.Cmd, d time.Duration) error {
	if err := cmd.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { _ = cmd.Process.Kill() })
	defer t.Stop()
	return cmd.Wait()
}

func crashTag(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") {
			return "process-panic"
		}
		if strings.HasPrefix(l, "fatal error: ") {
			if strings.Contains(l, "concurrent map") || strings.Contains(l, "unlock of unlocked") || strings.Contains(l, "stack overflow") ||
				strings.Contains(l, "out of memory") || strings.Contains(l, "panic while printing panic value") {
				return "process-fatal"
			}
			return "engine-fatal"
		}
	}
	return "process-died"
}

func crashMsg(stderr string) string {
	i := strings.Index(stderr, "panic: ")
	if i < 0 {
		i = strings.Index(stderr, "fatal error: ")
	}
	if i < 0 {
		return tail(stderr, 600)
	}
	s := stderr[i:]
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type tailWriter struct {
	buf *bytes.Buffer
	max int
}

func (t *tailWriter) Write(p []byte) (int, error) {
	if t.buf.Len() < t.max {
		t.buf.Write(p)
	}
	return len(p), nil
}
