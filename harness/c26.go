package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

// C26: no data races. The program is built with the race detector, which tells of every explored execution whether it
// has two accesses to the same memory that the Go memory model does not order.

// raceWatch reads the reports of the race detector.
type raceWatch struct {
	seen    int
	off     int
	pending []Failure
}

var races raceWatch

// take adds the reports since the last time to pending.
func (w *raceWatch) take() {
	n := raceErrors()
	if n == w.seen {
		return
	}
	w.seen = n
	path := ""
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(o, "log_path="); ok {
			path = fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil || len(b) < w.off {
		return
	}
	s := string(b[w.off:])
	w.off = len(b)
	for i, r := range strings.Split(s, "WARNING: DATA RACE\n") {
		if i == 0 {
			continue
		}
		if msg := judgeRace(r); msg != "" {
			w.pending = append(w.pending, Failure{"race", msg})
		}
	}
}

// failures returns what is pending.
func (w *raceWatch) failures() []Failure {
	f := w.pending
	w.pending = nil
	return f
}

var (
	raceAccess = regexp.MustCompile(`^\s*(Read|Write|Previous read|Previous write|Atomic|Previous atomic)`)
	raceValue  = regexp.MustCompile(`\.(Error|String)\(\)$`)
)

const raceModule = "github.com/philippseith/signalr"

// raceOwner tells whose access it is: lib, io (the transport of the harness, which only touches memory of the library by
// way of its parameters), main or, when the stack says neither, "".
func raceOwner(access string) (owner, at string) {
	l := strings.Split(strings.TrimSpace(access), "\n")
	for i := 1; i+1 < len(l); i += 2 {
		fn, loc := strings.TrimSpace(l[i]), strings.TrimSpace(l[i+1])
		loc, _, _ = strings.Cut(loc[strings.LastIndex(loc, "/")+1:], " ")
		at = strings.TrimPrefix(fn, raceModule) + " " + loc
		if fn == "main.(*Conn).Write()" || fn == "main.(*Conn).Read()" {
			return "io", at
		}
		if strings.HasPrefix(fn, "main.") {
			return "main", at
		}
		if strings.HasPrefix(fn, raceModule) {
			// errors and the like are printed by whoever gets them
			if raceValue.MatchString(fn) {
				continue
			}
			return "lib", at
		}
	}
	return "", at
}

// judgeRace returns what is wrong in a report, or nothing when the harness is one of the parties.
func judgeRace(report string) string {
	var acc []string
	for _, p := range strings.Split(report, "\n\n") {
		if raceAccess.MatchString(p) {
			acc = append(acc, p)
		}
	}
	if len(acc) < 2 {
		return ""
	}
	o1, a1 := raceOwner(acc[0])
	o2, a2 := raceOwner(acc[1])
	if f := os.Getenv("RACEDEBUG"); f != "" {
		if h, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600); err == nil {
			fmt.Fprintln(h, o1, o2, a1, "|", a2)
			_ = h.Close()
		}
	}
	if o1+o2 != "liblib" && o1+o2 != "libio" && o1+o2 != "iolib" {
		return ""
	}
	return fmt.Sprintf("%s and %s access the same memory without synchronisation", a1, a2)
}

func init() {
	register(&Property{ID: "C26", Title: "no data races", Scenarios: raceScenarios,
		Rule: "distinct sequences of observations per scenario"})
}

// raceSet are the scenarios of other properties that are run with the race detector, with the deviation bounds.
var raceSet = []struct {
	name        string
	quick, full int
}{
	{"C01-server-sched", 1, 1}, {"C03-raw-sched", 0, 1}, {"C04-sched", 1, 1}, {"C04-parties", 0, 0}, {"C05-single", 0, 1}, {"C05-pairs-sched", 0, 1},
	{"C06-pairs-sched", 1, 1}, {"C06-server-names", 0, 0}, {"C07-streams", 0, 1}, {"C07-cancel", 0, 1}, {"C07-early", 0, 1}, {"C07-reuse", 0, 1}, {"C07-ahead", 1, 1},
	{"C08-both-sched", 0, 1}, {"C08-slow", 0, 1}, {"C08-closer", 1, 1}, {"C08-error", 1, 1}, {"C08-structs", 0, 1},
	{"C09-hub-sched", 0, 1}, {"C09-receiver-sched", 0, 1}, {"C09-life", 0, 1}, {"C09-marshal-sched", 1, 1},
	{"C10-concurrent", 0, 1}, {"C10-membership", 0, 1}, {"C10-slow", 0, 1},
	{"C11-ends", 0, 1}, {"C11-early", 0, 1}, {"C11-items", 0, 1}, {"C11-handshake", 1, 1}, {"C11-slow", 1, 1}, {"C11-again", 0, 1},
	{"C12-server-pairs", 0, 1}, {"C12-client-pairs", 0, 1}, {"C12-abandoned", 0, 1},
	{"C13-busy", 0, 1}, {"C13-stuck", 0, 1}, {"C13-unsent", 0, 1},
	{"C14-read-sched", 0, 1}, {"C14-write-sched", 0, 1}, {"C14-cancel-sched", 0, 1}, {"C14-deaf", 0, 1}, {"C14-linger", 0, 1}, {"C14-client-sched", 0, 1}, {"C14-client-write-sched", 0, 1},
	{"C15-server-slow", 0, 1}, {"C15-server-fault", 0, 1}, {"C15-server-write", 0, 1}, {"C15-server-pair", 1, 1}, {"C15-client-slow", 0, 1}, {"C15-client-fault", 1, 1},
	{"C16-kinds", 0, 1}, {"C16-lazy", 0, 1}, {"C16-ends", 0, 1}, {"C16-race", 0, 1}, {"C16-closing", 0, 1}, {"C16-delivered/", 0, 1}, {"C16-unreadable", 1, 1},
	{"C16-echo", 0, 1}, {"C16-states", 1, 1}, {"C16-args", 1, 1},
	{"C17-life2", 0, 1}, {"C17-race", 0, 1}, {"C17-quiet", 0, 1}, {"C17-restart", 0, 1}, {"C17-observers", 0, 1},
	{"C18-sequence1", 0, 1}, {"C18-calls/", 0, 1}, {"C18-stop-sched", 0, 1},
	{"C19-single-sched", 0, 1}, {"C19-two-sched", 1, 1}, {"C19-echo", 0, 1}, {"C19-states", 1, 1},
	{"C20-streams-sched", 0, 1}, {"C20-echo", 0, 1}, {"C20-two", 1, 1}, {"C20-ends", 0, 1}, {"C20-states", 1, 1},
	{"C21-race-connect", 1, 2}, {"C21-race-post", 1, 2}, {"C21-race-limit", 1, 2}, {"C21-race-expiry", 1, 2}, {"C21-race-end", 1, 2},
	{"C22-writes", 1, 2}, {"C22-ends", 1, 1}, {"C22-client", 0, 1},
	{"C23-concurrent", 0, 1}, {"C23-membership", 0, 1}, {"C23-outage", 0, 1}, {"C23-stop", 1, 1}, {"C23-leave", 1, 1},
	{"C24-writes", 1, 2}, {"C24-ends", 0, 1}, {"C24-client", 0, 1}, {"C24-net", 0, 1},
	{"C25-cancel", 0, 1}, {"C25-client", 0, 0},
}

func raceScenarios() []*Scenario {
	out := raceAPI()
	for _, r := range raceSet {
		p := properties[r.name[:3]]
		if p == nil {
			continue
		}
		n := 0
		for _, s := range p.Scenarios() {
			if strings.HasPrefix(p.ID+"-"+s.Name, r.name) {
				s := *s
				s.Name = p.ID + "-" + s.Name
				s.OnlyFull = false
				s.Quick, s.Full = r.quick, r.full
				out = append(out, &s)
				n++
			}
		}
		if n == 0 {
			panic("no scenario " + r.name)
		}
	}
	return out
}
