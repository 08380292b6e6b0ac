package main

import (
	"context"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C17: client state, observers and waiters.

type cstate = signalr.ClientState

const (
	stCreated    = signalr.ClientCreated
	stConnecting = signalr.ClientConnecting
	stConnected  = signalr.ClientConnected
	stClosed     = signalr.ClientClosed
)

// events of a client's life
const (
	evStart = iota
	evHandshake
	evHandshakeClose
	evHandshakeError
	evClose
	evCloseError
	evEOF
	evReadErr
	evSilence
	evStop
	evCancel
	evGarbage
	numLifeEvents
)

var lifeEventNames = []string{"start", "handshake", "handshake+close", "handshake error", "close", "close with error", "EOF", "read error", "silence", "stop", "cancel", "garbage"}

// lifeModel is the reference: what the client's state has to be after every event.
type lifeModel struct {
	state  cstate
	ctx    bool // cancelled
	ctxAt  int  // number of changes before the cancellation
	conn   bool // the connection has not been used up
	trans  []cstate
	hasErr bool   // Err has to be set
	errHas string // and to contain this
	errNil bool
}

func newLifeModel() *lifeModel { return &lifeModel{state: stCreated, conn: true} }

func (m *lifeModel) to(s cstate) {
	if m.state != s {
		m.trans = append(m.trans, s)
	}
	m.state = s
}

func (m *lifeModel) closed(err string, must bool) {
	m.to(stClosed)
	m.conn = false
	m.hasErr, m.errHas, m.errNil = must, err, false
}

// apply tells whether the event makes sense in this state.
func (m *lifeModel) apply(ev int) bool {
	running := m.state == stConnecting || m.state == stConnected
	switch ev {
	case evStart:
		if running {
			return false
		}
		m.to(stConnecting)
		m.errNil, m.hasErr = true, false
		if m.ctx || !m.conn {
			m.closed("", true)
		}
	case evHandshake, evHandshakeClose, evHandshakeError:
		if m.state != stConnecting {
			return false
		}
		switch ev {
		case evHandshakeError:
			m.closed("nope", true)
		case evHandshake:
			m.to(stConnected)
		case evHandshakeClose:
			m.to(stConnected)
			m.closed("", false)
		}
	case evClose, evCloseError, evGarbage:
		if m.state != stConnected {
			return false
		}
		if ev == evClose {
			m.closed("", false)
		} else if ev == evCloseError {
			m.closed("server says", true)
		} else {
			m.closed("", true)
		}
	case evEOF, evReadErr, evSilence:
		if !running {
			return false
		}
		if ev == evReadErr {
			m.closed("injected", true)
		} else {
			m.closed("", true)
		}
	case evStop:
		if !m.ctx {
			m.ctx, m.ctxAt = true, len(m.trans)
		}
		if m.state != stClosed {
			if running {
				m.closed("", true)
			} else {
				m.closed("", false)
			}
		}
	case evCancel:
		if m.ctx {
			return false
		}
		m.ctx, m.ctxAt = true, len(m.trans)
		if running {
			m.closed("", true)
		}
	}
	return true
}

func lifeValid(d []int) bool {
	m := newLifeModel()
	for _, ev := range d {
		if !m.apply(ev) {
			return false
		}
	}
	return true
}

// waiter is one WaitForState call.
type waiter struct {
	name    string
	want    cstate
	at      int // number of changes before the call
	from    cstate
	cancel  context.CancelFunc
	results []error
	closed  bool
}

func wait(c signalr.Client, name string, want cstate, at int, from cstate) *waiter {
	ctx, cancel := context.WithCancel(context.Background())
	w := &waiter{name: name, want: want, at: at, from: from, cancel: cancel}
	go func() {
		for err := range c.WaitForState(ctx, want) {
			w.results = append(w.results, err)
		}
		w.closed = true
	}()
	return w
}

// judge compares the waiter's result with the model. open: its own context has not been cancelled.
func (w *waiter) judge(x *X, m *lifeModel, open bool) {
	var expect string // nil, error, either, pending
	expect = func() string {
		switch {
		case w.from == w.want:
			return "nil"
		case w.from == stCreated || w.from == stClosed:
			return "error"
		}
		for i := w.at; i <= len(m.trans); i++ {
			if m.ctx && m.ctxAt == i {
				// the client has been cancelled in the meantime
				if i < len(m.trans) && m.trans[i] == w.want {
					return "either"
				}
				return "error"
			}
			if i == len(m.trans) {
				break
			}
			if m.trans[i] == w.want {
				return "nil"
			}
			if m.trans[i] == stClosed {
				return "error"
			}
		}
		return "pending"
	}()
	if expect == "pending" && !open {
		expect = "error"
	}
	if expect == "pending" {
		if w.closed || len(w.results) > 0 {
			x.Fail("waiter-early", "%s: yields %v, closed %v; changes %v", w.name, w.results, w.closed, m.trans)
		}
		return
	}
	if !w.closed {
		x.Fail("waiter-hangs", "%s: no result (%v) after %v, want %s", w.name, w.results, m.trans[w.at:], expect)
		return
	}
	var errs []error
	for _, e := range w.results {
		if e != nil {
			errs = append(errs, e)
		}
	}
	if expect == "nil" && len(errs) != 0 || expect == "error" && len(errs) != 1 || len(errs) > 1 {
		x.Fail("waiter-"+expect, "%s: yields %v after %v, want %s", w.name, w.results, m.trans[w.at:], expect)
	}
}

// observer is one observation of state changes.
type observer struct {
	name   string
	ch     chan cstate
	got    []cstate
	closed bool
	cancel context.CancelFunc
	at     int
	c      signalr.Client
	nilErr bool // there was no error when it was notified of Closed
	until  int  // number of changes when it was cancelled, -1 if not
}

func observe(c signalr.Client, name string, at, buf int, read bool) *observer {
	o := &observer{name: name, ch: make(chan cstate, buf), at: at, until: -1, c: c}
	o.cancel = c.ObserveStateChanged(o.ch)
	if read {
		go o.read()
	}
	return o
}

func (o *observer) read() {
	for s := range o.ch {
		o.got = append(o.got, s)
		if s == stClosed && o.c.Err() == nil {
			o.nilErr = true
		}
	}
	o.closed = true
}

// changes of an observer, without repetitions
func (o *observer) changes(from cstate) (out []cstate) {
	for _, s := range o.got {
		if s != from {
			out = append(out, s)
		}
		from = s
	}
	return out
}

func (o *observer) judge(x *X, m *lifeModel) {
	from := stCreated
	if o.at > 0 {
		from = m.trans[o.at-1]
	}
	want := m.trans[o.at:]
	if o.until >= 0 {
		want = m.trans[o.at:o.until]
		if !o.closed {
			x.Fail("observer-open", "%s: the channel is not closed after the cancellation", o.name)
		}
	} else if o.closed {
		x.Fail("observer-closed", "%s: the channel is closed without cancellation", o.name)
	}
	if got := o.changes(from); fmt.Sprint(got) != fmt.Sprint(append([]cstate(nil), want...)) {
		x.Fail("observer", "%s: notified of %v, changes were %v", o.name, got, want)
	}
}

// prompt runs f, which must not wait for time to pass or somebody else's action.
func prompt(x *X, tag string, f func()) {
	done := false
	go func() {
		f()
		done = true
	}()
	x.Idle()
	if !done {
		x.Fail(tag, "the call blocks")
	}
}

// lifeClient is a client and the transport below.
type lifeClient struct {
	*Srv
	cancelCtx context.CancelFunc
}

func newLifeClient(x *X, w Wire) *lifeClient {
	s := newClient(x, w)
	return &lifeClient{Srv: s, cancelCtx: s.stop}
}

func (l *lifeClient) do(ev int) {
	switch ev {
	case evStart:
		l.C.Start()
	case evHandshake:
		l.Feed([]byte("{}\x1e"))
	case evHandshakeClose:
		l.Feed(append([]byte("{}\x1e"), l.W.Close("", false)...))
	case evHandshakeError:
		l.Feed([]byte(`{"error":"nope"}` + "\x1e"))
	case evClose:
		l.Feed(l.W.Close("", false))
	case evCloseError:
		l.Feed(l.W.Close("server says", false))
	case evEOF:
		l.FeedErr(io.EOF)
	case evReadErr:
		l.FeedErr(errInjected)
	case evSilence:
		time.Sleep(40 * time.Second)
	case evStop:
		l.C.Stop()
	case evCancel:
		l.cancelCtx()
	case evGarbage:
		l.Feed([]byte("\x02\x91\x2a\x1e"))
	}
}

func runLife(x *X, w Wire, events []int, blocked bool) {
	l := newLifeClient(x, w)
	m := newLifeModel()
	var ws []*waiter
	var obs []*observer
	var stuck *observer
	if blocked {
		stuck = observe(l.C, "blocked observer", 0, 0, false)
	}
	obs = append(obs, observe(l.C, "unbuffered observer", 0, 0, true), observe(l.C, "buffered observer", 0, 2, true))
	for i, ev := range events {
		if i == 1 {
			// observed from the second event on, cancelled after it
			obs = append(obs, observe(l.C, "second observer", len(m.trans), 1, true))
		}
		for _, s := range []cstate{stConnecting, stConnected, stClosed} {
			ws = append(ws, wait(l.C, fmt.Sprintf("waiting for %v before event %d", s, i), s, len(m.trans), m.state))
		}
		x.Idle()
		for _, o := range obs {
			o.nilErr = false
		}
		m.apply(ev)
		if ev == evSilence {
			l.do(ev)
			x.Idle()
		} else {
			prompt(x, "blocks-"+lifeEventNames[ev], func() { l.do(ev) })
		}
		var st cstate
		var err error
		prompt(x, "blocks-State", func() { st, err = l.C.State(), l.C.Err() })
		if st != m.state {
			x.Fail("state", "after %s: state %v, want %v (%v)", lifeNames(events[:i+1]), st, m.state, m.trans)
		}
		if m.state == stConnecting && err != nil || m.state == stClosed && m.hasErr && (err == nil || !strings.Contains(err.Error(), m.errHas)) {
			x.Fail("err", "after %s: Err is %v in state %v, want %q", lifeNames(events[:i+1]), err, st, m.errHas)
		}
		for _, wt := range ws {
			wt.judge(x, m, true)
		}
		if i == 1 {
			o := obs[2]
			prompt(x, "blocks-cancel", o.cancel)
			o.until = len(m.trans)
		}
		for _, o := range obs {
			o.judge(x, m)
			if m.state == stClosed && m.hasErr && o.nilErr {
				x.Fail("err", "after %s: %s is notified of Closed while Err is nil", lifeNames(events[:i+1]), o.name)
			}
		}
	}
	for _, wt := range ws {
		wt.cancel()
	}
	x.Idle()
	for _, wt := range ws {
		wt.judge(x, m, false)
	}
	if blocked {
		prompt(x, "blocks-cancel", stuck.cancel)
		stuck.read()
		if !stuck.closed {
			x.Fail("observer-open", "blocked observer: not closed")
		}
	}
	for i, o := range obs {
		if i != 2 {
			prompt(x, "blocks-cancel", o.cancel)
			o.until = len(m.trans)
			o.judge(x, m)
		}
	}
	l.Conn.Close()
	if m.state == stConnecting || m.state == stConnected {
		x.Idle()
		if st := l.C.State(); st != stClosed {
			x.Fail("state", "after %s and the end of the transport: state %v", lifeNames(events), st)
		}
	}
	x.Ev("%v", m.trans)
}

func lifeNames(ev []int) (out []string) {
	for _, e := range ev {
		out = append(out, lifeEventNames[e])
	}
	return
}

// runLifeRace lets two events happen at once.
func runLifeRace(x *X, w Wire, phase, e1, e2 int) {
	l := newLifeClient(x, w)
	o := observe(l.C, "observer", 0, 0, true)
	var ws []*waiter
	quietly(x, func() {
		for i, ev := range []int{evStart, evHandshake} {
			if phase > i {
				l.do(ev)
				x.Idle()
			}
		}
	})
	if phase > 0 {
		ws = append(ws, wait(l.C, "waiting for Connected", stConnected, 0, stConnecting), wait(l.C, "waiting for Closed", stClosed, 0, stConnected))
	}
	done := 0
	for _, ev := range []int{e1, e2} {
		ev := ev
		go func() {
			l.do(ev)
			done++
		}()
	}
	x.Settle(time.Minute)
	if done != 2 {
		x.Fail("blocks-race", "%v at once: blocked", lifeNames([]int{e1, e2}))
	}
	// in all cases one of the events ends the client
	var st cstate
	prompt(x, "blocks-State", func() { st = l.C.State() })
	if st != stClosed {
		x.Fail("state", "%v at once in state %d: state %v at the end", lifeNames([]int{e1, e2}), phase, st)
	}
	from := stCreated
	closes := 0
	for _, s := range o.changes(stCreated) {
		ok := from == stCreated && s == stConnecting || from == stConnecting && (s == stConnected || s == stClosed) || from == stConnected && s == stClosed ||
			from == stCreated && s == stClosed || from == stClosed && s == stConnecting && (e1 == evStart || e2 == evStart)
		if !ok {
			x.Fail("observer", "%v at once: notified of %v", lifeNames([]int{e1, e2}), o.got)
		}
		if s == stClosed {
			closes++
		}
		from = s
	}
	if from != stClosed {
		x.Fail("observer", "%v at once: notified of %v", lifeNames([]int{e1, e2}), o.got)
	}
	for _, wt := range ws {
		if !wt.closed {
			x.Fail("waiter-hangs", "%v at once: %s has no result", lifeNames([]int{e1, e2}), wt.name)
		}
	}
	prompt(x, "blocks-cancel", o.cancel)
	if !o.closed {
		x.Fail("observer-open", "not closed")
	}
	x.Ev("%v %v", o.got, l.C.Err() != nil)
}

// runObserverRace: observing, changing and cancelling at once, with readers which stop reading.
func runObserverRace(x *X, w Wire, buf, read, when int) {
	l := newLifeClient(x, w)
	o := observe(l.C, "observer", 0, buf, false)
	keep := observe(l.C, "other observer", 0, 0, true)
	taken := 0
	go func() {
		for taken < read {
			s, ok := <-o.ch
			if !ok {
				return
			}
			o.got = append(o.got, s)
			taken++
		}
	}()
	cancelled := false
	go func() {
		switch when {
		case 0:
		case 1:
			time.Sleep(time.Second)
		case 2:
			time.Sleep(2 * time.Second)
		case 3:
			time.Sleep(3 * time.Second)
		case 4:
			time.Sleep(4 * time.Second)
		}
		o.cancel()
		cancelled = true
	}()
	go func() {
		time.Sleep(time.Second)
		l.do(evStart)
		time.Sleep(time.Second)
		l.do(evHandshake)
		time.Sleep(time.Second)
		l.do(evClose)
	}()
	x.Settle(10 * time.Second)
	if !cancelled {
		x.Fail("blocks-cancel", "cancelling the observer blocks")
	}
	for s := range o.ch { // closed, hence ends
		o.got = append(o.got, s)
	}
	all := []cstate{stConnecting, stConnected, stClosed}
	got := o.changes(stCreated)
	if len(got) > len(all) || fmt.Sprint(got) != fmt.Sprint(append([]cstate(nil), all[:len(got)]...)) {
		x.Fail("observer", "notified of %v", o.got)
	}
	if fmt.Sprint(keep.got) != fmt.Sprint(all) {
		x.Fail("observer", "other observer: notified of %v", keep.got)
	}
	keep.cancel()
	x.Idle()
	if l.C.State() != stClosed {
		x.Fail("state", "state %v", l.C.State())
	}
}

// runSlowObservers: an observer which begins to read (or goes on reading) late gets all changes, too.
func runSlowObservers(x *X, w Wire, buf, restarts, late int) {
	l := newLifeClient(x, w)
	m := newLifeModel()
	o := observe(l.C, "slow observer", 0, buf, false)
	keep := observe(l.C, "other observer", 0, 0, true)
	evs := []int{evStart, evHandshake, evClose}
	for i := 0; i < restarts; i++ {
		evs = append(evs, evStart)
	}
	read := func(n int) {
		for i := 0; i < n; i++ {
			o.got = append(o.got, <-o.ch)
		}
	}
	for i, ev := range evs {
		switch late {
		case 1: // reads the first one
			if i == 1 {
				go read(1)
			}
		case 2: // stops reading for a while
			if i == 2 {
				go read(2)
			}
		case 3: // one by one, always late
			if i > 1 {
				go read(1)
			}
		}
		m.apply(ev)
		l.do(ev)
		x.Settle(time.Second)
	}
	go o.read()
	x.Idle()
	o.until, keep.until = len(m.trans), len(m.trans)
	o.cancel()
	keep.cancel()
	x.Idle()
	o.judge(x, m)
	keep.judge(x, m)
	x.Ev("%v", o.got)
}

// runRestart: an observer starts the client whenever it is closed, which meets events and Stop.
func runRestart(x *X, w Wire, phase, ev, starts int, later bool) {
	l := newLifeClient(x, w)
	ch := make(chan cstate)
	cancel := l.C.ObserveStateChanged(ch)
	x.Cleanup(cancel)
	var got []cstate
	left := starts
	go func() {
		for s := range ch {
			got = append(got, s)
			if s == stClosed && left > 0 {
				left--
				l.C.Start()
			}
		}
	}()
	quietly(x, func() {
		for i, e := range []int{evStart, evHandshake} {
			if phase > i {
				l.do(e)
				x.Idle()
			}
		}
	})
	done := 0
	go func() {
		l.do(ev)
		done++
	}()
	go func() {
		if later {
			time.Sleep(time.Second)
		}
		l.C.Stop()
		done++
	}()
	x.Settle(time.Minute)
	if done != 2 {
		x.Fail("blocks-race", "%v and Stop with a restarting observer: blocked", lifeEventNames[ev])
	}
	var st cstate
	prompt(x, "blocks-State", func() { st = l.C.State() })
	if st != stClosed {
		x.Fail("state", "%v and Stop with a restarting observer: state %v at the end", lifeEventNames[ev], st)
	}
	if n := len(got); n == 0 || got[n-1] != stClosed {
		x.Fail("observer", "%v and Stop with a restarting observer: notified of %v", lifeEventNames[ev], got)
	}
	x.Ev("%v", got)
}

type countLogger struct{ n int }

func (c *countLogger) Log(...any) error {
	c.n++
	return nil
}

// runQuiet: a stopped client logs nothing, whatever the server has still to say.
func runQuiet(x *X, w Wire, phase, events, by int) {
	lg := &countLogger{}
	s := newClient(x, w, signalr.Logger(lg, true))
	s.C.Start()
	if phase > 0 {
		x.Idle()
		s.TakeHandshake()
		if phase == 2 {
			s.Feed([]byte("{}\x1e"))
			x.Idle()
		}
	}
	feed := func() {
		if phase < 2 {
			s.Feed([]byte("{}\x1e"))
		}
		for i := 0; i < 2; i++ {
			s.Feed(w.Ping())
		}
		switch events {
		case 1:
			s.Feed(w.Close("", false))
		case 2:
			s.Feed([]byte("\x02\x91\x2a\x1e"))
		case 3:
			s.FeedErr(io.EOF)
		}
	}
	if by == 0 {
		feed()
	} else {
		go feed()
	}
	s.C.Stop()
	n := lg.n
	if by == 2 {
		feed()
	}
	x.Settle(20 * time.Second)
	if lg.n != n {
		x.Fail("logs", "%d log calls after Stop has returned", lg.n-n)
	}
	x.Ev("%d", n)
}

func init() {
	register(&Property{ID: "C17", Title: "client state",
		Rule: "life: all meaningful sequences of up to five of twelve events (start, handshake response, response with close message in one read, error response, close messages, end of stream, read error, silence, stop, cancel, garbage) compared with a reference model: state, Err, " +
			"three waiters before every event, observers registered at the start and later, cancelled, and one that nobody reads; race: two events at once in every state; observers: change and cancel at once with readers that stop reading; slow-observers: readers that begin or go on late, after up to nine changes; crowd: up to 40 observers and waiters, half of them cancelled in four phases and orders; quiet: Stop in three states while messages arrive. All schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			w := wires[0]
			for n := 1; n <= 6; n++ {
				n := n
				dims := []int{2}
				for i := 0; i < n; i++ {
					dims = append(dims, numLifeEvents)
				}
				q := 1
				if n > 4 {
					q = 0
				}
				out = append(out, &Scenario{Name: fmt.Sprintf("life%d", n), Dims: dims, Quick: q, Full: q + 1, OnlyFull: n > 5,
					Skip: func(d []int) bool { return !lifeValid(d[1:]) },
					Body: func(x *X) { runLife(x, w, x.D[1:], x.D[0] == 1) }})
			}
			ends := map[int]bool{evHandshakeClose: true, evHandshakeError: true, evClose: true, evCloseError: true, evEOF: true, evReadErr: true, evSilence: true, evStop: true, evCancel: true, evGarbage: true}
			out = append(out, &Scenario{Name: "race", Dims: []int{3, numLifeEvents, numLifeEvents}, Quick: 1, Full: 2,
				Skip: func(d []int) bool {
					if d[2] < d[1] {
						return true
					}
					// the client must have been closed by one of them; two handshake messages make no sense
					app := func(e int) bool {
						switch d[0] {
						case 0:
							return e == evStart || e == evStop || e == evCancel
						case 1:
							return e != evStart && e != evClose && e != evCloseError && e != evGarbage
						}
						return e != evStart && e != evHandshake && e != evHandshakeClose && e != evHandshakeError
					}
					if !app(d[1]) || !app(d[2]) {
						return true
					}
					if d[1] == d[2] && d[1] != evStop {
						return true
					}
					hs := 0
					for _, e := range d[1:] {
						if e == evHandshake || e == evHandshakeClose || e == evHandshakeError {
							hs++
						}
					}
					if d[0] == 0 {
						return false
					}
					return hs > 1 || !ends[d[1]] && !ends[d[2]]
				},
				Body: func(x *X) { runLifeRace(x, w, x.D[0], x.D[1], x.D[2]) }},
				observerCrowd(w),
				&Scenario{Name: "quiet", Dims: []int{3, 4, 3, 2}, Quick: 1, Full: 2, Body: func(x *X) {
					runQuiet(x, wires[x.D[3]], x.D[0], x.D[1], x.D[2])
				}},
				&Scenario{Name: "restart", Dims: []int{3, numLifeEvents, 2, 2}, Quick: 2, Full: 2, QuickCase: func(d []int) bool { return d[2] == 0 },
					Skip: func(d []int) bool {
						return !ends[d[1]] || d[0] == 0 && d[1] != evStop && d[1] != evCancel || d[0] == 2 && (d[1] == evHandshakeClose || d[1] == evHandshakeError) ||
							d[0] == 1 && (d[1] == evClose || d[1] == evCloseError || d[1] == evGarbage)
					},
					Body: func(x *X) { runRestart(x, w, x.D[0], x.D[1], 1+x.D[2], x.D[3] == 1) }},
				&Scenario{Name: "slow-observers", Dims: []int{3, 4, 4}, Quick: 1, Full: 2, Body: func(x *X) {
					runSlowObservers(x, w, x.D[0], x.D[1], x.D[2])
				}},
				&Scenario{Name: "observers", Dims: []int{3, 4, 5}, Quick: 1, Full: 2, Body: func(x *X) {
					runObserverRace(x, w, x.D[0], x.D[1], x.D[2])
				}})
			return out
		}})
}
