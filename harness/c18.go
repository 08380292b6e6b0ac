package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

// C18: automatic reconnect.

// outcomes of connection attempts
const (
	atConnErr = iota
	atHsError
	atHsGarbage
	atHsEOF
	atHsSilence
	atEOF
	atErr
	atClose
	atCloseErr
	atForbid
	atForbidErr
	atSilence
	atGarbage
	atFlash // ends as soon as it is connected
	atStay
	numAttempts
)

var attemptNames = []string{"connector error", "handshake error", "handshake garbage", "handshake EOF", "handshake silence", "EOF", "read error", "close", "close with error",
	"forbidding close", "forbidding close with error", "silence", "garbage", "flash", "stay"}

func attemptList(d []int) (out []string) {
	for _, a := range d {
		out = append(out, attemptNames[a])
	}
	return
}

const connLife = 7 * time.Second

// testBackoff yields 1s, 2s, 4s and then Stop.
type testBackoff struct{ n, max int }

func (b *testBackoff) Reset() { b.n = 0 }
func (b *testBackoff) NextBackOff() time.Duration {
	if b.n >= b.max {
		return backoff.Stop
	}
	b.n++
	return time.Second << (b.n - 1)
}

type stamped struct {
	at time.Duration
	st cstate
}

// reconnects is a client with a scripted connector.
type reconnects struct {
	x      *X
	w      Wire
	C      signalr.Client
	cancel context.CancelFunc
	start  time.Time
	script []int
	calls  []time.Duration // when the connector was called
	conns  []*Srv
	made   int
	obs    []stamped
	answer func(s *Srv, m Msg) []byte
	slow   time.Duration // until a good handshake is answered
}

func (r *reconnects) now() time.Duration { return time.Since(r.start) }

func newReconnects(x *X, w Wire, script []int, maxBackoff int, opts ...func(signalr.Party) error) *reconnects {
	r := &reconnects{x: x, w: w, start: time.Now(), script: script}
	var ctx context.Context
	ctx, r.cancel = context.WithCancel(context.Background())
	x.Cleanup(r.cancel)
	c, err := signalr.NewClient(ctx, append(append(clientOpts(w),
		signalr.WithConnector(r.connect),
		signalr.WithBackoff(func() backoff.BackOff { return &testBackoff{max: maxBackoff} })), opts...)...)
	if err != nil {
		panic(err)
	}
	r.C = c
	ch := make(chan cstate)
	r.C.ObserveStateChanged(ch)
	go func() {
		last := stCreated
		for s := range ch {
			if s != last {
				r.obs = append(r.obs, stamped{r.now(), s})
			}
			last = s
		}
	}()
	x.Cleanup(func() {
		for _, s := range r.conns {
			s.Conn.Close()
		}
	})
	return r
}

func (r *reconnects) connect() (signalr.Connection, error) {
	k := len(r.calls)
	r.calls = append(r.calls, r.now())
	kind := atStay
	if k < len(r.script) {
		kind = r.script[k]
	}
	if kind == atConnErr {
		return nil, errors.New("no connection today")
	}
	s := &Srv{Conn: newConn(r.x, fmt.Sprintf("c%d", r.made)), W: r.w, C: r.C}
	r.made++
	r.conns = append(r.conns, s)
	s.onWrite = func(b []byte) {
		if s.hsLen == 0 {
			s.TakeHandshake()
			switch kind {
			case atHsError:
				s.Feed([]byte(`{"error":"nope"}` + "\x1e"))
			case atHsGarbage:
				s.Feed([]byte("garbage\x1e"))
			case atHsEOF:
				s.FeedErr(io.EOF)
			case atHsSilence:
			case atFlash:
				s.Feed([]byte("{}\x1e"))
				s.FeedErr(io.EOF)
			default:
				if r.slow > 0 {
					go func() {
						time.Sleep(r.slow)
						s.Feed([]byte("{}\x1e"))
					}()
				} else {
					s.Feed([]byte("{}\x1e"))
				}
				if kind == atStay {
					go func() {
						for !s.closed {
							time.Sleep(10 * time.Second)
							s.Feed(r.w.Ping())
						}
					}()
				} else if kind != atSilence {
					go func() {
						time.Sleep(connLife)
						r.end(s, kind)
					}()
				}
			}
			return
		}
		if r.answer != nil {
			ms, _, err := r.w.Parse(b)
			if err != nil {
				r.x.Fail("wire-garbage", "%v", err)
			}
			for _, m := range ms {
				if m.Type == 1 || m.Type == 4 {
					s.Feed(r.answer(s, m))
				}
			}
		}
	}
	return s.Conn, nil
}

func (r *reconnects) end(s *Srv, kind int) {
	switch kind {
	case atEOF:
		s.FeedErr(io.EOF)
	case atErr:
		s.FeedErr(errInjected)
	case atClose:
		s.Feed(r.w.Close("", true))
	case atCloseErr:
		s.Feed(r.w.Close("server says", true))
	case atForbid:
		s.Feed(r.w.Close("", false))
	case atForbidErr:
		s.Feed(r.w.Close("server says", false))
	case atGarbage:
		s.Feed([]byte("\x02\x91\x2a\x1e"))
	}
}

// reconnectModel computes when the connector has to be called and how the state has to change.
func reconnectModel(script []int, maxBackoff int, stopAt time.Duration) (calls []time.Duration, changes []stamped, exhausted bool) {
	t := time.Duration(0)
	bo := &testBackoff{max: maxBackoff}
	change := func(at time.Duration, s cstate) {
		if len(changes) == 0 && s != stCreated || len(changes) > 0 && changes[len(changes)-1].st != s {
			changes = append(changes, stamped{at, s})
		}
	}
	stopped := func(at time.Duration) bool {
		if stopAt > 0 && at > stopAt {
			change(stopAt, stClosed)
			return true
		}
		return false
	}
	change(0, stConnecting)
	for k := 0; ; k++ {
		if stopped(t) {
			return
		}
		calls = append(calls, t)
		kind := atStay
		if k < len(script) {
			kind = script[k]
		}
		end, connected := t, true
		switch kind {
		case atConnErr, atHsError, atHsGarbage, atHsEOF:
			connected = false
		case atHsSilence:
			connected = false
			end = t + 15*time.Second
		case atFlash:
		case atSilence:
			end = t + 30*time.Second
		case atStay:
			change(t, stConnected)
			if stopAt > 0 {
				change(stopAt, stClosed)
			}
			return
		default:
			end = t + connLife
		}
		if connected {
			change(t, stConnected)
			bo.Reset()
		}
		if stopped(end) {
			return
		}
		if kind == atForbid || kind == atForbidErr {
			change(end, stClosed)
			return
		}
		d := bo.NextBackOff()
		if d == backoff.Stop {
			change(end, stClosed)
			return calls, changes, true
		}
		change(end, stConnecting)
		t = end + d
	}
}

func (r *reconnects) judge(stopAt time.Duration, maxBackoff int) {
	calls, changes, exhausted := reconnectModel(r.script, maxBackoff, stopAt)
	if fmt.Sprint(r.calls) != fmt.Sprint(calls) {
		r.x.Fail("attempts", "%v (stop at %v): attempts at %v, want %v", attemptList(r.script), stopAt, r.calls, calls)
	}
	if fmt.Sprint(r.obs) != fmt.Sprint(changes) {
		r.x.Fail("changes", "%v (stop at %v): state changes %v, want %v", attemptList(r.script), stopAt, r.obs, changes)
	}
	st := r.C.State()
	if st != changes[len(changes)-1].st {
		r.x.Fail("state", "%v (stop at %v): state %v, want %v", attemptList(r.script), stopAt, st, changes[len(changes)-1].st)
	}
	if err := r.C.Err(); exhausted && err == nil {
		r.x.Fail("err", "%v: no error although the backoff is exhausted", attemptList(r.script))
	}
	for i, a := range r.conns {
		for _, b := range r.conns[:i] {
			if a.id == b.id {
				r.x.Fail("same-connection", "%v", a.id)
			}
		}
		// everything on a connection begins with its own handshake
		if len(a.out) > 0 {
			a.Msgs()
		}
	}
	r.x.Ev("%v %v", r.calls, r.obs)
}

func runReconnect(x *X, w Wire, script []int, maxBackoff int) {
	r := newReconnects(x, w, script, maxBackoff, signalr.HandshakeTimeout(15*time.Second), signalr.TimeoutInterval(30*time.Second), signalr.KeepAliveInterval(15*time.Second))
	r.C.Start()
	// the last connection stays, and has to be kept alive by the server
	x.Settle(time.Second / 2)
	_, changes, _ := reconnectModel(script, maxBackoff, 0)
	last := changes[len(changes)-1]
	if d := last.at + 20*time.Second - r.now(); d > 0 {
		x.Settle(d)
	}
	r.judge(0, maxBackoff)
	prompt(x, "blocks-stop", r.C.Stop)
	if st := r.C.State(); st != stClosed {
		x.Fail("state", "%v: state %v after Stop", attemptList(script), st)
	}
	n := len(r.calls)
	x.Settle(time.Minute)
	if len(r.calls) != n {
		x.Fail("attempts", "%v: connector called after Stop", attemptList(script))
	}
}

func runReconnectStop(x *X, w Wire, script []int, stopAt time.Duration, cancel bool) {
	r := newReconnects(x, w, script, 3, signalr.HandshakeTimeout(15*time.Second), signalr.TimeoutInterval(30*time.Second), signalr.KeepAliveInterval(15*time.Second))
	r.C.Start()
	x.Settle(stopAt)
	if r.C.State() == stClosed {
		return
	}
	if cancel {
		prompt(x, "blocks-cancel", r.cancel)
	} else {
		prompt(x, "blocks-stop", r.C.Stop)
	}
	x.Settle(time.Minute)
	r.judge(stopAt, 3)
	if r.C.Err() == nil {
		x.Fail("err", "%v (stop at %v): no error after the client was stopped", attemptList(script), stopAt)
	}
}

// runReconnectAgain starts the client again after it has ended by itself.
func runReconnectAgain(x *X, w Wire, first []int, maxBackoff int, second []int) {
	r := newReconnects(x, w, first, maxBackoff, signalr.HandshakeTimeout(15*time.Second), signalr.TimeoutInterval(30*time.Second), signalr.KeepAliveInterval(15*time.Second))
	r.C.Start()
	x.Settle(2 * time.Minute)
	r.judge(0, maxBackoff)
	if st := r.C.State(); st != stClosed {
		x.Fail("state", "%v: state %v, has to be at its end", attemptList(first), st)
	}
	// from here on everything has to be as with a new client
	n := len(r.conns)
	r.calls, r.obs, r.script, r.start = nil, nil, second, time.Now()
	r.answer = func(s *Srv, m Msg) []byte { return w.Completion(m.ID, fmt.Sprint("r:", m.Args[0]), true, "") }
	r.C.Start()
	if st := r.C.State(); st == stClosed || st == stCreated {
		x.Fail("state", "%v, %v: state %v after the client was started again", attemptList(first), attemptList(second), st)
	}
	x.Settle(time.Second / 2)
	_, changes, exhausted := reconnectModel(second, maxBackoff, 0)
	if d := changes[len(changes)-1].at + 20*time.Second - r.now(); d > 0 {
		x.Settle(d)
	}
	r.judge(0, maxBackoff)
	for _, a := range r.conns[n:] {
		if len(a.out) == 0 {
			x.Fail("no-handshake", "%v, %v: nothing was sent on %v", attemptList(first), attemptList(second), a.id)
		}
	}
	if r.C.State() == stConnected {
		if err := r.C.Err(); err != nil {
			x.Fail("err-kept", "%v, %v: error %v although the client is connected", attemptList(first), attemptList(second), err)
		}
		c := collect("call", r.C.Invoke("m", "call"))
		x.Settle(time.Second)
		c.judge(x, outcome{kind: "value", val: "r:call"})
	} else if exhausted && r.C.Err() == nil {
		x.Fail("err", "%v, %v: no error", attemptList(first), attemptList(second))
	}
	prompt(x, "blocks-stop", r.C.Stop)
	if st := r.C.State(); st != stClosed {
		x.Fail("state", "%v: state %v after Stop", attemptList(second), st)
	}
	calls := len(r.calls)
	x.Settle(time.Minute)
	if len(r.calls) != calls {
		x.Fail("attempts", "connector called after Stop")
	}
}

// runReconnectCalls makes calls around the end of a connection and the start of the next one.
func runReconnectCalls(x *X, w Wire, kind int, at time.Duration, call int, n int) {
	script := []int{kind}
	r := newReconnects(x, w, script, 3, signalr.TimeoutInterval(30*time.Second), signalr.KeepAliveInterval(15*time.Second))
	r.answer = func(s *Srv, m Msg) []byte {
		if m.Type == 4 {
			return append(append(w.Item(m.ID, fmt.Sprint("i0:", m.Args[0])), w.Item(m.ID, fmt.Sprint("i1:", m.Args[0]))...), w.Completion(m.ID, nil, false, "")...)
		}
		if m.Target == "void" {
			return w.Completion(m.ID, nil, false, "")
		}
		return w.Completion(m.ID, fmt.Sprint("r:", m.Args[0]), true, "")
	}
	var cols []*col
	begin := func() {
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("call %d", i)
			switch call {
			case 0:
				cols = append(cols, collect(name, r.C.Invoke("m", name)))
			case 1:
				cols = append(cols, collectErr(name, r.C.Send("void", name)))
			case 2:
				cols = append(cols, collect(name, r.C.PullStream("s", name)))
			case 3:
				ch := make(chan int, 2)
				ch <- 1
				ch <- 2
				close(ch)
				cols = append(cols, collect(name, r.C.PushStreams("p", name, ch)))
			}
		}
	}
	quietly(x, func() {
		r.C.Start()
		x.Settle(time.Second)
		time.Sleep(at - time.Second)
	})
	begin()
	x.Settle(5 * time.Second)
	if st := r.C.State(); kind != atForbid && st != stConnected && at < 10*time.Second {
		x.Fail("state", "state %v after the reconnect", st)
	}
	for i, c := range cols {
		name := fmt.Sprintf("call %d", i)
		switch {
		case call == 2:
			if !c.closed {
				x.Fail("open", "%s: the channel is not closed (%v)", name, c.got)
			}
			errs := 0
			var items []any
			for _, g := range c.got {
				if g.Error != nil {
					errs++
				} else {
					items = append(items, g.Value)
				}
			}
			want := []any{"i0:" + name, "i1:" + name}
			if errs > 1 || len(items) > 2 || errs == 0 && len(items) < 2 || fmt.Sprint(items) != fmt.Sprint(append([]any(nil), want[:len(items)]...)) {
				x.Fail("stream", "%s: %v", name, c.got)
			}
		default:
			c.judge(x, outcome{kind: "either", val: "r:" + name})
		}
		x.Ev("%v", c.got)
	}
	if want := map[bool]int{true: 1, false: 2}[kind == atForbid]; len(r.calls) != want && r.now() > connLife+2*time.Second {
		x.Fail("attempts", "attempts at %v, want %d", r.calls, want)
	}
	// what the servers have seen: each call at most once
	seen := map[string]int{}
	for _, s := range r.conns {
		ids := map[string]bool{}
		for _, m := range s.Msgs() {
			if m.Type == 1 || m.Type == 4 {
				seen[fmt.Sprint(m.Args[0])]++
				if ids[m.ID] {
					x.Fail("same-id", "%v", m)
				}
				ids[m.ID] = true
			}
		}
	}
	for k, v := range seen {
		if v > 1 {
			x.Fail("sent-twice", "%s sent %d times", k, v)
		}
	}
	if at > connLife && at < connLife+time.Second && kind != atForbid {
		// called while there is no connection: waits for the next one
		for i, c := range cols {
			if len(c.got) > 0 && c.got[0].Error != nil {
				x.Fail("call-failed", "call %d during the reconnect: %v", i, c.got)
			}
		}
	}
	if kind == atForbid && at > connLife {
		for i, c := range cols {
			if len(c.got) != 1 || c.got[0].Error == nil {
				x.Fail("call-after-end", "call %d: %v", i, c.got)
			}
		}
	}
	quietly(x, func() { prompt(x, "blocks-stop", r.C.Stop) })
}

func init() {
	register(&Property{ID: "C18", Title: "reconnect",
		Rule: "sequence: all sequences of up to three (thorough: four) outcomes of connection attempts out of 15 (connector error; handshake refused, garbage, end, silence; connection ended by end of stream, read error, close messages with and without error and permission, silence, garbage, at once; lasting), " +
			"backoffs of 0, 1 and 3 delays: times of all connector calls and state changes compared with a reference model in virtual time; again: the client is started again after seven kinds of final ends, with all sequences of two outcomes; stop: Stop or cancellation at every quarter second between the others; calls: Invoke, Send, PullStream and PushStreams before, at and after the end of a connection and the reconnect, with bounded schedule deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			final := func(d []int) bool {
				// nothing is reached after the end
				for i, a := range d {
					if (a == atForbid || a == atForbidErr || a == atStay) && i < len(d)-1 {
						return true
					}
				}
				return false
			}
			for _, w := range wires {
				w := w
				out = append(out,
					&Scenario{Name: "sequence1/" + w.Name(), Dims: []int{3, numAttempts}, Quick: 1, Full: 2, Body: func(x *X) {
						runReconnect(x, w, x.D[1:], []int{3, 0, 1}[x.D[0]])
					}},
					&Scenario{Name: "sequence3/" + w.Name(), Dims: []int{3, numAttempts, numAttempts, numAttempts}, Quick: 0, Full: 0, Skip: func(d []int) bool { return final(d[1:]) }, NoPoints: true, Body: func(x *X) {
						runReconnect(x, w, x.D[1:], []int{3, 0, 1}[x.D[0]])
					}},
					&Scenario{Name: "calls/" + w.Name(), Dims: []int{3, 8, 4, 2}, Quick: 1, Full: 2, Body: func(x *X) {
						kind := []int{atEOF, atClose, atForbid}[x.D[0]]
						at := []time.Duration{connLife - time.Second, connLife - 1, connLife, connLife + 1, connLife + time.Second/2, connLife + time.Second - 1, connLife + time.Second, connLife + time.Second + 1}[x.D[1]]
						runReconnectCalls(x, w, kind, at, x.D[2], x.D[3]+1)
					}},
					&Scenario{Name: "calls-delayed/" + w.Name(), Dims: []int{3, 2, 4}, Quick: 1, Full: 1, SleepFor: 2 * time.Second, Body: func(x *X) {
						runReconnectCalls(x, w, []int{atEOF, atClose, atForbid}[x.D[0]], connLife-time.Second/2, x.D[2], x.D[1]+1)
					}},
				)
			}
			for _, w := range wires {
				w := w
				// how it ends: forbidden at once or after a reconnect, or the backoff is exhausted
				ends := [][]int{{atForbid}, {atForbidErr}, {atEOF, atForbid}, {atConnErr, atHsError}, {atEOF, atEOF}, {atHsEOF, atFlash, atConnErr}, {atCloseErr, atConnErr}}
				backoffs := []int{1, 1, 1, 1, 0, 1, 1}
				out = append(out, &Scenario{Name: "again/" + w.Name(), Dims: []int{len(ends), numAttempts, numAttempts}, Quick: 0, Full: 1, Skip: func(d []int) bool { return final(d[1:]) }, Body: func(x *X) {
					runReconnectAgain(x, w, ends[x.D[0]], backoffs[x.D[0]], x.D[1:])
				}})
			}
			w := wires[0]
			out = append(out,
				&Scenario{Name: "stop", Dims: []int{numAttempts, numAttempts, 120, 2}, NoPoints: true, Skip: func(d []int) bool { return final(d[:2]) }, Body: func(x *X) {
					runReconnectStop(x, w, x.D[:2], time.Duration(x.D[2])*time.Second/2+time.Second/4, x.D[3] == 1)
				}},
				&Scenario{Name: "stop-sched", Dims: []int{numAttempts, 10, 2}, Quick: 1, Full: 2, QuickCase: func(d []int) bool { return d[1]%3 == 0 }, Body: func(x *X) {
					runReconnectStop(x, w, x.D[:1], time.Duration(x.D[1])*time.Second+time.Second/4, x.D[2] == 1)
				}},
				&Scenario{Name: "sequence2", Dims: []int{numAttempts, numAttempts}, Quick: 0, Full: 1, OnlyFull: true, Skip: final, Body: func(x *X) {
					runReconnect(x, w, x.D, 3)
				}},
				&Scenario{Name: "sequence4", Dims: []int{2, numAttempts, numAttempts, numAttempts, numAttempts}, OnlyFull: true, NoPoints: true, Skip: func(d []int) bool { return final(d[1:]) }, Body: func(x *X) {
					runReconnect(x, w, x.D[1:], []int{3, 2}[x.D[0]])
				}})
			return out
		}})
}
