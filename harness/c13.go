package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C13: keep-alive and timeout.

type timeHub struct {
	signalr.Hub
	live *int
}

func (h *timeHub) Call(a string) string { return a }
func (h *timeHub) Hush(a string)        {}

// Drain takes the items as they come
func (h *timeHub) Drain(ch <-chan int) {
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return
			}
		case <-h.Context().Done():
			return
		}
	}
}

// Up takes an item every d milliseconds
func (h *timeHub) Up(ch <-chan int, d int) {
	*h.live++
	defer func() { *h.live-- }()
	for {
		time.Sleep(time.Duration(d) * time.Millisecond)
		select {
		case _, ok := <-ch:
			if !ok {
				return
			}
		case <-h.Context().Done():
			return
		}
	}
}

const (
	ms    = time.Millisecond
	slack = 5 * ms
)

// timed is a connection whose times are judged.
type timed struct {
	x       *X
	w       Wire
	c       *Conn
	hsLen   int
	ka, to  time.Duration
	start   time.Time
	recv    []time.Duration // when messages were fed
	ended   func() (bool, time.Time, error)
	send    func()
	stuckAt int // the write which gets stuck, or -1
	loose   time.Duration
	first   int                  // the first write which is judged
	open    func(n int) []string // opens streams to the party
	ids     []string
	nfed    int
}

func (t *timed) at() time.Duration { return time.Since(t.start) }

// feed lets the party receive a message of the given kind
func (t *timed) feed(kind int) {
	switch kind {
	case 0:
		t.c.Feed(t.w.Ping())
	case 1:
		t.c.Feed(t.w.Inv(1, "", "hush", []any{"x"}, nil))
	case 2:
		t.c.Feed(t.w.Cancel("nobody"))
	case 3:
		t.c.Feed(t.w.Inv(1, "i", "nobody", nil, nil))
	case 4:
		t.c.Feed(t.w.Item(t.ids[0], 1))
	case 5:
		t.c.Feed(t.w.Completion(t.ids[t.nfed], nil, false, ""))
	}
	t.nfed++
	t.recv = append(t.recv, t.at())
}

// run lets messages come in and go out after the given gaps. A gap of 0 ends the sequence.
func (t *timed) run(in, out []time.Duration, kind int) {
	total := t.to + 2*time.Second
	for _, d := range append(append([]time.Duration{}, in...), out...) {
		total += d
	}
	next := func(gaps []time.Duration, i int, base time.Duration) (time.Duration, bool) {
		if i >= len(gaps) || gaps[i] == 0 {
			return 0, false
		}
		return base + gaps[i], true
	}
	var i, o int
	var lastIn, lastOut time.Duration
	for {
		ni, oki := next(in, i, lastIn)
		no, oko := next(out, o, lastOut)
		switch {
		case oki && (!oko || ni <= no):
			time.Sleep(ni - t.at())
			if e, _, _ := t.ended(); !e {
				t.feed(kind)
			}
			lastIn = ni
			i++
		case oko:
			time.Sleep(no - t.at())
			if e, _, _ := t.ended(); !e {
				t.send()
			}
			lastOut = no
			o++
		default:
			time.Sleep(total - t.at())
			t.x.Idle()
			return
		}
	}
}

// judge compares the times of writes and of the end with the intervals.
func (t *timed) judge() {
	x := t.x
	last := time.Duration(0)
	if n := len(t.recv); n > 0 {
		last = t.recv[n-1]
	}
	// reads which came too late
	prev := time.Duration(0)
	for _, r := range t.recv {
		if r > prev+t.to+slack+t.loose {
			last = prev
			break
		}
		prev = r
	}
	deadline := last + t.to
	ended, when, err := t.ended()
	if !ended {
		x.Fail("no-timeout", "not ended at %v, last message received at %v, timeout %v", t.at(), last, t.to)
		return
	}
	end := when.Sub(t.start)
	if end < deadline-slack {
		x.Fail("early-timeout", "ended at %v, last message received at %v, timeout %v: %v", end, last, t.to, err)
	}
	closing := time.Duration(0)
	if t.stuckAt >= 0 {
		// trying to send the close message takes a while
		closing = 10 * time.Second
	}
	if end > deadline+slack+t.loose+closing {
		x.Fail("late-timeout", "ended at %v, last message received at %v, timeout %v: %v", end, last, t.to, err)
	}
	if err == nil || !strings.Contains(strings.ToLower(err.Error()), "timeout") {
		x.Fail("timeout-error", "error at the end is %v", err)
	}
	if t.stuckAt >= 0 {
		return
	}
	var lastW, before, lastPing time.Duration
	pinged := false
	for i := range t.c.writes {
		msgs, rest, err := t.w.Parse(t.c.writes[i])
		if i < t.first {
			// handshake
			continue
		}
		if err != nil || len(rest) > 0 {
			x.Fail("wire-garbage", "%v %q", err, rest)
			continue
		}
		when := t.c.wtimes[i].Sub(t.start)
		for _, m := range msgs {
			if when > lastW+t.ka+slack {
				x.Fail("gap", "nothing sent from %v to %v, keep-alive interval %v", lastW, when, t.ka)
			}
			// A message which is sent at the very moment the ping becomes due does not forbid it
			if lastW < when {
				before = lastW
			}
			if m.Type == 6 && (when < before+t.ka-slack || pinged && when == lastPing) {
				x.Fail("needless-ping", "ping at %v, last message sent at %v, keep-alive interval %v", when, lastW, t.ka)
			}
			if m.Type == 6 {
				pinged, lastPing = true, when
			}
			if m.Type != 7 {
				lastW = when
			}
			if when > end+slack {
				x.Fail("after-end", "%v sent at %v, ended at %v", m, when, end)
			}
		}
	}
	if end > lastW+t.ka+slack {
		x.Fail("gap", "nothing sent from %v to the end at %v, keep-alive interval %v", lastW, end, t.ka)
	}
}

func timedServer(x *X, w Wire, ka, to time.Duration, opts ...func(signalr.Party) error) (*timed, *Peer) {
	live := 0
	s, _ := newServer(x, append([]func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &timeHub{live: &live} }),
		signalr.KeepAliveInterval(ka), signalr.TimeoutInterval(to)}, opts...)...)
	p := connectPeer(x, s, "p", w)
	t := &timed{x: x, w: w, c: p.Conn, hsLen: p.hsLen, ka: ka, to: to, start: time.Now(), stuckAt: -1, first: 1,
		ended: func() (bool, time.Time, error) { return p.Served, p.ServedAt, p.ServeErr },
		send:  func() { s.HubClients().All().Send("note", 1) },
		open: func(n int) (ids []string) {
			for i := 0; i < n; i++ {
				id := fmt.Sprint("k", i)
				ids = append(ids, id)
				p.Feed(w.Inv(1, "", "drain", nil, []string{id}))
			}
			return ids
		}}
	return t, p
}

func timedClient(x *X, w Wire, ka, to time.Duration, opts ...func(signalr.Party) error) (*timed, *Srv) {
	rcv := &faultRecv{}
	s := newClient(x, w, append([]func(signalr.Party) error{signalr.WithReceiver(rcv), signalr.KeepAliveInterval(ka), signalr.TimeoutInterval(to)}, opts...)...)
	s.Connect()
	var closed bool
	var at time.Time
	done := s.C.WaitForState(s.Conn.ctx, signalr.ClientClosed)
	go func() {
		if err := <-done; err == nil {
			closed, at = true, time.Now()
		}
	}()
	t := &timed{x: x, w: w, c: s.Conn, hsLen: s.hsLen, ka: ka, to: to, start: time.Now(), stuckAt: -1, first: 1,
		ended: func() (bool, time.Time, error) { return closed, at, s.C.Err() },
		send:  func() { s.C.Send("note", 1) },
		open: func(n int) []string {
			for i := 0; i < n; i++ {
				ch := s.C.PullStream("pull")
				go func() {
					for range ch {
					}
				}()
			}
			x.Idle()
			var ids []string
			for _, m := range s.Msgs() {
				ids = append(ids, m.ID)
			}
			return ids
		}}
	return t, s
}

func init() {
	register(&Property{ID: "C13", Title: "keep-alive and timeout",
		Rule: "server and client with all combinations of 3 keep-alive and 3 timeout intervals, up to two received messages (6 kinds) and up to two sent messages at 5 distances each around the intervals, in virtual time; writes which get stuck at every position; uploads which keep the loop busy while messages wait; values which can't be serialized; schedules with bounded deviations",
		Scenarios: func() []*Scenario {
			kas := []time.Duration{2 * time.Second, 5 * time.Second, 7 * time.Second}
			tos := []time.Duration{3 * time.Second, 6 * time.Second, 11 * time.Second}
			inGap := func(i int, to time.Duration) time.Duration {
				return []time.Duration{0, time.Second, to - 20*ms, to + 20*ms, to / 2}[i]
			}
			outGap := func(i int, ka time.Duration) time.Duration {
				return []time.Duration{0, ka / 3, ka - 20*ms, ka + 20*ms, 2*ka - 300*ms}[i]
			}
			var out []*Scenario
			for _, w := range wires {
				for _, side := range []string{"server", "client"} {
					w, side := w, side
					make1 := func(x *X, ka, to time.Duration, opts ...func(signalr.Party) error) *timed {
						if side == "server" {
							t, _ := timedServer(x, w, ka, to, opts...)
							return t
						}
						t, _ := timedClient(x, w, ka, to, opts...)
						return t
					}
					traffic := func(x *X) {
						ka, to := kas[x.D[0]], tos[x.D[1]]
						t := make1(x, ka, to)
						if x.D[6] > 3 {
							t.ids = t.open(2)
							x.Idle()
							// the time when the party received and sent something last
							t.start, t.first = time.Now(), t.c.nwrite
						}
						t.run([]time.Duration{inGap(x.D[2], to), inGap(x.D[3], to)}, []time.Duration{outGap(x.D[4], ka), outGap(x.D[5], ka)}, x.D[6])
						t.judge()
					}
					skip := func(d []int) bool {
						// a sequence which ends has no further gaps
						return d[2] == 0 && (d[3] != 0 || d[6] != 0) || d[4] == 0 && d[5] != 0
					}
					out = append(out,
						&Scenario{Name: "traffic/" + side + "/" + w.Name(), Dims: []int{3, 3, 5, 5, 5, 5, 6}, Quick: 0, Full: 0, Skip: skip, Body: traffic},
						&Scenario{Name: "traffic-sched/" + side + "/" + w.Name(), Dims: []int{2, 2, 5, 3, 5, 3, 6}, Quick: 1, Full: 1, Skip: skip,
							QuickCase: func(d []int) bool {
								return d[0] == 0 && d[1] == 0 && d[3] == 0 && d[5] == 0 && (d[6] == 0 || d[6] == 3)
							},
							Body: traffic},
						// writes get stuck
						&Scenario{Name: "stuck/" + side + "/" + w.Name(), Dims: []int{3, 3, 4, 5}, Quick: 0, Full: 1, Body: func(x *X) {
							ka, to := kas[x.D[0]], tos[x.D[1]]
							t := make1(x, ka, to)
							t.stuckAt = x.D[2]
							t.c.wblock = t.c.nwrite + 1 + t.stuckAt
							in := []time.Duration{to / 2, to - 20*ms, to / 2, to - 20*ms, to / 2}
							t.run(in[:x.D[3]], []time.Duration{ka / 2, ka + 20*ms}, 3)
							t.judge()
						}},
						// values which can't be serialized are not sent
						&Scenario{Name: "unsent/" + side + "/" + w.Name(), Dims: []int{3, 4}, Quick: 0, Full: 1, Body: func(x *X) {
							ka := kas[x.D[0]]
							to := 12 * time.Second
							live := 0
							var t *timed
							if side == "server" {
								s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &timeHub{live: &live} }),
									signalr.KeepAliveInterval(ka), signalr.TimeoutInterval(to))
								p := connectPeer(x, s, "p", w)
								t = &timed{x: x, w: w, c: p.Conn, hsLen: p.hsLen, ka: ka, to: to, start: time.Now(), stuckAt: -1, first: 1,
									ended: func() (bool, time.Time, error) { return p.Served, p.ServedAt, p.ServeErr },
									send:  func() { s.HubClients().All().Send("note", func() {}) }}
							} else {
								var s *Srv
								t, s = timedClient(x, w, ka, to)
								t.send = func() { s.C.Send("note", func() {}) }
							}
							g := []time.Duration{ka / 3, ka / 2, ka - 20*ms, ka + 20*ms}[x.D[1]]
							t.run(nil, []time.Duration{g, g, g}, 0)
							t.judge()
						}})
				}
				// a method which takes its uploads late keeps the loop busy
				busy := func(x *X) {
					ka, to := 2*time.Second, tos[x.D[0]]
					crt := []time.Duration{2500 * ms, 4 * time.Second, 8 * time.Second}[x.D[1]]
					t, p := timedServer(x, w, ka, to, signalr.StreamBufferCapacity(1), signalr.ChanReceiveTimeout(crt))
					slow := []int{300, 3500, 1000000}[x.D[2]]
					p.Feed(w.Inv(1, "u", "up", []any{slow}, []string{"k"}))
					t.recv = append(t.recv, t.at())
					for i := 0; i < 3; i++ {
						p.Feed(w.Item("k", i))
						t.recv = append(t.recv, t.at())
					}
					for i := 0; i < 10; i++ {
						time.Sleep(to / 2)
						t.feed(0)
						if e, at, err := t.ended(); e {
							x.Fail("early-timeout", "ended at %v while messages are received: %v", at.Sub(t.start), err)
							return
						}
					}
					t.loose = 2 * crt
					time.Sleep(to + 2*crt + time.Second)
					x.Idle()
					if e, at, err := t.ended(); !e {
						x.Fail("no-timeout", "not ended at %v", t.at())
					} else if n := t.recv[len(t.recv)-1]; at.Sub(t.start) < n+to-slack {
						x.Fail("early-timeout", "ended at %v, last message received at %v: %v", at.Sub(t.start), n, err)
					}
				}
				out = append(out, &Scenario{Name: "busy/" + w.Name(), Dims: []int{3, 3, 3}, Quick: 1, Full: 2, Body: busy})
			}
			return out
		}})
	_ = fmt.Sprint
}
