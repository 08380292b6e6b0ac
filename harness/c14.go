package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C14: faults end the connection completely.

type faultRec struct {
	calls []string
	ended int // methods that have returned
	live  int // methods and producers that are running
}

type faultHub struct {
	signalr.Hub
	r *faultRec
}

func (h *faultHub) enter(s string) func() {
	h.r.calls = append(h.r.calls, s)
	h.r.live++
	return func() { h.r.live-- }
}

func (h *faultHub) Call(a string) string { defer h.enter(a)(); return a + a }

func (h *faultHub) Stream(n int) <-chan int {
	defer h.enter("stream")()
	ch := make(chan int)
	ctx := h.Context()
	h.r.live++
	go func() {
		defer func() { h.r.live-- }()
		defer close(ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- i:
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch
}

func (h *faultHub) Up(ch <-chan int) int {
	defer h.enter("up")()
	n := 0
	for {
		select {
		case i, ok := <-ch:
			if !ok {
				return n
			}
			n += i
			h.r.calls = append(h.r.calls, fmt.Sprint("item", i))
		case <-h.Context().Done():
			return -1
		}
	}
}

// Deaf does not take what is uploaded
func (h *faultHub) Deaf(ch <-chan int) int { defer h.enter("deaf")(); return 0 }

func (h *faultHub) Wait() { defer h.enter("wait")(); <-h.Context().Done() }
func (h *faultHub) Quit() { defer h.enter("quit")(); h.Abort() }
func (h *faultHub) Bye()  { defer h.enter("bye")(); _ = h.Close("bye", false) }

func faultServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, *faultRec, context.CancelFunc) {
	r := &faultRec{}
	s, cancel := newServer(x, append([]func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &faultHub{r: r} })}, opts...)...)
	return s, r, cancel
}

// faultScript is what the client sends, and what the hub is called with.
func faultScript(w Wire) (frames [][]byte, calls []string) {
	add := func(b []byte, call string) {
		frames = append(frames, b)
		calls = append(calls, call)
	}
	add(hsReq(w), "")
	add(w.Inv(1, "1", "call", []any{"a"}, nil), "a")
	add(w.Inv(4, "2", "stream", []any{3}, nil), "stream")
	add(w.Inv(1, "3", "up", nil, []string{"k"}), "up")
	add(w.Item("k", 1), "item1")
	add(w.Inv(1, "9", "unknown", nil, nil), "")
	add(w.Item("k", 2), "item2")
	add(w.Inv(1, "4", "wait", nil, nil), "wait")
	add(w.Completion("k", nil, false, ""), "")
	add(w.Ping(), "")
	add(w.Inv(1, "5", "call", []any{"b"}, nil), "b")
	return
}

const nFault = 11

// judgeFault checks what has been called. When lossy, the method which gets the upload may see the end of the connection first.
func judgeFault(x *X, r *faultRec, want []string, lossy bool) {
	n := map[string]int{}
	for _, c := range r.calls {
		n[c]++
	}
	for _, c := range want {
		if c != "" {
			if n[c] != 1 && !(lossy && n[c] == 0 && strings.HasPrefix(c, "item")) {
				x.Fail("processed", "%s was processed %d times: calls %v, want %v", c, n[c], r.calls, want)
			}
			delete(n, c)
		}
	}
	for c := range n {
		x.Fail("processed", "%s was not received: calls %v, want %v", c, r.calls, want)
	}
}

// judgeGone checks that the connection has ended without traces, and that q still works.
func judgeGone(x *X, r *faultRec, p, q *Peer, base int, what string) {
	if !p.Served {
		x.Fail("zombie", "%s: Serve has not returned", what)
		return
	}
	if r.live != 0 {
		x.Fail("user-code", "%s: %d methods have not ended: the hub's context is not done", what, r.live)
	}
	if p.ServeErr == nil {
		x.Fail("no-error", "%s: Serve returns nil", what)
	}
	x.Census(base, "%s", what)
	if q.Served {
		x.Fail("other", "%s ended another connection: %v", what, q.ServeErr)
		return
	}
	n := len(r.calls)
	q.Feed(q.W.Inv(1, "z", "call", []any{"z"}, nil))
	x.Idle()
	if got := answer(x, q, "z"); got != "zz" || len(r.calls) != n+1 {
		x.Fail("other", "%s: another connection gets %v", what, got)
	}
}

var long = signalr.TimeoutInterval(10 * time.Minute)

func init() {
	register(&Property{ID: "C14", Title: "faults",
		Rule: "read: a session of 11 messages cut after every message and inside every message by end of stream or an error; write: every write of the server fails, fails partially, or gets stuck until the timeout, the cancellation of the server, the abort of the hub or the end of the transport; " +
			"cancel: the server is cancelled, the hub aborts or closes after every message; client-*: the same for a client with four pending calls; connect: faults in the client's connection setup; deaf: an upload nobody takes; linger: the transport stays open after the end of the connection. A second connection has to be unaffected, and no goroutine must be left. All schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				read := func(x *X) {
					s, r, _ := faultServer(x, long)
					q := connectPeer(x, s, "q", w)
					x.Settle(time.Second)
					base := x.Goroutines()
					p := startPeer(x, s, "p", w)
					frames, calls := faultScript(w)
					n := x.D[0]
					fs := append([][]byte{}, frames[:n]...)
					if x.D[1] == 1 && n < len(frames) {
						fs = append(fs, frames[n][:len(frames[n])/2])
					}
					var last []byte
					if x.D[3] == 3 {
						// the error comes with everything, else with the last message, or alone
						last, fs = bytes.Join(fs, nil), nil
					} else if x.D[3] == 2 && len(fs) > 0 {
						last, fs = fs[len(fs)-1], fs[:len(fs)-1]
					}
					for _, f := range fs {
						p.Feed(f)
						if x.D[3] == 0 || x.D[3] == 2 {
							x.Idle()
						}
					}
					rerr := []error{io.EOF, errInjected}[x.D[2]]
					if len(last) > 0 {
						p.FeedLast(last, rerr)
					} else {
						p.FeedErr(rerr)
					}
					x.Idle()
					p.hsLen = 3
					judgeFault(x, r, calls[:n], x.D[3] >= 1)
					judgeGone(x, r, p, q, base, fmt.Sprintf("read error after %d messages", n))
					if n > 0 && !errors.Is(p.ServeErr, map[int]error{0: io.EOF, 1: errInjected}[x.D[2]]) {
						x.Fail("wrong-error", "Serve returns %v", p.ServeErr)
					}
					x.Ev("%v %v", p.ServeErr, r.calls)
				}
				write := func(x *X) {
					s, r, cancel := faultServer(x)
					base0 := x.Goroutines()
					q := connectPeer(x, s, "q", w)
					x.Settle(time.Second)
					base := x.Goroutines()
					p := startPeer(x, s, "p", w)
					how := x.D[1]
					switch how {
					case 0:
						p.wfail, p.werr = x.D[0]+1, errInjected
					case 1:
						p.wfail, p.werr, p.wpartial = x.D[0]+1, errInjected, true
					default:
						p.wblock = x.D[0] + 1
					}
					frames, _ := faultScript(w)
					for _, f := range frames {
						p.Feed(f)
					}
					x.Settle(time.Second)
					if p.nwrite <= x.D[0] {
						// not reached
						return
					}
					what := "write"
					wait := func(d time.Duration) {
						for ; d > 0; d -= time.Second {
							time.Sleep(time.Second)
							q.Feed(w.Ping())
						}
						x.Idle()
					}
					switch how {
					case 2:
						what = "timeout"
						wait(50 * time.Second)
					case 3:
						what = "cancel"
						cancel()
						wait(20 * time.Second)
					case 4:
						what = "transport end"
						p.Conn.Close()
						wait(5 * time.Second)
					case 5:
						what = "abort"
						p.Feed(w.Inv(1, "", "quit", nil, nil))
						wait(30 * time.Second)
					case 6:
						what = "close"
						p.Feed(w.Close("", false))
						wait(30 * time.Second)
					case 7:
						what = "read error"
						p.FeedErr(errInjected)
						wait(30 * time.Second)
					}
					if how == 3 {
						if !p.Served {
							x.Fail("zombie", "cancel: Serve has not returned")
						} else if !q.Served {
							x.Fail("zombie", "cancel: Serve of another connection has not returned")
						} else if r.live > 0 {
							x.Fail("user-code", "%d methods have not ended", r.live)
						}
						x.Census(base0, "cancel")
						return
					}
					if how == 6 {
						if p.Served {
							p.ServeErr = errInjected // nil is fine
						}
					}
					judgeGone(x, r, p, q, base, what)
					x.Ev("%s %v", what, p.ServeErr)
				}
				cancel := func(x *X) {
					s, r, cancel := faultServer(x, long)
					base0 := x.Goroutines()
					q := connectPeer(x, s, "q", w)
					x.Settle(time.Second)
					base := x.Goroutines()
					p := startPeer(x, s, "p", w)
					frames, calls := faultScript(w)
					n := x.D[0]
					for i := 0; i < n; i++ {
						p.Feed(frames[i])
						if x.D[2] == 0 {
							x.Idle()
						}
					}
					if x.D[2] == 1 && n > 0 {
						x.Idle()
					}
					calls = calls[:n]
					switch x.D[1] {
					case 0:
						cancel()
						x.Settle(20 * time.Second)
						if !p.Served || !q.Served {
							x.Fail("zombie", "cancel: Serve has not returned (%v %v)", p.Served, q.Served)
						}
						if r.live > 0 {
							x.Fail("user-code", "%d methods have not ended", r.live)
						}
						judgeFault(x, r, calls, false)
						x.Census(base0, "cancel")
						return
					case 1:
						if n == 0 {
							return
						}
						p.Feed(w.Inv(1, "", "quit", nil, nil))
						calls = append(calls, "quit")
					case 2:
						if n == 0 {
							return
						}
						p.Feed(w.Close("client error", false))
					}
					x.Settle(20 * time.Second)
					judgeFault(x, r, calls, false)
					judgeGone(x, r, p, q, base, "end")
					x.Ev("%v", p.ServeErr)
				}
				out = append(out,
					&Scenario{Name: "read/" + w.Name(), Dims: []int{nFault + 1, 2, 2, 4}, Quick: 0, Full: 2, Body: read},
					&Scenario{Name: "read-sched/" + w.Name(), Dims: []int{nFault + 1, 2, 1, 4}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[0]%3 == 0 && (d[3] == 1 || d[3] == 3) }, Body: read},
					&Scenario{Name: "write/" + w.Name(), Dims: []int{10, 8}, Quick: 0, Full: 1, Body: write},
					&Scenario{Name: "write-sched/" + w.Name(), Dims: []int{5, 8}, Quick: 1, Full: 1,
						QuickCase: func(d []int) bool { return d[0] > 0 && d[0] < 4 }, Body: write},
					&Scenario{Name: "cancel/" + w.Name(), Dims: []int{nFault + 1, 3, 2}, Quick: 0, Full: 2, Body: cancel},
					&Scenario{Name: "cancel-sched/" + w.Name(), Dims: []int{nFault + 1, 3, 1}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[0]%3 == 0 }, Body: cancel},
					&Scenario{Name: "deaf/" + w.Name(), Dims: []int{3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s, r, _ := faultServer(x, long, signalr.StreamBufferCapacity(1))
							q := connectPeer(x, s, "q", w)
							x.Settle(time.Second)
							base := x.Goroutines()
							p := connectPeer(x, s, "p", w)
							p.Feed(w.Inv(1, "1", "deaf", nil, []string{"k"}))
							for i := 0; i < 2+x.D[0]; i++ {
								p.Feed(w.Item("k", i))
							}
							if x.D[1] == 1 {
								p.Feed(w.Completion("k", nil, false, ""))
							}
							x.Settle(time.Minute)
							p.FeedErr(errInjected)
							x.Settle(time.Minute)
							judgeGone(x, r, p, q, base, "deaf")
						}},
					// the transport stays open when the connection ends
					&Scenario{Name: "linger/" + w.Name(), Dims: []int{8}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s, r, cancel := faultServer(x)
							base := x.Goroutines()
							p := connectPeer(x, s, "p", w)
							p.linger = time.Hour
							p.Feed(w.Inv(1, "1", "wait", nil, nil))
							p.Feed(w.Inv(4, "2", "stream", []any{3}, nil))
							p.Feed(w.Inv(1, "3", "up", nil, []string{"k"}))
							switch x.D[0] {
							case 0:
								p.Feed(w.Close("", false))
							case 1:
								p.Feed(w.Close("bye", true))
							case 2:
								p.FeedErr(io.EOF)
							case 3:
								p.FeedErr(errInjected)
							case 4:
								p.Feed([]byte{1, 0xc1, 0x1e})
							case 5:
								p.Feed(w.Inv(1, "", "quit", nil, nil))
							case 6:
								cancel()
							case 7:
								time.Sleep(35 * time.Second)
							}
							x.Settle(20 * time.Second)
							if !p.Served {
								x.Fail("zombie", "Serve has not returned")
							}
							if r.live > 0 {
								x.Fail("user-code", "%d methods have not ended", r.live)
							}
							x.Settle(2 * time.Hour)
							x.Census(base, "linger")
						}},
					&Scenario{Name: "client/" + w.Name(), Dims: []int{11, 10, 3}, Quick: 0, Full: 2, Skip: func(d []int) bool { return d[2] == 2 && d[1] > 1 }, Body: func(x *X) { faultClient(x, w) }},
					&Scenario{Name: "client-sched/" + w.Name(), Dims: []int{11, 10, 1}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[0]%5 == 0 }, Body: func(x *X) { faultClient(x, w) }},
					&Scenario{Name: "client-write/" + w.Name(), Dims: []int{10, 8}, Quick: 0, Full: 1, Body: func(x *X) { faultClientWrite(x, w) }},
					&Scenario{Name: "client-write-sched/" + w.Name(), Dims: []int{8, 8}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[0] == 1 || d[0] == 4 }, Body: func(x *X) { faultClientWrite(x, w) }},
				)
			}
			return out
		}})
}

// faultClientScript starts four calls.
func faultCalls(s *Srv) (cs []*col, up chan int) {
	up = make(chan int, 8)
	cs = append(cs, collect("a", s.C.Invoke("a", 1)))
	s.x.Idle()
	cs = append(cs, collectErr("b", s.C.Send("b", 2)))
	s.x.Idle()
	cs = append(cs, collect("c", s.C.PullStream("c", 3)))
	s.x.Idle()
	cs = append(cs, collect("d", s.C.PushStreams("d", up)))
	s.x.Idle()
	up <- 1
	s.x.Idle()
	up <- 2
	return
}

type faultRecv struct {
	signalr.Receiver
	calls []string
}

func (r *faultRecv) News(a string) string { r.calls = append(r.calls, a); return a }

// faultClient ends the connection of a client after every message from the server, in ten ways.
func faultClient(x *X, w Wire) {
	rcv := &faultRecv{}
	s := newClient(x, w, signalr.WithReceiver(rcv))
	base := x.Goroutines()
	s.Connect()
	cs, up := faultCalls(s)
	x.Idle()
	ids := s.ids()
	frames := [][]byte{
		w.Item(ids["c"], 1),
		w.Inv(1, "", "news", []any{"n1"}, nil),
		w.Completion(ids["b"], nil, false, ""),
		w.Ping(),
		w.Inv(1, "r1", "news", []any{"n2"}, nil),
		w.Item(ids["c"], 2),
		w.Completion(ids["a"], "av", true, ""),
		w.Completion(ids["c"], nil, false, ""),
		w.Inv(1, "r2", "unknown", nil, nil),
		w.Completion(ids["d"], "dv", true, ""),
	}
	n := x.D[0]
	how := clientEnds[x.D[1]]
	if x.D[2] == 2 && n > 0 {
		// the end comes with the last message
		how = "with-" + how
	}
	for i := 0; i < n; i++ {
		if rerr := map[string]error{"with-eof": io.EOF, "with-error": errInjected}[how]; rerr != nil && i == n-1 {
			s.FeedLast(frames[i], rerr)
			break
		}
		s.Feed(frames[i])
		if x.D[2] != 1 {
			x.Idle()
		}
	}
	if how == "stop" || how == "cancel" || how == "write-error" {
		x.Idle()
	}
	endClient(x, s, how)
	x.Settle(20 * time.Second)
	judgeStop(x, s)
	s.Conn.Close()
	close(up)
	x.Settle(10 * time.Second)
	judgeFaultClient(x, s, cs, rcv, n, how, base)
}

// judgeStop checks that the client is closed, and can be stopped though its transport is still open.
func judgeStop(x *X, s *Srv) {
	if st := s.C.State(); st != signalr.ClientClosed {
		x.Fail("state", "client state %v", st)
	}
	stopped := false
	go func() {
		s.C.Stop()
		stopped = true
	}()
	x.Settle(20 * time.Second)
	if !stopped {
		x.Fail("stop", "Stop of a closed client does not return")
	}
}

func judgeFaultClient(x *X, s *Srv, cs []*col, rcv *faultRecv, n int, how string, base int) {
	want := func(done bool, v any) outcome {
		if !done {
			return outcome{kind: "error"}
		}
		if v == nil {
			return outcome{kind: "void"}
		}
		return outcome{kind: "value", val: v}
	}
	cs[0].judge(x, want(n >= 7, "av"))
	cs[1].judge(x, want(n >= 3, nil))
	cs[3].judge(x, want(n >= 10, "dv"))
	var items []any
	if n >= 1 {
		items = append(items, 1)
	}
	if n >= 6 {
		items = append(items, 2)
	}
	end := "error"
	if n >= 8 {
		end = ""
	}
	cs[2].judgeItems(x, items, end)
	var calls []string
	if n >= 2 {
		calls = append(calls, "n1")
	}
	if n >= 5 {
		calls = append(calls, "n2")
	}
	if len(rcv.calls) != len(calls) || len(calls) == 2 && rcv.calls[0] == rcv.calls[1] {
		x.Fail("processed", "calls %v, want %v", rcv.calls, calls)
	}
	if s.C.Err() == nil && how != "close" {
		x.Fail("no-err", "the client has no error")
	}
	x.Census(base, "%s after %d messages", how, n)
	x.Ev("%v", s.C.Err())
}

// faultClientWrite lets the writes of the client fail.
func faultClientWrite(x *X, w Wire) {
	rcv := &faultRecv{}
	s := newClient(x, w, signalr.WithReceiver(rcv))
	base := x.Goroutines()
	how := x.D[1]
	switch how {
	case 0:
		s.wfail, s.werr = x.D[0]+1, errInjected
	case 1:
		s.wfail, s.werr, s.wpartial = x.D[0]+1, errInjected, true
	default:
		s.wblock = x.D[0] + 1
	}
	s.C.Start()
	x.Idle()
	s.Feed([]byte("{}\x1e"))
	x.Idle()
	up := make(chan int, 8)
	cs := []*col{
		collect("a", s.C.Invoke("a", 1)),
		collectErr("b", s.C.Send("b", 2)),
		collect("c", s.C.PullStream("c", 3)),
		collect("d", s.C.PushStreams("d", up)),
	}
	up <- 1
	up <- 2
	s.Feed(w.Inv(1, "r1", "unknown", nil, nil))
	s.Feed(w.Inv(1, "r2", "news", []any{"n"}, nil))
	x.Settle(time.Second)
	switch how {
	case 2: // timeout
		x.Settle(45 * time.Second)
	case 3:
		s.stop()
	case 4:
		go s.C.Stop()
	case 5:
		s.Conn.Close()
	case 6:
		s.Feed(w.Close("", false))
	case 7:
		s.FeedErr(errInjected)
	}
	x.Settle(30 * time.Second)
	judgeStop(x, s)
	s.Conn.Close()
	close(up)
	x.Settle(10 * time.Second)
	for _, c := range cs {
		c.judge(x, outcome{kind: "error"})
	}
	x.Census(base, "write error")
}
