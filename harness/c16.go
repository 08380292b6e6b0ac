package main

import (
	"io"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C16: outcomes of Invoke and Send.

// col collects what a result channel delivers.
type col struct {
	name   string
	send   bool
	got    []signalr.InvokeResult
	closed bool
}

func collect(name string, ch <-chan signalr.InvokeResult) *col {
	c := &col{name: name}
	go func() {
		for r := range ch {
			c.got = append(c.got, r)
		}
		c.closed = true
	}()
	return c
}

func collectErr(name string, ch <-chan error) *col {
	c := &col{name: name, send: true}
	go func() {
		for r := range ch {
			c.got = append(c.got, signalr.InvokeResult{Error: r})
		}
		c.closed = true
	}()
	return c
}

// outcome is what a call must yield.
type outcome struct {
	kind string // value, void, error, any-error, either
	val  any
	err  string
}

func (c *col) judge(x *X, o outcome) {
	if !c.closed {
		x.Fail("open", "%s: the result channel is not closed (got %v, want %v)", c.name, c.got, o)
		return
	}
	var vals []any
	var errs []error
	empty := 0
	for _, r := range c.got {
		switch {
		case r.Error != nil:
			errs = append(errs, r.Error)
		case r.Value != nil:
			vals = append(vals, r.Value)
		default:
			empty++
		}
	}
	bad := false
	switch o.kind {
	case "value":
		if c.send {
			bad = len(errs)+len(vals) > 0
		} else {
			bad = len(vals) != 1 || len(errs) > 0 || empty > 0 || !same(vals[0], o.val)
		}
	case "void":
		bad = len(vals)+len(errs) > 0 || empty > 1
	case "error":
		bad = len(errs) != 1 || len(vals) > 0 || empty > 0 || !strings.Contains(errs[0].Error(), o.err)
	case "either":
		// the value or an error
		if c.send {
			bad = len(vals) > 0 || len(errs) > 1
		} else {
			bad = len(vals)+len(errs) != 1 || empty > 0 || len(vals) == 1 && !same(vals[0], o.val)
		}
	}
	if bad {
		x.Fail("result-"+o.kind, "%s: the result channel yields %v, want %v", c.name, c.got, o)
	}
}

func (c *col) pending(x *X) {
	if c.closed || len(c.got) > 0 {
		x.Fail("early", "%s: %v before the completion (closed %v)", c.name, c.got, c.closed)
	}
}

// compKinds are the kinds of completions.
var compKinds = []struct {
	name string
	msg  func(w Wire, id string) []byte
	out  outcome
}{
	{"value", func(w Wire, id string) []byte { return w.Completion(id, "v"+id, true, "") }, outcome{kind: "value"}},
	{"void", func(w Wire, id string) []byte { return w.Completion(id, nil, false, "") }, outcome{kind: "void"}},
	{"error", func(w Wire, id string) []byte { return w.Completion(id, nil, false, "err"+id) }, outcome{kind: "error"}},
	{"array", func(w Wire, id string) []byte { return w.Completion(id, []any{id, 2, true}, true, "") }, outcome{kind: "value"}},
	{"zero", func(w Wire, id string) []byte { return w.Completion(id, 0, true, "") }, outcome{kind: "value"}},
	{"empty", func(w Wire, id string) []byte { return w.Completion(id, "", true, "") }, outcome{kind: "value"}},
	{"false", func(w Wire, id string) []byte { return w.Completion(id, false, true, "") }, outcome{kind: "value"}},
	{"null", func(w Wire, id string) []byte { return w.Completion(id, nil, true, "") }, outcome{kind: "void"}},
}

func compOutcome(k int, id string) outcome {
	o := compKinds[k].out
	switch compKinds[k].name {
	case "value":
		o.val = "v" + id
	case "array":
		o.val = []any{id, 2, true}
	case "zero":
		o.val = 0
	case "empty":
		o.val = ""
	case "false":
		o.val = false
	case "error":
		o.err = "err" + id
	}
	return o
}

// invocations maps targets to the ids that the client sent.
func (s *Srv) ids() map[string]string {
	out := map[string]string{}
	seen := map[string]bool{}
	for _, m := range s.Msgs() {
		if m.Type == 1 || m.Type == 4 {
			if seen[m.ID] || m.ID == "" {
				s.x.Fail("id-reuse", "id %q is used again: %v", m.ID, m)
			}
			seen[m.ID] = true
			out[m.Target] = m.ID
			for _, st := range m.Streams {
				if seen[st] || st == "" {
					s.x.Fail("id-reuse", "id %q is used again: %v", st, m)
				}
				seen[st] = true
			}
		}
	}
	return out
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// startCall begins a call of the given kind.
func startCall(s *Srv, send bool, target string) *col {
	if send {
		return collectErr("Send "+target, s.C.Send(target, target))
	}
	return collect("Invoke "+target, s.C.Invoke(target, target))
}

func aliveClient(x *X, s *Srv) {
	c := startCall(s, false, "last")
	x.Idle()
	id := s.ids()["last"]
	s.Feed(s.W.Completion(id, "lastv", true, ""))
	x.Idle()
	c.judge(x, outcome{kind: "value", val: "lastv"})
}

var clientEnds = []string{"eof", "error", "close", "close-error", "garbage", "timeout", "stop", "cancel", "write-error", "unknown-id"}

func endClient(x *X, s *Srv, how string) {
	switch how {
	case "eof":
		s.FeedErr(io.EOF)
	case "error":
		s.FeedErr(errInjected)
	case "close":
		s.Feed(s.W.Close("", false))
	case "close-error":
		s.Feed(s.W.Close("server error", false))
	case "garbage":
		if s.W.Name() == "json" {
			s.Feed([]byte("garbage\x1e"))
		} else {
			s.Feed([]byte{1, 0xc1})
		}
	case "timeout":
		time.Sleep(31 * time.Second)
	case "stop":
		go s.C.Stop()
	case "cancel":
		s.stop()
	case "write-error":
		s.wfail, s.werr = s.nwrite+1, errInjected
		time.Sleep(6 * time.Second) // the next ping
	case "unknown-id":
		s.Feed(s.W.Completion("nobody", 1, true, ""))
	}
}

// runDelivered: the write of an invocation fails, although the peer has got it and answers.
func runDelivered(x *X, w Wire) {
	s := newClient(x, w)
	s.Connect()
	b := startCall(s, false, "b")
	x.Idle()
	bID := s.ids()["b"]
	s.wlost = s.nwrite + 1
	if x.D[2] == 1 {
		s.wslow = time.Second
	}
	s.onWrite = func(p []byte) {
		ms, _, _ := w.Parse(p)
		for _, m := range ms {
			if m.Type != 1 && m.Type != 4 || m.ID == "" {
				continue
			}
			f := compKinds[x.D[1]].msg(w, m.ID)
			if m.Type == 4 {
				f = append(w.Item(m.ID, 7), f...)
			}
			s.Feed(f)
		}
	}
	var a *col
	switch x.D[0] {
	case 0, 1:
		a = startCall(s, x.D[0] == 1, "a")
	case 2:
		a = collect("PullStream a", s.C.PullStream("a", 1))
	case 3:
		up := make(chan int, 1)
		up <- 1
		close(up)
		a = collect("PushStreams a", s.C.PushStreams("a", up))
	}
	if x.D[3] == 1 {
		s.FeedErr(io.EOF)
	}
	x.Settle(40 * time.Second)
	if !a.closed {
		x.Fail("open", "%s: the result channel is not closed (got %v)", a.name, a.got)
	}
	s.onWrite = nil
	s.Feed(w.Completion(bID, "bv", true, ""))
	x.Settle(40 * time.Second)
	if !b.closed {
		x.Fail("open", "%s: the result channel is not closed (got %v)", b.name, b.got)
	}
	x.Ev("%v %v", len(a.got), b.got)
}

func init() {
	register(&Property{ID: "C16", Title: "client calls",
		Rule: "orders: three calls (each Invoke or Send), completions of 4 kinds each in all orders; kinds: every kind of completion, under schedules; ends: two calls, every way a connection can end (10) before, between and after the completions; race: a call concurrent with the end of the connection; closing: calls of all kinds while the close message is written, slowly or not at all; delivered: the write of an invocation fails although the peer has got it and answers; inside: calls from the methods of the receiver, which wait for their outcome; unreadable: results which can't be read; many: up to 2000 calls while one is pending; states: calls in every client state; crowd: up to 40 calls of all kinds which are open at once, answered in four orders or ended in all ways; args: arguments that can't be serialized. All schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out,
					callCrowd(w),
					&Scenario{Name: "orders/" + w.Name(), Dims: []int{8, 6, 4, 4, 4, 2}, Quick: 0, Full: 1,
						QuickCase: func(d []int) bool { return d[5] == 0 },
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							var cs []*col
							names := []string{"a", "b", "c"}
							for i, n := range names {
								cs = append(cs, startCall(s, x.D[0]>>i&1 == 1, n))
								if x.D[5] == 0 {
									x.Idle()
								}
							}
							x.Idle()
							ids := s.ids()
							if len(ids) != 3 {
								x.Fail("sent", "messages %v", s.Msgs())
								return
							}
							done := map[int]bool{}
							for _, i := range perms3[x.D[1]] {
								s.Feed(compKinds[x.D[2+i]].msg(w, ids[names[i]]))
								x.Idle()
								done[i] = true
								for j, c := range cs {
									if done[j] {
										c.judge(x, compOutcome(x.D[2+j], ids[names[j]]))
									} else {
										c.pending(x)
									}
								}
							}
							aliveClient(x, s)
							x.Ev("%v %v %v", cs[0].got, cs[1].got, cs[2].got)
						}},
					&Scenario{Name: "kinds/" + w.Name(), Dims: []int{2, len(compKinds), 2, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							a := startCall(s, x.D[0] == 1, "a")
							b := startCall(s, false, "b")
							x.Idle()
							ids := s.ids()
							all := append(compKinds[x.D[1]].msg(w, ids["a"]), w.Completion(ids["b"], "bv", true, "")...)
							if x.D[2] == 1 {
								all = append(w.Completion(ids["b"], "bv", true, ""), compKinds[x.D[1]].msg(w, ids["a"])...)
							}
							s.Feed(all)
							if x.D[3] == 1 {
								x.Settle(8 * time.Second)
							}
							x.Idle()
							a.judge(x, compOutcome(x.D[1], ids["a"]))
							b.judge(x, outcome{kind: "value", val: "bv"})
							aliveClient(x, s)
							x.Ev("%v %v", a.got, b.got)
						}},
					// a caller that does not read its result for long must not hold up others
					&Scenario{Name: "lazy/" + w.Name(), Dims: []int{2, len(compKinds)}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							var ch <-chan signalr.InvokeResult
							var sch <-chan error
							if x.D[0] == 1 {
								sch = s.C.Send("a")
							} else {
								ch = s.C.Invoke("a")
							}
							x.Idle()
							b := startCall(s, false, "b")
							x.Idle()
							ids := s.ids()
							s.Feed(compKinds[x.D[1]].msg(w, ids["a"]))
							s.Feed(w.Completion(ids["b"], "bv", true, ""))
							x.Settle(2 * time.Second)
							b.judge(x, outcome{kind: "value", val: "bv"})
							x.Settle(10 * time.Second)
							aliveClient(x, s)
							var a *col
							if sch != nil {
								a = collectErr("Send a", sch)
							} else {
								a = collect("Invoke a", ch)
							}
							x.Idle()
							a.judge(x, compOutcome(x.D[1], ids["a"]))
							x.Ev("%v", a.got)
						}},
					&Scenario{Name: "ends/" + w.Name(), Dims: []int{len(clientEnds), 4, 4}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[2] == 0 || d[2] == 1 && w.Name() == "json" },
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							a := startCall(s, x.D[2]&1 == 1, "a")
							b := startCall(s, x.D[2]&2 == 2, "b")
							x.Idle()
							ids := s.ids()
							if x.D[1]&1 == 1 {
								s.Feed(w.Completion(ids["a"], "av", true, ""))
							}
							if x.D[1]&2 == 2 {
								s.Feed(w.Completion(ids["b"], "bv", true, ""))
							}
							x.Idle()
							how := clientEnds[x.D[0]]
							endClient(x, s, how)
							x.Idle()
							want := func(done bool, v string) outcome {
								if done {
									return outcome{kind: "value", val: v}
								}
								return outcome{kind: "error"}
							}
							a.judge(x, want(x.D[1]&1 == 1, "av"))
							b.judge(x, want(x.D[1]&2 == 2, "bv"))
							// later calls
							c := startCall(s, false, "c")
							d := startCall(s, true, "d")
							x.Settle(time.Second)
							c.judge(x, outcome{kind: "error"})
							d.judge(x, outcome{kind: "error"})
							x.Ev("%s %v %v %v", how, a.got, b.got, c.got)
						}},
					// the completion and the end arrive together, or the call is made meanwhile
					&Scenario{Name: "race/" + w.Name(), Dims: []int{len(clientEnds), 2, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							a := startCall(s, x.D[2] == 1, "a")
							x.Idle()
							ids := s.ids()
							how := clientEnds[x.D[0]]
							var b *col
							if x.D[1] == 0 {
								s.Feed(w.Completion(ids["a"], "av", true, ""))
								endClient(x, s, how)
							} else {
								if how == "timeout" || how == "write-error" {
									go endClient(x, s, how)
									time.Sleep(map[string]time.Duration{"timeout": 30 * time.Second, "write-error": 5 * time.Second}[how])
								} else {
									endClient(x, s, how)
								}
								b = startCall(s, x.D[2] == 1, "b")
							}
							x.Settle(10 * time.Second)
							switch how {
							case "stop", "cancel":
								// may overtake the completion
								a.judge(x, outcome{kind: "either", val: "av"})
							default:
								if x.D[1] == 0 {
									a.judge(x, outcome{kind: "value", val: "av"})
								} else {
									a.judge(x, outcome{kind: "error"})
								}
							}
							if b != nil {
								b.judge(x, outcome{kind: "error"})
							}
							x.Ev("%v", a.got)
						}},
					// calls made while the close message is being written
					&Scenario{Name: "closing/" + w.Name(), Dims: []int{len(clientEnds), 4, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							how := clientEnds[x.D[0]]
							if x.D[2] == 1 {
								s.wslow = 2 * time.Second
							} else if x.D[2] == 2 {
								s.wblock = s.nwrite + 1
							}
							go endClient(x, s, how)
							switch how {
							case "timeout":
								time.Sleep(30 * time.Second)
							case "write-error":
								time.Sleep(5 * time.Second)
							}
							if x.D[2] > 0 {
								time.Sleep(time.Second)
							}
							var c *col
							switch x.D[1] {
							case 0, 1:
								c = startCall(s, x.D[1] == 1, "b")
							case 2:
								c = collect("PullStream b", s.C.PullStream("b", 1))
							case 3:
								up := make(chan int, 1)
								up <- 1
								close(up)
								c = collect("PushStreams b", s.C.PushStreams("b", up))
							}
							x.Settle(20 * time.Second)
							c.judge(x, outcome{kind: "error"})
							x.Ev("%s %v", how, c.got)
						}},
					// many ids while one call is pending
					&Scenario{Name: "many/" + w.Name(), Dims: []int{2}, Quick: 0, Full: 0, MaxSteps: 50000000,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							first := startCall(s, false, "first")
							x.Idle()
							firstID := s.ids()["first"]
							n := []int{300, 2000}[x.D[0]]
							for i := 0; i < n; i++ {
								skip := len(s.out)
								c := startCall(s, false, "a")
								x.Idle()
								ms, _, err := w.Parse(s.out[skip:])
								if err != nil || len(ms) != 1 || ms[0].ID == firstID || ms[0].ID == "" {
									x.Fail("id-reuse", "call %d: %v %v, first call: %v", i, ms, err, firstID)
									return
								}
								s.Feed(w.Completion(ms[0].ID, i, true, ""))
								x.Idle()
								c.judge(x, outcome{kind: "value", val: i})
								if i%100 == 0 {
									first.pending(x)
									s.out, s.writes, s.wtimes = s.out[:0:0], nil, nil
								}
							}
							s.Feed(w.Completion(firstID, "f", true, ""))
							x.Idle()
							first.judge(x, outcome{kind: "value", val: "f"})
						}},
					// the write of the invocation fails, although the peer has got it and answers
					&Scenario{Name: "delivered/" + w.Name(), Dims: []int{4, len(compKinds), 2, 2}, Quick: 1, Full: 2, Body: func(x *X) { runDelivered(x, w) }},
					&Scenario{Name: "delivered-deep/" + w.Name(), Dims: []int{4, len(compKinds), 2, 2}, Quick: 2, Full: 3,
						QuickCase: func(d []int) bool { return w.Name() == "json" && d[0]%2 == 0 && d[1] == 0 && d[2] == 0 && d[3] == 0 },
						Body:      func(x *X) { runDelivered(x, w) }},
					// results which can't be read
					&Scenario{Name: "unreadable/" + w.Name(), Dims: []int{4}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							b := startCall(s, false, "b")
							x.Idle()
							bID := s.ids()["b"]
							var a *col
							switch x.D[0] {
							case 0, 1:
								a = startCall(s, x.D[0] == 1, "a")
							case 2:
								a = collect("PullStream a", s.C.PullStream("a", 1))
							case 3:
								up := make(chan int, 1)
								close(up)
								a = collect("PushStreams a", s.C.PushStreams("a", up))
							}
							x.Idle()
							id := s.ids()["a"]
							if w.Name() == "json" {
								s.Feed([]byte(`{"type":3,"invocationId":"` + id + `","result":1e999}` + "\x1e"))
							} else {
								f := append([]byte{0x95, 3, 0x80, 0xa0 + byte(len(id))}, id...)
								f = append(f, 3, 0xd4, 5, 0)
								s.Feed(append([]byte{byte(len(f))}, f...))
							}
							x.Idle()
							s.Feed(w.Completion(bID, "bv", true, ""))
							x.Settle(10 * time.Second)
							if x.D[0] == 1 {
								a.judge(x, outcome{kind: "either"})
							} else {
								a.judge(x, outcome{kind: "error"})
							}
							b.judge(x, outcome{kind: "either", val: "bv"})
							x.Ev("%v %v", a.got, b.got)
						}},
					// completions that arrive before the write of the invocation has returned
					&Scenario{Name: "echo/" + w.Name(), Dims: []int{4, len(compKinds)}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							s.echo(func(m Msg) []byte { return compKinds[x.D[1]].msg(w, m.ID) })
							a := startCall(s, x.D[0]&1 == 1, "a")
							b := startCall(s, x.D[0]&2 == 2, "b")
							x.Settle(2 * time.Second)
							ids := s.ids()
							a.judge(x, compOutcome(x.D[1], ids["a"]))
							b.judge(x, compOutcome(x.D[1], ids["b"]))
							s.onWrite, s.wslow = nil, 0
							aliveClient(x, s)
							x.Ev("%v", a.got)
						}},
					&Scenario{Name: "states/" + w.Name(), Dims: []int{2, 5}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							send := x.D[0] == 1
							switch x.D[1] {
							case 0: // not started
								a := startCall(s, send, "a")
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
								s.Connect()
								aliveClient(x, s)
							case 1: // connecting
								s.C.Start()
								a := startCall(s, send, "a")
								x.Idle()
								a.pending(x)
								s.TakeHandshake()
								s.Feed([]byte("{}\x1e"))
								x.Idle()
								s.Feed(w.Completion(s.ids()["a"], "av", true, ""))
								x.Idle()
								a.judge(x, outcome{kind: "value", val: "av"})
								aliveClient(x, s)
							case 2: // the handshake fails
								s.C.Start()
								a := startCall(s, send, "a")
								x.Idle()
								s.Feed([]byte(`{"error":"no"}` + "\x1e"))
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
							case 3: // stopped while connecting
								s.C.Start()
								a := startCall(s, send, "a")
								x.Idle()
								s.C.Stop()
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
							case 4: // the handshake times out
								s.C.Start()
								a := startCall(s, send, "a")
								x.Settle(20 * time.Second)
								a.judge(x, outcome{kind: "error"})
							}
						}},
					// a receiver's method may call the server and wait for the result
					&Scenario{Name: "inside/" + w.Name(), Dims: []int{len(insideKinds), len(insideKinds), 2, 4, 2}, Quick: 0, Full: 1,
						Body: func(x *X) { runInside(x, w) }},
					&Scenario{Name: "inside-sched/" + w.Name(), Dims: []int{len(insideKinds), 4, 2, 4, 2}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[1] == 0 && d[2] == 0 },
						Skip:      func(d []int) bool { return d[4] == 0 },
						Body:      func(x *X) { runInside(x, w) }},
					&Scenario{Name: "args/" + w.Name(), Dims: []int{2, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							b := startCall(s, false, "b")
							x.Idle()
							var arg any
							switch x.D[1] {
							case 0:
								arg = make(chan int)
							case 1:
								arg = func() {}
							case 2:
								arg = map[string]any{"a": func() {}}
							}
							var a *col
							if x.D[0] == 1 {
								a = collectErr("Send a", s.C.Send("a", 1, arg))
							} else {
								a = collect("Invoke a", s.C.Invoke("a", 1, arg))
							}
							x.Idle()
							a.judge(x, outcome{kind: "error"})
							s.Feed(w.Completion(s.ids()["b"], "bv", true, ""))
							x.Idle()
							b.judge(x, outcome{kind: "value", val: "bv"})
							aliveClient(x, s)
							x.Ev("%v", a.got)
						}},
				)
			}
			return out
		}})
}
