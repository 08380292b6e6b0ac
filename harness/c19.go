package main

import (
	"fmt"
	"time"

	"github.com/philippseith/signalr"
)

// C19: PullStream.

// pull is the reader of a result channel. every: pause between items.
func collectSlow(name string, ch <-chan signalr.InvokeResult, first, every time.Duration) *col {
	c := &col{name: name}
	go func() {
		time.Sleep(first)
		for r := range ch {
			c.got = append(c.got, r)
			if every > 0 {
				time.Sleep(every)
			}
		}
		c.closed = true
	}()
	return c
}

// judgeStreamCol checks the items and the end. end: "", "error" (exactly one), "maybe" (items may be cut).
func (c *col) judgeItems(x *X, want []any, end string) {
	if !c.closed {
		x.Fail("open", "%s: the channel is not closed (got %v)", c.name, c.got)
		return
	}
	var vals []any
	var errs []error
	for _, r := range c.got {
		if r.Error != nil {
			errs = append(errs, r.Error)
			continue
		}
		if len(errs) > 0 {
			x.Fail("item-after-error", "%s: %v", c.name, c.got)
		}
		vals = append(vals, r.Value)
	}
	n := len(want)
	if end == "maybe" && len(vals) < n {
		n = len(vals)
		if len(errs) == 0 {
			x.Fail("cut", "%s: %v without error, want %v", c.name, c.got, want)
		}
	}
	if fmt.Sprint(norm(vals)) != fmt.Sprint(norm(want[:n])) {
		x.Fail("items", "%s: items %v, want %v (%s)", c.name, c.got, want, end)
	}
	if end == "" && len(errs) != 0 || end == "error" && len(errs) != 1 || end == "maybe" && len(errs) > 1 {
		x.Fail("end", "%s: errors %v, want %q", c.name, errs, end)
	}
}

var pullEnds = append([]string{"done", "failed", "nobody"}, clientEnds[:8]...)

func init() {
	register(&Property{ID: "C19", Title: "pulled streams",
		Rule: "single: 0..4 items, 11 ways to end, in one read or one by one, buffer capacities 1, 2, 10, readers that are fast, late or slow; two: two streams and a call in all interleavings of their messages; many: 1..6 streams at a time with any limit for uploads, three orders of items and of ends; types: items of all types; states: streams in every client state. All schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out,
					&Scenario{Name: "single/" + w.Name(), Dims: []int{5, len(pullEnds), 2, 3, 3}, Quick: 0, Full: 1, Body: func(x *X) { pullRun(x, w) }},
					&Scenario{Name: "single-sched/" + w.Name(), Dims: []int{3, len(pullEnds), 2, 1, 1}, Quick: 1, Full: 2,
						Body: func(x *X) { pullRun(x, w) }},
					// two streams of three messages each and a call with one, all interleavings
					&Scenario{Name: "two/" + w.Name(), Dims: []int{20, 7, 2, 2}, Quick: 0, Full: 1,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							a := collect("a", s.C.PullStream("a", 1))
							b := collect("b", s.C.PullStream("b"))
							c := collect("c", s.C.Invoke("c"))
							x.Idle()
							ids := s.ids()
							order := interleave(3, 3, x.D[0])
							n := []int{0, 0}
							var all []byte
							put := func(m []byte) {
								if x.D[2] == 0 {
									all = append(all, m...)
								} else {
									s.Feed(m)
								}
							}
							for i := 0; i <= len(order); i++ {
								if i == x.D[1] {
									put(w.Completion(ids["c"], "cv", true, ""))
								}
								if i == len(order) {
									break
								}
								k := order[i]
								name := []string{"a", "b"}[k]
								n[k]++
								switch {
								case n[k] < 3:
									put(w.Item(ids[name], fmt.Sprint(name, n[k])))
								case k == 0 || x.D[3] == 0:
									put(w.Completion(ids[name], nil, false, ""))
								default:
									put(w.Completion(ids[name], nil, false, "berr"))
								}
							}
							s.Feed(all)
							x.Idle()
							a.judgeItems(x, []any{"a1", "a2"}, "")
							b.judgeItems(x, []any{"b1", "b2"}, []string{"", "error"}[x.D[3]])
							c.judge(x, outcome{kind: "value", val: "cv"})
							aliveClient(x, s)
							x.Ev("%v %v %v", a.got, b.got, c.got)
						}},
					&Scenario{Name: "two-sched/" + w.Name(), Dims: []int{2, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							a := collect("a", s.C.PullStream("a", 1))
							b := collect("b", s.C.PullStream("b"))
							x.Idle()
							ids := s.ids()
							if len(ids) != 2 {
								x.Fail("sent", "%v", s.Msgs())
								return
							}
							all := append(w.Item(ids["a"], 1), w.Item(ids["b"], 2)...)
							all = append(all, w.Completion(ids["a"], nil, false, []string{"", "aerr"}[x.D[0]])...)
							all = append(all, w.Item(ids["b"], 3)...)
							all = append(all, w.Completion(ids["b"], nil, false, "")...)
							if x.D[1] == 0 {
								s.Feed(all)
							} else {
								s.Feed(all[:len(all)/2])
								s.Feed(all[len(all)/2:])
							}
							x.Idle()
							a.judgeItems(x, []any{1}, []string{"", "error"}[x.D[0]])
							b.judgeItems(x, []any{2, 3}, "")
							aliveClient(x, s)
							x.Ev("%v %v", a.got, b.got)
						}},
					// up to six streams open at the same time, whatever the limit for uploads is
					&Scenario{Name: "many/" + w.Name(), Dims: []int{4, 6, 3, 3, 2}, Quick: 0, Full: 1,
						Body: func(x *X) { pullMany(x, w) }},
					// the stream arrives before the write of the invocation has returned
					&Scenario{Name: "echo/" + w.Name(), Dims: []int{3, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							var want []any
							s.echo(func(m Msg) []byte {
								var b []byte
								want = nil
								for i := 0; i < x.D[0]; i++ {
									b = append(b, w.Item(m.ID, i)...)
									want = append(want, i)
								}
								switch x.D[1] {
								case 0:
									b = append(b, w.Completion(m.ID, nil, false, "")...)
								case 1:
									b = append(b, w.Completion(m.ID, nil, false, "err")...)
								}
								return b
							})
							a := collect("a", s.C.PullStream("a"))
							b := collect("b", s.C.PullStream("b"))
							x.Settle(2 * time.Second)
							if x.D[1] == 2 {
								for _, id := range s.ids() {
									s.Feed(w.Completion(id, nil, false, ""))
								}
								x.Idle()
							}
							a.judgeItems(x, want, []string{"", "error", ""}[x.D[1]])
							b.judgeItems(x, want, []string{"", "error", ""}[x.D[1]])
							s.onWrite, s.wslow = nil, 0
							aliveClient(x, s)
							x.Ev("%v", a.got)
						}},
					&Scenario{Name: "types/" + w.Name(), Dims: []int{8, 8}, Quick: 0, Full: 1,
						Body: func(x *X) {
							vals := []any{1, "s", true, nil, 1.5, []any{1, "x"}, map[string]any{"a": 1}, ""}
							s := newClient(x, w)
							s.Connect()
							a := collect("a", s.C.PullStream("a"))
							x.Idle()
							id := s.ids()["a"]
							s.Feed(w.Item(id, vals[x.D[0]]))
							s.Feed(w.Item(id, vals[x.D[1]]))
							s.Feed(w.Completion(id, nil, false, ""))
							x.Idle()
							a.judgeItems(x, []any{vals[x.D[0]], vals[x.D[1]]}, "")
							aliveClient(x, s)
							x.Ev("%v", a.got)
						}},
					&Scenario{Name: "states/" + w.Name(), Dims: []int{5}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							switch x.D[0] {
							case 0:
								a := collect("a", s.C.PullStream("a"))
								x.Settle(time.Second)
								a.judgeItems(x, nil, "error")
							case 1:
								s.C.Start()
								a := collect("a", s.C.PullStream("a"))
								x.Idle()
								s.TakeHandshake()
								s.Feed([]byte("{}\x1e"))
								x.Idle()
								id := s.ids()["a"]
								s.Feed(append(w.Item(id, 1), w.Completion(id, nil, false, "")...))
								x.Idle()
								a.judgeItems(x, []any{1}, "")
							case 2:
								s.Connect()
								s.C.Stop()
								a := collect("a", s.C.PullStream("a"))
								x.Settle(time.Second)
								a.judgeItems(x, nil, "error")
							case 3:
								s.Connect()
								a := collect("a", s.C.PullStream("a", make(chan int)))
								x.Settle(time.Second)
								a.judgeItems(x, nil, "error")
								aliveClient(x, s)
							case 4:
								// the write of the invocation fails
								s.Connect()
								s.wfail, s.werr = s.nwrite+1, errInjected
								a := collect("a", s.C.PullStream("a"))
								x.Settle(time.Second)
								a.judgeItems(x, nil, "error")
							}
						}},
				)
			}
			return out
		}})
}

func pullRun(x *X, w Wire) {
	n, how := x.D[0], pullEnds[x.D[1]]
	capacity := []uint{1, 2, 10}[x.D[3]]
	opts := []func(signalr.Party) error{signalr.StreamBufferCapacity(capacity)}
	if how != "timeout" {
		opts = append(opts, signalr.TimeoutInterval(5*time.Minute))
	}
	s := newClient(x, w, opts...)
	s.Connect()
	ch := s.C.PullStream("a", "x")
	var a *col
	switch x.D[4] {
	case 0:
		a = collectSlow("a", ch, 0, 0)
	case 1:
		a = collectSlow("a", ch, 4*time.Second, 0)
	case 2:
		a = collectSlow("a", ch, 0, 4*time.Second)
	}
	x.Idle()
	ms := s.Msgs()
	if len(ms) != 1 || ms[0].Type != 4 || ms[0].Target != "a" || len(ms[0].Args) != 1 {
		x.Fail("sent", "PullStream sends %v", ms)
		return
	}
	id := ms[0].ID
	var all []byte
	var want []any
	put := func(m []byte) {
		if x.D[2] == 0 {
			all = append(all, m...)
		} else {
			s.Feed(m)
		}
	}
	for i := 1; i <= n; i++ {
		put(w.Item(id, i))
		want = append(want, i)
	}
	end := "error"
	switch how {
	case "done":
		put(w.Completion(id, nil, false, ""))
		end = ""
	case "failed":
		put(w.Completion(id, nil, false, "stream failed"))
	case "nobody":
		put(w.Completion("nobody", nil, false, ""))
	}
	s.Feed(all)
	switch how {
	case "stop", "cancel", "timeout", "write-error":
		x.Idle()
	}
	if x.D[1] >= 3 {
		endClient(x, s, how)
	}
	if how == "stop" || how == "cancel" {
		end = "maybe"
	}
	x.Settle(40 * time.Second)
	if how == "timeout" {
		x.Settle(40 * time.Second)
	}
	a.judgeItems(x, want, end)
	if how == "done" || how == "failed" {
		aliveClient(x, s)
	} else if st := s.C.State(); st != signalr.ClientClosed {
		x.Fail("state", "client state %v after %s", st, how)
	}
	x.Ev("%s %v", how, a.got)
}

// pullMany: n streams at a time. MaxConcurrentStreams limits uploads from the other side, not the streams pulled.
func pullMany(x *X, w Wire) {
	s := newClient(x, w, signalr.MaxConcurrentStreams([]uint{1, 2, 0, 100}[x.D[0]]))
	s.Connect()
	n := x.D[1] + 1
	var cols []*col
	var chs []<-chan signalr.InvokeResult
	names := make([]string, n)
	want := make([][]any, n)
	for i := range names {
		names[i] = fmt.Sprint("s", i)
		chs = append(chs, s.C.PullStream(names[i], i))
		if x.D[4] == 1 {
			// the streams are running already when the next one is opened
			x.Idle()
			want[i] = append(want[i], "first")
			s.Feed(w.Item(s.ids()[names[i]], "first"))
		}
	}
	for i, ch := range chs {
		cols = append(cols, collect(names[i], ch))
	}
	x.Idle()
	ids := s.ids()
	if len(ids) != n {
		x.Fail("sent", "%v", s.Msgs())
		return
	}
	item := func(i int) {
		v := 10*i + len(want[i])
		want[i] = append(want[i], v)
		s.Feed(w.Item(ids[names[i]], v))
	}
	ended := make([]bool, n)
	end := func(i int) {
		msg := ""
		if i%2 == 1 {
			msg = "ended"
		}
		ended[i] = true
		s.Feed(w.Completion(ids[names[i]], nil, false, msg))
	}
	turn := func(k int) int { // the order of the streams
		if x.D[2] == 1 {
			return n - 1 - k
		}
		return k
	}
	for round := 0; round < 3; round++ {
		for k := 0; k < n; k++ {
			i := turn(k)
			if ended[i] {
				continue
			}
			item(i)
			switch {
			case x.D[2] == 2: // one stream after the other
				item(i)
				end(i)
			case x.D[3] == 0 && round == 1 && i == 0, x.D[3] == 1 && round == 1 && i == n-1, x.D[3] == 2 && round == i%3:
				end(i) // the others go on
			}
		}
	}
	x.Idle()
	for i := range ended {
		if !ended[i] {
			if cols[i].closed {
				x.Fail("closed", "%s is closed before its end: %v", names[i], cols[i].got)
			}
			end(i)
		}
	}
	x.Idle()
	for i, c := range cols {
		c.judgeItems(x, want[i], []string{"", "error"}[i%2])
	}
	aliveClient(x, s)
	x.Ev("%v", want)
}
