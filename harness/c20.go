package main

import (
	"fmt"
	"time"

	"github.com/philippseith/signalr"
)

// C20: PushStreams.

// judgePush checks what a client has sent for one PushStreams call. streams are the items of the channels; a nil
// entry is a stream for which a prefix is enough and which is not ended.
func judgePush(x *X, s *Srv, target string, args []any, streams [][]any, partial bool) string {
	ms := NoPing(s.Msgs())
	at := -1
	for i, m := range ms {
		if m.Target == target && (m.Type == 1 || m.Type == 4) {
			if at >= 0 {
				x.Fail("invoked-twice", "%v", ms)
			}
			at = i
		}
	}
	if at < 0 {
		x.Fail("not-invoked", "%s: %v", target, ms)
		return ""
	}
	inv := ms[at]
	if inv.Type != 1 || inv.ID == "" || len(inv.Streams) != len(streams) || fmt.Sprint(norm(inv.Args)) != fmt.Sprint(norm(append([]any{}, args...))) {
		x.Fail("invocation", "%s: invocation %+v, want args %v and %d streams", target, inv, args, len(streams))
		return inv.ID
	}
	for k, id := range inv.Streams {
		for l := range inv.Streams[:k] {
			if inv.Streams[l] == id {
				x.Fail("same-id", "%+v", inv)
			}
		}
		if id == inv.ID || id == "" {
			x.Fail("same-id", "%+v", inv)
		}
		var got []any
		ended := 0
		for i, m := range ms {
			if m.ID != id {
				continue
			}
			if i < at {
				x.Fail("before-invocation", "%v", ms)
			}
			switch m.Type {
			case 2:
				if ended > 0 {
					x.Fail("after-completion", "%v", ms)
				}
				got = append(got, m.Item)
			case 3:
				ended++
				if m.Error != "" || m.HasResult && m.Result != nil {
					x.Fail("completion", "%+v", m)
				}
			default:
				x.Fail("other", "%+v", m)
			}
		}
		want := streams[k]
		if partial && len(got) < len(want) {
			want = want[:len(got)]
			if ended > 0 {
				x.Fail("ended-early", "%s stream %d: %v completed, want %v", target, k, got, streams[k])
			}
		}
		if fmt.Sprint(norm(got)) != fmt.Sprint(norm(append([]any(nil), want...))) {
			x.Fail("items", "%s stream %d: items %v, want %v (%v)", target, k, got, want, ms)
		}
		if !partial && ended != 1 {
			x.Fail("completions", "%s stream %d: %d completions (%v)", target, k, ended, ms)
		}
	}
	return inv.ID
}

// strangers checks that nothing but the given calls was sent.
func noStrangers(x *X, s *Srv) {
	known := map[string]bool{}
	for _, m := range NoPing(s.Msgs()) {
		switch m.Type {
		case 1, 4:
			known[m.ID] = true
			for _, id := range m.Streams {
				known[id] = true
			}
		case 2, 3:
			if !known[m.ID] {
				x.Fail("stranger", "%+v", m)
			}
		default:
			x.Fail("stranger", "%+v", m)
		}
	}
}

// pushChan makes a channel with n items, base+1.., filled in one of four ways.
func pushChan(base, n, how int) (any, []any) {
	var want []any
	for i := 1; i <= n; i++ {
		want = append(want, base+i)
	}
	fill := func(ch chan int, pause time.Duration) {
		for i := 1; i <= n; i++ {
			if pause > 0 {
				time.Sleep(pause)
			}
			ch <- base + i
		}
		if pause > 0 {
			time.Sleep(pause)
		}
		close(ch)
	}
	switch how {
	case 0:
		ch := make(chan int, n)
		fill(ch, 0)
		return ch, want
	case 1:
		ch := make(chan int)
		go fill(ch, 0)
		return ch, want
	case 2:
		ch := make(chan int)
		go fill(ch, 2*time.Second)
		return (<-chan int)(ch), want
	default:
		ch := make(chan int, 1)
		go fill(ch, 7*time.Second)
		return ch, want
	}
}

type pushItem struct {
	A int     `json:"a"`
	B *string `json:"b"`
}

func pushTyped(k int) (any, []any) {
	str := "x"
	switch k {
	case 0:
		ch := make(chan string, 2)
		ch <- ""
		ch <- "a\x1e\"ü"
		close(ch)
		return ch, []any{"", "a\x1e\"ü"}
	case 1:
		ch := make(chan bool, 2)
		ch <- false
		ch <- true
		close(ch)
		return ch, []any{false, true}
	case 2:
		ch := make(chan float64, 2)
		ch <- 0
		ch <- -1.5
		close(ch)
		return ch, []any{0.0, -1.5}
	case 3:
		ch := make(chan any, 4)
		ch <- nil
		ch <- 1
		ch <- "s"
		ch <- []any{1, "b", nil}
		close(ch)
		return ch, []any{nil, 1, "s", []any{1, "b", nil}}
	case 4:
		ch := make(chan *string, 2)
		ch <- nil
		ch <- &str
		close(ch)
		return ch, []any{nil, "x"}
	case 5:
		ch := make(chan []int, 2)
		ch <- []int{}
		ch <- []int{1, 2}
		close(ch)
		return ch, []any{[]any{}, []any{1, 2}}
	case 6:
		ch := make(chan map[string]int, 1)
		ch <- map[string]int{"k": 1}
		close(ch)
		return ch, []any{map[string]any{"k": 1}}
	default:
		ch := make(chan uint8, 2)
		ch <- 0
		ch <- 255
		close(ch)
		return ch, []any{0, 255}
	}
}

func init() {
	register(&Property{ID: "C20", Title: "pushed streams",
		Rule: "shape: all argument lists of up to 4 values, nils and channels; streams: two channels with 0..2 items, filled before, at once, slowly or very slowly, completed by the server in 8 ways before, during and after; types: channels of 8 types; two: two calls and an invocation at the same time; ends: 10 ends of the connection while streaming; states: all client states, failing writes and values that can't be serialized. All schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out,
					&Scenario{Name: "shape/" + w.Name(), Dims: []int{5, 5, 5, 5, 2}, Quick: 0, Full: 1,
						QuickCase: func(d []int) bool { return d[4] == 0 },
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							var args, vals []any
							var streams [][]any
							for i := 0; i < 4; i++ {
								switch x.D[i] {
								case 1:
									args, vals = append(args, i), append(vals, i)
								case 2:
									args, vals = append(args, nil), append(vals, nil)
								case 3, 4:
									ch, items := pushChan(100*i, x.D[i]-3+x.D[4], i%2)
									args, streams = append(args, ch), append(streams, items)
								}
							}
							a := collect("a", s.C.PushStreams("a", args...))
							x.Settle(time.Second)
							id := judgePush(x, s, "a", vals, streams, false)
							a.pending(x)
							s.Feed(w.Completion(id, "av", true, ""))
							x.Idle()
							a.judge(x, outcome{kind: "value", val: "av"})
							noStrangers(x, s)
							aliveClient(x, s)
							x.Ev("%v", s.Msgs())
						}},
					&Scenario{Name: "streams/" + w.Name(), Dims: []int{3, 3, 4, 4, len(compKinds), 3}, Quick: 0, Full: 1,
						QuickCase: func(d []int) bool { return d[4] < 3 },
						Body:      func(x *X) { pushRun(x, w) }},
					&Scenario{Name: "streams-sched/" + w.Name(), Dims: []int{3, 2, 2, 1, 3, 2}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[4] != 1 && (d[0] > 0 || d[1] > 0) },
						Body:      func(x *X) { pushRun(x, w) }},
					// the completion arrives before the write of the invocation has returned
					&Scenario{Name: "echo/" + w.Name(), Dims: []int{3, len(compKinds), 2}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[1] < 4 },
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							s.echo(func(m Msg) []byte { return compKinds[x.D[1]].msg(w, m.ID) })
							ch, want := pushChan(10, x.D[0], x.D[2])
							a := collect("a", s.C.PushStreams("a", ch))
							x.Settle(3 * time.Second)
							a.judge(x, compOutcome(x.D[1], judgePush(x, s, "a", nil, [][]any{want}, false)))
							s.onWrite, s.wslow = nil, 0
							aliveClient(x, s)
							x.Ev("%v", a.got)
						}},
					&Scenario{Name: "types/" + w.Name(), Dims: []int{8, 8}, Quick: 0, Full: 1,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							ch1, want1 := pushTyped(x.D[0])
							ch2, want2 := pushTyped(x.D[1])
							a := collect("a", s.C.PushStreams("a", ch1, 5, ch2))
							x.Idle()
							id := judgePush(x, s, "a", []any{5}, [][]any{want1, want2}, false)
							s.Feed(w.Completion(id, nil, false, ""))
							x.Idle()
							a.judge(x, outcome{kind: "void"})
							aliveClient(x, s)
						}},
					&Scenario{Name: "two/" + w.Name(), Dims: []int{2, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							s.Connect()
							ch1, want1 := pushChan(10, 1+x.D[0], x.D[1])
							ch2, want2 := pushChan(20, 2, 1-x.D[1])
							a := collect("a", s.C.PushStreams("a", ch1, "p"))
							b := collect("b", s.C.PushStreams("b", ch2))
							c := collect("c", s.C.Invoke("c"))
							x.Idle()
							ida := judgePush(x, s, "a", []any{"p"}, [][]any{want1}, false)
							idb := judgePush(x, s, "b", nil, [][]any{want2}, false)
							s.Feed(w.Completion(idb, nil, false, "berr"))
							s.Feed(append(w.Completion(s.ids()["c"], "cv", true, ""), w.Completion(ida, "av", true, "")...))
							x.Idle()
							a.judge(x, outcome{kind: "value", val: "av"})
							b.judge(x, outcome{kind: "error", err: "berr"})
							c.judge(x, outcome{kind: "value", val: "cv"})
							noStrangers(x, s)
							aliveClient(x, s)
							x.Ev("%v", s.Msgs())
						}},
					// many calls while streams are open: every id is used once
					&Scenario{Name: "many/" + w.Name(), Dims: []int{3, 3, 4}, Quick: 0, Full: 0,
						Body: func(x *X) { pushMany(x, w) }},
					&Scenario{Name: "unsendable/" + w.Name(), Dims: []int{3, 3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							at := x.D[0]
							s := newClient(x, w)
							s.Connect()
							s.C.PushStreams("a", anyChan(unsendable(at, x.D[1]), 4*x.D[2]))
							x.Settle(time.Second)
							ms := NoPing(s.Msgs())
							if len(ms) == 0 || len(ms[0].Streams) != 1 {
								x.Fail("unsendable", "sent %v", ms)
								return
							}
							judgeUnsendable(x, ms, ms[0].Streams[0], at, s.C.State() == signalr.ClientClosed)
						}},
					&Scenario{Name: "ends/" + w.Name(), Dims: []int{len(clientEnds), 2, 3}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[1] == 0 },
						Body: func(x *X) {
							s := newClient(x, w, signalr.KeepAliveInterval(5*time.Second))
							s.Connect()
							ch := make(chan int, 4)
							done := false
							a := collect("a", s.C.PushStreams("a", ch))
							x.Idle()
							id := s.ids()["a"]
							ch <- 1
							how := clientEnds[x.D[0]]
							out := outcome{kind: "error"}
							if x.D[2] >= 1 {
								s.Feed(w.Completion(id, "av", true, ""))
								out = outcome{kind: "value", val: "av"}
								if x.D[2] == 1 {
									x.Idle()
								} else if how == "stop" || how == "cancel" || how == "write-error" {
									out = outcome{kind: "either", val: "av"}
								}
							}
							endClient(x, s, how)
							if x.D[1] == 0 {
								x.Idle()
							}
							go func() {
								ch <- 2
								ch <- 3
								close(ch)
								done = true
							}()
							x.Settle(10 * time.Second)
							if !done {
								x.Fail("blocked", "producer is blocked")
							}
							judgePush(x, s, "a", nil, [][]any{{1, 2, 3}}, true)
							a.judge(x, out)
							b := collect("b", s.C.PushStreams("b", make(chan int)))
							x.Settle(time.Second)
							b.judge(x, outcome{kind: "error"})
							x.Ev("%s %v", how, s.Msgs())
						}},
					&Scenario{Name: "states/" + w.Name(), Dims: []int{7}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s := newClient(x, w)
							ch, want := pushChan(0, 2, 0)
							switch x.D[0] {
							case 0:
								a := collect("a", s.C.PushStreams("a", ch))
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
								s.Connect()
								aliveClient(x, s)
							case 1:
								s.C.Start()
								a := collect("a", s.C.PushStreams("a", ch))
								x.Idle()
								s.TakeHandshake()
								s.Feed([]byte("{}\x1e"))
								x.Idle()
								s.Feed(w.Completion(judgePush(x, s, "a", nil, [][]any{want}, false), 1, true, ""))
								x.Idle()
								a.judge(x, outcome{kind: "value", val: 1})
							case 2:
								s.Connect()
								s.C.Stop()
								a := collect("a", s.C.PushStreams("a", ch))
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
							case 3, 4: // an argument that can't be serialized
								s.Connect()
								arg := []any{func() {}, make(chan<- int)}[x.D[0]-3]
								a := collect("a", s.C.PushStreams("a", arg, ch))
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
								noStrangers(x, s)
								aliveClient(x, s)
							case 5: // the write of the invocation fails
								s.Connect()
								s.wfail, s.werr = s.nwrite+1, errInjected
								a := collect("a", s.C.PushStreams("a", ch))
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
							case 6: // an item that can't be serialized
								s.Connect()
								bad := make(chan any, 3)
								bad <- 1
								bad <- func() {}
								bad <- 2
								close(bad)
								a := collect("a", s.C.PushStreams("a", bad))
								x.Settle(time.Second)
								a.judge(x, outcome{kind: "error"})
								for _, m := range s.Msgs() {
									if m.Type == 2 && !same(m.Item, 1) || m.Type == 3 {
										x.Fail("hole", "%v", s.Msgs())
									}
								}
							}
						}},
				)
			}
			return out
		}})
}

// pushMany calls 110 methods while streams that were pushed before are still open. The stream ids of one call must
// neither collide with others nor with the ids of calls.
func pushMany(x *X, w Wire) {
	s := newClient(x, w)
	s.Connect()
	var cols []*col
	n := 0
	name := func() string { n++; return fmt.Sprint("m", n) }
	var chans []chan int
	push := func(k int) {
		var args []any
		for i := 0; i < k; i++ {
			ch := make(chan int, 1)
			args, chans = append(args, ch), append(chans, ch)
		}
		m := name()
		cols = append(cols, collect(m, s.C.PushStreams(m, args...)))
		x.Idle()
	}
	invoke := func() {
		m := name()
		cols = append(cols, collect(m, s.C.Invoke(m)))
		x.Idle()
	}
	for i := 0; i < x.D[1]; i++ {
		invoke()
	}
	push(x.D[0] + 1)
	for i := 0; i < 110; i++ {
		switch x.D[2] + 4*(i%2)*(x.D[2]/3) {
		case 0, 7:
			invoke()
		case 1:
			m := name()
			cols = append(cols, collect(m, s.C.PullStream(m)))
			x.Idle()
		default:
			push(1)
		}
	}
	used := map[string]bool{}
	for _, m := range NoPing(s.Msgs()) {
		for _, id := range append([]string{m.ID}, m.Streams...) {
			if used[id] || id == "" {
				x.Fail("same-id", "id %q is used twice", id)
			}
			used[id] = true
		}
	}
	ids := s.ids()
	if len(ids) != n {
		x.Fail("not-invoked", "%d of %d calls were sent", len(ids), n)
	}
	for i, ch := range chans {
		ch <- i
		close(ch)
	}
	x.Idle()
	for i := n; i > 0; i-- {
		m := fmt.Sprint("m", i)
		s.Feed(w.Completion(ids[m], m, true, ""))
		x.Idle()
		cols[i-1].judge(x, outcome{kind: "value", val: m})
	}
	items := map[any]string{}
	for _, m := range NoPing(s.Msgs()) {
		if m.Type == 2 {
			k := fmt.Sprint(norm(m.Item))
			if items[k] != "" {
				x.Fail("items", "item %v is sent twice", k)
			}
			items[k] = m.ID
		}
	}
	if len(items) != len(chans) {
		x.Fail("items", "%d items, want %d", len(items), len(chans))
	}
	noStrangers(x, s)
	x.Ev("%v", len(s.Msgs()))
}

func pushRun(x *X, w Wire) {
	s := newClient(x, w)
	s.Connect()
	ch1, want1 := pushChan(10, x.D[0], x.D[2])
	ch2, want2 := pushChan(20, x.D[1], x.D[3])
	if x.D[5] == 2 {
		x.Settle(20 * time.Second)
		s.Feed(w.Ping())
	}
	a := collect("a", s.C.PushStreams("a", ch1, "x", ch2))
	x.Idle()
	id := s.ids()["a"]
	fill := func() {
		// keep the connection alive
		for i := 0; i < 2; i++ {
			x.Settle(15 * time.Second)
			s.Feed(w.Ping())
		}
	}
	if x.D[5] != 0 {
		fill()
		a.pending(x)
	}
	s.Feed(compKinds[x.D[4]].msg(w, id))
	x.Idle()
	a.judge(x, compOutcome(x.D[4], id))
	if x.D[5] == 0 {
		fill()
	}
	judgePush(x, s, "a", []any{"x"}, [][]any{want1, want2}, false)
	noStrangers(x, s)
	aliveClient(x, s)
	x.Ev("%v %v", a.got, s.Msgs())
}
