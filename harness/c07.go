package main

import (
	"fmt"
	"time"

	"github.com/philippseith/signalr"
)

// C07: streams from hub methods.

// pump is a stream whose source is driven by the harness.
type pump struct {
	ch      chan int
	gate    chan int // values to send
	sent    []int    // values the channel has taken
	closed  bool
	started bool
}

func newPump(buf int) *pump {
	return &pump{ch: make(chan int, buf), gate: make(chan int, 16)}
}

// run is the goroutine of the hub method.
func (p *pump) run() {
	for v := range p.gate {
		p.ch <- v
		p.sent = append(p.sent, v)
	}
	close(p.ch)
	p.closed = true
}

type pumpHub struct {
	signalr.Hub
	ps map[int]*pump
	// slow holds the gates of methods which return their channel later
	slow map[int]chan struct{}
}

func (h *pumpHub) Pump(k int) <-chan int {
	p := h.ps[k]
	if s := h.slow[k]; s != nil {
		<-s
	}
	p.started = true
	go p.run()
	return p.ch
}

func (h *pumpHub) Val(a int) int { return a * 10 }

// unsendableHub streams values which have no form in the protocol.
type unsendableHub struct {
	signalr.Hub
	vs  []any
	buf int
}

func (h *unsendableHub) Pump() <-chan any { return anyChan(h.vs, h.buf) }

func anyChan(vs []any, buf int) chan any {
	ch := make(chan any, buf)
	go func() {
		for _, v := range vs {
			ch <- v
		}
		close(ch)
	}()
	return ch
}

var unsendables = []any{func() {}, make(chan int), struct{ F func() }{func() {}}}

// unsendable yields four values, the at-th of them one of the unsendables
func unsendable(at, kind int) []any {
	vs := []any{1, 2, 3, 4}
	vs[at] = unsendables[kind]
	return vs
}

// judgeUnsendable: the stream has no hole. Either it ends with an error, or the connection ends.
func judgeUnsendable(x *X, ms []Msg, id string, at int, ended bool) {
	var items []any
	failed := false
	for _, m := range ms {
		if m.ID != id {
			continue
		}
		switch {
		case m.Type == 2 && !failed:
			items = append(items, m.Item)
		case m.Type == 3 && m.Error != "" && !failed:
			failed = true
		case m.Type == 2 || m.Type == 3:
			x.Fail("unsendable", "a stream with an unsendable value at %d is sent as %v", at, ms)
		}
	}
	for i, it := range items {
		if i >= at || !same(it, i+1) {
			x.Fail("unsendable", "a stream with an unsendable value at %d is sent as %v", at, ms)
		}
	}
	if !failed && !ended {
		x.Fail("unsendable", "nobody is told that the stream has an unsendable value at %d: %v", at, ms)
	}
	x.Ev("%d %v %v", len(items), failed, ended)
}

func unsendableRun(x *X, w Wire) {
	at := x.D[0]
	s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface {
		return &unsendableHub{vs: unsendable(at, x.D[1]), buf: 4 * x.D[2]}
	}))
	p := connectPeer(x, s, "p", w)
	q := connectPeer(x, s, "q", w)
	p.Feed(w.Inv(4, "1", "pump", nil, nil))
	x.Settle(time.Second)
	judgeUnsendable(x, NoPing(p.Msgs()), "1", at, p.Served)
	if q.Served {
		x.Fail("dead", "an unsendable value of one connection ends another: %v", q.ServeErr)
	}
}

// judgeStream checks the messages of one stream. prefix: the items may stop early (after cancel), done: it has to be completed.
func judgeStream(x *X, name, id string, ms []Msg, sent []int, prefix, done bool) (items int) {
	var got []any
	comps := 0
	for _, m := range ms {
		if m.ID != id {
			continue
		}
		switch m.Type {
		case 2:
			if comps > 0 {
				x.Fail("item-after-completion", "%s: %v", name, m)
			}
			got = append(got, m.Item)
		case 3:
			comps++
			if m.Error != "" || m.HasResult && m.Result != nil {
				x.Fail("wrong-completion", "%s: %v", name, m)
			}
		default:
			x.Fail("unexpected-message", "%s: %v", name, m)
		}
	}
	if len(got) > len(sent) {
		x.Fail("items", "%s: items %v, sent %v", name, got, sent)
		return len(got)
	}
	for i := range got {
		if !same(got[i], sent[i]) {
			x.Fail("items", "%s: items %v, sent %v", name, got, sent)
			return len(got)
		}
	}
	if !prefix && len(got) < len(sent) {
		x.Fail("items-lost", "%s: items %v, sent %v", name, got, sent)
	}
	if done && comps != 1 {
		x.Fail("completions", "%s: %d completions: %v", name, comps, ms)
	}
	if !done && comps != 0 {
		x.Fail("early-completion", "%s: %v", name, ms)
	}
	return len(got)
}

func pumpServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, *pumpHub) {
	h := &pumpHub{ps: map[int]*pump{}, slow: map[int]chan struct{}{}}
	s, _ := newServer(x, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &pumpHub{ps: h.ps, slow: h.slow} }))...)
	return s, h
}

func feedPump(p *pump, n int, base int, cl bool) (vals []int) {
	for i := 1; i <= n; i++ {
		p.gate <- base + i
		vals = append(vals, base+i)
	}
	if cl {
		close(p.gate)
	}
	return
}

func init() {
	register(&Property{ID: "C07", Title: "server streams",
		Rule: "streams: one or two streams of 0..3 items over channels of capacity 0..2 at once; cancel: n items before and m items after a cancel message, sent once or twice, next to another stream, with stale and foreign cancels; " +
			"early: cancel before the method returned its channel; crowd: up to 40 streams at once, half of them cancelled; unsendable: streams with a value which can't be serialized; series: more cancelled (or cancelled too late) streams than the maximum of concurrent streams, one after the other; reuse: an id used again at once when its stream was completed, after closing or cancelling, and cancelled again; ahead: cancels of ids which are used later; values: streams of all sequences of up to three values of eleven types, nil and empty ones too. JSON and MessagePack, all schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out,
					pumpCrowd(w),
					&Scenario{Name: "streams/" + w.Name(), Dims: []int{4, 3, 5, 2, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							s, h := pumpServer(x)
							p := connectPeer(x, s, "p", w)
							n1, b1, n2, b2 := x.D[0], x.D[1], x.D[2]-1, x.D[3]
							h.ps[1], h.ps[2] = newPump(b1), newPump(b2)
							all := w.Inv(4, "1", "pump", []any{1}, nil)
							v1 := feedPump(h.ps[1], n1, 10, true)
							var v2 []int
							if n2 >= 0 {
								all = append(all, w.Inv(4, "2", "pump", []any{2}, nil)...)
								v2 = feedPump(h.ps[2], n2, 20, true)
							}
							if x.D[4] == 0 {
								p.Feed(all)
							} else {
								p.Feed(all[:len(w.Inv(4, "1", "pump", []any{1}, nil))])
								p.Feed(all[len(w.Inv(4, "1", "pump", []any{1}, nil)):])
							}
							x.Idle()
							ms := NoPing(p.Msgs())
							judgeStream(x, "one", "1", ms, v1, false, true)
							if n2 >= 0 {
								judgeStream(x, "two", "2", ms, v2, false, true)
							}
							x.Ev("%v", ms)
							alivePump(x, p)
						}},
					&Scenario{Name: "cancel/" + w.Name(), Dims: []int{3, 3, 2, 3, 2, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							before, after, dup, foreign, mode, buf := x.D[0], x.D[1], x.D[2], x.D[3], x.D[4], x.D[5]
							s, h := pumpServer(x)
							p := connectPeer(x, s, "p", w)
							h.ps[1], h.ps[2] = newPump(buf), newPump(0)
							p.Feed(append(w.Inv(4, "1", "pump", []any{1}, nil), w.Inv(4, "2", "pump", []any{2}, nil)...))
							v1 := feedPump(h.ps[1], before, 10, false)
							v2 := feedPump(h.ps[2], 1, 20, false)
							if mode == 0 {
								x.Idle()
							}
							c := w.Cancel("1")
							if dup > 0 {
								c = append(c, w.Cancel("1")...)
							}
							switch foreign {
							case 1:
								c = append(w.Cancel("77"), c...)
							case 2:
								c = append(append(w.Cancel(""), c...), w.Cancel("3")...)
							}
							p.Feed(c)
							quiet := false
							if mode == 0 {
								x.Idle()
								quiet = true
							}
							n := 0
							if quiet {
								n = judgeStream(x, "before", "1", NoPing(p.Msgs()), v1, false, false)
							}
							v1 = append(v1, feedPump(h.ps[1], after, 10+before, true)...)
							v2 = append(v2, feedPump(h.ps[2], 2, 21, true)...)
							x.Idle()
							ms := NoPing(p.Msgs())
							m := judgeStream(x, "cancelled", "1", ms, v1, true, true)
							if quiet && m > n {
								x.Fail("item-after-cancel", "%d items before, %d after the cancel: %v", n, m, ms)
							}
							judgeStream(x, "other", "2", ms, v2, false, true)
							// nothing comes later
							p.Feed(w.Cancel("2"))
							x.Settle(7 * 1e9)
							if l := NoPing(p.Msgs()); len(l) != len(ms) {
								x.Fail("late", "%v", l[len(ms):])
							}
							x.Ev("%v", ms)
							alivePump(x, p)
						}},
					&Scenario{Name: "early/" + w.Name(), Dims: []int{3, 2, 2, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							// the cancel comes before the method has returned its channel
							s, h := pumpServer(x, signalr.MaxConcurrentStreams(1))
							p := connectPeer(x, s, "p", w)
							h.ps[1], h.ps[2] = newPump(0), newPump(0)
							h.slow[1] = make(chan struct{})
							v1 := feedPump(h.ps[1], x.D[0], 10, true)
							// stale cancels
							for i := 0; i < x.D[3]; i++ {
								p.Feed(w.Cancel(fmt.Sprint("stale", i)))
							}
							p.Feed(w.Inv(4, "1", "pump", []any{1}, nil))
							if x.D[1] == 0 {
								x.Idle()
							}
							p.Feed(w.Cancel("1"))
							x.Idle()
							close(h.slow[1])
							x.Idle()
							ms := NoPing(p.Msgs())
							if n := judgeStream(x, "cancelled", "1", ms, v1, true, true); n > 0 {
								x.Fail("item-after-cancel", "%v", ms)
							}
							// another stream is not affected, even if it reuses the id
							id := []string{"2", "1"}[x.D[2]]
							p.hsLen = len(p.out)
							v2 := feedPump(h.ps[2], 2, 20, true)
							p.Feed(w.Inv(4, id, "pump", []any{2}, nil))
							x.Idle()
							judgeStream(x, "next", id, NoPing(p.Msgs()), v2, false, true)
							x.Ev("%v %v", ms, p.Msgs())
							alivePump(x, p)
						}},
					&Scenario{Name: "reuse/" + w.Name(), Dims: []int{3, 2, 3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							// the client uses the id again as soon as it has got the completion
							s, h := pumpServer(x)
							p := connectPeer(x, s, "p", w)
							end, before, second, buf := x.D[0], x.D[1], x.D[2], x.D[3]
							h.ps[1], h.ps[2] = newPump(buf), newPump(0)
							v2 := []int{}
							switch second {
							case 0: // runs to its end
								v2 = feedPump(h.ps[2], 2, 20, true)
							default: // is cancelled later
								v2 = feedPump(h.ps[2], 1, 20, false)
							}
							at := -1
							p.Conn.onWrite = func([]byte) {
								if at >= 0 {
									return
								}
								for _, m := range p.Msgs() {
									if m.Type == 3 {
										at = len(p.out)
										p.Feed(w.Inv(4, "1", "pump", []any{2}, nil))
										return
									}
								}
							}
							p.Feed(w.Inv(4, "1", "pump", []any{1}, nil))
							v1 := feedPump(h.ps[1], before, 10, end == 0)
							x.Idle()
							switch end {
							case 1:
								p.Feed(w.Cancel("1"))
								x.Idle()
								h.ps[1].gate <- 99
							case 2:
								p.Feed(w.Cancel("1"))
								x.Idle()
								close(h.ps[1].gate)
							}
							x.Idle()
							if at < 0 {
								x.Fail("not-completed", "%v", p.Msgs())
								return
							}
							all := NoPing(p.Msgs())
							old := p.hsLen
							p.hsLen = at
							ms := NoPing(p.Msgs())
							judgeStream(x, "first", "1", all[:len(all)-len(ms)], v1, false, true)
							if second == 0 {
								judgeStream(x, "again", "1", ms, v2, false, true)
							} else {
								judgeStream(x, "again", "1", ms, v2, false, false)
								p.Feed(w.Cancel("1"))
								x.Idle()
								if second == 1 {
									h.ps[2].gate <- 99
								} else {
									close(h.ps[2].gate)
								}
								x.Idle()
								judgeStream(x, "again, cancelled", "1", NoPing(p.Msgs()), v2, false, true)
							}
							x.Ev("%v", ms)
							p.hsLen = old
							alivePump(x, p)
						}},
					&Scenario{Name: "ahead/" + w.Name(), Dims: []int{3, 3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							// cancels of ids which are used for the first time later are no cancels of the streams
							s, h := pumpServer(x, signalr.MaxConcurrentStreams(2))
							p := connectPeer(x, s, "p", w)
							var b []byte
							for i := 0; i <= x.D[0]; i++ {
								b = append(b, w.Cancel(fmt.Sprint(i+1))...)
							}
							p.Feed(b)
							if x.D[2] == 0 {
								x.Idle()
							}
							for k := 1; k <= 3; k++ {
								h.ps[k] = newPump(0)
								v := feedPump(h.ps[k], x.D[1], 10*k, true)
								p.hsLen = len(p.out)
								p.Feed(w.Inv(4, fmt.Sprint(k), "pump", []any{k}, nil))
								x.Idle()
								judgeStream(x, fmt.Sprint(k), fmt.Sprint(k), NoPing(p.Msgs()), v, false, true)
								x.Ev("%v", p.Msgs())
							}
							alivePump(x, p)
						}},
					outKinds(w),
					&Scenario{Name: "unsendable/" + w.Name(), Dims: []int{3, 3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) { unsendableRun(x, w) }},
					&Scenario{Name: "series/" + w.Name(), Dims: []int{4, 4, 4, 2}, Quick: 0, Full: 1,
						Body: func(x *X) {
							s, h := pumpServer(x, signalr.MaxConcurrentStreams(uint(1+x.D[3])))
							p := connectPeer(x, s, "p", w)
							for k := 1; k <= 5; k++ {
								kind := 3
								if k < 4 {
									kind = x.D[k-1]
								}
								id := fmt.Sprint(k)
								pu := newPump(0)
								h.ps[k] = pu
								p.hsLen = len(p.out)
								p.Feed(w.Inv(4, id, "pump", []any{k}, nil))
								v := feedPump(pu, 1, 10*k, false)
								x.Idle()
								switch kind {
								case 0: // complete, cancel too late
									v = append(v, feedPump(pu, 1, 10*k+1, true)...)
									x.Idle()
									p.Feed(w.Cancel(id))
									x.Idle()
									judgeStream(x, "late cancel "+id, id, NoPing(p.Msgs()), v, false, true)
								case 1: // foreign cancel
									p.Feed(w.Cancel("f" + id))
									v = append(v, feedPump(pu, 1, 10*k+1, true)...)
									x.Idle()
									judgeStream(x, "foreign cancel "+id, id, NoPing(p.Msgs()), v, false, true)
								case 2: // cancel, then the method closes its channel
									p.Feed(w.Cancel(id))
									x.Idle()
									close(pu.gate)
									x.Idle()
									judgeStream(x, "cancel and close "+id, id, NoPing(p.Msgs()), v, false, true)
								case 3: // cancel, the method goes on
									p.Feed(w.Cancel(id))
									x.Idle()
									pu.gate <- 99
									x.Idle()
									judgeStream(x, "cancel "+id, id, NoPing(p.Msgs()), v, false, true)
								}
								x.Ev("%d %v", kind, p.Msgs())
							}
							alivePump(x, p)
						}},
				)
			}
			return out
		}})
}

func alivePump(x *X, p *Peer) {
	p.hsLen = len(p.out)
	p.Feed(p.W.Inv(1, "alive", "val", []any{77}, nil))
	x.Idle()
	ms := NoPing(p.Msgs())
	if len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != "alive" || !same(ms[0].Result, 770) {
		x.Fail("dead", "the connection does not answer: %v (%v %v)", ms, p.Served, p.ServeErr)
	}
}
