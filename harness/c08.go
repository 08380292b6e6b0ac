package main

import (
	"fmt"
	"time"

	"github.com/philippseith/signalr"
)

// C08: streams from the client to hub methods.

// sink is the consumer of an upload stream.
type sink struct {
	got    []any
	closed bool
	take   chan struct{} // nil: takes at once; else one value per token
}

type upHub struct {
	signalr.Hub
	sinks map[string]*sink
	calls *[]string
	quit  chan struct{}
}

func drain[T any](s *sink, ch <-chan T) {
	for {
		if s.take != nil {
			if _, ok := <-s.take; !ok {
				return
			}
		}
		v, ok := <-ch
		if !ok {
			s.closed = true
			return
		}
		s.got = append(s.got, v)
	}
}

func (h *upHub) Ints(name string, ch <-chan int) int {
	*h.calls = append(*h.calls, name)
	drain(h.sinks[name], ch)
	return len(h.sinks[name].got)
}

func (h *upHub) Both(a <-chan int, b <-chan string) int {
	*h.calls = append(*h.calls, "both")
	d := make(chan struct{})
	go func() {
		drain(h.sinks["b"], b)
		close(d)
	}()
	drain(h.sinks["a"], a)
	<-d
	return len(h.sinks["a"].got) + len(h.sinks["b"].got)
}

func (h *upHub) Structs(ch <-chan zitem) int {
	*h.calls = append(*h.calls, "structs")
	drain(h.sinks["s"], ch)
	return len(h.sinks["s"].got)
}

// Ignore does not read its stream.
func (h *upHub) Ignore(name string, ch <-chan int) int {
	*h.calls = append(*h.calls, name)
	return 5
}

// Closer takes n items and closes the channel by itself.
func (h *upHub) Closer(n int, ch chan int) int {
	sum := 0
	for i := 0; i < n; i++ {
		sum += <-ch
	}
	close(ch)
	return sum
}

func (h *upHub) Val(a int) int { return a * 10 }

type zitem struct {
	A int    `json:"a"`
	B string `json:"b"`
}

func upServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, *upHub) {
	h := &upHub{sinks: map[string]*sink{}, calls: &[]string{}, quit: make(chan struct{})}
	s, _ := newServer(x, append(opts, signalr.HubFactory(func() signalr.HubInterface {
		return &upHub{sinks: h.sinks, calls: h.calls, quit: h.quit}
	}))...)
	return s, h
}

// interleave yields the i-th interleaving of n and m steps as a list of 0/1, nil if there are fewer.
func interleave(n, m, i int) []int {
	var out []int
	count := func(n, m int) int {
		c := 1
		for k := 1; k <= m; k++ {
			c = c * (n + k) / k
		}
		return c
	}
	if i >= count(n, m) {
		return nil
	}
	for n+m > 0 {
		if n > 0 {
			c := count(n-1, m)
			if i < c {
				out = append(out, 0)
				n--
				continue
			}
			i -= c
		}
		out = append(out, 1)
		m--
	}
	return out
}

func (s *sink) check(x *X, name string, want []any, closed bool) {
	if fmt.Sprint(norm(s.got)) != fmt.Sprint(norm(want)) {
		x.Fail("items", "%s: the method got %v, sent %v", name, s.got, want)
	}
	if s.closed != closed {
		x.Fail("closed", "%s: closed %v, want %v", name, s.closed, closed)
	}
}

func findCompletion(ms []Msg, id string) (c []Msg) {
	for _, m := range ms {
		if m.Type == 3 && m.ID == id {
			c = append(c, m)
		}
	}
	return
}

func wantResult(x *X, p *Peer, id string, v any) {
	c := findCompletion(p.Msgs(), id)
	if len(c) != 1 || c[0].Error != "" || !same(c[0].Result, v) {
		x.Fail("result", "invocation %s: completions %v, want %v (served %v %v)", id, c, v, p.Served, p.ServeErr)
	}
}

func init() {
	register(&Property{ID: "C08", Title: "upload streams",
		Rule: "both: a method with two channels, 0..2 items each, every interleaving of items and completions, in one or many reads, buffer capacity 0..2; two: two invocations with one channel each, likewise; " +
			"limit: every sequence of up to six open / finish / finish with error operations with limits 1 and 2; slow: consumers that take an item every t, with t below and above the receive timeout, or never; error: streams which the client ends with an error; closer: methods which close their channel; behind: items for a channel the method has closed; values: streams of all sequences of up to three values of eleven types, nil and empty ones too; crowd: up to 40 streams at once; many: methods with three to five streams in seven places between the arguments. " +
			"JSON and MessagePack, schedules with bounded deviations, virtual time.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				steps := func(x *X, order []int, n, m int, ia, ib string) (seq [][]byte, va, vb []any) {
					i, j := 0, 0
					for _, s := range order {
						if s == 0 {
							if i < n {
								i++
								va = append(va, 10+i)
								seq = append(seq, w.Item(ia, 10+i))
							} else {
								seq = append(seq, w.Completion(ia, nil, false, ""))
							}
						} else {
							if j < m {
								j++
								vb = append(vb, fmt.Sprint("s", j))
								seq = append(seq, w.Item(ib, fmt.Sprint("s", j)))
							} else {
								seq = append(seq, w.Completion(ib, nil, false, ""))
							}
						}
					}
					return
				}
				feedAll := func(x *X, p *Peer, seq [][]byte, mode int) {
					var all []byte
					for _, b := range seq {
						if mode == 0 {
							all = append(all, b...)
						} else {
							p.Feed(b)
							if mode == 2 {
								x.Idle()
							}
						}
					}
					p.Feed(all)
				}
				out = append(out,
					&Scenario{Name: "both/" + w.Name(), Dims: []int{3, 3, 20, 3, 3}, Quick: 0, Full: 1,
						Skip: func(d []int) bool { return interleave(d[0]+1, d[1]+1, d[2]) == nil },
						Body: func(x *X) {
							n, m := x.D[0], x.D[1]
							s, h := upServer(x, signalr.StreamBufferCapacity(uint(1+x.D[4])))
							p := connectPeer(x, s, "p", w)
							h.sinks["a"], h.sinks["b"] = &sink{}, &sink{}
							seq, va, vb := steps(x, interleave(n+1, m+1, x.D[2]), n, m, "ia", "ib")
							seq = append([][]byte{w.Inv(1, "1", "both", nil, []string{"ia", "ib"})}, seq...)
							feedAll(x, p, seq, x.D[3])
							x.Idle()
							h.sinks["a"].check(x, "a", va, true)
							h.sinks["b"].check(x, "b", vb, true)
							wantResult(x, p, "1", n+m)
							x.Ev("%v %v %v", va, vb, p.Msgs())
							alivePump(x, p)
						}},
					&Scenario{Name: "both-sched/" + w.Name(), Dims: []int{20, 2}, Quick: 1, Full: 2,
						Skip: func(d []int) bool { return interleave(2, 3, d[0]) == nil },
						Body: func(x *X) {
							s, h := upServer(x, signalr.StreamBufferCapacity(1))
							p := connectPeer(x, s, "p", w)
							h.sinks["a"], h.sinks["b"] = &sink{}, &sink{}
							seq, va, vb := steps(x, interleave(2, 3, x.D[0]), 1, 2, "ia", "ib")
							seq = append([][]byte{w.Inv(1, "1", "both", nil, []string{"ia", "ib"})}, seq...)
							feedAll(x, p, seq, x.D[1])
							x.Idle()
							h.sinks["a"].check(x, "a", va, true)
							h.sinks["b"].check(x, "b", vb, true)
							wantResult(x, p, "1", 3)
							x.Ev("%v %v %v", va, vb, p.Msgs())
							alivePump(x, p)
						}},
					&Scenario{Name: "two/" + w.Name(), Dims: []int{3, 3, 20, 3}, Quick: 0, Full: 1,
						Skip: func(d []int) bool { return interleave(d[0]+2, d[1]+2, d[2]) == nil },
						Body: func(x *X) {
							n, m := x.D[0], x.D[1]
							s, h := upServer(x)
							p := connectPeer(x, s, "p", w)
							h.sinks["a"], h.sinks["b"] = &sink{}, &sink{}
							var seq [][]byte
							var va, vb []any
							i, j := 0, 0
							for _, st := range interleave(n+2, m+2, x.D[2]) {
								if st == 0 {
									switch {
									case i == 0:
										seq = append(seq, w.Inv(1, "1", "ints", []any{"a"}, []string{"s1"}))
									case i <= n:
										seq = append(seq, w.Item("s1", 10+i))
										va = append(va, 10+i)
									default:
										seq = append(seq, w.Completion("s1", nil, false, ""))
									}
									i++
								} else {
									switch {
									case j == 0:
										seq = append(seq, w.Inv(1, "2", "ints", []any{"b"}, []string{"s2"}))
									case j <= m:
										seq = append(seq, w.Item("s2", 20+j))
										vb = append(vb, 20+j)
									default:
										seq = append(seq, w.Completion("s2", nil, false, ""))
									}
									j++
								}
							}
							feedAll(x, p, seq, x.D[3])
							x.Idle()
							h.sinks["a"].check(x, "a", va, true)
							h.sinks["b"].check(x, "b", vb, true)
							wantResult(x, p, "1", n)
							wantResult(x, p, "2", m)
							// the same stream ids again
							p.hsLen = len(p.out)
							h.sinks["c"] = &sink{}
							feedAll(x, p, [][]byte{w.Inv(1, "3", "ints", []any{"c"}, []string{"s1"}), w.Item("s1", 31), w.Item("s1", 32), w.Completion("s1", nil, false, "")}, x.D[3])
							x.Idle()
							h.sinks["c"].check(x, "c", []any{31, 32}, true)
							wantResult(x, p, "3", 2)
							x.Ev("%v %v %v", va, vb, p.Msgs())
							alivePump(x, p)
						}},
					&Scenario{Name: "structs/" + w.Name(), Dims: []int{2}, Quick: 0, Full: 1,
						Body: func(x *X) {
							s, h := upServer(x)
							p := connectPeer(x, s, "p", w)
							h.sinks["s"] = &sink{}
							feedAll(x, p, [][]byte{w.Inv(1, "1", "structs", nil, []string{"s1"}),
								w.Item("s1", map[string]any{"a": 1, "b": "x"}), w.Item("s1", map[string]any{"b": "y"}), w.Item("s1", map[string]any{"a": 3}),
								w.Completion("s1", nil, false, "")}, x.D[0])
							x.Idle()
							if fmt.Sprint(h.sinks["s"].got) != "[{1 x} {0 y} {3 }]" || !h.sinks["s"].closed {
								x.Fail("items", "%v", h.sinks["s"].got)
							}
							wantResult(x, p, "1", 3)
							x.Ev("%v", h.sinks["s"].got)
						}},
					inKinds(w),
					uploadCrowd(w),
					manyStreams(w),
					&Scenario{Name: "limit/" + w.Name(), Dims: []int{2, 5, 5, 5, 5, 5, 5}, Quick: 0, Full: 1,
						Body: func(x *X) {
							limit := 1 + x.D[0]
							s, h := upServer(x, signalr.MaxConcurrentStreams(uint(limit)))
							p := connectPeer(x, s, "p", w)
							var active []int
							want := map[int]bool{}
							next := 0
							var trace []string
							for _, op := range x.D[1:] {
								switch {
								case op == 0:
									next++
									name := fmt.Sprint("m", next)
									h.sinks[name] = &sink{}
									p.Feed(w.Inv(1, name, "ints", []any{name}, []string{"s" + name}))
									if len(active) < limit {
										active = append(active, next)
										want[next] = true
									}
									trace = append(trace, "open")
								case len(active) > 0:
									i := 0
									if op == 2 || op == 4 {
										i = len(active) - 1
									}
									errText := ""
									if op > 2 {
										errText = "broken"
									}
									name := fmt.Sprint("m", active[i])
									p.Feed(w.Item("s"+name, active[i]))
									p.Feed(w.Completion("s"+name, nil, false, errText))
									x.Idle()
									h.sinks[name].check(x, name, []any{active[i]}, true)
									wantResult(x, p, name, 1)
									active = append(append([]int{}, active[:i]...), active[i+1:]...)
									trace = append(trace, "end "+name)
								}
								x.Idle()
							}
							ran := map[string]bool{}
							for _, c := range *h.calls {
								if ran[c] {
									x.Fail("twice", "%v", *h.calls)
								}
								ran[c] = true
							}
							ms := p.Msgs()
							for i := 1; i <= next; i++ {
								name := fmt.Sprint("m", i)
								c := findCompletion(ms, name)
								if want[i] != ran[name] {
									x.Fail("limit", "limit %d: %v: stream %d accepted %v, want %v", limit, trace, i, ran[name], want[i])
								}
								if !want[i] && (len(c) != 1 || c[0].Error == "") {
									x.Fail("limit", "rejected stream %d: %v", i, c)
								}
							}
							if p.Served {
								x.Fail("dead", "the connection ended: %v", p.ServeErr)
							}
							x.Ev("%d %v %v", limit, trace, *h.calls)
						}},
					&Scenario{Name: "slow/" + w.Name(), Dims: []int{3, 4, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							// the consumer takes an item every t
							capacity, n := 1+x.D[0], 1+x.D[1]
							t := []time.Duration{300 * time.Millisecond, 900 * time.Millisecond, 2500 * time.Millisecond}[x.D[2]]
							s, h := upServer(x, signalr.StreamBufferCapacity(uint(capacity)), signalr.ChanReceiveTimeout(time.Second))
							p := connectPeer(x, s, "p", w)
							sk := &sink{take: make(chan struct{})}
							h.sinks["a"] = sk
							p.Feed(w.Inv(1, "1", "ints", []any{"a"}, []string{"s1"}))
							x.Idle()
							var all []byte
							var want []any
							for i := 1; i <= n; i++ {
								all = append(all, w.Item("s1", i)...)
								want = append(want, i)
							}
							all = append(all, w.Completion("s1", nil, false, "")...)
							all = append(all, w.Inv(1, "2", "val", []any{3}, nil)...)
							p.Feed(all)
							x.Idle()
							for i := 0; i < n+1; i++ {
								time.Sleep(t)
								x.Idle()
								select {
								case sk.take <- struct{}{}:
								default:
								}
								x.Idle()
							}
							x.Settle(5 * time.Second)
							ms := NoPing(p.Msgs())
							// the connection is usable
							wantResult(x, p, "2", 30)
							wantResult(x, p, "1", len(sk.got))
							errs := 0
							for _, m := range ms {
								switch {
								case m.Type == 3 && m.ID == "s1" && m.Error != "":
									errs++
								case m.Type == 3 && (m.ID == "1" || m.ID == "2"):
								default:
									x.Fail("unexpected-message", "%v", m)
								}
							}
							if !sk.closed {
								x.Fail("closed", "the channel was not closed")
							}
							if t < time.Second || n <= capacity {
								sk.check(x, "slow", want, true)
								if errs > 0 {
									x.Fail("early-timeout", "%v", ms)
								}
							} else {
								if errs == 0 {
									x.Fail("no-timeout", "%v items, capacity %d, taking one every %v: %v", n, capacity, t, ms)
								}
								// what arrives is in order
								last := 0
								for _, v := range sk.got {
									if v.(int) <= last {
										x.Fail("items", "%v", sk.got)
									}
									last = v.(int)
								}
							}
							x.Ev("%v %v", sk.got, ms)
							alivePump(x, p)
						}},
					&Scenario{Name: "absent/" + w.Name(), Dims: []int{3, 4, 2}, Quick: 0, Full: 1,
						Body: func(x *X) {
							// nobody reads the stream
							capacity, n := 1+x.D[0], 1+x.D[1]
							s, _ := upServer(x, signalr.StreamBufferCapacity(uint(capacity)), signalr.ChanReceiveTimeout(time.Second))
							p := connectPeer(x, s, "p", w)
							p.Feed(w.Inv(1, "1", "ignore", []any{"a"}, []string{"s1"}))
							x.Idle()
							wantResult(x, p, "1", 5)
							for i := 1; i <= n; i++ {
								p.Feed(w.Item("s1", i))
							}
							if x.D[2] == 0 {
								p.Feed(w.Completion("s1", nil, false, ""))
							}
							p.Feed(w.Inv(1, "2", "val", []any{3}, nil))
							x.Settle(time.Duration(n-capacity) * time.Second)
							x.Settle(time.Second / 2)
							errs := findCompletion(p.Msgs(), "s1")
							if wantErrs := max(n-capacity, 0); len(errs) != wantErrs {
								x.Fail("timeouts", "%d items, capacity %d: %v", n, capacity, p.Msgs())
							}
							wantResult(x, p, "2", 30)
							x.Ev("%v", p.Msgs())
							alivePump(x, p)
						}},
					&Scenario{Name: "closer/" + w.Name(), Dims: []int{3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							// the method closes the channel, then the client completes the stream
							n := x.D[0]
							s, _ := upServer(x, signalr.MaxConcurrentStreams(1))
							p := connectPeer(x, s, "p", w)
							for k := 1; k <= 2; k++ {
								p.hsLen = len(p.out)
								id, st := fmt.Sprint(k), fmt.Sprint("s", k)
								p.Feed(w.Inv(1, id, "closer", []any{n}, []string{st}))
								sum := 0
								for i := 1; i <= n; i++ {
									p.Feed(w.Item(st, i))
									sum += i
								}
								x.Idle()
								switch x.D[1] {
								case 0:
									p.Feed(w.Completion(st, nil, false, ""))
								case 1:
									p.Feed(w.Completion(st, nil, false, "client failed"))
								}
								x.Idle()
								wantResult(x, p, id, sum)
							}
							alivePump(x, p)
						}},
					// items behind the end of the channel: they are dropped, or the connection ends, but nothing else
					&Scenario{Name: "behind/" + w.Name(), Dims: []int{3, 3, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							n := x.D[0]
							s, _ := upServer(x)
							p := connectPeer(x, s, "p", w)
							q := connectPeer(x, s, "q", w)
							p.Feed(w.Inv(1, "1", "closer", []any{n}, []string{"s"}))
							sum := 0
							for i := 1; i <= n+x.D[1]+1; i++ {
								if i <= n {
									sum += i
								}
								if x.D[2] == 1 && i == n+1 || x.D[2] == 2 {
									x.Idle()
								}
								p.Feed(w.Item("s", i))
							}
							x.Settle(time.Second)
							if p.Served {
								x.Ev("ended")
							} else {
								wantResult(x, p, "1", sum)
								alivePump(x, p)
							}
							alivePump(x, q)
						}},
					&Scenario{Name: "error/" + w.Name(), Dims: []int{3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							// the client ends its stream with an error
							s, h := upServer(x)
							p := connectPeer(x, s, "p", w)
							sk := &sink{}
							h.sinks["a"] = sk
							seq := [][]byte{w.Inv(1, "1", "ints", []any{"a"}, []string{"s1"})}
							var want []any
							for i := 1; i <= x.D[0]; i++ {
								seq = append(seq, w.Item("s1", i))
								want = append(want, i)
							}
							seq = append(seq, w.Completion("s1", nil, false, "client failed"))
							feedAll(x, p, seq, x.D[1])
							x.Idle()
							sk.check(x, "error", want, true)
							wantResult(x, p, "1", x.D[0])
							alivePump(x, p)
							x.Ev("%v", sk.got)
						}},
				)
			}
			return out
		}})
}
