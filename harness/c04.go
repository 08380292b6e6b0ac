package main

import (
	"fmt"
	"strings"

	"github.com/philippseith/signalr"
)

// C04: the maximum receive message size holds for each message on its own.

type sizeHub struct {
	signalr.Hub
	r *rec
}

func (h *sizeHub) Rec(v string) int {
	h.r.calls = append(h.r.calls, fmt.Sprintf("%s%d", v[:1], len(v)))
	return len(v)
}

func (h *sizeHub) Up(ch <-chan string) {
	for v := range ch {
		h.r.items = append(h.r.items, fmt.Sprintf("%s%d", v[:1], len(v)))
	}
	h.r.ended = true
}

type sizeReceiver struct{ r *rec }

func (h *sizeReceiver) Rec(v string) {
	h.r.calls = append(h.r.calls, fmt.Sprintf("%s%d", v[:1], len(v)))
}

// size of a message as the limit counts it, and the bytes before it.
func counted(w Wire, b []byte) (n, prefix int) {
	if w.Name() == "json" {
		return len(b), 0
	}
	for prefix < len(b) && b[prefix]&0x80 != 0 {
		prefix++
	}
	return len(b) - prefix - 1, prefix + 1
}

// sized pads a message until its counted size is n; ok is false if that isn't possible.
func sized(w Wire, n int, tag string, mk func(v string) []byte) (b []byte, pad int, ok bool) {
	lo := mk(tag)
	c, _ := counted(w, lo)
	pad = n - c + 1
	for d := 0; d < 8 && pad >= 1; d++ {
		b = mk(strings.Repeat(tag, pad))
		got, _ := counted(w, b)
		if got == n {
			return b, pad, true
		}
		pad -= got - n
	}
	return nil, 0, false
}

// kinds of large messages
const (
	szCall = iota // server: invocation, client: receiver invocation
	szItem
	szID // the size is in the invocation id
	szKinds
)

type sizeMsg struct {
	b       []byte
	counted int
	prefix  int
	what    string // expected observation
}

// sizeCase builds: [before] big [after]
func sizeMsgs(w Wire, limit, n, kind int, small bool) ([]sizeMsg, bool) {
	mkSmall := func(tag string, id string) sizeMsg {
		b := w.Inv(1, id, "rec", []any{tag}, nil)
		c, p := counted(w, b)
		return sizeMsg{b, c, p, "call:" + tag + "1"}
	}
	var ms []sizeMsg
	if small {
		ms = append(ms, mkSmall("a", "1"))
	}
	var big sizeMsg
	switch kind {
	case szCall:
		b, pad, ok := sized(w, n, "B", func(v string) []byte { return w.Inv(1, "2", "rec", []any{v}, nil) })
		if !ok {
			return nil, false
		}
		big = sizeMsg{b: b, what: fmt.Sprintf("call:B%d", pad)}
	case szItem:
		u := w.Inv(1, "9", "up", nil, []string{"s"})
		c, p := counted(w, u)
		ms = append(ms, sizeMsg{u, c, p, "up"})
		b, pad, ok := sized(w, n, "B", func(v string) []byte { return w.Item("s", v) })
		if !ok {
			return nil, false
		}
		big = sizeMsg{b: b, what: fmt.Sprintf("item:B%d", pad)}
	case szID:
		b, _, ok := sized(w, n, "B", func(v string) []byte { return w.Inv(1, v, "rec", []any{"i"}, nil) })
		if !ok {
			return nil, false
		}
		big = sizeMsg{b: b, what: "call:i1"}
	}
	big.counted, big.prefix = counted(w, big.b)
	ms = append(ms, big)
	if small {
		ms = append(ms, mkSmall("z", "3"))
	}
	for _, m := range ms {
		if m.counted > limit && m.counted != big.counted {
			return nil, false
		}
	}
	return ms, true
}

// judgeSize tells what has to be seen after the first k bytes of the messages.
// A message that is too large may end the connection from the byte on that makes it certain.
func judgeSize(x *X, w Wire, limit int, ms []sizeMsg, k int, what string, r *rec, ended bool) {
	var want rec
	pos, mustEnd, mayEnd := 0, false, false
	for _, m := range ms {
		if m.counted > limit {
			if w.Name() == "json" {
				mayEnd = k >= pos+limit
				mustEnd = k >= pos+limit+1
			} else {
				mayEnd = k >= pos+1
				mustEnd = k >= pos+m.prefix
			}
			break
		}
		pos += len(m.b)
		if k < pos {
			break
		}
		kind, v, _ := strings.Cut(m.what, ":")
		switch kind {
		case "call":
			want.calls = append(want.calls, v)
		case "item":
			want.items = append(want.items, v)
		}
	}
	// invocations run concurrently
	if join(want.calls) != join(r.calls) || join(want.items) != join(r.items) {
		x.Fail("lost", "limit %d, %s: calls %v items %v, want %v %v", limit, what, r.calls, r.items, want.calls, want.items)
	}
	if ended && !mayEnd {
		x.Fail("ended", "limit %d, %s: the connection ended", limit, what)
	}
	if !ended && mustEnd {
		x.Fail("accepted", "limit %d, %s: the connection did not end", limit, what)
	}
}

func feedSizes(x *X, w Wire, limit int, ms []sizeMsg, hs []byte, cuts []int, feed func([]byte), r *rec, ended func() bool) {
	var all []byte
	for _, m := range ms {
		all = append(all, m.b...)
	}
	feed(hs)
	var sizes []string
	for _, m := range ms {
		sizes = append(sizes, fmt.Sprintf("%s of size %d", m.what, m.counted))
	}
	last := 0
	for i, c := range append(append([]int{}, cuts...), len(all)) {
		if c > len(all) {
			c = len(all)
		}
		if c < last || c == last && i > 0 {
			continue
		}
		feed(all[last:c])
		x.Idle()
		judgeSize(x, w, limit, ms, c, fmt.Sprintf("%v, %d bytes received, cut at %v", sizes, c, cuts), r, ended())
		last = c
	}
	x.Ev("%v %v %v", r.calls, r.items, ended())
}

func sizeServer(x *X, w Wire, limit int, ms []sizeMsg, cuts []int, mergeHS bool) {
	r := &rec{}
	s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &sizeHub{r: r} }), signalr.MaximumReceiveMessageSize(uint(limit)))
	var p *Peer
	var hs []byte
	if mergeHS {
		p = startPeer(x, s, "p", w)
		first := append([]byte{}, hsReq(w)...)
		if len(cuts) > 0 && cuts[0] < len(ms[0].b) {
			first = append(first, ms[0].b[:cuts[0]]...)
			for i := range cuts {
				cuts[i] -= 0
			}
			ms = append([]sizeMsg{}, ms...)
			p.Feed(first)
			x.Idle()
			k := cuts[0]
			judgeSize(x, w, limit, ms, k, fmt.Sprintf("%d bytes with the handshake", k), r, p.Served)
			var all []byte
			for _, m := range ms {
				all = append(all, m.b...)
			}
			p.Feed(all[k:])
			x.Idle()
			judgeSize(x, w, limit, ms, len(all), fmt.Sprintf("%d bytes with the handshake", k), r, p.Served)
			return
		}
		for _, m := range ms {
			first = append(first, m.b...)
		}
		p.Feed(first)
		x.Idle()
		judgeSize(x, w, limit, ms, len(first)-len(hsReq(w)), "all with the handshake", r, p.Served)
		x.Ev("%v %v %v", r.calls, r.items, p.Served)
		return
	}
	p = connectPeer(x, s, "p", w)
	feedSizes(x, w, limit, ms, hs, cuts, p.Feed, r, func() bool { return p.Served })
}

func sizeClient(x *X, w Wire, limit int, ms []sizeMsg, cuts []int) {
	r := &rec{}
	s := newClient(x, w, signalr.WithReceiver(&sizeReceiver{r}), signalr.MaximumReceiveMessageSize(uint(limit)))
	s.Connect()
	for i := range ms {
		if ms[i].what == "up" {
			return
		}
	}
	feedSizes(x, w, limit, ms, nil, cuts, s.Feed, r, func() bool { return s.C.State() == signalr.ClientClosed })
}

// sizes around the limit
func sizesFor(limit int) []int {
	return []int{limit - 2, limit - 1, limit, limit + 1, limit + 2, 2*limit - 1, 2 * limit, 3*limit + 1, limit + 127, limit / 2}
}

// bigCuts are interesting cut positions of a large input
func bigCuts(limit, total int) []int {
	return []int{1, 2, 3, 4, limit / 2, limit - 1, limit, limit + 1, limit + 2, limit + 3, limit + 4, 1<<15 - 1, 1 << 15, 1<<15 + 1, total - 1, total}
}

// sizeParties: parties in one process have their own limits.
func sizeParties(x *X, wa, wb Wire, la, lb, order int) {
	mk := func(name string, limit int, w Wire) (func(n int), func() (string, bool)) {
		r := &rec{}
		s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &sizeHub{r: r} }), signalr.MaximumReceiveMessageSize(uint(limit)))
		p := connectPeer(x, s, name, w)
		return func(n int) {
			b, _, _ := sized(w, n, "B", func(v string) []byte { return w.Inv(1, "2", "rec", []any{v}, nil) })
			p.Feed(b)
			x.Idle()
		}, func() (string, bool) { return fmt.Sprint(len(r.calls)), p.Served }
	}
	mkc := func(limit int, w Wire) (func(n int), func() (string, bool)) {
		r := &rec{}
		s := newClient(x, w, signalr.WithReceiver(&sizeReceiver{r}), signalr.MaximumReceiveMessageSize(uint(limit)))
		s.Connect()
		return func(n int) {
			b, _, _ := sized(w, n, "B", func(v string) []byte { return w.Inv(1, "2", "rec", []any{v}, nil) })
			s.Feed(b)
			x.Idle()
		}, func() (string, bool) { return fmt.Sprint(len(r.calls)), s.C.State() != signalr.ClientConnected }
	}
	var sendA, sendB func(n int)
	var seeA, seeB func() (string, bool)
	if order&1 == 0 {
		sendA, seeA = mk("a", la, wa)
	} else {
		sendA, seeA = mkc(la, wa)
	}
	if order&2 == 0 {
		sendB, seeB = mk("b", lb, wb)
	} else {
		sendB, seeB = mkc(lb, wb)
	}
	type step struct {
		send  func(n int)
		see   func() (string, bool)
		limit int
		name  string
		calls int
	}
	a, b := &step{sendA, seeA, la, "a", 0}, &step{sendB, seeB, lb, "b", 0}
	seq := []*step{a, b, a, b}
	if order&4 != 0 {
		seq = []*step{b, a, b, a}
	}
	check := func(s *step, ended bool) {
		calls, e := s.see()
		if calls != fmt.Sprint(s.calls) || e != ended {
			x.Fail("foreign-limit", "limits a=%d b=%d: party %s has seen %s calls, ended %v, want %d %v", la, lb, s.name, calls, e, s.calls, ended)
		}
	}
	for i, s := range seq {
		s.send(s.limit - i%2)
		s.calls++
		check(a, false)
		check(b, false)
	}
	// the one which may receive less
	s, o := a, b
	if order&8 != 0 {
		s, o = b, a
	}
	s.send(s.limit + 1)
	check(s, true)
	check(o, false)
	o.send(o.limit)
	o.calls++
	check(o, false)
	x.Ev("%d %d", a.calls, b.calls)
}

func init() {
	register(&Property{ID: "C04", Title: "message size",
		Rule: "Messages of every size in a set around the limit (and multiples), alone and between others, cut at every position (large limits: at the " +
			"positions around the limit, the buffer size and the ends), merged with each other and with the handshake; invocations, stream items and long ids; " +
			"both protocols and sides; pairs of parties with different limits in one process. Non-trivial: messages accepted and rejected.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				lim := 200
				nsz := len(sizesFor(lim))
				// total size is at most a bit above 3*lim + others
				maxCut := 3*lim + 260
				build := func(d []int) ([]sizeMsg, bool) { return sizeMsgs(w, lim, sizesFor(lim)[d[0]], d[1], d[2] == 1) }
				void := func(d []int) bool {
					ms, ok := build(d)
					if !ok {
						return true
					}
					n := 0
					for _, m := range ms {
						n += len(m.b)
					}
					return len(d) > 3 && d[3] > n
				}
				out = append(out, &Scenario{Name: "server/" + w.Name(), Dims: []int{nsz, szKinds, 2, maxCut}, Skip: void, NoPoints: true, Body: func(x *X) {
					ms, _ := build(x.D)
					sizeServer(x, w, lim, ms, []int{x.D[3]}, false)
				}}, &Scenario{Name: "server-hs/" + w.Name(), Dims: []int{nsz, szKinds, 2, maxCut}, Skip: void, NoPoints: true, Body: func(x *X) {
					ms, _ := build(x.D)
					sizeServer(x, w, lim, ms, []int{x.D[3]}, true)
				}}, &Scenario{Name: "server-2cuts/" + w.Name(), Dims: []int{nsz, szKinds, 2, maxCut, 12}, Skip: void,
					QuickCase: func(d []int) bool { return d[1] == szCall && d[4]%2 == 0 }, NoPoints: true, Body: func(x *X) {
						ms, _ := build(x.D)
						sizeServer(x, w, lim, ms, []int{x.D[3], x.D[3] + []int{1, 2, 3, 5, 50, 100, lim - 2, lim - 1, lim, lim + 1, lim + 2, 2 * lim}[x.D[4]]}, false)
					}}, &Scenario{Name: "server-all2cuts/" + w.Name(), Dims: []int{6, 1, 2, maxCut, maxCut}, Skip: func(d []int) bool {
					return void(d) || d[4] < d[3]
				}, NoPoints: true, OnlyFull: true, Body: func(x *X) {
					ms, _ := build(x.D)
					sizeServer(x, w, lim, ms, []int{x.D[3], x.D[4]}, false)
				}}, &Scenario{Name: "server-bytes/" + w.Name(), Dims: []int{nsz, szKinds, 2}, Skip: void, NoPoints: true, Body: func(x *X) {
					ms, _ := build(x.D)
					sizeServer(x, w, lim, ms, every(maxCut, 1), false)
				}}, &Scenario{Name: "client/" + w.Name(), Dims: []int{nsz, szKinds, 2, maxCut}, Skip: func(d []int) bool { return d[1] == szItem || void(d) }, NoPoints: true, Body: func(x *X) {
					ms, _ := build(x.D)
					sizeClient(x, w, lim, ms, []int{x.D[3]})
				}})
				// large limits: around the size of the internal buffers
				limits := []int{1<<15 - 1, 1 << 15, 1<<15 + 1, 40000, 1 << 17}
				buildL := func(d []int) ([]sizeMsg, bool) {
					return sizeMsgs(w, limits[d[0]], sizesFor(limits[d[0]])[d[1]], d[2], d[3] == 1)
				}
				bodyL := func(server bool) func(x *X) {
					return func(x *X) {
						l := limits[x.D[0]]
						ms, ok := buildL(x.D)
						if !ok {
							return
						}
						n := 0
						for _, m := range ms {
							n += len(m.b)
						}
						cuts := bigCuts(l, n)
						if server {
							sizeServer(x, w, l, ms, []int{cuts[x.D[4]]}, false)
						} else {
							sizeClient(x, w, l, ms, []int{cuts[x.D[4]]})
						}
					}
				}
				out = append(out, &Scenario{Name: "server-large/" + w.Name(), Dims: []int{len(limits), nsz, szKinds, 2, 16}, NoPoints: true, Body: bodyL(true)},
					&Scenario{Name: "client-large/" + w.Name(), Dims: []int{len(limits), nsz, szKinds, 2, 16}, NoPoints: true,
						Skip: func(d []int) bool { return d[2] == szItem }, Body: bodyL(false)})
				// merges: many messages up to the limit in one read
				out = append(out, &Scenario{Name: "merged/" + w.Name(), Dims: []int{3, 5, 5, 5, 3}, NoPoints: true, Body: func(x *X) {
					l := []int{200, 1 << 15, 1 << 16}[x.D[0]]
					var ms []sizeMsg
					for i := 0; i < 3; i++ {
						n := []int{100, l - 1, l, l + 1, l / 2}[x.D[1+i]]
						id := fmt.Sprint(i)
						b, pad, _ := sized(w, n, string(rune('A'+i)), func(v string) []byte { return w.Inv(1, id, "rec", []any{v}, nil) })
						c, p := counted(w, b)
						ms = append(ms, sizeMsg{b, c, p, fmt.Sprintf("call:%c%d", 'A'+i, pad)})
					}
					sizeServer(x, w, l, ms, [][]int{{}, {len(ms[0].b) + 1}, {len(ms[0].b) - 1, len(ms[0].b) + len(ms[1].b) - 1}}[x.D[4]], false)
				}})
			}
			out = append(out, &Scenario{Name: "parties", Dims: []int{2, 2, 16, 3}, NoPoints: true, Body: func(x *X) {
				la, lb := 150, 300
				switch x.D[3] {
				case 1:
					la, lb = 300, 150
				case 2:
					la, lb = 1<<15+5, 150
				}
				sizeParties(x, wires[x.D[0]], wires[x.D[1]], la, lb, x.D[2])
			}}, &Scenario{Name: "sched", Dims: []int{2, 3}, Quick: 1, Full: 2, Body: func(x *X) {
				w := wires[x.D[0]]
				var ms []sizeMsg
				quietly(x, func() { ms, _ = sizeMsgs(w, 200, []int{199, 200, 201}[x.D[1]], szCall, true) })
				sizeServer(x, w, 200, ms, []int{len(ms[0].b) + 20}, false)
			}})
			return out
		}})
}
