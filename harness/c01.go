package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/philippseith/signalr"
)

// C01: what a byte stream means does not depend on how it is cut into reads.

type rec struct {
	calls []string
	items []string
	ended bool
}

type recHub struct {
	signalr.Hub
	r *rec
}

func (h *recHub) Rec(v string) string {
	h.r.calls = append(h.r.calls, v)
	return "r" + v
}

func (h *recHub) Up(ch <-chan string) {
	for v := range ch {
		h.r.items = append(h.r.items, v)
	}
	h.r.ended = true
}

type recReceiver struct{ r *rec }

func (h *recReceiver) Rec(v string) { h.r.calls = append(h.r.calls, v) }

type frame struct {
	b    []byte
	what string
}

// expectAfter tells what has to be visible when n frames are complete.
func expectAfter(fs []frame, n int) (calls, items []string, ended bool) {
	for _, f := range fs[:n] {
		k, v, _ := strings.Cut(f.what, ":")
		switch k {
		case "call":
			calls = append(calls, v)
		case "item":
			items = append(items, v)
		case "end":
			ended = true
		}
	}
	return
}

// shorts shortens long texts.
func shorts(l []string) (out []string) {
	for _, s := range l {
		if len(s) > 40 {
			s = fmt.Sprintf("%s…(%d)", s[:8], len(s))
		}
		out = append(out, s)
	}
	return
}

func join(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, ",")
}

func c01Frames(w Wire, small bool) []frame {
	if small {
		return []frame{
			{hsReq(w), "hs"},
			{w.Inv(1, "1", "rec", []any{"a"}, nil), "call:a"},
			{w.Ping(), "ping"},
			{w.Inv(1, "2", "rec", []any{"b"}, nil), "call:b"},
		}
	}
	long := strings.Repeat("L", 150) // two byte length prefix
	return []frame{
		{hsReq(w), "hs"},
		{w.Inv(1, "1", "up", nil, []string{"s"}), "up"},
		{w.Item("s", "i1"), "item:i1"},
		{w.Inv(1, "2", "rec", []any{"a"}, nil), "call:a"},
		{w.Ping(), "ping"},
		{w.Item("s", long), "item:" + long},
		{w.Item("s", "i2"), "item:i2"},
		{w.Inv(1, "3", "rec", []any{"b"}, nil), "call:b"},
		{w.Completion("s", nil, false, ""), "end"},
		{w.Inv(1, "4", "rec", []any{"c"}, nil), "call:c"},
	}
}

// c01Large has messages with length prefixes of three bytes, larger than one read of the implementation.
func c01Large(w Wire) []frame {
	a, b := strings.Repeat("A", 16400), strings.Repeat("B", 20000)
	return []frame{
		{hsReq(w), "hs"},
		{w.Inv(1, "1", "rec", []any{a}, nil), "call:" + a},
		{w.Inv(1, "2", "rec", []any{"b"}, nil), "call:b"},
		{w.Inv(1, "3", "rec", []any{b}, nil), "call:" + b},
		{w.Inv(1, "4", "rec", []any{"c"}, nil), "call:c"},
	}
}

// largeCuts are the positions around the borders of the frames and inside of them.
func largeCuts(fs []frame) []int {
	pos := map[int]bool{}
	end := 0
	for _, f := range fs {
		for d := -3; d <= 6; d++ {
			pos[end+d] = true
		}
		end += len(f.b)
	}
	for d := -3; d <= 1; d++ {
		pos[end+d] = true
		pos[1<<15+d] = true
	}
	for i := 4096; i < end; i += 4096 {
		pos[i] = true
	}
	var out []int
	for p := range pos {
		if p > 0 && p <= end {
			out = append(out, p)
		}
	}
	sort.Ints(out)
	return out
}

// feedCut feeds the frames cut at the given positions and checks after each segment.
func feedCut(x *X, fs []frame, cuts []int, feed func([]byte), check func(done int)) {
	var all []byte
	var ends []int
	for _, f := range fs {
		all = append(all, f.b...)
		ends = append(ends, len(all))
	}
	cuts = append(append([]int{}, cuts...), len(all))
	last := 0
	for _, c := range cuts {
		if c <= last || c > len(all) {
			continue
		}
		feed(all[last:c])
		x.Idle()
		done := 0
		for done < len(ends) && ends[done] <= c {
			done++
		}
		check(done)
		last = c
		if len(x.fails) > 0 {
			return
		}
	}
}

func total(fs []frame) int {
	n := 0
	for _, f := range fs {
		n += len(f.b)
	}
	return n
}

func c01Server(x *X, w Wire, fs []frame, cuts []int, opts ...func(signalr.Party) error) {
	r := &rec{}
	s, _ := newServer(x, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &recHub{r: r} }))...)
	p := startPeer(x, s, "p", w)
	feedCut(x, fs, cuts, p.Feed, func(done int) {
		calls, items, ended := expectAfter(fs, done)
		if done == 0 {
			if len(p.out) > 0 {
				x.Fail("early", "answer %q before the handshake is complete", p.out)
			}
			return
		}
		p.hsLen = 3
		if !strings.HasPrefix(string(p.out), "{}\x1e") {
			x.Fail("lost", "%d frames complete, but handshake answer is %q", done, p.out)
			return
		}
		if join(calls) != join(r.calls) {
			x.Fail("lost", "cut at %v, %d frames complete: calls %v, want %v", cuts, done, shorts(r.calls), shorts(calls))
		}
		if strings.Join(items, ",") != strings.Join(r.items, ",") || ended != r.ended {
			x.Fail("lost", "cut at %v, %d frames complete: items %v end %v, want %v %v", cuts, done, clip(r.items, 9), r.ended, clip(items, 9), ended)
		}
		res := []string{}
		for _, m := range NoPing(p.Msgs()) {
			if m.Type != 3 || m.Error != "" {
				x.Fail("error", "cut at %v: server sends %v", cuts, m)
			} else if m.HasResult {
				res = append(res, fmt.Sprint(m.Result))
			}
		}
		var want []string
		for _, c := range calls {
			want = append(want, "r"+c)
		}
		if join(want) != join(res) {
			x.Fail("lost", "cut at %v, %d frames complete: results %v, want %v", cuts, done, shorts(res), shorts(want))
		}
		if p.Served {
			x.Fail("closed", "cut at %v: connection ended: %v", cuts, p.ServeErr)
		}
	})
	x.Ev("calls %v items %d", shorts(r.calls), len(r.items))
}

func c01ClientFrames(w Wire) []frame {
	return []frame{
		{[]byte("{}\x1e"), "hs"},
		{w.Inv(1, "", "rec", []any{"a"}, nil), "call:a"},
		{w.Ping(), "ping"},
		{w.Inv(1, "", "rec", []any{"b"}, []string{}), "call:b"},
	}
}

func c01Client(x *X, w Wire, fs []frame, cuts []int, opts ...func(signalr.Party) error) {
	r := &rec{}
	s := newClient(x, w, append(opts, signalr.WithReceiver(&recReceiver{r}))...)
	s.C.Start()
	x.Idle()
	s.TakeHandshake()
	feedCut(x, fs, cuts, s.Feed, func(done int) {
		calls, _, _ := expectAfter(fs, done)
		if join(calls) != join(r.calls) {
			x.Fail("lost", "cut at %v, %d frames complete: calls %v, want %v", cuts, done, shorts(r.calls), shorts(calls))
		}
		if st := s.C.State(); done > 0 && st != signalr.ClientConnected {
			x.Fail("closed", "cut at %v: client state %v err %v", cuts, st, s.C.Err())
		}
	})
	x.Ev("calls %v", shorts(r.calls))
}

func c01ClientStream(x *X, w Wire, cuts []int) {
	s := newClient(x, w)
	s.Connect()
	var got []string
	var val any
	ended := false
	inv := s.C.Invoke("x")
	x.Idle()
	str := s.C.PullStream("y")
	x.Idle()
	go func() {
		for r := range str {
			got = append(got, fmt.Sprint(r.Value, r.Error))
		}
		ended = true
	}()
	go func() { r := <-inv; val = fmt.Sprint(r.Value, r.Error) }()
	ms := NoPing(s.Msgs())
	if len(ms) != 2 || ms[0].Type != 1 || ms[1].Type != 4 {
		x.Fail("sent", "client sent %v", ms)
		return
	}
	fs := []frame{
		{w.Item(ms[1].ID, "i1"), "item:i1<nil>"},
		{w.Item(ms[1].ID, "i2"), "item:i2<nil>"},
		{w.Completion(ms[0].ID, "val", true, ""), "call:val"},
		{w.Item(ms[1].ID, "i3"), "item:i3<nil>"},
		{w.Completion(ms[1].ID, nil, false, ""), "end"},
	}
	feedCut(x, fs, cuts, s.Feed, func(done int) {
		calls, items, end := expectAfter(fs, done)
		if strings.Join(got, ",") != strings.Join(items, ",") || end != ended {
			x.Fail("lost", "cut at %v, %d frames complete: stream %v end %v, want %v %v", cuts, done, got, ended, items, end)
		}
		if len(calls) == 0 && val != nil || len(calls) == 1 && val != "val<nil>" {
			x.Fail("lost", "cut at %v, %d frames complete: result %v, want %v", cuts, done, val, calls)
		}
		if st := s.C.State(); st != signalr.ClientConnected {
			x.Fail("closed", "cut at %v: client state %v err %v", cuts, st, s.C.Err())
		}
	})
	x.Ev("stream %v val %v", got, val)
}

func lengthFrames(w Wire, n, cut int, hs []byte, id string) ([]frame, []int) {
	v := strings.Repeat("v", n)
	fs := []frame{{hs, "hs"}, {w.Inv(1, id, "rec", []any{v}, nil), "call:" + v}, {w.Inv(1, id+id, "rec", []any{"b"}, nil), "call:b"}}
	return fs, [][]int{nil, {len(hs)}, {len(hs) + 1}, {total(fs[:2])}}[cut]
}

var c01Sizes = []int{10, 4000, 16384, 32700, 32768, 40000, 65500, 65536, 70000, 131072, 200000}

func sizeFrames(w Wire, d []int, hs []byte, id string) ([]frame, []int) {
	a, b := strings.Repeat("A", c01Sizes[d[0]]), strings.Repeat("B", c01Sizes[d[1]])
	fs := []frame{{hs, "hs"}, {w.Inv(1, id, "rec", []any{a}, nil), "call:" + a}, {w.Inv(1, id+id, "rec", []any{b}, nil), "call:" + b},
		{w.Ping(), "ping"}, {w.Inv(1, id+id+id, "rec", []any{"c"}, nil), "call:c"}}
	if n := total(fs); d[2] > 0 {
		return fs, every(n, []int{0, 4096, 32768, 50000, 65536, n/2 + 1}[d[2]])
	}
	return fs, nil
}

func every(n, step int) []int {
	var c []int
	for i := step; i < n; i += step {
		c = append(c, i)
	}
	return c
}

func init() {
	register(&Property{ID: "C01", Title: "framing",
		Rule: "Every way to cut a byte stream of handshake and messages at up to 2 (short streams: 3) positions, and into equal pieces of every size; messages of every length up to 300 and pairs of sizes up to 200000 behind the handshake; " +
			"both protocols, server and client side. A case is non-trivial if the observed calls, items and results differ.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				small, big := c01Frames(w, true), c01Frames(w, false)
				sl, bl := total(small), total(big)
				large := c01Large(w)
				cuts := largeCuts(large)
				up := func(d []int) bool {
					for i := 1; i < len(d); i++ {
						if d[i] < d[i-1] {
							return true
						}
					}
					return false
				}
				out = append(out,
					&Scenario{Name: "server-2cuts/" + w.Name(), Dims: []int{bl, bl}, Skip: up, NoPoints: true, Body: func(x *X) {
						c01Server(x, w, big, x.D)
					}},
					&Scenario{Name: "server-pieces/" + w.Name(), Dims: []int{bl}, NoPoints: true, Body: func(x *X) {
						c01Server(x, w, big, every(bl, x.D[0]+1))
					}},
					&Scenario{Name: "server-large/" + w.Name(), Dims: []int{len(cuts), len(cuts)}, Skip: up, NoPoints: true, Body: func(x *X) {
						c01Server(x, w, large, []int{cuts[x.D[0]], cuts[x.D[1]]})
					}},
					&Scenario{Name: "server-large-pieces/" + w.Name(), Dims: []int{4}, NoPoints: true, Body: func(x *X) {
						c01Server(x, w, large, every(total(large), []int{97, 1023, 4096, 32768}[x.D[0]]))
					}},
					// messages of every length behind the handshake, in one read with it or not
					&Scenario{Name: "server-lengths/" + w.Name(), Dims: []int{300, 4}, NoPoints: true, Body: func(x *X) {
						fs, cuts := lengthFrames(w, x.D[0], x.D[1], hsReq(w), "1")
						c01Server(x, w, fs, cuts)
					}},
					&Scenario{Name: "client-lengths/" + w.Name(), Dims: []int{300, 4}, NoPoints: true, Body: func(x *X) {
						fs, cuts := lengthFrames(w, x.D[0], x.D[1], []byte("{}\x1e"), "")
						c01Client(x, w, fs, cuts)
					}},
					// two messages of different sizes, more than one read of the implementation in total
					&Scenario{Name: "server-sizes/" + w.Name(), Dims: []int{len(c01Sizes), len(c01Sizes), 6}, NoPoints: true,
						QuickCase: func(d []int) bool { return d[0]%2 == d[1]%2 }, Body: func(x *X) {
							fs, cuts := sizeFrames(w, x.D, hsReq(w), "1")
							c01Server(x, w, fs, cuts, signalr.MaximumReceiveMessageSize(1<<20))
						}},
					&Scenario{Name: "client-sizes/" + w.Name(), Dims: []int{len(c01Sizes), len(c01Sizes), 6}, NoPoints: true,
						QuickCase: func(d []int) bool { return d[0]%2 != d[1]%2 }, Body: func(x *X) {
							fs, cuts := sizeFrames(w, x.D, []byte("{}\x1e"), "")
							c01Client(x, w, fs, cuts, signalr.MaximumReceiveMessageSize(1<<20))
						}},
					&Scenario{Name: "server-3cuts/" + w.Name(), Dims: []int{sl, sl, sl}, Skip: up, NoPoints: true, OnlyFull: true, Body: func(x *X) {
						c01Server(x, w, small, x.D)
					}},
					&Scenario{Name: "server-sched/" + w.Name(), Dims: []int{3}, Quick: 1, Full: 2, Body: func(x *X) {
						c01Server(x, w, small, every(sl, []int{sl, 30, 7}[x.D[0]]))
					}},
					&Scenario{Name: "client-3cuts/" + w.Name(), Dims: []int{120, 120, 120}, NoPoints: true, Skip: func(d []int) bool {
						return up(d)
					}, QuickCase: func(d []int) bool { return d[0] == 0 }, Body: func(x *X) { c01Client(x, w, c01ClientFrames(w), x.D) }},
					&Scenario{Name: "client-stream-2cuts/" + w.Name(), Dims: []int{260, 260}, NoPoints: true, Skip: up, Body: func(x *X) {
						c01ClientStream(x, w, x.D)
					}},
				)
			}
			return out
		}})
}
