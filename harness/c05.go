package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C05: every invocation with an id is completed exactly once, one without id never.

// zoo records what happens in the hub.
type zoo struct {
	calls []string
	gates map[int]chan struct{}
	chans []chan int
}

func newZoo() *zoo { return &zoo{gates: map[int]chan struct{}{}} }

func (z *zoo) gate(n int) chan struct{} {
	if z.gates[n] == nil {
		z.gates[n] = make(chan struct{})
	}
	return z.gates[n]
}

type zooHub struct {
	signalr.Hub
	z *zoo
}

func (h *zooHub) called(format string, a ...any) {
	h.z.calls = append(h.z.calls, fmt.Sprintf(format, a...))
}

func (h *zooHub) Void()                   { h.called("void") }
func (h *zooHub) Val(a int) int           { h.called("val %d", a); return a * 10 }
func (h *zooHub) Str(a string) string     { h.called("str %s", a); return a + a }
func (h *zooHub) Two(a int) (int, string) { h.called("two %d", a); return a, "x" }
func (h *zooHub) Three(a int) (int, string, []int, bool) {
	h.called("three %d", a)
	return a, "", nil, a > 0
}
func (h *zooHub) NilPtr() *int              { h.called("nilptr"); return nil }
func (h *zooHub) Panic(s string) int        { h.called("panic %s", s); panic(s) }
func (h *zooHub) PanicErr()                 { h.called("panicerr"); panic(errors.New("boomerr")) }
func (h *zooHub) NilDeref(a int) int        { h.called("nilderef"); var p *zooHub; return len(p.z.calls) }
func (h *zooHub) PanicStr(a int) <-chan int { h.called("panicstr"); panic("boomstr") }
func (h *zooHub) Slow(g int) int            { h.called("slow %d", g); <-h.z.gate(g); return g }
func (h *zooHub) Unser() any                { h.called("unser"); return map[string]any{"x": make(chan int)} }
func (h *zooHub) Later(v int) <-chan int {
	h.called("later %d", v)
	ch := make(chan int)
	go func() {
		<-h.z.gate(v)
		ch <- v
	}()
	return ch
}
func (h *zooHub) Closed() <-chan int {
	h.called("closed")
	ch := make(chan int)
	close(ch)
	return ch
}
func (h *zooHub) Never() <-chan int { h.called("never"); return make(chan int) }
func (h *zooHub) Count(n int) <-chan int {
	h.called("count %d", n)
	ch := make(chan int)
	go func() {
		defer close(ch)
		for i := 1; i <= n; i++ {
			select {
			case ch <- i:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return ch
}
func (h *zooHub) Buf(n int) chan int {
	h.called("buf %d", n)
	ch := make(chan int, n)
	for i := 1; i <= n; i++ {
		ch <- i
	}
	close(ch)
	return ch
}
func (h *zooHub) Up(ch <-chan int) int {
	h.called("up")
	s := 0
	for v := range ch {
		s += v
	}
	return s
}

// kind is an invocation and what has to come of it.
type kind struct {
	name    string
	target  string
	args    []any
	streams []string
	// expectation for a simple invocation
	err     bool
	void    bool
	result  any
	pending bool
	// expectation for a stream invocation
	sErr   bool
	items  []any
	panics bool
	noStr  bool // not as stream invocation
	gate   int  // gate to open
	call   string
}

var kinds = []kind{
	{name: "void", target: "void", void: true, sErr: true, call: "void"},
	{name: "val", target: "Val", args: []any{4}, result: 40, items: []any{40}, call: "val 4"},
	{name: "val0", target: "vAL", args: []any{0}, result: 0, items: []any{0}, call: "val 0"},
	{name: "str", target: "str", args: []any{""}, result: "", items: []any{""}, call: "str "},
	{name: "two", target: "two", args: []any{3}, result: []any{3, "x"}, sErr: true, call: "two 3"},
	{name: "three", target: "three", args: []any{0}, result: []any{0, "", nil, false}, sErr: true, call: "three 0"},
	{name: "nilptr", target: "nilptr", void: true, items: []any{nil}, call: "nilptr"},
	{name: "slow", target: "slow", args: []any{7}, result: 7, items: []any{7}, gate: 7, call: "slow 7"},
	{name: "later", target: "later", args: []any{8}, result: 8, items: nil, noStr: true, gate: 8, call: "later 8"},
	{name: "closed", target: "closed", err: true, call: "closed"},
	{name: "never", target: "never", pending: true, call: "never"},
	{name: "count3", target: "count", args: []any{3}, result: 1, items: []any{1, 2, 3}, call: "count 3"},
	{name: "count0", target: "count", args: []any{0}, err: true, call: "count 0"},
	{name: "buf2", target: "buf", args: []any{2}, result: 1, items: []any{1, 2}, call: "buf 2"},
	{name: "unknown", target: "nope", err: true, sErr: true},
	{name: "empty-target", target: "", err: true, sErr: true},
	{name: "few-args", target: "val", err: true, sErr: true},
	{name: "many-args", target: "val", args: []any{1, 2}, err: true, sErr: true},
	{name: "bad-arg", target: "val", args: []any{"x"}, err: true, sErr: true},
	{name: "no-stream", target: "up", err: true, sErr: true},
	{name: "arg-for-stream", target: "up", args: []any{1}, err: true, sErr: true},
	{name: "stream-for-arg", target: "val", streams: []string{"s9"}, err: true, sErr: true},
	{name: "streams-for-stream", target: "up", streams: []string{"s1", "s2"}, err: true, sErr: true},
	{name: "unser", target: "unser", err: true, noStr: true, call: "unser"},
	{name: "panic", target: "panic", args: []any{"boom"}, err: true, sErr: true, panics: true, call: "panic boom"},
	{name: "panicerr", target: "panicerr", err: true, noStr: true, panics: true, call: "panicerr"},
	{name: "nilderef", target: "nilderef", args: []any{1}, err: true, sErr: true, panics: true, call: "nilderef"},
	{name: "panicstr", target: "panicstr", args: []any{1}, err: true, sErr: true, panics: true, call: "panicstr"},
}

// panicFinding: the completion with the error of a panic is followed by empty completions (a known finding).
const panicFinding = "panic-completed-again"

// judgeInvocation checks the messages that belong to one invocation id.
func judgeInvocation(x *X, k kind, typ int, id string, ms []Msg, open bool, strict bool) {
	var items []any
	var comps []Msg
	for _, m := range ms {
		switch {
		case m.Type == 2 && m.ID == id:
			if len(comps) > 0 {
				x.Fail("item-after-completion", "%s: item %v after the completion", k.name, m.Item)
			}
			items = append(items, m.Item)
		case m.Type == 3 && m.ID == id:
			comps = append(comps, m)
		}
	}
	if k.panics && len(comps) > 1 {
		clean := true
		for _, c := range comps[1:] {
			if c.Error != "" || c.HasResult {
				clean = false
			}
		}
		if clean {
			if strict {
				x.Fail(panicFinding, "%s: a panicking method is completed with an error and then again: %v", k.name, comps)
			}
			comps = comps[:1]
		}
	}
	if !open && (k.pending || k.gate != 0) {
		if len(comps)+len(items) > 0 {
			x.Fail("early", "%s: answered before there is a result: %v", k.name, ms)
		}
		return
	}
	if k.pending {
		if len(comps)+len(items) > 0 {
			x.Fail("early", "%s: answered without a result: %v", k.name, ms)
		}
		return
	}
	if len(comps) != 1 {
		x.Fail(fmt.Sprintf("completions-%d", min(len(comps), 2)), "%s (type %d): %d completions: %v", k.name, typ, len(comps), ms)
		return
	}
	c := comps[0]
	wantErr := k.err
	if typ == 4 {
		wantErr = k.sErr
	}
	if wantErr != (c.Error != "") {
		x.Fail("wrong-outcome", "%s (type %d): completed with %v", k.name, typ, c)
	}
	if wantErr && c.HasResult && c.Result != nil {
		x.Fail("wrong-outcome", "%s: error and result: %v", k.name, c)
	}
	if typ == 4 {
		var want []any
		if !wantErr {
			want = k.items
		}
		if fmt.Sprint(norm(want)) != fmt.Sprint(norm(items)) {
			x.Fail("wrong-items", "%s: items %v, want %v", k.name, items, want)
		}
		if c.HasResult && c.Result != nil {
			x.Fail("wrong-outcome", "%s: completion of a stream with result %v", k.name, c)
		}
		return
	}
	if len(items) > 0 {
		x.Fail("wrong-items", "%s: items %v for a simple invocation", k.name, items)
	}
	if !wantErr {
		if k.void {
			if c.HasResult && c.Result != nil {
				x.Fail("wrong-outcome", "%s: result %v, want none", k.name, c)
			}
		} else if !c.HasResult || !same(c.Result, k.result) {
			x.Fail("wrong-outcome", "%s: completed with %v, want result %v", k.name, c, k.result)
		}
	}
}

type call struct {
	k   kind
	typ int
	id  string
}

// judgeAll checks all messages.
func judgeAll(x *X, p *Peer, cs []call, open, strict bool) {
	ms := NoPing(p.Msgs())
	ids := map[string]bool{}
	for _, c := range cs {
		if c.id != "" {
			ids[c.id] = true
			judgeInvocation(x, c.k, c.typ, c.id, ms, open, strict)
		}
	}
	for _, m := range ms {
		if (m.Type != 2 && m.Type != 3) || !ids[m.ID] || m.ID == "" {
			x.Fail("unsolicited", "%v", m)
		}
	}
	if p.Served {
		x.Fail("closed", "the connection ended: %v", p.ServeErr)
	}
}

func openGates(z *zoo, cs []call) {
	for _, c := range cs {
		if c.k.gate != 0 {
			select {
			case <-z.gate(c.k.gate):
			default:
				close(z.gate(c.k.gate))
			}
		}
	}
}

func feedCall(p *Peer, c call) []byte {
	return p.W.Inv(c.typ, c.id, c.k.target, c.k.args, c.k.streams)
}

// alive checks that the connection still answers.
func alive(x *X, p *Peer, id string) {
	p.Feed(p.W.Inv(1, id, "val", []any{77}, nil))
	x.Idle()
	n := 0
	for _, m := range p.Msgs() {
		if m.Type == 3 && m.ID == id {
			n++
			if m.Error != "" || !same(m.Result, 770) {
				x.Fail("dead", "%v", m)
			}
		}
	}
	if n != 1 {
		x.Fail("dead", "a following invocation has %d completions (served %v %v)", n, p.Served, p.ServeErr)
	}
}

func zooServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, *zoo) {
	z := newZoo()
	s, _ := newServer(x, append([]func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &zooHub{z: z} })}, opts...)...)
	return s, z
}

func c05Run(x *X, w Wire, cs []call, oneSegment, strict bool) {
	s, z := zooServer(x)
	p := connectPeer(x, s, "p", w)
	var all []byte
	for _, c := range cs {
		if oneSegment {
			all = append(all, feedCall(p, c)...)
		} else {
			p.Feed(feedCall(p, c))
		}
	}
	p.Feed(all)
	x.Idle()
	judgeAll(x, p, cs, false, strict)
	openGates(z, cs)
	x.Idle()
	judgeAll(x, p, cs, true, strict)
	// methods run exactly once
	var want []string
	for _, c := range cs {
		if c.k.call != "" && !(c.typ == 4 && (c.k.name == "void" || c.k.name == "two" || c.k.name == "three" || c.k.name == "panicerr")) {
			want = append(want, c.k.call)
		}
	}
	got := append([]string{}, z.calls...)
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, ";") != strings.Join(want, ";") {
		x.Fail("calls", "methods called %v, want %v", got, want)
	}
	// nothing happens later, either
	n := len(NoPing(p.Msgs()))
	x.Settle(7 * time.Second)
	if m := NoPing(p.Msgs()); len(m) != n {
		x.Fail("late", "messages after quiescence: %v", m[n:])
	}
	alive(x, p, "zz")
	x.Ev("%v %v", cs, NoPing(p.Msgs()))
}

func init() {
	register(&Property{ID: "C05", Title: "completions",
		Rule: "Every kind of invocation (27 kinds: results of all shapes, no result, panics, channels, slow methods, unknown methods, all argument mismatches, " +
			"unserializable results) alone and in every pair and in reuse of the same id; as simple and as stream invocation; with and without id; JSON and MessagePack; " +
			"under every schedule with at most the stated number of deviations. values: results of eleven types, zero and nil ones too, returned or yielded by a channel. crowd: up to 40 methods which run at once, ended in four orders. A case is non-trivial if its log of messages differs from others.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			nk := len(kinds)
			mk := func(ki, typ, id int) (call, bool) {
				c := call{kinds[ki], []int{1, 4}[typ], []string{"", "1"}[id]}
				return c, !(c.k.noStr && c.typ == 4)
			}
			for _, w := range wires {
				w := w
				out = append(out,
					resultKinds(w),
					replyCrowd(w),
					&Scenario{Name: "single/" + w.Name(), Dims: []int{nk, 2, 2}, Quick: 1, Full: 3,
						Skip: func(d []int) bool { _, ok := mk(d[0], d[1], d[2]); return !ok },
						Body: func(x *X) {
							c, _ := mk(x.D[0], x.D[1], x.D[2])
							c05Run(x, w, []call{c}, true, false)
						}},
					&Scenario{Name: "panic/" + w.Name(), Dims: []int{nk, 2},
						Skip: func(d []int) bool { c, ok := mk(d[0], d[1], 1); return !ok || !c.k.panics },
						Body: func(x *X) {
							c, _ := mk(x.D[0], x.D[1], 1)
							c05Run(x, w, []call{c}, true, true)
						}},
					&Scenario{Name: "pairs/" + w.Name(), Dims: []int{nk, 2, nk, 2, 2}, Quick: 0, Full: 2,
						Skip: func(d []int) bool {
							_, ok := mk(d[0], d[1], 1)
							_, ok2 := mk(d[2], d[3], 1)
							return !ok || !ok2
						},
						Body: func(x *X) {
							a, _ := mk(x.D[0], x.D[1], 1)
							b, _ := mk(x.D[2], x.D[3], 1)
							b.id = "2"
							c05Run(x, w, []call{a, b}, x.D[4] == 0, false)
						}},
					&Scenario{Name: "pairs-sched/" + w.Name(), Dims: []int{6, 6}, Quick: 1, Full: 2,
						Body: func(x *X) {
							sel := []call{{kinds[1], 1, "1"}, {kinds[10], 4, "1"}, {kinds[6], 1, "1"}, {kinds[13], 1, "1"}, {kinds[23], 1, "1"}, {kinds[7], 1, "1"}}
							a, b := sel[x.D[0]], sel[x.D[1]]
							b.id = "2"
							c05Run(x, w, []call{a, b}, true, false)
						}},
					&Scenario{Name: "reuse/" + w.Name(), Dims: []int{nk, 2, nk, 2},
						Skip: func(d []int) bool {
							a, ok := mk(d[0], d[1], 1)
							b, ok2 := mk(d[2], d[3], 1)
							return !ok || !ok2 || a.k.pending || b.k.pending || a.k.panics || b.k.panics
						},
						Body: func(x *X) {
							a, _ := mk(x.D[0], x.D[1], 1)
							b, _ := mk(x.D[2], x.D[3], 1)
							s, z := zooServer(x)
							p := connectPeer(x, s, "p", w)
							p.Feed(feedCall(p, a))
							x.Idle()
							openGates(z, []call{a})
							x.Idle()
							judgeAll(x, p, []call{a}, true, false)
							p.hsLen = len(p.out)
							z.gates = map[int]chan struct{}{}
							p.Feed(feedCall(p, b))
							x.Idle()
							openGates(z, []call{b})
							x.Idle()
							judgeAll(x, p, []call{b}, true, false)
							x.Ev("%v", p.Msgs())
						}},
				)
			}
			return out
		}})
}
