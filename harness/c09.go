package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/philippseith/signalr"
	"github.com/vmihailenco/msgpack/v5"
)

// C09: panics of user code.

type badErr struct{ a int }

func (b *badErr) Error() string { return fmt.Sprint("bad", b.a) }

type panicStruct struct {
	A int
	B string
}

type panicVal struct {
	name string
	do   func()
	text string // what the caller has to be told
}

var panicVals = []panicVal{
	{"string", func() { panic("boom") }, "boom"},
	{"error", func() { panic(errors.New("boomerr")) }, "boomerr"},
	{"int", func() { panic(42) }, "42"},
	{"struct", func() { panic(panicStruct{7, "x"}) }, "{7 x}"},
	{"ptr-error", func() { panic(&badErr{3}) }, "bad3"},
	{"nil", func() { panic(nil) }, "nil"},
	{"nilderef", func() { var p *panicStruct; p.A++ }, "nil pointer dereference"},
	{"index", func() { a := []int{}; i := 3; a[i]++ }, "index out of range"},
	{"nil-error", func() { var e *badErr; panic(e) }, ""},
	{"special", func() { panic("a\"b\\c\nd\x1ee%d") }, ""},
	{"empty", func() { panic("") }, ""},
	{"closed", func() { c := make(chan int); close(c); close(c) }, "close of closed channel"},
	{"long", func() { panic(strings.Repeat("x", 40000)) }, strings.Repeat("x", 40000)},
	{"func", func() { panic(func() {}) }, ""},
}

type panicHub struct {
	signalr.Hub
	panicMethods
}

// panicMethods serve as hub and as receiver.
type panicMethods struct{ z *zoo }

type panicReceiver struct{ panicMethods }

func (h *panicMethods) P(k int)                  { panicVals[k].do() }
func (h *panicMethods) PV(k int) int             { panicVals[k].do(); return 1 }
func (h *panicMethods) PS(k int) <-chan int      { panicVals[k].do(); return nil }
func (h *panicMethods) PT(k int) (int, string)   { panicVals[k].do(); return 1, "" }
func (h *panicMethods) PSlow(k int)              { <-h.z.gate(1); panicVals[k].do() }
func (h *panicMethods) Val(a int) int            { return a * 10 }
func (h *panicMethods) Slow(g int) int           { <-h.z.gate(g); return g }
func (h *panicMethods) PUp(k int, ch <-chan int) { <-ch; panicVals[k].do() }
func (h *panicMethods) Ticks(n int) <-chan int {
	ch := make(chan int)
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			<-h.z.gate(100 + i)
			ch <- i
		}
	}()
	return ch
}

func judgePanic(x *X, ms []Msg, id string, k int, detailed bool) {
	c := findCompletion(ms, id)
	if len(c) == 0 {
		x.Fail("unanswered", "%s: the panicking invocation is not completed: %v", panicVals[k].name, ms)
		return
	}
	if c[0].Error == "" {
		x.Fail("no-error", "%s: completed with %v", panicVals[k].name, c[0])
	}
	for _, m := range c[1:] {
		// known finding of C05
		if m.Error != "" || m.HasResult && m.Result != nil {
			x.Fail("again", "%s: completed again with %v", panicVals[k].name, m)
		}
	}
	if !strings.Contains(c[0].Error, panicVals[k].text) {
		x.Fail("text", "%s: error %q", panicVals[k].name, c[0].Error)
	}
	stack := strings.Contains(c[0].Error, "goroutine ") || strings.Contains(c[0].Error, ".go:") || strings.Contains(c[0].Error, "runtime/debug")
	if stack != detailed {
		x.Fail("stack", "%s: detailed errors %v, error %q", panicVals[k].name, detailed, c[0].Error)
	}
}

func init() {
	methods := []string{"P", "PV", "PS", "PT", "PSlow", "PUp"}
	register(&Property{ID: "C09", Title: "panics",
		Rule: "hub: 14 panic values x 6 kinds of methods x simple or stream invocation x with or without id x detailed errors on or off, with a running stream and a pending invocation on the same connection and another connection; receiver: the same on the client side; life: panics in OnConnected and OnDisconnected for every way to end; marshal: panics in marshalers in 12 directions. All schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out,
					&Scenario{Name: "hub/" + w.Name(), Dims: []int{len(panicVals), len(methods), 2, 2, 2}, Quick: 0, Full: 1,
						Body: func(x *X) { panicRun(x, w, methods) }},
					&Scenario{Name: "hub-sched/" + w.Name(), Dims: []int{2, len(methods), 2, 2, 2}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[4] == 0 },
						Body:      func(x *X) { panicRun(x, w, methods) }},
					&Scenario{Name: "receiver/" + w.Name(), Dims: []int{len(panicVals), len(methods), 1, 2, 2}, Quick: 0, Full: 1,
						Body: func(x *X) { panicReceiverRun(x, w, methods) }},
					&Scenario{Name: "receiver-sched/" + w.Name(), Dims: []int{2, len(methods), 1, 2, 2}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[4] == 0 },
						Body:      func(x *X) { panicReceiverRun(x, w, methods) }},
					&Scenario{Name: "life/" + w.Name(), Dims: []int{2, 4, len(lifeEnds)}, Quick: 0, Full: 1,
						Body: func(x *X) {
							s, r, cancel := lifeServer(x, x.D[1])
							r.panicOn = []string{"connected", "disconnected"}[x.D[0]]
							p := startPeer(x, s, "p", w)
							p.Feed(hsReq(w))
							x.Idle()
							p.hsLen = 3
							endPeer(x, p, lifeEnds[x.D[2]], cancel)
							x.Idle()
							// a later connection is served or rejected
							q := startPeer(x, s, "q", w)
							q.Feed(hsReq(w))
							x.Settle(time.Second)
							q.FeedErr(io.EOF)
							x.Settle(time.Minute)
							if !q.Served {
								x.Fail("zombie", "a connection after the panic is still served")
							}
							x.Ev("%v %v", p.Served, q.ServeErr)
						}},
				)
				out = append(out,
					&Scenario{Name: "marshal/" + w.Name(), Dims: []int{len(touchyDirs), 3, 2}, Quick: 0, Full: 1,
						Body: func(x *X) { touchyRun(x, w) }},
					&Scenario{Name: "marshal-sched/" + w.Name(), Dims: []int{len(touchyDirs), 1, 1}, Quick: 1, Full: 2,
						Body: func(x *X) { touchyRun(x, w) }},
				)
			}
			return out
		}})
}

// touchy panics while it is converted to or from a message when A is 13, in the way B tells.
type touchy struct {
	A int
	B int
}

func (t touchy) MarshalJSON() ([]byte, error) {
	t.panic()
	return []byte(fmt.Sprint(t.A*10 + t.B)), nil
}

func (t *touchy) UnmarshalJSON(b []byte) error {
	n := 0
	if _, err := fmt.Sscan(string(b), &n); err != nil {
		return err
	}
	t.A, t.B = n/10, n%10
	t.panic()
	return nil
}

func (t touchy) EncodeMsgpack(e *msgpack.Encoder) error {
	t.panic()
	return e.EncodeInt(int64(t.A*10 + t.B))
}

func (t *touchy) DecodeMsgpack(d *msgpack.Decoder) error {
	n, err := d.DecodeInt()
	t.A, t.B = n/10, n%10
	t.panic()
	return err
}

func (t touchy) panic() {
	if t.A == 13 {
		panicVals[[]int{0, 6, 1}[t.B]].do()
	}
}

type touchyHub struct {
	signalr.Hub
	touchyMethods
}

type touchyMethods struct{ got *[]int }

type touchyReceiver struct{ touchyMethods }

func (h *touchyMethods) Put(t touchy) int         { *h.got = append(*h.got, t.A); return t.A }
func (h *touchyMethods) Get(a, b int) touchy      { return touchy{a, b} }
func (h *touchyMethods) Many(a, b int) (int, any) { return 1, []touchy{{a, b}} }
func (h *touchyMethods) Val(a int) int            { return a * 10 }
func (h *touchyMethods) Stream(a, b int) <-chan touchy {
	ch := make(chan touchy, 2)
	ch <- touchy{1, 0}
	ch <- touchy{a, b}
	close(ch)
	return ch
}
func (h *touchyMethods) Up(ch <-chan touchy) int {
	n := 0
	for t := range ch {
		n += t.A
	}
	return n
}
func (h *touchyHub) All(a, b int) int { h.Clients().All().Send("news", touchy{a, b}); return a }

var touchyDirs = []string{"argument", "result", "results", "stream", "upload", "all", "receiver-argument", "receiver-result", "client-argument", "client-send", "client-upload", "client-stream-argument"}

func touchyRun(x *X, w Wire) {
	dir, b, typed := touchyDirs[x.D[0]], x.D[1], x.D[2] == 0
	id := []string{"1", ""}[x.D[2]]
	var got []int
	methods := touchyMethods{&got}
	failed := func(ms []Msg, what string) {
		c := findCompletion(ms, "1")
		if id == "" && len(c) != 0 || id != "" && (len(c) != 1 || c[0].Error == "") {
			x.Fail("completion", "%s panics in a marshaler: completed with %v", what, c)
		}
		x.Ev("%v", c)
	}
	if !strings.HasPrefix(dir, "client") && !strings.HasPrefix(dir, "receiver") {
		s, _ := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &touchyHub{touchyMethods: methods} }))
		q := connectPeer(x, s, "q", w)
		p := connectPeer(x, s, "p", w)
		ended := false
		switch dir {
		case "argument":
			p.Feed(w.Inv(1, id, "put", []any{130 + b}, nil))
			x.Idle()
			failed(NoPing(p.Msgs()), dir)
			if len(got) != 0 {
				x.Fail("called", "called with %v", got)
			}
		case "result", "results":
			p.Feed(w.Inv(1, id, map[string]string{"result": "get", "results": "many"}[dir], []any{13, b}, nil))
			x.Idle()
			failed(NoPing(p.Msgs()), dir)
		case "stream":
			p.Feed(w.Inv(4, "1", "stream", []any{13, b}, nil))
			ended = true
		case "upload":
			p.Feed(w.Inv(1, id, "up", nil, []string{"s"}))
			p.Feed(w.Item("s", 10))
			p.Feed(w.Item("s", 130+b))
			ended = true
		case "all":
			p.Feed(w.Inv(1, id, "all", []any{13, b}, nil))
		}
		x.Idle()
		if !ended {
			// the next value is fine
			p.Feed(w.Inv(1, "n", "get", []any{2, 1}, nil))
			x.Idle()
			if c := findCompletion(NoPing(p.Msgs()), "n"); len(c) != 1 || c[0].Error != "" || !same(c[0].Result, 21) {
				x.Fail("dead", "%s: the next answer on the connection is %v", dir, c)
			}
			p.Feed(w.Inv(1, "m", "put", []any{40}, nil))
			x.Idle()
			if c := findCompletion(NoPing(p.Msgs()), "m"); len(c) != 1 || c[0].Error != "" || !same(c[0].Result, 4) {
				x.Fail("dead", "%s: the next answer on the connection is %v", dir, c)
			}
		} else if x.Settle(time.Second); !p.Served {
			// an item that is lost silently would leave a hole in the stream
			x.Fail("hole", "%s: an item is lost, but the connection goes on: %v", dir, p.Msgs())
		}
		q.Feed(w.Inv(1, "z", "val", []any{3}, nil))
		x.Idle()
		if c := findCompletion(NoPing(q.Msgs()), "z"); len(c) != 1 || !same(c[0].Result, 30) {
			x.Fail("dead", "%s: another connection's answer is %v", dir, c)
		}
		return
	}
	s := newClient(x, w, signalr.WithReceiver(&touchyReceiver{methods}))
	s.Connect()
	bad := any(touchy{13, b})
	if !typed {
		bad = []any{1, map[string]touchy{"k": {13, b}}}
	}
	var c *col
	switch dir {
	case "receiver-argument":
		s.Feed(w.Inv(1, id, "put", []any{130 + b}, nil))
		x.Idle()
		failed(NoPing(s.Msgs()), dir)
		if len(got) != 0 {
			x.Fail("called", "called with %v", got)
		}
	case "receiver-result":
		s.Feed(w.Inv(1, id, "get", []any{13, b}, nil))
		x.Idle()
		failed(NoPing(s.Msgs()), dir)
	case "client-argument":
		c = collect("a", s.C.Invoke("m", bad))
	case "client-send":
		c = collectErr("a", s.C.Send("m", bad))
	case "client-stream-argument":
		c = collect("a", s.C.PullStream("m", bad))
	case "client-upload":
		ch := make(chan touchy, 2)
		ch <- touchy{1, 0}
		ch <- touchy{13, b}
		c = collect("a", s.C.PushStreams("m", ch))
	}
	x.Settle(time.Second)
	if dir == "client-upload" {
		// the item can't be sent. The call must not look like a success
		for _, v := range c.got {
			if v.Error == nil {
				x.Fail("success", "%s: yields %v", dir, v)
			}
		}
		return
	}
	if c != nil {
		c.judge(x, outcome{kind: "error"})
	}
	pend := collect("n", s.C.Invoke("next", touchy{2, 1}))
	x.Idle()
	last := Msg{}
	for _, m := range NoPing(s.Msgs()) {
		last = m
	}
	if last.Type != 1 || len(last.Args) != 1 || !same(last.Args[0], 21) {
		x.Fail("dead", "%s: the next call of the client sends %v", dir, last)
		return
	}
	s.Feed(w.Completion(last.ID, "fine", true, ""))
	x.Idle()
	pend.judge(x, outcome{kind: "value", val: "fine"})
}

func panicRun(x *X, w Wire, methods []string) {
	k, method, typ, id := x.D[0], methods[x.D[1]], []int{1, 4}[x.D[2]], []string{"1", ""}[x.D[3]]
	if typ == 4 && (method == "P" || method == "PT" || method == "PSlow" || method == "PUp") {
		return // refused
	}
	detailed := x.D[4] == 1
	z := newZoo()
	s, _ := newServer(x, signalr.EnableDetailedErrors(detailed), signalr.HubFactory(func() signalr.HubInterface {
		return &panicHub{panicMethods: panicMethods{z}}
	}))
	q := connectPeer(x, s, "q", w)
	p := connectPeer(x, s, "p", w)
	p.Feed(w.Inv(1, "slow", "slow", []any{2}, nil))
	p.Feed(w.Inv(4, "ticks", "ticks", []any{2}, nil))
	close(z.gate(100))
	x.Idle()
	switch method {
	case "PUp":
		p.Feed(w.Inv(1, id, method, []any{k}, []string{"s1"}))
		p.Feed(w.Item("s1", 1))
		p.Feed(w.Item("s1", 2))
		p.Feed(w.Completion("s1", nil, false, ""))
	default:
		p.Feed(w.Inv(typ, id, method, []any{k}, nil))
	}
	x.Idle()
	if method == "PSlow" {
		close(z.gate(1))
		x.Idle()
	}
	close(z.gate(2))
	close(z.gate(101))
	x.Idle()
	ms := NoPing(p.Msgs())
	if id != "" {
		judgePanic(x, ms, id, k, detailed)
	}
	var items []any
	for _, m := range ms {
		switch m.ID {
		case "slow", "1":
		case "ticks":
			if m.Type == 2 {
				items = append(items, m.Item)
			}
		default:
			x.Fail("unsolicited", "%v", m)
		}
	}
	wantResult(x, p, "slow", 2)
	if c := findCompletion(ms, "ticks"); fmt.Sprint(norm(items)) != "[0 1]" || len(c) != 1 || c[0].Error != "" {
		x.Fail("stream", "a stream running during the panic: %v %v", items, c)
	}
	alive(x, p, "zz")
	alive(x, q, "zz")
	x.Ev("%v", ms)
}

func panicReceiverRun(x *X, w Wire, methods []string) {
	k, method, id := x.D[0], methods[x.D[1]], []string{"1", ""}[x.D[3]]
	detailed := x.D[4] == 1
	z := newZoo()
	s := newClient(x, w, signalr.EnableDetailedErrors(detailed), signalr.WithReceiver(&panicReceiver{panicMethods{z}}))
	s.Connect()
	ch := s.C.Invoke("pending")
	x.Idle()
	switch method {
	case "PUp":
		s.Feed(w.Inv(1, id, method, []any{k}, []string{"s1"}))
		s.Feed(w.Item("s1", 1))
		s.Feed(w.Item("s1", 2))
		s.Feed(w.Completion("s1", nil, false, ""))
	default:
		s.Feed(w.Inv(1, id, method, []any{k}, nil))
	}
	x.Idle()
	if method == "PSlow" {
		close(z.gate(1))
		x.Idle()
	}
	s.Feed(w.Inv(1, "v", "val", []any{3}, nil))
	x.Idle()
	ms := NoPing(s.Msgs())
	if id != "" {
		judgePanic(x, ms, id, k, detailed)
	}
	if c := findCompletion(ms, "v"); len(c) != 1 || c[0].Error != "" || !same(c[0].Result, 30) {
		x.Fail("dead", "the client's next answer: %v", c)
	}
	inv := ""
	for _, m := range ms {
		if m.Type == 1 {
			inv = m.ID
		}
	}
	s.Feed(w.Completion(inv, "ok", true, ""))
	x.Idle()
	select {
	case r := <-ch:
		if r.Error != nil || r.Value != "ok" {
			x.Fail("call", "the pending call of the client yields %v", r)
		}
	default:
		x.Fail("call", "the pending call of the client yields nothing")
	}
	if st := s.C.State(); st != signalr.ClientConnected {
		x.Fail("dead", "client state %v", st)
	}
	x.Ev("%v", ms)
}
