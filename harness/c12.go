package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C12: concurrent writers.

// pay is a payload of its own for every sender, long enough that a mix-up is seen.
func pay(kind string, i int) string {
	return fmt.Sprintf("%s%d:%s", kind, i, strings.Repeat(kind[:1], 20+37*i+len(kind)*5))
}

var unserializable = make(chan int)

type writerHub struct {
	signalr.Hub
	gate *gate
}

// gate lets everybody who waits for it start at once.
type gate struct{ ch chan struct{} }

func newGate() *gate   { return &gate{make(chan struct{})} }
func (g *gate) open()  { close(g.ch) }
func (g *gate) await() { <-g.ch }

func (h *writerHub) Res(k int) string {
	h.gate.await()
	return pay("res", k)
}

func (h *writerHub) Str(k int) <-chan string {
	h.gate.await()
	ch := make(chan string, 1)
	go func() {
		defer close(ch)
		for i := 0; i < 3; i++ {
			ch <- pay("item", 10*k+i)
		}
	}()
	return ch
}

func (h *writerHub) Call(k int) string {
	h.gate.await()
	h.Clients().Caller().Send("called", pay("call", k))
	h.Clients().All().Send("all", pay("all", k))
	return pay("done", k)
}

func (h *writerHub) BadRes() map[string]any {
	h.gate.await()
	return map[string]any{"text": strings.Repeat("x", 100), "bad": unserializable}
}

func (h *writerHub) BadSend() string {
	h.gate.await()
	h.Clients().Caller().Send("never", strings.Repeat("x", 100), unserializable)
	h.Clients().All().Send("never", strings.Repeat("x", 100), unserializable)
	return pay("after", 1)
}

func (h *writerHub) BadItem() <-chan any {
	h.gate.await()
	ch := make(chan any, 2)
	ch <- pay("good", 1)
	ch <- []any{strings.Repeat("x", 100), unserializable}
	close(ch)
	return ch
}

// what the peer has to see of one sender, in this order
type expectation struct {
	what string
	msgs []string
}

func brief(m Msg) string {
	switch m.Type {
	case 1, 4:
		return fmt.Sprintf("inv %s %v", m.Target, m.Args)
	case 2:
		return fmt.Sprintf("item %s %v", m.ID, m.Item)
	case 3:
		if m.Error != "" {
			return fmt.Sprintf("comp %s error", m.ID)
		}
		return fmt.Sprintf("comp %s %v", m.ID, m.Result)
	case 6:
		return "ping"
	case 7:
		return "close"
	}
	return m.String()
}

// judgeWrites checks that every write is one message and that the senders' messages are there, each once and in order.
func judgeWrites(x *X, w Wire, c *Conn, skip int, exp []expectation, ended bool) {
	var all []string
	for _, b := range c.writes[skip:] {
		ms, rest, err := w.Parse(b)
		if err != nil || len(rest) > 0 || len(ms) != 1 {
			x.Fail("write-is-no-message", "%s: a write is %q (%v), not one message", c.id, b, err)
			return
		}
		all = append(all, brief(ms[0]))
	}
	used := make([]bool, len(all))
	for _, e := range exp {
		at := 0
		for _, want := range e.msgs {
			i := at
			for i < len(all) && (used[i] || all[i] != want) {
				i++
			}
			if i == len(all) {
				if !ended {
					x.Fail("message-missing", "%s: %s: no %.80q (in order) in %.80q", c.id, e.what, want, all)
				}
				break
			}
			used[i] = true
			at = i + 1
		}
	}
	for i, m := range all {
		if !used[i] && m != "ping" && m != "close" {
			x.Fail("message-unexpected", "%s: nobody has sent %.80q", c.id, m)
		}
		if i > 0 && all[i-1] == "close" && m == "close" {
			x.Fail("closed-twice", "%s: %.80q", c.id, all)
		}
	}
	x.Ev("%s %.300s", c.id, strings.Join(all, "|"))
}

const serverSenders = 10

func runServerWriters(x *X, w Wire, senders []int, pause time.Duration) {
	g := newGate()
	opts := []func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &writerHub{gate: g} })}
	if pause > 0 {
		opts = append(opts, signalr.KeepAliveInterval(time.Second), signalr.TimeoutInterval(1000*time.Second))
	}
	s, stop := newServer(x, opts...)
	peers := []*Peer{connectPeer(x, s, "a", w), connectPeer(x, s, "b", w)}
	var skip []int
	for _, p := range peers {
		p.shared = &sharedWriter{pause: pause}
		skip = append(skip, len(p.writes))
	}
	a := peers[0]
	var feed []byte
	var expA, expB []expectation
	ended, endAll := false, false
	add := func(what string, msgs ...string) { expA = append(expA, expectation{what, msgs}) }
	both := func(what string, msgs ...string) {
		expA = append(expA, expectation{what, msgs})
		expB = append(expB, expectation{what, msgs})
	}
	for k, sender := range senders {
		id := fmt.Sprint(k + 1)
		inv := func(typ int, target string, args ...any) { feed = append(feed, w.Inv(typ, id, target, args, nil)...) }
		comp := func(result any) string { return fmt.Sprintf("comp %s %v", id, result) }
		switch sender {
		case 0:
			inv(1, "res", k)
			add("result", comp(pay("res", k)))
		case 1:
			inv(4, "str", k)
			add("stream", "item "+id+" "+pay("item", 10*k), "item "+id+" "+pay("item", 10*k+1), "item "+id+" "+pay("item", 10*k+2), comp(nil))
		case 2:
			inv(1, "call", k)
			add("caller", fmt.Sprintf("inv called [%s]", pay("call", k)))
			both("all", fmt.Sprintf("inv all [%s]", pay("all", k)))
			add("result", comp(pay("done", k)))
		case 3:
			go func() {
				g.await()
				s.HubClients().All().Send("out", pay("out", k))
				s.HubClients().Client("a").Send("outa", pay("outa", k))
			}()
			both("broadcast", fmt.Sprintf("inv out [%s]", pay("out", k)))
			add("send", fmt.Sprintf("inv outa [%s]", pay("outa", k)))
		case 4:
			inv(1, "badres")
			add("error", "comp "+id+" error")
		case 5:
			inv(1, "badsend")
			add("result", comp(pay("after", 1)))
		case 6:
			inv(4, "baditem")
			add("stream", "item "+id+" "+pay("good", 1))
			ended = true
		case 7:
			go func() {
				g.await()
				stop()
			}()
			ended, endAll = true, true
		case 8:
			go func() {
				g.await()
				a.Feed(w.Close("", false))
			}()
			ended = true
		case 9:
			go func() {
				g.await()
				a.Feed([]byte("\x02\x91\x2a\x1e")) // garbage in both protocols
			}()
			ended = true
		}
	}
	a.Feed(feed)
	x.Idle()
	g.open()
	x.Settle(10*time.Second + 40*pause)
	judgeWrites(x, w, a.Conn, skip[0], expA, ended)
	judgeWrites(x, w, peers[1].Conn, skip[1], expB, endAll)
}

type writerReceiver struct{ gate *gate }

func (r *writerReceiver) Answer(k int) string {
	r.gate.await()
	return pay("ans", k)
}

func (r *writerReceiver) BadAnswer(k int) any {
	r.gate.await()
	return []any{strings.Repeat("x", 100), unserializable}
}

const clientSenders = 8

func runClientWriters(x *X, w Wire, senders []int, pause time.Duration) {
	g := newGate()
	opts := []func(signalr.Party) error{signalr.WithReceiver(&writerReceiver{g})}
	if pause > 0 {
		opts = append(opts, signalr.KeepAliveInterval(time.Second), signalr.TimeoutInterval(1000*time.Second))
	}
	c := newClient(x, w, opts...)
	c.Connect()
	c.shared = &sharedWriter{pause: pause}
	skip := len(c.writes)
	var exp []expectation
	ended := false
	add := func(what string, msgs ...string) { exp = append(exp, expectation{what, msgs}) }
	type push struct{ target string }
	var pushes []push
	for k, sender := range senders {
		k := k
		id := fmt.Sprintf("s%d", k)
		switch sender {
		case 0:
			go func() {
				g.await()
				c.C.Invoke("inv", pay("inv", k))
			}()
			add("invoke", fmt.Sprintf("inv inv [%s]", pay("inv", k)))
		case 1:
			go func() {
				g.await()
				c.C.Send("send", pay("send", k))
			}()
			add("send", fmt.Sprintf("inv send [%s]", pay("send", k)))
		case 2:
			go func() {
				g.await()
				c.C.PullStream("pull", pay("pull", k))
			}()
			add("pull", fmt.Sprintf("inv pull [%s]", pay("pull", k)))
		case 3:
			ch := make(chan string, 1)
			go func() {
				g.await()
				go func() {
					for i := 0; i < 3; i++ {
						ch <- pay("up", 10*k+i)
					}
					close(ch)
				}()
				c.C.PushStreams(fmt.Sprint("push", k), ch)
			}()
			pushes = append(pushes, push{fmt.Sprint("push", k)})
		case 4:
			c.Feed(w.Inv(1, id, "answer", []any{k}, nil))
			add("answer", fmt.Sprintf("comp %s %s", id, pay("ans", k)))
		case 5:
			c.Feed(w.Inv(1, id, "badanswer", []any{k}, nil))
			add("answer", fmt.Sprintf("comp %s error", id))
		case 6:
			go func() {
				g.await()
				c.C.Invoke("bad", strings.Repeat("x", 100), func() {})
				c.C.Invoke("after", pay("after", k))
			}()
			add("invoke", fmt.Sprintf("inv after [%s]", pay("after", k)))
		case 7:
			go func() {
				g.await()
				c.C.Stop()
			}()
			ended = true
		}
	}
	x.Idle()
	g.open()
	x.Settle(10*time.Second + 40*pause)
	// the ids of upload streams are the client's choice
	for _, m := range func() []Msg {
		var out []Msg
		for _, b := range c.writes[skip:] {
			if ms, _, err := w.Parse(b); err == nil {
				out = append(out, ms...)
			}
		}
		return out
	}() {
		for _, p := range pushes {
			if m.Target == p.target && m.Type == 1 && len(m.Streams) == 1 {
				k := 0
				fmt.Sscanf(p.target, "push%d", &k)
				sid := m.Streams[0]
				add("push", brief(m), "item "+sid+" "+pay("up", 10*k), "item "+sid+" "+pay("up", 10*k+1), "item "+sid+" "+pay("up", 10*k+2), "comp "+sid+" <nil>")
				p.target = ""
			}
		}
	}
	n := 0
	for _, e := range exp {
		if e.what == "push" {
			n++
		}
	}
	if n != len(pushes) && !ended {
		x.Fail("message-missing", "%d of %d pushes sent", n, len(pushes))
	}
	judgeWrites(x, w, c.Conn, skip, exp, ended)
}

func (h *writerHub) Quit() { h.Abort() }

// runAbandoned: the transport still works on a write when its connection ends. The bytes of the write stay the same, whatever
// other connections send.
func runAbandoned(x *X, w Wire, end, kind, others int) {
	g := newGate()
	g.open()
	s, stop := newServer(x, signalr.HubFactory(func() signalr.HubInterface { return &writerHub{gate: g} }))
	a := connectPeer(x, s, "a", w)
	a.shared = &sharedWriter{pause: 20 * time.Second}
	b := connectPeer(x, s, "b", w)
	skip, skipB := len(a.writes), len(b.writes)
	var exp []expectation
	switch kind {
	case 0:
		a.Feed(w.Inv(1, "1", "res", []any{1}, nil))
		exp = append(exp, expectation{"result", []string{fmt.Sprintf("comp 1 %s", pay("res", 1))}})
	case 1:
		a.Feed(w.Inv(4, "1", "str", []any{1}, nil))
		exp = append(exp, expectation{"stream", []string{"item 1 " + pay("item", 10), "item 1 " + pay("item", 11), "item 1 " + pay("item", 12), "comp 1 <nil>"}})
	case 2:
		s.HubClients().Client("a").Send("bc", pay("bc", 1))
		exp = append(exp, expectation{"client", []string{fmt.Sprintf("inv bc [%s]", pay("bc", 1))}})
	}
	x.Settle(time.Second)
	switch end {
	case 0:
		a.FeedErr(errInjected)
	case 1:
		a.Feed(w.Inv(1, "", "quit", nil, nil))
	case 2:
		a.Feed(w.Close("", false))
	case 3:
		a.Feed([]byte("\x02\x91\x2a\x1e"))
	case 4:
		stop()
	case 5:
		a.Conn.Close()
	}
	x.Settle(time.Second)
	var expB []expectation
	for i := 0; i <= others; i++ {
		id := fmt.Sprint("b", i)
		b.Feed(w.Inv(1, id, "res", []any{9}, nil))
		if end != 4 {
			expB = append(expB, expectation{"result", []string{fmt.Sprintf("comp %s %s", id, pay("res", 9))}})
		}
		x.Settle(time.Second)
	}
	x.Settle(2 * time.Minute)
	judgeWrites(x, w, a.Conn, skip, exp, true)
	judgeWrites(x, w, b.Conn, skipB, expB, end == 4)
}

func init() {
	register(&Property{ID: "C12", Title: "concurrent writers",
		Rule: "All pairs (and triples, with fewer deviations) of senders on a server's connection (result, stream, Caller and All from a hub method, All and Client from outside, unserializable result, argument and stream item, server stopped, connection closed by the peer, garbage) " +
			"with a second connection that shares the broadcasts, and on a client's connection (Invoke, Send, PullStream, PushStreams, answers, unserializable answer and argument, Stop), all started at once. " +
			"The transport takes every write in two parts, one write after the other, immediately or with a pause that lets the keep-alive interval elapse; abandoned: connections which end during a write while others send. Both protocols, all schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			sorted := func(d []int) bool {
				for i := 2; i < len(d); i++ {
					if d[i] < d[i-1] {
						return true
					}
				}
				return false
			}
			for _, w := range wires {
				w := w
				pauses := []time.Duration{0, 1500 * time.Millisecond}
				add := func(side string, n int, run func(*X, Wire, []int, time.Duration)) {
					body := func(x *X) { run(x, w, x.D[1:], pauses[x.D[0]]) }
					out = append(out,
						&Scenario{Name: side + "-pairs/" + w.Name(), Dims: []int{2, n, n}, Quick: 1, Full: 2, Skip: sorted, Body: body},
						&Scenario{Name: side + "-triples/" + w.Name(), Dims: []int{2, n, n, n}, Quick: 0, Full: 1, Skip: sorted, Body: body},
						&Scenario{Name: side + "-quads/" + w.Name(), Dims: []int{2, n, n, n, n}, Quick: 0, Full: 0, OnlyFull: true, Skip: sorted, Body: body},
					)
				}
				add("server", serverSenders, runServerWriters)
				add("client", clientSenders, runClientWriters)
				out = append(out, &Scenario{Name: "abandoned/" + w.Name(), Dims: []int{6, 3, 2}, Quick: 1, Full: 2, Body: func(x *X) {
					runAbandoned(x, w, x.D[0], x.D[1], x.D[2])
				}})
			}
			return out
		}})
}
