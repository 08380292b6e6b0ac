package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/philippseith/signalr"
)

// The public operations of a client and of a server, any two of them at the same time.

type raceRecv struct {
	signalr.Receiver
}

func (r *raceRecv) Get(a int) int { return a + 1 }
func (r *raceRecv) Note(a string) {}
func (r *raceRecv) Ask(a int) int {
	<-r.Server().Send("note", a)
	return int(r.Server().State())
}
func (r *raceRecv) Up(ch <-chan int) int {
	n := 0
	for i := range ch {
		n += i
	}
	return n
}
func (r *raceRecv) Boom() { panic("boom") }

var clientRaceOps = []string{"invoke", "send", "pull", "push", "state", "observe", "wait", "stop", "inbound", "ask", "inbound-stream", "inbound-panic", "close", "eof", "cancel", "write-error", "idle"}

var answerOps = []string{"bad", "one", "unsent", "pull", "invoke", "push"}

// clientRace is a client with a scripted server.
type clientRace struct {
	x *X
	w Wire
	r *reconnects
	n int
}

func (c *clientRace) srv() *Srv { return c.r.conns[len(c.r.conns)-1] }

func (c *clientRace) op(name string) {
	cl := c.r.C
	c.n++
	tag := fmt.Sprint(name, c.n)
	id := tag
	switch name {
	case "invoke":
		for range cl.Invoke("invoke", tag, 1) {
		}
	case "send":
		for range cl.Send("send", tag) {
		}
	case "pull":
		for range cl.PullStream("pull", tag) {
		}
	case "unsent":
		for range cl.PullStream("pull", tag, func() {}) {
		}
	case "bad", "one":
		for range cl.PullStream(name, tag) {
		}
	case "push":
		ch := make(chan int)
		go func() {
			for i := 0; i < 2; i++ {
				select {
				case ch <- i:
				case <-time.After(3 * time.Second):
				}
			}
			close(ch)
		}()
		for range cl.PushStreams("push", ch) {
		}
	case "state":
		_ = cl.State()
		_ = cl.Err()
		_ = cl.Context()
	case "observe":
		ch := make(chan signalr.ClientState, 1)
		cancel := cl.ObserveStateChanged(ch)
		go func() {
			time.Sleep(time.Second)
			cancel()
		}()
		for range ch {
		}
	case "wait":
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		defer cancel()
		<-cl.WaitForState(ctx, signalr.ClientClosed)
	case "stop":
		cl.Stop()
	case "inbound":
		c.srv().Feed(append(c.w.Inv(1, id, "Get", []any{1}, nil), c.w.Inv(1, "", "note", []any{"x"}, nil)...))
	case "ask":
		c.srv().Feed(c.w.Inv(1, id, "ask", []any{1}, nil))
	case "inbound-stream":
		s := c.srv()
		s.Feed(append(c.w.Inv(1, id, "up", nil, []string{"s" + id}), c.w.Item("s"+id, 4)...))
		time.Sleep(time.Second)
		s.Feed(c.w.Completion("s"+id, nil, false, ""))
	case "inbound-panic":
		c.srv().Feed(c.w.Inv(1, id, "boom", nil, nil))
	case "close":
		c.srv().Feed(c.w.Close("", true))
	case "eof":
		c.srv().FeedErr(io.EOF)
	case "cancel":
		c.r.cancel()
	case "write-error":
		s := c.srv()
		s.wfail, s.werr = s.nwrite+1, errInjected
	case "idle":
		time.Sleep(6 * time.Second)
	}
}

func runClientRace(x *X, w Wire, before bool, slow time.Duration, again int, a, b string) {
	c := &clientRace{x: x, w: w}
	c.r = newReconnects(x, w, nil, 100, signalr.WithReceiver(&raceRecv{}), signalr.StreamBufferCapacity(1))
	c.r.answer = func(s *Srv, m Msg) []byte {
		switch {
		case m.Target == "bad":
			// a result after an item is an error
			return append(w.Item(m.ID, 1), w.Completion(m.ID, "v", true, "")...)
		case m.Target == "one":
			return w.Completion(m.ID, "v", true, "")
		case m.Type == 4:
			return append(w.Item(m.ID, 1), append(w.Item(m.ID, 2), w.Completion(m.ID, nil, false, "")...)...)
		case m.Type == 1 && m.ID != "":
			return w.Completion(m.ID, "v", true, "")
		}
		return nil
	}
	c.r.slow = slow
	if !before {
		quietly(x, func() {
			c.r.C.Start()
			x.Settle(slow)
		})
	}
	done := 0
	for _, o := range []string{a, b} {
		o := o
		go func() {
			for i := 0; i <= again; i++ {
				c.op(o)
			}
			done++
		}()
	}
	if before {
		c.r.C.Start()
	}
	x.Settle(20 * time.Second)
	x.Ev("%d %v", done, c.r.C.State())
	c.r.cancel()
	x.Settle(20 * time.Second)
}

type raceHub struct {
	signalr.Hub
	boom bool
}

func (h *raceHub) Get(a int) int { return a + 1 }
func (h *raceHub) Ctx(k string) string {
	h.Items().Store(k, 1)
	_, _ = h.Items().Load("other")
	h.Groups().AddToGroup("g", h.ConnectionID())
	h.Clients().Group("g").Send("t", k)
	h.Clients().All().Send("t", k)
	h.Clients().Caller().Send("t", k)
	h.Clients().Client("p1").Send("t", k)
	h.Groups().RemoveFromGroup("g", h.ConnectionID())
	info, dbg := h.Logger()
	_ = info.Log("k", k)
	_ = dbg.Log("k", k)
	_ = h.Context().Err()
	return h.ConnectionID()
}
func (h *raceHub) Str() <-chan int {
	ch := make(chan int)
	go func() {
		defer close(ch)
		for i := 0; i < 3; i++ {
			select {
			case ch <- i:
			case <-time.After(3 * time.Second):
				return
			}
		}
	}()
	return ch
}
func (h *raceHub) Up(ch <-chan int) int {
	n := 0
	for i := range ch {
		n += i
	}
	return n
}
func (h *raceHub) Boom() { panic("boom") }
func (h *raceHub) Quit() { h.Abort() }
func (h *raceHub) Bye()  { _ = h.Close("bye", true) }
func (h *raceHub) Log() {
	info, _ := h.Logger()
	_ = info.Log("k", 1)
}
func (h *raceHub) OnConnected(id string) { h.Clients().All().Send("hello", id) }
func (h *raceHub) OnDisconnected(id string) {
	h.Groups().RemoveFromGroup("g", id)
	h.Clients().All().Send("bye", id)
	if h.boom {
		panic("boom")
	}
}

var serverRaceOps = []string{"get", "ctx", "stream", "upload", "cancel", "panic", "quit", "log", "hub-close", "close", "eof", "garbage", "connect", "bad-handshake", "all", "group", "one", "shutdown", "write-error", "idle"}

type serverRace struct {
	x      *X
	w      Wire
	s      signalr.Server
	stop   context.CancelFunc
	peers  []*Peer
	n      int
	byPeer bool
}

func (r *serverRace) op(name string, p *Peer) {
	w := r.w
	r.n++
	id := fmt.Sprint(name, r.n)
	switch name {
	case "get":
		p.Feed(w.Inv(1, id, "get", []any{1}, nil))
	case "ctx":
		p.Feed(w.Inv(1, id, "ctx", []any{id}, nil))
	case "stream":
		p.Feed(w.Inv(4, id, "str", nil, nil))
	case "upload":
		p.Feed(append(w.Inv(1, id, "up", nil, []string{"s" + id}), w.Item("s"+id, 4)...))
		time.Sleep(time.Second)
		p.Feed(w.Completion("s"+id, nil, false, ""))
	case "cancel":
		p.Feed(append(w.Inv(4, id, "str", nil, nil), w.Cancel(id)...))
	case "panic":
		p.Feed(w.Inv(1, id, "boom", nil, nil))
	case "quit":
		p.Feed(w.Inv(1, id, "quit", nil, nil))
	case "log":
		p.Feed(w.Inv(1, id, "log", nil, nil))
	case "hub-close":
		p.Feed(w.Inv(1, id, "bye", nil, nil))
	case "close":
		p.Feed(w.Close("", false))
	case "eof":
		p.FeedErr(io.EOF)
	case "garbage":
		p.Feed([]byte("\x02\x91\x2a\x1e"))
	case "connect":
		q := startPeer(r.x, r.s, "q"+id, w)
		q.Feed(append(hsReq(w), w.Inv(1, "1", "ctx", []any{"a"}, nil)...))
		time.Sleep(time.Second)
		q.FeedErr(io.EOF)
	case "bad-handshake":
		q := startPeer(r.x, r.s, "q"+id, w)
		q.Feed([]byte(`{"protocol":"nope","version":1}` + "\x1e"))
	case "all":
		r.s.HubClients().All().Send("t", id)
	case "group":
		r.s.HubClients().Group("g").Send("t", id)
	case "one":
		r.s.HubClients().Client(p.id).Send("t", id)
	case "shutdown":
		r.stop()
	case "write-error":
		p.wfail, p.werr = p.nwrite+1, errInjected
	case "idle":
		time.Sleep(6 * time.Second)
	}
}

// factory 0: a hub per call, 1: one hub for all, 2: a hub type, 3: a hub per connection
func runServerRace(x *X, w Wire, factory, where int, boom bool, a, b string) {
	r := &serverRace{x: x, w: w}
	shared := &raceHub{boom: boom}
	opt := []func(signalr.Party) error{
		signalr.HubFactory(func() signalr.HubInterface { return &raceHub{boom: boom} }),
		signalr.UseHub(shared),
		signalr.SimpleHubFactory(&raceHub{}),
		signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &raceHub{boom: boom} }),
	}[factory]
	r.s, r.stop = newServer(x, opt, signalr.StreamBufferCapacity(1))
	quietly(x, func() {
		r.peers = append(r.peers, connectPeer(x, r.s, "p0", w), connectPeer(x, r.s, "p1", w))
	})
	done := 0
	for i, o := range []string{a, b} {
		o := o
		p := r.peers[i*where]
		go func() {
			r.op(o, p)
			done++
		}()
	}
	x.Settle(20 * time.Second)
	x.Ev("%d %d %d", done, len(r.peers[0].writes), len(r.peers[1].writes))
	for _, p := range r.peers {
		p.FeedErr(io.EOF)
	}
	x.Settle(20 * time.Second)
}

func raceAPI() []*Scenario {
	// the base of all connections, also those of users
	out := []*Scenario{{Name: "base", Dims: []int{3, 3}, Quick: 2, Full: 2, Body: func(x *X) {
		c := signalr.NewConnectionBase(context.Background(), "a")
		for _, d := range x.D {
			d := d
			go func() {
				switch d {
				case 0:
					x.Ev("%v", c.ConnectionID() == "a")
				case 1:
					c.SetConnectionID("b")
				case 2:
					x.Ev("%v", c.Context().Err())
				}
			}()
		}
		x.Idle()
	}}}
	for _, w := range wires {
		w := w
		nc, ns := len(clientRaceOps), len(serverRaceOps)
		out = append(out,
			&Scenario{Name: "client/" + w.Name(), Dims: []int{2, nc, nc}, Quick: 0, Full: 1,
				Skip: func(d []int) bool { return d[2] < d[1] || d[0] == 1 && (d[1] > 7 || d[2] > 7) },
				Body: func(x *X) { runClientRace(x, w, x.D[0] == 1, 0, 0, clientRaceOps[x.D[1]], clientRaceOps[x.D[2]]) }},
			&Scenario{Name: "server/" + w.Name(), Dims: []int{4, 2, 2, ns, ns}, Quick: 0, Full: 0,
				Skip: func(d []int) bool { return d[4] < d[3] },
				Body: func(x *X) {
					runServerRace(x, w, x.D[0], x.D[1], x.D[2] == 1, serverRaceOps[x.D[3]], serverRaceOps[x.D[4]])
				}},
			// answers of all kinds while other calls are made
			&Scenario{Name: "answers/" + w.Name(), Dims: []int{len(answerOps), len(answerOps)}, Quick: 1, Full: 2,
				Skip: func(d []int) bool { return d[1] < d[0] },
				Body: func(x *X) { runClientRace(x, w, false, 0, 1, answerOps[x.D[0]], answerOps[x.D[1]]) }},
			// the connection is lost, and made again slowly, while one of the operations is delayed
			&Scenario{Name: "reconnect/" + w.Name(), Dims: []int{7, 2}, Quick: 1, Full: 1, SleepFor: 1500 * time.Millisecond,
				Body: func(x *X) {
					runClientRace(x, w, false, time.Second, 0, []string{"eof", "close"}[x.D[1]], clientRaceOps[x.D[0]])
				}},
			&Scenario{Name: "server-sched/" + w.Name(), Dims: []int{2, ns, ns}, Quick: 1, Full: 1, OnlyFull: true,
				Skip: func(d []int) bool { return d[2] < d[1] },
				Body: func(x *X) { runServerRace(x, w, x.D[0], 0, false, serverRaceOps[x.D[1]], serverRaceOps[x.D[2]]) }})
	}
	return out
}
