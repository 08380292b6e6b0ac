package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/philippseith/signalr"
)

// C11: life cycle of connections and hubs.

type lifeRec struct {
	made    int
	ctxs    map[*lifeHub]signalr.HubContext
	calls   []lifeCall
	panicOn string
	gate    chan struct{} // OnConnected waits for it
	gate2   chan struct{} // OnDisconnected waits for it
}

type lifeCall struct {
	what string
	id   string // as given by the context
	arg  string
	hub  *lifeHub
	p    *Peer
	dead bool // the connection's context was done
}

type lifeHub struct {
	signalr.Hub
	r *lifeRec
	n int
}

var lifeCur *lifeRec // for SimpleHubFactory, which makes zero values

func (h *lifeHub) rec() *lifeRec {
	if h.r == nil {
		h.r = lifeCur
	}
	return h.r
}

func (h *lifeHub) called(what, arg string) {
	h.rec().calls = append(h.r.calls, lifeCall{what: what, id: h.ConnectionID(), arg: arg, hub: h, dead: h.Context().Err() != nil})
}

func (h *lifeHub) OnConnected(id string) {
	h.called("connected", id)
	if h.r.panicOn == "connected" {
		panic("boom")
	}
	if h.r.gate != nil {
		<-h.r.gate
	}
}
func (h *lifeHub) OnDisconnected(id string) {
	h.called("disconnected", id)
	if h.r.panicOn == "disconnected" {
		panic("boom")
	}
	if h.r.gate2 != nil {
		<-h.r.gate2
	}
}
func (h *lifeHub) Call(a string) string { h.called("call", a); return h.ConnectionID() }
func (h *lifeHub) Set(k, v string)      { h.called("set", k); h.Items().Store(k, v) }
func (h *lifeHub) Get(k string) string {
	h.called("get", k)
	if v, ok := h.Items().Load(k); ok {
		return v.(string)
	}
	return "-"
}
func (h *lifeHub) Quit() { h.called("quit", ""); h.Abort() }
func (h *lifeHub) Bye(e string) {
	h.called("bye", e)
	_ = h.Close(e, false)
}
func (h *lifeHub) CtxErr(ch <-chan int) string {
	h.called("ctxerr", "")
	<-h.Context().Done()
	return "done"
}

const (
	modeUse = iota
	modeFactory
	modeSimple
	modePer
)

var modeNames = []string{"UseHub", "HubFactory", "SimpleHubFactory", "PerConnectionHubFactory"}

func lifeServer(x *X, mode int, opts ...func(signalr.Party) error) (signalr.Server, *lifeRec, context.CancelFunc) {
	r := &lifeRec{}
	lifeCur = r
	mk := func() *lifeHub { r.made++; return &lifeHub{r: r, n: r.made} }
	var o func(signalr.Party) error
	switch mode {
	case modeUse:
		o = signalr.UseHub(mk())
	case modeFactory:
		o = signalr.HubFactory(func() signalr.HubInterface { return mk() })
	case modeSimple:
		o = signalr.SimpleHubFactory(&lifeHub{})
	case modePer:
		o = signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return mk() })
	}
	s, cancel := newServer(x, append([]func(signalr.Party) error{o}, opts...)...)
	return s, r, cancel
}

func (r *lifeRec) count(what, id string) (n int) {
	for _, c := range r.calls {
		if c.what == what && (c.id == id || id == "*") {
			n++
		}
	}
	return
}

// judgeLife checks the calls. shared context makes ids unreliable for modeUse.
func judgeLife(x *X, r *lifeRec, mode int, want map[string][2]int) {
	per := map[string]map[*lifeHub]bool{}
	seen := map[*lifeHub]int{}
	n := map[string]int{}
	for _, c := range r.calls {
		id := c.id
		if c.what == "connected" || c.what == "disconnected" {
			if c.arg != c.id && mode != modeUse {
				x.Fail("wrong-id", "%s(%q) with the context of %q", c.what, c.arg, c.id)
			}
			id = c.arg
			n[c.what+id]++
		}
		if per[id] == nil {
			per[id] = map[*lifeHub]bool{}
		}
		per[id][c.hub] = true
		seen[c.hub]++
	}
	for id, w := range want {
		if n["connected"+id] != w[0] {
			x.Fail("connected", "%s: OnConnected called %d times, want %d", id, n["connected"+id], w[0])
		}
		if n["disconnected"+id] != w[1] {
			x.Fail("disconnected", "%s: OnDisconnected called %d times, want %d", id, n["disconnected"+id], w[1])
		}
		delete(n, "connected"+id)
		delete(n, "disconnected"+id)
	}
	for k := range n {
		x.Fail("life-of-others", "unexpected %s", k)
	}
	switch mode {
	case modeUse:
		if len(seen) > 1 {
			x.Fail("instances", "UseHub: %d hubs used", len(seen))
		}
	case modeFactory, modeSimple:
		for h, k := range seen {
			if k > 1 {
				x.Fail("instances", "%s: hub %d serves %d calls: %v", modeNames[mode], h.n, k, r.calls)
			}
		}
	}
}

// perInstances checks the instances of per-connection hubs, for connections whose ids were used once only.
func perInstances(x *X, r *lifeRec) {
	per := map[string]*lifeHub{}
	owner := map[*lifeHub]string{}
	for _, c := range r.calls {
		if h, ok := per[c.id]; ok && h != c.hub {
			x.Fail("instances", "%s is served by hubs %d and %d (%s)", c.id, h.n, c.hub.n, c.what)
		}
		per[c.id] = c.hub
		if o, ok := owner[c.hub]; ok && o != c.id {
			x.Fail("instances", "hub %d serves %s and %s", c.hub.n, o, c.id)
		}
		owner[c.hub] = c.id
	}
}

// answers returns the result of the completion with the id.
func answer(x *X, p *Peer, id string) any {
	c := findCompletion(p.Msgs(), id)
	if len(c) != 1 || c[0].Error != "" {
		x.Fail("answer", "%s: invocation %s is answered with %v", p.id, id, c)
		return nil
	}
	return c[0].Result
}

var lifeEnds = []string{"eof", "error", "close", "close-reconnect", "close-error", "abort", "garbage", "timeout", "write-error", "stuck", "cancel", "none"}

func endPeer(x *X, p *Peer, how string, cancel context.CancelFunc) {
	switch how {
	case "eof":
		p.FeedErr(io.EOF)
	case "error":
		p.FeedErr(errInjected)
	case "close":
		p.Feed(p.W.Close("", false))
	case "close-reconnect":
		p.Feed(p.W.Close("", true))
	case "close-error":
		p.Feed(p.W.Close("client error", true))
	case "abort":
		p.Feed(p.W.Inv(1, "", "quit", nil, nil))
	case "garbage":
		if p.W.Name() == "json" {
			p.Feed([]byte("garbage\x1e"))
		} else {
			p.Feed([]byte{1, 0xc1})
		}
	case "timeout":
		time.Sleep(31 * time.Second)
	case "write-error":
		p.wfail, p.werr = p.nwrite+1, errInjected
		p.Feed(p.W.Inv(1, "we", "call", []any{"w"}, nil))
	case "stuck":
		p.wblock = p.nwrite + 1
		p.Feed(p.W.Inv(1, "we", "call", []any{"w"}, nil))
		x.Idle()
		p.Conn.Close()
	case "cancel":
		cancel()
	}
}

func init() {
	register(&Property{ID: "C11", Title: "lifecycle",
		Rule: "ends: every way a connection can end (12) x ways to provide hubs (4) x number of calls before it, with a second connection; early: the connection ends at every point of its start; items: item stores of two connections and of a later connection with the same id; " +
			"handshake: failed handshakes; slow: OnConnected blocks while invocations arrive. All schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out,
					&Scenario{Name: "ends/" + w.Name(), Dims: []int{len(lifeEnds), 4, 3}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[2] == 1 || w.Name() == "json" },
						Body: func(x *X) {
							mode := x.D[1]
							s, r, cancel := lifeServer(x, mode)
							q := connectPeer(x, s, "q", w)
							p := connectPeer(x, s, "p", w)
							for i := 0; i < x.D[2]; i++ {
								p.Feed(w.Inv(1, fmt.Sprint(i), "call", []any{fmt.Sprint(i)}, nil))
							}
							x.Idle()
							for i := 0; i < x.D[2]; i++ {
								if got := answer(x, p, fmt.Sprint(i)); got != "p" && mode != modeUse {
									x.Fail("context", "a call of p has the context of %v", got)
								}
							}
							how := lifeEnds[x.D[0]]
							want := map[string][2]int{"p": {1, 1}, "q": {1, 0}}
							before := len(r.calls)
							_ = before
							if how == "timeout" {
								for i := 0; i < 4; i++ {
									time.Sleep(8 * time.Second)
									q.Feed(w.Ping())
								}
							} else {
								endPeer(x, p, how, cancel)
							}
							x.Idle()
							if how == "none" {
								want["p"] = [2]int{1, 0}
							}
							if how == "cancel" {
								want["q"] = [2]int{1, 1}
							}
							if how != "none" && !p.Served {
								x.Fail("zombie", "%s: Serve has not returned", how)
							}
							if how == "stuck" || how == "write-error" {
								// the call that could not be answered
							}
							judgeLife(x, r, mode, want)
							if mode == modePer {
								perInstances(x, r)
							}
							if how != "cancel" {
								if q.Served {
									x.Fail("other", "%s ended the other connection: %v", how, q.ServeErr)
								}
								q.Feed(w.Inv(1, "z", "call", []any{"z"}, nil))
								x.Idle()
								if got := answer(x, q, "z"); got != "q" && mode != modeUse {
									x.Fail("context", "a call of q has the context of %v", got)
								}
							}
							judgeLife(x, r, mode, want)
							x.Ev("%s %s %d", how, modeNames[mode], len(r.calls))
						}},
					// everything in one read with the handshake, ending at once
					&Scenario{Name: "early/" + w.Name(), Dims: []int{4, 3, 4}, Quick: 1, Full: 2,
						Body: func(x *X) {
							mode := x.D[1] + 1
							s, r, _ := lifeServer(x, mode)
							p := startPeer(x, s, "p", w)
							all := hsReq(w)
							for i := 0; i < x.D[2]; i++ {
								all = append(all, w.Inv(1, fmt.Sprint(i), "call", []any{fmt.Sprint(i)}, nil)...)
							}
							if x.D[0] == 0 {
								all = append(all, w.Close("", false)...)
							}
							p.Feed(all)
							switch x.D[0] {
							case 1:
								p.FeedErr(io.EOF)
							case 2:
								p.wfail, p.werr = 2, errInjected
								p.Feed(w.Inv(1, "we", "call", []any{"w"}, nil))
							}
							x.Idle()
							p.hsLen = 3
							if x.D[0] != 3 && !p.Served {
								x.Fail("zombie", "Serve has not returned")
							}
							want := [2]int{1, 1}
							if x.D[0] == 3 {
								want[1] = 0
							}
							judgeLife(x, r, mode, map[string][2]int{"p": want})
							if mode == modePer {
								perInstances(x, r)
							}
							x.Ev("%v", len(r.calls))
							if x.D[0] == 3 {
								return
							}
							// a new connection with the same id gets a new hub
							old := map[*lifeHub]bool{}
							for _, c := range r.calls {
								old[c.hub] = true
							}
							n := len(r.calls)
							quietly(x, func() {
								p2 := connectPeer(x, s, "p", w)
								p2.Feed(w.Inv(1, "1", "call", []any{"again"}, nil))
								x.Idle()
								answer(x, p2, "1")
								for _, c := range r.calls[n:] {
									if old[c.hub] {
										x.Fail("instances", "the hub %d of an ended connection serves %s of the next", c.hub.n, c.what)
									}
								}
								if len(r.calls) != n+2 {
									x.Fail("connected", "calls for the second connection: %v", r.calls[n:])
								}
							})
						}},
					&Scenario{Name: "items/" + w.Name(), Dims: []int{4, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							mode := x.D[0]
							s, r, _ := lifeServer(x, mode)
							p := connectPeer(x, s, "p", w)
							q := connectPeer(x, s, "q", w)
							if mode == modeUse {
								// one hub whose context is the one initialized last; calls of different connections one by one
								for i, c := range []*Peer{p, q} {
									c.Feed(w.Inv(1, "1", "set", []any{"k", fmt.Sprint("v", i)}, nil))
									x.Idle()
								}
								for i, c := range []*Peer{p, q} {
									c.Feed(w.Inv(1, "2", "get", []any{"k"}, nil))
									x.Idle()
									if got := answer(x, c, "2"); got != fmt.Sprint("v", i) {
										x.Fail("items", "%s reads %v", c.id, got)
									}
								}
								return
							}
							p.Feed(w.Inv(1, "1", "set", []any{"k", "pv"}, nil))
							q.Feed(w.Inv(1, "1", "get", []any{"k"}, nil))
							x.Idle()
							if got := answer(x, q, "1"); got != "-" {
								x.Fail("items", "q reads %v", got)
							}
							q.Feed(append(w.Inv(1, "2", "set", []any{"k", "qv"}, nil), w.Inv(1, "3", "set", []any{"k2", "qv2"}, nil)...))
							p.Feed(append(w.Inv(1, "2", "get", []any{"k"}, nil), w.Inv(1, "3", "get", []any{"k2"}, nil)...))
							x.Idle()
							if a, b := answer(x, p, "2"), answer(x, p, "3"); a != "pv" || b != "-" {
								x.Fail("items", "p reads %v %v", a, b)
							}
							switch x.D[1] {
							case 1:
								p.FeedErr(io.EOF)
							case 2:
								p.Feed(w.Inv(1, "", "quit", nil, nil))
							}
							if x.D[1] > 0 {
								x.Idle()
								p2 := connectPeer(x, s, "p", w)
								p2.Feed(w.Inv(1, "1", "get", []any{"k"}, nil))
								x.Idle()
								if got := answer(x, p2, "1"); got != "-" {
									x.Fail("items", "a new connection with the same id reads %v", got)
								}
								p2.Feed(w.Inv(1, "2", "set", []any{"k", "new"}, nil))
								x.Idle()
							}
							q.Feed(append(w.Inv(1, "4", "get", []any{"k"}, nil), w.Inv(1, "5", "get", []any{"k2"}, nil)...))
							x.Idle()
							if a, b := answer(x, q, "4"), answer(x, q, "5"); a != "qv" || b != "qv2" {
								x.Fail("items", "q reads %v %v", a, b)
							}
							x.Ev("%d", len(r.calls))
						}},
					&Scenario{Name: "handshake/" + w.Name(), Dims: []int{6, 4}, Quick: 1, Full: 2,
						Body: func(x *X) {
							mode := x.D[1]
							s, r, _ := lifeServer(x, mode)
							p := startPeer(x, s, "p", w)
							switch x.D[0] {
							case 0:
								p.Feed([]byte("garbage\x1e"))
							case 1:
								p.Feed([]byte(`{"protocol":"xml","version":1}` + "\x1e"))
							case 2:
								p.Feed(hsReq(w)[:10])
								p.FeedErr(io.EOF)
							case 3:
								p.FeedErr(errInjected)
							case 4:
								x.Settle(16 * time.Second)
								p.Feed(hsReq(w))
							case 5:
								p.wfail, p.werr = 1, errInjected
								p.Feed(hsReq(w))
							}
							x.Idle()
							if !p.Served {
								x.Fail("zombie", "Serve has not returned")
							}
							if len(r.calls) > 0 {
								x.Fail("failed-handshake", "hub calls %v", r.calls)
							}
							x.Ev("%v %v", p.ServeErr, r.calls)
						}},
					// OnConnected is slow: invocations and the end of the connection do not wait for it and use the same hub
					&Scenario{Name: "slow/" + w.Name(), Dims: []int{3, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							mode := x.D[0] + 1
							s, r, _ := lifeServer(x, mode)
							r.gate = make(chan struct{})
							p := connectPeer(x, s, "p", w)
							p.Feed(w.Inv(1, "1", "call", []any{"a"}, nil))
							p.Feed(w.Inv(1, "2", "call", []any{"b"}, nil))
							x.Idle()
							answer(x, p, "1")
							answer(x, p, "2")
							if x.D[1] == 0 {
								close(r.gate)
								x.Idle()
							}
							p.FeedErr(io.EOF)
							x.Idle()
							if x.D[1] == 1 {
								close(r.gate)
								x.Idle()
							}
							judgeLife(x, r, mode, map[string][2]int{"p": {1, 1}})
							if mode == modePer {
								perInstances(x, r)
							}
							x.Ev("%d", len(r.calls))
						}},
					// OnDisconnected is slow: a new connection with the same id doesn't get the old hub
					&Scenario{Name: "again/" + w.Name(), Dims: []int{3, 2, 2}, Quick: 1, Full: 2,
						Body: func(x *X) {
							mode := x.D[0] + 1
							s, r, _ := lifeServer(x, mode)
							r.gate2 = make(chan struct{})
							p := connectPeer(x, s, "p", w)
							p.Feed(w.Inv(1, "1", "set", []any{"k", "old"}, nil))
							x.Idle()
							answer(x, p, "1")
							if x.D[2] == 0 {
								p.FeedErr(io.EOF)
							} else {
								p.Feed(w.Close("", false))
							}
							for i := 0; i < 10 && !p.Served; i++ {
								x.Settle(time.Second)
							}
							if !p.Served {
								x.Fail("zombie", "Serve has not returned")
							}
							old := map[*lifeHub]bool{}
							for _, c := range r.calls {
								old[c.hub] = true
							}
							n := len(r.calls)
							p2 := connectPeer(x, s, "p", w)
							if x.D[1] == 1 {
								close(r.gate2)
								x.Idle()
							}
							p2.Feed(w.Inv(1, "1", "get", []any{"k"}, nil))
							x.Idle()
							if got := answer(x, p2, "1"); got != "-" {
								x.Fail("items", "a new connection with the same id reads %v", got)
							}
							if x.D[1] == 0 {
								close(r.gate2)
								x.Idle()
							}
							p2.Feed(w.Inv(1, "2", "get", []any{"k"}, nil))
							x.Idle()
							answer(x, p2, "2")
							p2.FeedErr(io.EOF)
							x.Idle()
							judgeLife(x, r, mode, map[string][2]int{"p": {2, 2}})
							var hubs []int
							for _, c := range r.calls[n:] {
								if c.what == "disconnected" && old[c.hub] {
									continue
								}
								if old[c.hub] {
									x.Fail("instances", "the hub %d of an ended connection serves %s of the next", c.hub.n, c.what)
								}
								hubs = append(hubs, c.hub.n)
							}
							if mode == modePer {
								for _, h := range hubs {
									if h != hubs[0] {
										x.Fail("instances", "one connection is served by hubs %v", hubs)
									}
								}
							}
							x.Ev("%d", len(r.calls))
						}},
				)
			}
			return out
		}})
}
