package main

import (
	"fmt"
	"io"
	"slices"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C28: the hub context.

type ctxRec struct {
	at    string // in which lifecycle method of whom an operation is done
	who   string
	op    string
	said  []string // what operations in lifecycle methods and goroutines have answered
	gates map[string]chan struct{}
	logs  []string
	gone  map[string]int
	up    map[string]int
}

var ctxCur *ctxRec

// Log is the logger of the server.
func (r *ctxRec) Log(kv ...any) error {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == "tag" {
			r.logs = append(r.logs, fmt.Sprint(kv[i+1]))
		}
	}
	return nil
}

type ctxHub struct{ signalr.Hub }

var ctxOps = []string{"id", "caller", "join", "set", "get", "ctx", "abort", "close", "closeagain", "log"}

// do does an operation with the hub's context.
func (h *ctxHub) do(op, tag string) string {
	switch op {
	case "id":
		return h.ConnectionID()
	case "caller":
		h.Clients().Caller().Send("note", tag)
	case "join":
		h.Groups().AddToGroup("g", h.ConnectionID())
	case "set":
		h.Items().Store("k", tag)
	case "get":
		if v, ok := h.Items().Load("k"); ok {
			return v.(string)
		}
		return "-"
	case "ctx":
		if h.Context().Err() != nil {
			return "ended"
		}
		return "running"
	case "abort":
		h.Abort()
	case "close":
		_ = h.Close("text "+tag, false)
	case "closeagain":
		_ = h.Close("", true)
	case "log":
		info, dbg := h.Logger()
		_ = info.Log("tag", tag)
		_ = dbg.Log("tag", tag)
	}
	return ""
}

func (h *ctxHub) Do(op, tag string) string { return h.do(op, tag) }

// Later does it in a goroutine which goes on after the method.
func (h *ctxHub) Later(op, tag string) string {
	r, gate := ctxCur, ctxCur.gates[h.ConnectionID()]
	go func() {
		<-gate
		r.said = append(r.said, h.do(op, tag))
	}()
	return ""
}

// Items of a stream are what the operation says.
func (h *ctxHub) Flow(op, tag string) <-chan string {
	ch := make(chan string)
	go func() {
		ch <- h.do(op, tag)
		close(ch)
	}()
	return ch
}

// Wait ends when the connection ends.
func (h *ctxHub) Wait(tag string) string {
	<-h.Context().Done()
	ctxCur.said = append(ctxCur.said, "waited "+tag)
	return ""
}

func (h *ctxHub) OnConnected(id string) {
	r := ctxCur
	r.up[id]++
	if r.at == "connected" && r.who == id {
		r.said = append(r.said, h.do(r.op, "c-"+id))
	}
}

func (h *ctxHub) OnDisconnected(id string) {
	r := ctxCur
	r.gone[id]++
	if r.at == "disconnected" && r.who == id {
		r.said = append(r.said, h.do(r.op, "d-"+id))
	}
}

// ctxSite is a server with three connections.
type ctxSite struct {
	x     *X
	r     *ctxRec
	s     signalr.Server
	w     Wire
	peers map[string]*Peer
}

func newCtxSite(x *X, mode int, w Wire) *ctxSite {
	r := &ctxRec{gates: map[string]chan struct{}{}, gone: map[string]int{}, up: map[string]int{}}
	ctxCur = r
	o := []func(signalr.Party) error{
		signalr.HubFactory(func() signalr.HubInterface { return &ctxHub{} }),
		signalr.SimpleHubFactory(&ctxHub{}),
		signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &ctxHub{} }),
		signalr.UseHub(&ctxHub{}),
	}[mode]
	s, _ := newServer(x, o, signalr.Logger(r, false), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(time.Hour))
	return &ctxSite{x: x, r: r, s: s, w: w, peers: map[string]*Peer{}}
}

func (c *ctxSite) connect(id string) *Peer {
	c.r.gates[id] = make(chan struct{})
	p := connectPeer(c.x, c.s, id, c.w)
	c.peers[id] = p
	return p
}

// effect of an operation on its connection.
type ctxEffect struct {
	notes []string // tags of messages
	close *Msg
	items string
	group bool
	ended bool
}

func effectOf(op, tag string) (e ctxEffect) {
	e.items = "-"
	switch op {
	case "caller":
		e.notes = []string{tag}
	case "join":
		e.group = true
	case "set":
		e.items = tag
	case "abort":
		e.ended = true
	case "close":
		e.close = &Msg{Type: 7, Error: "text " + tag}
	case "closeagain":
		e.close = &Msg{Type: 7, Reconnect: true}
	}
	return e
}

// answerOf is what an operation says on a connection that is up.
func answerOf(op, id string) string {
	switch op {
	case "id":
		return id
	case "get":
		return "-"
	case "ctx":
		return "running"
	}
	return ""
}

// judge compares what has happened to a connection.
func (c *ctxSite) judge(id string, e ctxEffect) {
	p, x := c.peers[id], c.x
	if p.Served != e.ended {
		x.Fail("ended", "%s: ended %v, want %v (%v)", id, p.Served, e.ended, p.ServeErr)
	}
	var notes []string
	var closes []Msg
	for _, m := range NoPing(p.Msgs()) {
		switch {
		case m.Type == 1 && m.Target == "note" && len(m.Args) == 1:
			notes = append(notes, fmt.Sprint(m.Args[0]))
		case m.Type == 7:
			closes = append(closes, m)
		}
	}
	if !slices.Equal(notes, e.notes) {
		x.Fail("notes", "%s got %v, want %v", id, notes, e.notes)
	}
	if e.close == nil && len(closes) > 0 && !e.ended {
		x.Fail("closed", "%s got %v", id, closes)
	} else if e.close != nil && (len(closes) != 1 || closes[0].Error != e.close.Error || closes[0].Reconnect != e.close.Reconnect) {
		x.Fail("closed", "%s got %v, want %v", id, closes, *e.close)
	}
	if c.r.up[id] != 1 || e.ended && c.r.gone[id] != 1 || !e.ended && c.r.gone[id] != 0 {
		x.Fail("life", "%s: OnConnected %d times, OnDisconnected %d times", id, c.r.up[id], c.r.gone[id])
	}
	if e.ended {
		return
	}
	// the connection and its context go on
	if e.close == nil {
		for _, q := range []struct{ op, want string }{{"id", id}, {"get", e.items}, {"ctx", "running"}} {
			if got := c.ask(p, q.op, "q"); got != q.want {
				x.Fail("context", "%s: %s is %q, want %q", id, q.op, got, q.want)
			}
		}
	}
	n := len(p.Msgs())
	c.s.HubClients().Group("g").Send("member")
	x.Idle()
	ms := p.Msgs()[n:]
	member := len(ms) == 1 && ms[0].Target == "member"
	if member != e.group {
		x.Fail("group", "%s: member %v, want %v: %v", id, member, e.group, ms)
	}
}

// ask calls a method and returns the answer.
func (c *ctxSite) ask(p *Peer, op, tag string) string {
	n := len(p.Msgs())
	p.Feed(c.w.Inv(1, "ask", "do", []any{op, tag}, nil))
	c.x.Idle()
	for _, m := range p.Msgs()[n:] {
		if m.Type == 3 && m.ID == "ask" {
			if m.Error != "" {
				return "error " + m.Error
			}
			return fmt.Sprint(m.Result)
		}
	}
	return "no answer"
}

var ctxPlaces = []string{"method", "stream", "goroutine", "connected", "disconnected"}

func init() {
	register(&Property{ID: "C28", Title: "hub context",
		Rule: "ops: ten operations of the hub context (id, caller, join a group, items, context, abort, close with and without reconnect, logger) in five places (method, stream, goroutine started by a method, OnConnected, OnDisconnected) with three kinds of hub factories, while another connection does any of them at the same time, judged on three connections; " +
			"late: the same by a goroutine whose connection has ended, with and without a new connection of the same id; wait: methods that wait for the end of their connection, every way of ending; stuck: an operation that waits for its connection (blocked, slow, failing) while another connection does any, also with one hub for all; all schedules with bounded deviations.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			for _, w := range wires {
				w := w
				out = append(out,
					&Scenario{Name: "ops/" + w.Name(), Dims: []int{3, len(ctxPlaces), len(ctxOps), len(ctxOps) + 1}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[3] == 0 || (d[0]+d[1]+d[2]+d[3])%3 == 0 },
						Body: func(x *X) {
							c := newCtxSite(x, x.D[0], w)
							place, op := ctxPlaces[x.D[1]], ctxOps[x.D[2]]
							other := ""
							if x.D[3] > 0 {
								other = ctxOps[x.D[3]-1]
							}
							quietly(x, func() {
								c.connect("p1")
								c.connect("p2")
								if place != "connected" {
									c.connect("p0")
								}
							})
							tag := "m-p0"
							doOther := func() {
								if other != "" {
									c.peers["p1"].Feed(w.Inv(1, "o", "do", []any{other, "m-p1"}, nil))
								}
							}
							effect, answer := effectOf(op, tag), answerOf(op, "p0")
							switch place {
							case "method":
								c.peers["p0"].Feed(w.Inv(1, "i", "do", []any{op, tag}, nil))
								doOther()
							case "stream":
								c.peers["p0"].Feed(w.Inv(4, "i", "flow", []any{op, tag}, nil))
								doOther()
							case "goroutine":
								quietly(x, func() {
									c.peers["p0"].Feed(w.Inv(1, "i", "later", []any{op, tag}, nil))
									x.Idle()
								})
								close(c.r.gates["p0"])
								doOther()
							case "connected":
								c.r.at, c.r.who, c.r.op = "connected", "p0", op
								p := startPeer(x, c.s, "p0", w)
								c.peers["p0"] = p
								p.Feed(hsReq(w))
								doOther()
								effect = effectOf(op, "c-p0")
							case "disconnected":
								c.r.at, c.r.who, c.r.op = "disconnected", "p0", op
								c.peers["p0"].FeedErr(io.EOF)
								doOther()
								effect = ctxEffect{ended: true}
							}
							x.Settle(10 * time.Second)
							p := c.peers["p0"]
							if place == "disconnected" && op == "caller" {
								// it might still be possible to write to the connection
								if slices.ContainsFunc(p.Msgs(), func(m Msg) bool { return m.Target == "note" }) {
									effect.notes = []string{"d-p0"}
								}
							}
							if place == "connected" {
								if p.hsLen = len("{}\x1e"); !strings.HasPrefix(string(p.out), "{}\x1e") {
									x.Fail("handshake", "%q", p.out)
									return
								}
							}
							// the answer
							switch place {
							case "method", "stream":
								if effect.ended {
									break
								}
								typ, got := 3, []string{}
								if place == "stream" {
									typ = 2
								}
								for _, m := range NoPing(p.Msgs()) {
									if m.ID == "i" && m.Type == typ {
										v := m.Result
										if typ == 2 {
											v = m.Item
										}
										got = append(got, fmt.Sprint(v))
									}
								}
								if len(got) != 1 || got[0] != answer {
									x.Fail("answer", "%s says %q, want %q", op, got, answer)
								}
							default:
								if len(c.r.said) != 1 || c.r.said[0] != answer && !(place == "disconnected" && op == "ctx" && c.r.said[0] == "ended") {
									x.Fail("answer", "%s in %s says %q, want %q", op, place, c.r.said, answer)
								}
							}
							// debug logging is off
							logged := 0
							for _, t := range c.r.logs {
								if strings.HasSuffix(t, "p0") {
									logged++
								}
							}
							if op == "log" && logged != 1 || op != "log" && logged > 0 {
								x.Fail("log", "%s logged %v", op, c.r.logs)
							}
							x.Ev("%v %v %v", p.Served, len(p.Msgs()), c.r.said)
							quietly(x, func() {
								c.judge("p0", effect)
								oe := effectOf(other, "m-p1")
								c.judge("p1", oe)
								c.judge("p2", effectOf("", ""))
							})
						}},
					&Scenario{Name: "late/" + w.Name(), Dims: []int{3, len(ctxOps), 3}, Quick: 1, Full: 2, Body: func(x *X) {
						c := newCtxSite(x, x.D[0], w)
						op := ctxOps[x.D[1]]
						if x.D[2] == 1 && (op == "caller" || op == "join") {
							return // these address the connection by its id
						}
						var gate chan struct{}
						quietly(x, func() {
							c.connect("p1")
							p := c.connect("p0")
							p.Feed(w.Inv(1, "i", "later", []any{op, "late"}, nil))
							x.Idle()
							gate = c.r.gates["p0"]
							p.FeedErr(io.EOF)
							x.Settle(time.Second)
							if !p.Served || c.r.gone["p0"] != 1 {
								x.Fail("ended", "p0: %v %v", p.Served, c.r.gone)
							}
							delete(c.r.up, "p0")
							delete(c.r.gone, "p0")
							delete(c.peers, "p0")
							if x.D[2] == 1 {
								c.connect("p0")
							}
						})
						close(gate)
						if x.D[2] == 2 {
							c.peers["p1"].Feed(w.Inv(1, "o", "do", []any{"set", "m-p1"}, nil))
						}
						x.Settle(10 * time.Second)
						if len(c.r.said) != 1 || op == "ctx" && c.r.said[0] != "ended" {
							x.Fail("answer", "%s says %q after the end", op, c.r.said)
						}
						quietly(x, func() {
							if x.D[2] == 1 {
								c.judge("p0", effectOf("", ""))
							}
							if x.D[2] == 2 {
								c.judge("p1", effectOf("set", "m-p1"))
							} else {
								c.judge("p1", effectOf("", ""))
							}
						})
					}},
					// the context of a connection ends with it
					&Scenario{Name: "wait/" + w.Name(), Dims: []int{3, 6, 2}, Quick: 1, Full: 2, Body: func(x *X) {
						c := newCtxSite(x, x.D[0], w)
						quietly(x, func() {
							for i := 0; i < 3; i++ {
								id := fmt.Sprint("p", i)
								c.connect(id).Feed(w.Inv(1, "w", "wait", []any{id}, nil))
							}
							x.Idle()
						})
						if len(c.r.said) > 0 {
							x.Fail("context", "%v before the end", c.r.said)
						}
						p := c.peers["p0"]
						switch x.D[1] {
						case 0:
							p.FeedErr(io.EOF)
						case 1:
							p.FeedErr(errInjected)
						case 2:
							p.Feed(w.Close("", false))
						case 3:
							p.Conn.Close()
						case 4:
							p.Feed(w.Inv(1, "", "do", []any{"abort", ""}, nil))
						case 5:
							p.Feed([]byte("\x01\x1e"))
						}
						if x.D[2] == 1 {
							c.peers["p1"].Feed(w.Inv(1, "o", "do", []any{"set", "m-p1"}, nil))
						}
						x.Settle(10 * time.Second)
						if len(c.r.said) != 1 || c.r.said[0] != "waited p0" {
							x.Fail("context", "the connection has ended: %v", c.r.said)
						}
						quietly(x, func() {
							c.judge("p2", effectOf("", ""))
							if x.D[2] == 1 {
								c.judge("p1", effectOf("set", "m-p1"))
							} else {
								c.judge("p1", effectOf("", ""))
							}
						})
					}},
					// an operation that has to wait for its connection holds up no other connection.
					// Here all connections can have the same hub, whose context is the one of the connection of the last invocation
					&Scenario{Name: "stuck/" + w.Name(), Dims: []int{4, 3, len(ctxOps), len(ctxOps)}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[0] == 3 && d[1] != 2 && d[2] < 9 || (d[0]+d[1]+d[2]+d[3])%4 == 0 },
						Body: func(x *X) {
							c := newCtxSite(x, x.D[0], w)
							op, other := ctxOps[x.D[2]], ctxOps[x.D[3]]
							quietly(x, func() {
								c.connect("p1")
								p := c.connect("p0")
								switch x.D[1] {
								case 0:
									p.wblock = p.nwrite + 1
								case 1:
									p.wslow = 4 * time.Second
								case 2:
									p.wfail, p.werr = p.nwrite+1, errInjected
								}
								p.Feed(w.Inv(1, "i", "do", []any{op, "m-p0"}, nil))
								x.Idle()
							})
							p1 := c.peers["p1"]
							p1.Feed(w.Inv(1, "o", "do", []any{other, "m-p1"}, nil))
							x.Settle(100 * time.Millisecond)
							effect := effectOf(other, "m-p1")
							got := ""
							for _, m := range NoPing(p1.Msgs()) {
								if m.Type == 3 && m.ID == "o" {
									got += fmt.Sprint(m.Result, m.Error, ";")
								}
							}
							want := answerOf(other, "p1") + ";"
							if answerOf(other, "p1") == "" {
								want = "<nil>;"
								if got == ";" {
									got = want
								}
							}
							if !effect.ended && got != want {
								x.Fail("held-up", "%s of another connection answers %q, want %q, while %s waits for its connection", other, got, want, op)
							}
							p2 := c.connect("p2")
							if len(p2.out) == 0 {
								x.Fail("held-up", "no handshake")
							}
							x.Ev("%v", got)
							quietly(x, func() {
								c.judge("p1", effect)
								c.judge("p2", effectOf("", ""))
							})
						}},
				)
			}
			return out
		}})
}
