package main

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/philippseith/signalr"
)

// C10: broadcasts reach exactly the addressed connections.

type castHub struct {
	signalr.Hub
	r *castRec
}

type castRec struct {
	hubs         map[string]*castHub
	events       []string
	onConnect    func(h *castHub, id string)
	onDisconnect func(h *castHub, id string)
}

func (h *castHub) OnConnected(id string) {
	h.r.events = append(h.r.events, "+"+id)
	h.r.hubs[id] = h
	if h.r.onConnect != nil {
		h.r.onConnect(h, id)
	}
}
func (h *castHub) OnDisconnected(id string) {
	h.r.events = append(h.r.events, "-"+id)
	if h.r.onDisconnect != nil {
		h.r.onDisconnect(h, id)
	}
}
func (h *castHub) Add(g, id string)          { h.Groups().AddToGroup(g, id) }
func (h *castHub) Rem(g, id string)          { h.Groups().RemoveFromGroup(g, id) }
func (h *castHub) All(tok string)            { h.Clients().All().Send("t", tok) }
func (h *castHub) Me(tok string)             { h.Clients().Caller().Send("t", tok) }
func (h *castHub) One(id string, tok string) { h.Clients().Client(id).Send("t", tok) }
func (h *castHub) Grp(g string, tok string)  { h.Clients().Group(g).Send("t", tok) }
func (h *castHub) Val(a int) int             { return a * 10 }
func (h *castHub) Join(g string)             { h.Groups().AddToGroup(g, h.ConnectionID()) }
func (h *castHub) Two(tok string, tok2 string) {
	h.Clients().All().Send("t", tok, tok2)
	h.Clients().Caller().Send("t2")
}

func castServer(x *X, opts ...func(signalr.Party) error) (signalr.Server, *castRec) {
	r := &castRec{hubs: map[string]*castHub{}}
	s, _ := newServer(x, append([]func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &castHub{r: r} })}, opts...)...)
	return s, r
}

// tokens counts the invocations of t by token.
func tokens(x *X, p *Peer) map[string]int {
	out := map[string]int{}
	if p == nil {
		return out
	}
	for _, m := range NoPing(p.Msgs()) {
		if m.Type == 1 {
			if m.ID != "" || strings.ToLower(m.Target) != "t" && m.Target != "t2" || len(m.Args) > 2 {
				x.Fail("message", "%s got %v", p.id, m)
				continue
			}
			if m.Target == "t2" {
				out["t2"]++
				continue
			}
			s, ok := m.Args[0].(string)
			if !ok {
				x.Fail("message", "%s got %v", p.id, m)
			}
			out[s]++
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// castModel is the reference.
type castModel struct {
	conn   map[string]bool
	groups map[string]map[string]bool
}

func newCastModel() *castModel {
	return &castModel{map[string]bool{}, map[string]map[string]bool{"A": {}, "a": {}}}
}

var castIDs = []string{"p0", "p1", "p2"}

// castOps is the alphabet of histories.
var castOps = func() []string {
	var o []string
	for _, g := range []string{"A", "a"} {
		for _, id := range castIDs {
			o = append(o, "add "+g+" "+id, "rem "+g+" "+id)
		}
	}
	for _, id := range castIDs {
		o = append(o, "drop "+id)
	}
	return append(o, "conn p2", "sendall", "sendA", "addghost")
}()

type castRun struct {
	x     *X
	s     signalr.Server
	r     *castRec
	m     *castModel
	w     Wire
	peers map[string]*Peer
	old   []*Peer
	want  map[string]map[string]int // by connection object id
	n     int
}

func (c *castRun) connect(id string) {
	c.peers[id] = connectPeer(c.x, c.s, id, c.w)
	c.m.conn[id] = true
	c.want[id] = map[string]int{}
}

// sender is a connection that is up, or nil.
func (c *castRun) sender() *castHub {
	for _, id := range castIDs {
		if c.m.conn[id] {
			return c.r.hubs[id]
		}
	}
	return nil
}

func (c *castRun) expect(tok string, ids ...string) {
	for _, id := range ids {
		if c.m.conn[id] {
			c.want[id][tok]++
		}
	}
}

func (c *castRun) tok(what string) string { c.n++; return fmt.Sprint(what, c.n) }

func (c *castRun) members(g string) []string { return sortedKeys(c.m.groups[g]) }

func (c *castRun) do(op string) {
	f := strings.Fields(op)
	h := c.sender()
	switch f[0] {
	case "add":
		if h != nil {
			h.Add(f[1], f[2])
			if c.m.conn[f[2]] {
				c.m.groups[f[1]][f[2]] = true
			}
		}
	case "rem":
		if h != nil {
			h.Rem(f[1], f[2])
			delete(c.m.groups[f[1]], f[2])
		}
	case "drop":
		if c.m.conn[f[1]] {
			c.check()
			c.peers[f[1]].Close()
			c.x.Idle()
			c.old = append(c.old, c.peers[f[1]])
			c.m.conn[f[1]] = false
			for _, g := range c.m.groups {
				delete(g, f[1])
			}
		}
	case "conn":
		if !c.m.conn[f[1]] {
			c.connect(f[1])
		}
	case "sendall":
		t := c.tok("all")
		c.s.HubClients().All().Send("t", t)
		c.expect(t, castIDs...)
	case "sendA":
		t := c.tok("grp")
		c.s.HubClients().Group("A").Send("t", t)
		c.expect(t, c.members("A")...)
	case "addghost":
		if h != nil {
			h.Add("A", "ghost")
		}
	}
	c.x.Idle()
}

func (c *castRun) check() {
	c.x.Idle()
	for _, id := range castIDs {
		if c.m.conn[id] {
			got := tokens(c.x, c.peers[id])
			if fmt.Sprint(got) != fmt.Sprint(c.want[id]) {
				c.x.Fail("delivery", "%s got %v, want %v (groups %v)", id, got, c.want[id], c.m.groups)
			}
			if c.peers[id].Served {
				c.x.Fail("dead", "%s ended: %v", id, c.peers[id].ServeErr)
			}
		}
	}
}

// probe sends one message of each kind.
func (c *castRun) probe() {
	h := c.sender()
	if h == nil {
		return
	}
	var ups []string
	for _, id := range castIDs {
		if c.m.conn[id] {
			ups = append(ups, id)
		}
	}
	for i, id := range ups {
		// through the wire
		p := c.peers[id]
		t := c.tok("all")
		p.Feed(c.w.Inv(1, "", "all", []any{t}, nil))
		c.expect(t, castIDs...)
		t = c.tok("me")
		p.Feed(c.w.Inv(1, "", "me", []any{t}, nil))
		c.expect(t, id)
		t = c.tok("one")
		o := castIDs[(i+1)%3]
		p.Feed(c.w.Inv(1, "", "one", []any{o, t}, nil))
		c.expect(t, o)
	}
	for _, g := range []string{"A", "a"} {
		t := c.tok("grp")
		h.Grp(g, t)
		c.expect(t, c.members(g)...)
	}
	h.Grp("nogroup", "x1")
	h.Grp("", "x1")
	h.One("ghost", "x2")
	h.One("", "x2")
	for _, id := range castIDs {
		t := c.tok("ext")
		c.s.HubClients().Client(id).Send("t", t)
		c.expect(t, id)
	}
	if c.s.HubClients().Caller() != nil {
		c.x.Fail("caller", "HubClients().Caller() is not nil")
	}
	c.check()
}

func castStart(x *X, w Wire, n int) *castRun {
	s, r := castServer(x)
	c := &castRun{x: x, s: s, r: r, m: newCastModel(), w: w, peers: map[string]*Peer{}, want: map[string]map[string]int{}}
	for _, id := range castIDs[:n] {
		c.connect(id)
	}
	return c
}

func castHistory(w Wire, name string, n, full int, thoroughOnly bool) *Scenario {
	dims := make([]int, n)
	for i := range dims {
		dims[i] = len(castOps)
	}
	return &Scenario{Name: name + "/" + w.Name(), Dims: dims, Quick: 0, Full: full, NoPoints: true, OnlyFull: thoroughOnly,
		Body: func(x *X) {
			c := castStart(x, w, 3)
			for _, o := range x.D {
				c.do(castOps[o])
			}
			c.probe()
			x.Ev("%v", c.want)
		}}
}

func init() {
	register(&Property{ID: "C10", Title: "broadcasts",
		Rule: "history: every sequence of the given length over 19 operations (add/remove each of three connections to two groups, disconnect, reconnect with the same id, broadcasts, unknown ids), compared with a reference model of membership after each, " +
			"followed by one broadcast of every kind from every connection and from outside; concurrent: a broadcast while members are added, removed, disconnected or connected, all schedules with bounded deviations; slow: members whose writes block or fail; crowd: up to 40 connections in up to 80 groups.",
		Scenarios: func() []*Scenario {
			var out []*Scenario
			js, mp := wires[0], wires[1]
			out = append(out, castHistory(js, "history2", 2, 0, false), castHistory(mp, "history2", 2, 0, false),
				castHistory(js, "history3", 3, 0, false), castHistory(mp, "history3", 3, 0, true), castHistory(js, "history4", 4, 0, true))
			for _, w := range wires {
				w := w
				out = append(out,
					castCrowd(w),
					// kind of broadcast x concurrent operation x other concurrent operation
					&Scenario{Name: "concurrent/" + w.Name(), Dims: []int{4, 6, 6}, Quick: 1, Full: 2,
						QuickCase: func(d []int) bool { return d[1] <= d[2] },
						Body: func(x *X) {
							c := castStart(x, w, 2)
							// p0 is a member of A all the time, p1 of B
							h := c.r.hubs["p0"]
							h.Add("A", "p0")
							h.Add("a", "p1")
							maybe := map[string]bool{}
							var newPeer *Peer
							ops := make(chan int, 3)
							run := func(k int) {
								switch k {
								case 0:
								case 1: // p1 joins A
									maybe["p1"] = true
									go h.Add("A", "p1")
								case 2: // p1 leaves B
									maybe["p1"] = true
									go h.Rem("a", "p1")
								case 3: // p1 ends
									maybe["p1"] = true
									go c.peers["p1"].Close()
								case 4: // p2 comes and joins A
									if newPeer == nil {
										maybe["p2"] = true
										c.r.onConnect = func(h *castHub, id string) { h.Add("A", id) }
										newPeer = startPeer(x, c.s, "p2", w)
										newPeer.Feed(hsReq(w))
									}
								case 5: // another broadcast
									go h.Clients().Group("a").Send("t", "other")
								}
							}
							_ = ops
							kind := x.D[0]
							go func() {
								switch kind {
								case 0:
									h.Clients().All().Send("t", "x")
								case 1:
									h.Clients().Group("A").Send("t", "x")
								case 2:
									c.s.HubClients().Group("a").Send("t", "x")
								case 3:
									c.s.HubClients().Client("p0").Send("t", "x")
								}
							}()
							run(x.D[1])
							run(x.D[2])
							x.Idle()
							if newPeer != nil {
								newPeer.hsLen = len("{}\x1e")
								c.peers["p2"] = newPeer
							}
							always := map[string]bool{}
							could := map[string]bool{}
							switch kind {
							case 0:
								always["p0"], could["p0"] = true, true
								could["p1"], could["p2"] = true, true
								if x.D[1] != 3 && x.D[2] != 3 {
									always["p1"] = true
								}
							case 1:
								always["p0"], could["p0"] = true, true
								could["p1"] = x.D[1] == 1 || x.D[2] == 1
								could["p2"] = maybe["p2"]
							case 2:
								could["p1"] = true
								always["p1"] = x.D[1] != 2 && x.D[2] != 2 && x.D[1] != 3 && x.D[2] != 3
							case 3:
								always["p0"], could["p0"] = true, true
							}
							var evs []string
							for _, id := range castIDs {
								p := c.peers[id]
								if p == nil {
									continue
								}
								got := tokens(x, p)["x"]
								evs = append(evs, fmt.Sprint(id, got))
								if got > 1 {
									x.Fail("twice", "%s got the message %d times", id, got)
								}
								if always[id] && got != 1 {
									x.Fail("missing", "%s got nothing", id)
								}
								if !could[id] && got > 0 {
									x.Fail("leak", "%s got the message", id)
								}
							}
							// afterwards the membership is settled
							c.m.conn["p2"] = newPeer != nil
							if x.D[1] == 3 || x.D[2] == 3 {
								c.m.conn["p1"] = false
							}
							c.m.groups["A"]["p0"] = true
							if c.m.conn["p2"] {
								c.m.groups["A"]["p2"] = true
							}
							if (x.D[1] == 1 || x.D[2] == 1) && c.m.conn["p1"] {
								c.m.groups["A"]["p1"] = true
							}
							if x.D[1] != 2 && x.D[2] != 2 && c.m.conn["p1"] {
								c.m.groups["a"]["p1"] = true
							}
							for id, p := range c.peers {
								c.want[id] = tokens(x, p)
							}
							quietly(x, c.probe)
							x.Ev("%v", evs)
						}},
					// two goroutines changing membership of the same and of different groups and connections
					&Scenario{Name: "membership/" + w.Name(), Dims: []int{4, 4, 4}, Quick: 1, Full: 2,
						Body: func(x *X) {
							c := castStart(x, w, 3)
							h := c.r.hubs["p0"]
							groups := []string{"A", "a"}
							h.Add("A", "p1")
							c.m.groups["A"]["p1"] = true
							uncertain := map[string]bool{}
							for i, k := range x.D {
								g, id := groups[k%2], castIDs[i]
								if k < 2 {
									go h.Add(g, id)
									c.m.groups[g][id] = true
								} else {
									go h.Rem(g, id)
									delete(c.m.groups[g], id)
								}
							}
							_ = uncertain
							x.Idle()
							quietly(x, c.probe)
							x.Ev("%v", c.want)
						}},
					// a member leaves by its end, which happens at the same time as other changes of the groups
					&Scenario{Name: "leaving/" + w.Name(), Dims: []int{3, 5, 5}, Quick: 1, Full: 2,
						Body: func(x *X) {
							c := castStart(x, w, 3)
							h := c.r.hubs["p0"]
							h.Add("A", "p1")
							c.m.groups["A"]["p1"] = true
							if x.D[0] == 1 {
								h.Add("A", "p2")
								c.m.groups["A"]["p2"] = true
							}
							if x.D[0] == 2 {
								h.Add("a", "p1")
							}
							go c.peers["p1"].FeedErr(io.EOF)
							for i, id := range []string{"p0", "p2"} {
								switch x.D[1+i] {
								case 0:
									go h.Add("A", id)
									c.m.groups["A"][id] = true
								case 1:
									go h.Add("a", id)
									c.m.groups["a"][id] = true
								case 2:
									go h.Rem("A", id)
									delete(c.m.groups["A"], id)
								case 3:
									go func() {
										h.Add("A", id)
										h.Add("a", id)
									}()
									c.m.groups["A"][id], c.m.groups["a"][id] = true, true
								}
							}
							x.Idle()
							c.m.conn["p1"] = false
							for _, g := range c.m.groups {
								delete(g, "p1")
							}
							quietly(x, c.probe)
							x.Ev("%v", c.want)
						}},
					// members whose transport blocks or fails: kind of trouble, kind of broadcast, position
					&Scenario{Name: "slow/" + w.Name(), Dims: []int{3, 3, 3}, Quick: 1, Full: 2,
						Body: func(x *X) {
							c := castStart(x, w, 3)
							for _, id := range castIDs {
								c.r.hubs["p0"].Add("A", id)
								c.m.groups["A"][id] = true
							}
							bad := castIDs[x.D[2]]
							switch x.D[0] {
							case 0:
								c.peers[bad].wblock = 2
							case 1:
								c.peers[bad].wfail, c.peers[bad].werr = 2, errInjected
							case 2:
								c.peers[bad].wfail, c.peers[bad].werr, c.peers[bad].wpartial = 2, errInjected, true
							}
							for i := 0; i < 3; i++ {
								t := fmt.Sprint("x", i)
								switch x.D[1] {
								case 0:
									c.s.HubClients().All().Send("t", t)
								case 1:
									c.s.HubClients().Group("A").Send("t", t)
								case 2:
									for _, id := range castIDs {
										c.s.HubClients().Client(id).Send("t", t)
									}
								}
								x.Idle()
							}
							for _, id := range castIDs {
								if id == bad {
									continue
								}
								got := tokens(x, c.peers[id])
								if len(got) != 3 || got["x0"] != 1 || got["x1"] != 1 || got["x2"] != 1 {
									x.Fail("held-up", "%s got %v while %s is in trouble", id, got, bad)
								}
							}
							if x.D[0] > 0 {
								x.Settle(time.Second)
								if !c.peers[bad].Served {
									x.Fail("zombie", "%s is still served after a write error", bad)
								}
							}
							x.Ev("%v", c.peers[bad].nwrite)
						}},
				)
			}
			return out
		}})
}
