package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

// C21: negotiation.

type webRec struct {
	connected    []string
	disconnected []string
}

type webHub struct {
	signalr.Hub
	r *webRec
}

func (h *webHub) OnConnected(id string)    { h.r.connected = append(h.r.connected, id) }
func (h *webHub) OnDisconnected(id string) { h.r.disconnected = append(h.r.disconnected, id) }
func (h *webHub) Who() string              { return h.ConnectionID() }
func (h *webHub) Echo(s string) string     { return s }
func (h *webHub) Quit()                    { h.Abort() }

const ttl = 10 * time.Second

func webServer(x *X, opts ...func(signalr.Party) error) (*web, *webRec) {
	r := &webRec{}
	m := newWeb(x, append([]func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &webHub{r: r} }),
		signalr.HandshakeTimeout(ttl), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30 * time.Minute)}, opts...)...)
	return m, r
}

// link is the client's side of a HTTP connection.
type link struct {
	m      *web
	e      *exchange // sse
	key    string
	ws     *websocket.Conn
	wsErr  error
	dialed bool
	closed bool // the websocket has been closed by the server
	got    []byte
	refuse int // status of the refused request
}

// openSSE starts a connection.
func (m *web) openSSE(key string) *link { return &link{m: m, key: key, e: m.sse(key)} }

// openWS starts a connection.
func (m *web) openWS(key string) *link {
	l := &link{m: m, key: key}
	go func() {
		u := "ws://h" + m.path
		if key != "" {
			u += "?id=" + url.QueryEscape(key)
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		ws, _, err := websocket.Dial(ctx, u, &websocket.DialOptions{HTTPClient: m.client()})
		l.dialed = true
		if err != nil {
			l.wsErr = err
			return
		}
		l.ws = ws
		ws.SetReadLimit(-1)
		m.x.Cleanup(func() { _ = ws.CloseNow() })
		for {
			_, data, err := ws.Read(context.Background())
			if err != nil {
				l.wsErr = err
				l.closed = true
				return
			}
			l.got = append(l.got, data...)
		}
	}()
	return l
}

// refused returns the status a connection was refused with, or 0.
func (l *link) refused() int {
	if l.e != nil {
		if l.e.status != 200 {
			return l.e.status
		}
		return 0
	}
	if l.ws == nil {
		return -1
	}
	var ce websocket.CloseError
	if errors.As(l.wsErr, &ce) && ce.Code == 1002 {
		return int(ce.Code)
	}
	return 0
}

// send sends to the server and waits until it has arrived.
func (l *link) send(b string) int {
	if l.e != nil {
		p := l.m.post(l.key, b)
		l.m.x.Settle(time.Second)
		if !p.done {
			return -1
		}
		return p.status
	}
	if l.ws == nil {
		return -1
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	if err := l.ws.Write(ctx, websocket.MessageText, []byte(b)); err != nil {
		return -1
	}
	l.m.x.Settle(time.Second)
	return 200
}

// received is what has come from the server.
func (l *link) received() string {
	if l.e != nil {
		return parseSSE(string(l.e.body))
	}
	return string(l.got)
}

// parseSSE returns the data of all complete events.
func parseSSE(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	var out strings.Builder
	var data []string
	lines := strings.Split(s, "\n")
	for _, l := range lines[:len(lines)-1] {
		if l == "" {
			out.WriteString(strings.Join(data, "\n"))
			data = nil
			continue
		}
		field, value, _ := strings.Cut(l, ":")
		if field == "data" {
			data = append(data, strings.TrimPrefix(value, " "))
		}
	}
	return out.String()
}

// ended tells if the server has ended the connection.
func (l *link) ended() bool {
	if l.e != nil {
		return l.e.done
	}
	return l.closed || l.ws == nil
}

func (l *link) hangup() {
	if l.e != nil {
		l.e.cancel()
	} else if l.ws != nil {
		_ = l.ws.CloseNow()
	}
}

const hsJSON = "{\"protocol\":\"json\",\"version\":1}\x1e"

// handshake does the SignalR handshake.
func (l *link) handshake(x *X) bool {
	before := l.received()
	if st := l.send(hsJSON); st != 200 {
		x.Fail("handshake", "handshake answered with %d", st)
		return false
	}
	if got := l.received(); got != before+"{}\x1e" {
		x.Fail("handshake", "handshake answered with %q", got)
		return false
	}
	return true
}

// who asks the hub for the connection id.
func (l *link) who(x *X) string {
	before := l.received()
	if st := l.send(`{"type":1,"invocationId":"w","target":"who","arguments":[]}` + "\x1e"); st != 200 {
		x.Fail("dead", "message answered with %d", st)
		return ""
	}
	ms, _, err := wireOf("json").Parse([]byte(strings.TrimPrefix(l.received(), before)))
	if err != nil || len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != "w" {
		x.Fail("dead", "invocation answered with %v %v", ms, err)
		return ""
	}
	return fmt.Sprint(ms[0].Result)
}

const (
	slotPending = iota
	slotActive
	slotEnded
)

type slot struct {
	id, key string
	state   int
	age     time.Duration
	l       *link
	ws      bool
}

// may returns if the slot may be pending, and if it must be.
func (s *slot) pending() (may, must bool) {
	if s.state != slotPending {
		return false, false
	}
	return s.age <= 2*ttl, s.age < ttl
}

const (
	opNeg0 = iota
	opNeg1
	opSSELast
	opSSEFirst
	opWSLast
	opWSFirst
	opForeign
	opPost
	opHangup
	opCloseMsg
	opWait
	opWaitLong
	opWSDirect
	numWebOps
)

var webOpNames = []string{"negotiate", "negotiate v1", "sse newest", "sse oldest", "ws newest", "ws oldest", "foreign id", "post", "hang up", "close message", "wait", "wait long", "ws without id"}

// webSequence does a sequence of operations and compares all outcomes with the reference.
func webSequence(x *X, limit int, ops []int) {
	m, r := webServer(x, signalr.MaxNegotiationConnections(limit))
	var slots []*slot
	var trace []string
	seen := map[string]bool{}
	elapse := func(d time.Duration) {
		for _, s := range slots {
			s.age += d
		}
	}
	fail := func(tag, format string, args ...any) {
		x.Fail(tag, "%v: %s", trace, fmt.Sprintf(format, args...))
	}
	accept := func(s *slot, l *link, ws bool) {
		s.state, s.l, s.ws = slotActive, l, ws
		l.handshake(x)
		elapse(time.Second)
	}
	for _, op := range ops {
		trace = append(trace, webOpNames[op])
		var newest, oldest *slot
		if len(slots) > 0 {
			newest, oldest = slots[len(slots)-1], slots[0]
		}
		switch op {
		case opNeg0, opNeg1:
			n, status := m.negotiate([]string{"", "?negotiateVersion=1"}[op])
			may, must := 0, 0
			for _, s := range slots {
				a, b := s.pending()
				if a {
					may++
				}
				if b {
					must++
				}
			}
			if status == 200 {
				if limit > 0 && must >= limit {
					fail("limit", "%d negotiations are pending, limit %d, but another one was accepted", must, limit)
				}
				key := n.ConnectionID
				if op == opNeg1 {
					key = n.ConnectionToken
				}
				if n.ConnectionID == "" || key == "" || seen[n.ConnectionID] || seen[key] || op == opNeg1 && key == n.ConnectionID || n.NegotiateVersion != op {
					fail("response", "response %v", n)
				}
				seen[n.ConnectionID], seen[key] = true, true
				slots = append(slots, &slot{id: n.ConnectionID, key: key})
			} else {
				if status != 429 {
					fail("status", "negotiate: %d", status)
				}
				if limit == 0 || may < limit {
					fail("limit", "%d negotiations are pending, limit %d, but another one was refused", may, limit)
				}
			}
		case opSSELast, opSSEFirst, opWSLast, opWSFirst:
			s := newest
			if op == opSSEFirst || op == opWSFirst {
				s = oldest
				if oldest == newest {
					continue
				}
			}
			if s == nil {
				continue
			}
			ws := op == opWSLast || op == opWSFirst
			var l *link
			if ws {
				l = m.openWS(s.key)
			} else {
				l = m.openSSE(s.key)
			}
			x.Idle()
			st := l.refused()
			may, must := s.pending()
			switch {
			case st == 0:
				if !may {
					fail("accepted", "a key was accepted in state %d (age %v)", s.state, s.age)
				}
				accept(s, l, ws)
			case must:
				fail("refused", "a pending key was refused with %d", st)
			case ws:
				if st != 1002 {
					fail("status", "websocket: %d", st)
				}
			case s.state == slotActive:
				if st != 409 {
					fail("status", "used key: %d", st)
				}
			default:
				if st != 404 {
					fail("status", "forgotten key: %d", st)
				}
				if may {
					s.state = slotEnded
				}
			}
		case opForeign:
			key := "nobody"
			if newest != nil && newest.id != newest.key {
				key = newest.id
			}
			a, b := m.openSSE(key), m.openWS(key)
			c := m.post(key, hsJSON)
			x.Idle()
			if a.refused() != 404 || b.refused() != 1002 || !c.done || c.status != 404 {
				fail("foreign", "id %q: %d %d %d", key, a.refused(), b.refused(), c.status)
			}
		case opPost:
			if newest == nil {
				continue
			}
			p := m.post(newest.key, "{\"type\":6}\x1e")
			may, must := newest.pending()
			x.Settle(ttl + time.Second)
			elapse(ttl + time.Second)
			st := p.status
			if !p.done {
				fail("post", "not answered")
			}
			switch {
			case newest.state == slotActive && newest.ws:
				if st != 409 {
					fail("status", "post to a websocket: %d", st)
				}
			case newest.state == slotActive:
				if st != 200 {
					fail("status", "post: %d", st)
				}
			case must || may:
				if st != 425 && st != 404 {
					fail("status", "post to a pending connection: %d", st)
				}
				if must && newest.age < 2*ttl-time.Second && st == 404 && newest.age < ttl {
					fail("status", "post to a pending connection: %d", st)
				}
			default:
				if st != 404 {
					fail("status", "post to a forgotten connection: %d", st)
				}
			}
		case opHangup, opCloseMsg:
			var s *slot
			for _, t := range slots {
				if t.state == slotActive {
					s = t
				}
			}
			if s == nil {
				continue
			}
			if op == opHangup {
				s.l.hangup()
				x.Settle(time.Second)
			} else {
				s.l.send("{\"type\":7}\x1e")
				x.Settle(time.Second)
				if !s.l.ended() {
					fail("open", "the connection stays open after a close message")
				}
			}
			elapse(2 * time.Second)
			s.state = slotEnded
		case opWait:
			x.Settle(6 * time.Second)
			elapse(6 * time.Second)
		case opWaitLong:
			x.Settle(3 * ttl)
			elapse(3 * ttl)
		case opWSDirect:
			l := m.openWS("")
			x.Idle()
			if st := l.refused(); st != 0 {
				fail("direct", "refused with %d", st)
				continue
			}
			// the id is not known
			l.handshake(x)
			elapse(time.Second)
			id := l.who(x)
			elapse(time.Second)
			if id == "" || seen[id] {
				fail("direct", "id %q", id)
			}
			seen[id] = true
			slots = append(slots, &slot{id: id, key: id, state: slotActive, l: l, ws: true})
		}
	}
	// everybody is who he is, and the hub has been told exactly about these
	var active, ended []string
	for _, s := range slots {
		if s.l == nil {
			continue
		}
		active = append(active, s.id)
		if s.state == slotActive {
			if id := s.l.who(x); id != s.id {
				fail("identity", "connection %q is %q", s.id, id)
			}
		} else {
			ended = append(ended, s.id)
		}
	}
	if !sameSet(r.connected, active) || !sameSet(r.disconnected, ended) {
		fail("hub", "connected %d, want %d; disconnected %d, want %d", len(r.connected), len(active), len(r.disconnected), len(ended))
	}
	for _, s := range slots {
		if s.state == slotActive {
			s.l.hangup()
		}
	}
	x.Settle(3 * ttl)
	// nothing is left
	for _, s := range slots {
		l := m.openSSE(s.key)
		p := m.post(s.key, "{\"type\":6}\x1e")
		x.Idle()
		if l.refused() != 404 || !p.done || p.status != 404 {
			fail("left", "after the end: %d %d", l.refused(), p.status)
		}
	}
	m.cancel()
	x.Settle(time.Minute)
	for _, e := range m.all {
		if !e.done {
			fail("handler", "%s %s has not returned", e.method, e.url)
		}
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, s := range a {
		n[s]++
	}
	for _, s := range b {
		n[s]--
	}
	for _, c := range n {
		if c != 0 {
			return false
		}
	}
	return true
}

func init() {
	register(&Property{ID: "C21", Title: "negotiation",
		Rule: "versions: versions asked for in the query and by a header; upgrade: the header fields of a websocket request in 18 forms; sequence: all sequences of four (thorough: five) of 13 operations (negotiate with both versions, connect by server sent events or websocket with the newest or oldest key, with a foreign id or without one, post, hang up, close message, two waits) with limits 0, 1 and 2, every outcome compared with a reference; race: two connects, connect and post, connect and expiry, two negotiations at the limit, connect and end concurrently, all schedules with bounded deviations; limits, transports and bad requests.",
		Scenarios: func() []*Scenario {
			seq := func(x *X) {
				ops := append([]int{x.D[1] % 2}, x.D[2:]...)
				if x.D[1] == 2 {
					ops[0] = opWSDirect
				}
				webSequence(x, x.D[0], ops)
			}
			return []*Scenario{
				{Name: "sequence4", Dims: []int{3, 3, numWebOps, numWebOps, numWebOps}, Quick: 0, Full: 0, NoPoints: true, Body: seq},
				{Name: "sequence5", Dims: []int{3, 3, numWebOps, numWebOps, numWebOps, numWebOps}, OnlyFull: true, Full: 0, NoPoints: true, Body: seq},
				{Name: "sequence6", Dims: []int{3, 3, numWebOps, numWebOps, numWebOps, numWebOps, numWebOps}, OnlyFull: true, Full: 0, NoPoints: true, Body: seq},
				{Name: "race-connect", Dims: []int{3, 2}, Quick: 2, Full: 3, Body: func(x *X) {
					m, r := webServer(x)
					n, _ := m.negotiate([]string{"", "?negotiateVersion=1"}[x.D[1]])
					key := n.ConnectionID
					if x.D[1] == 1 {
						key = n.ConnectionToken
					}
					open := func(ws bool) *link {
						if ws {
							return m.openWS(key)
						}
						return m.openSSE(key)
					}
					ls := []*link{open(x.D[0] > 0), open(x.D[0] > 1)}
					x.Idle()
					won := 0
					for _, l := range ls {
						switch st := l.refused(); st {
						case 0:
							won++
							if l.handshake(x) {
								if id := l.who(x); id != n.ConnectionID {
									x.Fail("identity", "%q, want %q", id, n.ConnectionID)
								}
							}
						case 409, 1002:
						default:
							x.Fail("status", "refused with %d", st)
						}
					}
					if won != 1 || len(r.connected) != 1 {
						x.Fail("twice", "one key opened %d connections", won)
					}
				}},
				{Name: "race-post", Dims: []int{2, 2}, Quick: 2, Full: 3, Body: func(x *X) {
					m, _ := webServer(x)
					n, _ := m.negotiate([]string{"", "?negotiateVersion=1"}[x.D[1]])
					key := n.ConnectionID
					if x.D[1] == 1 {
						key = n.ConnectionToken
					}
					var p *exchange
					var l *link
					if x.D[0] == 0 {
						p = m.post(key, hsJSON)
						l = m.openSSE(key)
					} else {
						l = m.openSSE(key)
						p = m.post(key, hsJSON)
					}
					x.Settle(time.Second)
					if l.refused() != 0 || !p.done || p.status != 200 || l.received() != "{}\x1e" {
						x.Fail("post", "%d %d %q", l.refused(), p.status, l.received())
					}
					if id := l.who(x); id != n.ConnectionID {
						x.Fail("identity", "%q, want %q", id, n.ConnectionID)
					}
				}},
				{Name: "race-limit", Dims: []int{2, 3}, Quick: 2, Full: 3, Body: func(x *X) {
					limit := 1 + x.D[0]
					m, _ := webServer(x, signalr.MaxNegotiationConnections(limit))
					var es []*exchange
					for i := 0; i < limit+1; i++ {
						es = append(es, m.start("POST", "/hub/negotiate?negotiateVersion="+fmt.Sprint(x.D[1]%2), nil, nil))
					}
					x.Idle()
					ok := 0
					ids := map[string]bool{}
					for _, e := range es {
						n, st := e.negotiated()
						if st == 200 {
							ok++
							ids[n.ConnectionID] = true
						} else if st != 429 {
							x.Fail("status", "%d", st)
						}
					}
					if ok != limit || len(ids) != limit {
						x.Fail("limit", "limit %d, accepted %d with %d ids", limit, ok, len(ids))
					}
				}},
				{Name: "race-expiry", Dims: []int{2, 2, 3}, Quick: 2, Full: 3, Body: func(x *X) {
					m, r := webServer(x)
					time.Sleep(time.Second)
					n, _ := m.negotiate([]string{"", "?negotiateVersion=1"}[x.D[1]])
					key := n.ConnectionID
					if x.D[1] == 1 {
						key = n.ConnectionToken
					}
					// the reaper runs now
					time.Sleep(2*ttl - time.Second + []time.Duration{-1, 0, 1}[x.D[2]])
					var l *link
					if x.D[0] == 0 {
						l = m.openSSE(key)
					} else {
						l = m.openWS(key)
					}
					x.Settle(time.Millisecond)
					if st := l.refused(); st != 0 {
						if st != 404 && st != 1002 || x.D[2] == 0 {
							x.Fail("status", "refused with %d", st)
						}
						if len(r.connected) > 0 {
							x.Fail("hub", "connected %v", r.connected)
						}
						return
					}
					if x.D[2] == 2 {
						x.Fail("expired", "an expired negotiation was accepted")
					}
					if l.handshake(x) {
						if id := l.who(x); id != n.ConnectionID {
							x.Fail("identity", "%q, want %q", id, n.ConnectionID)
						}
					}
					if k := m.openSSE(key); true {
						x.Settle(time.Millisecond)
						if k.refused() != 409 {
							x.Fail("twice", "second connect: %d", k.refused())
						}
					}
				}},
				// every age at which a negotiated connection can be opened
				{Name: "expiry", Dims: []int{20, 51, 2, 2}, Quick: 0, Full: 0, QuickCase: func(d []int) bool { return d[0]%3 == 0 }, Body: func(x *X) {
					m, r := webServer(x)
					time.Sleep(time.Duration(x.D[0]) * time.Second)
					n, _ := m.negotiate([]string{"", "?negotiateVersion=1"}[x.D[3]])
					key := n.ConnectionID
					if x.D[3] == 1 {
						key = n.ConnectionToken
					}
					age := time.Duration(x.D[1]) * time.Second / 2
					time.Sleep(age)
					var l *link
					if x.D[2] == 0 {
						l = m.openSSE(key)
					} else {
						l = m.openWS(key)
					}
					x.Settle(time.Millisecond)
					st := l.refused()
					if st != 0 && st != 404 && st != 1002 {
						x.Fail("status", "refused with %d", st)
					}
					if st == 0 && age > 2*ttl {
						x.Fail("expired", "a negotiation which is %v old was accepted", age)
					}
					if st != 0 && age < ttl {
						x.Fail("early", "a negotiation which is %v old was refused with %d", age, st)
					}
					if st != 0 {
						if len(r.connected) > 0 {
							x.Fail("hub", "connected %v", r.connected)
						}
					} else if l.handshake(x); l.who(x) != n.ConnectionID {
						x.Fail("identity", "want %q", n.ConnectionID)
					}
				}},
				{Name: "race-end", Dims: []int{2, 2, 2}, Quick: 2, Full: 3, Body: func(x *X) {
					m, r := webServer(x)
					n, _ := m.negotiate("")
					key := n.ConnectionID
					var l *link
					if x.D[0] == 0 {
						l = m.openSSE(key)
					} else {
						l = m.openWS(key)
					}
					x.Idle()
					l.handshake(x)
					var closing *exchange
					if x.D[1] == 0 {
						l.hangup()
					} else if x.D[0] == 0 {
						closing = m.post(key, "{\"type\":7}\x1e")
					} else {
						go func() { _ = l.ws.Write(context.Background(), websocket.MessageText, []byte("{\"type\":7}\x1e")) }()
					}
					var k *link
					if x.D[2] == 0 {
						k = m.openSSE(key)
					} else {
						k = m.openWS(key)
					}
					p := m.post(key, "{\"type\":6}\x1e")
					x.Settle(10 * time.Second)
					if closing != nil && closing.status == 409 {
						// the other POST was first
						m.post(key, "{\"type\":7}\x1e")
						x.Settle(10 * time.Second)
					}
					if st := k.refused(); st != 404 && st != 409 && st != 1002 {
						x.Fail("twice", "connect with the id of an ending connection: %d", st)
					}
					if !p.done || p.status != 404 && p.status != 409 && p.status != 410 && p.status != 200 && p.status != 500 {
						x.Fail("status", "post to an ending connection: %d", p.status)
					}
					k = m.openSSE(key)
					x.Idle()
					if k.refused() != 404 || len(r.connected) != 1 || len(r.disconnected) != 1 {
						x.Fail("left", "%d %v %v", k.refused(), r.connected, r.disconnected)
					}
				}},
				// the version can be asked for in the query or by a header
				{Name: "versions", Dims: []int{8, 6, 2}, Quick: 0, Full: 0, Body: func(x *X) {
					m, r := webServer(x)
					vals := []string{"", "0", "1", "2", "-1", "x", "99999999999999999999", "-"}
					asked := []int{0, 0, 1, 1, 0, 0, 0, 0}
					q, h := x.D[0], x.D[1]
					if h == 5 {
						h = 7
					}
					query, hdr := "?negotiateVersion="+vals[q], http.Header{}
					if q == 7 {
						query = "?other=1"
					}
					if h != 7 {
						hdr.Set("negotiateVersion", vals[h])
					}
					n, st := m.negotiateWith(query, hdr)
					if st != 200 {
						x.Fail("status", "%d", st)
						return
					}
					v := n.NegotiateVersion
					switch {
					case q == 7 && v != asked[h], h == 7 && v != asked[q], q == h && v != asked[q], v != asked[q] && v != asked[h]:
						x.Fail("version", "version %q asked for in the query, %q in the header: %v", vals[q], vals[h], n)
					case (n.ConnectionToken != "") != (v == 1), n.ConnectionID == "", n.ConnectionToken == n.ConnectionID:
						x.Fail("version", "%v", n)
					}
					key, other := n.ConnectionID, "nobody"
					if v == 1 {
						key, other = n.ConnectionToken, n.ConnectionID
					}
					open := m.openSSE
					if x.D[2] == 1 {
						open = m.openWS
					}
					l := open(other)
					x.Idle()
					if l.refused() == 0 {
						x.Fail("foreign", "%q opens the connection %v", other, n)
					}
					l = open(key)
					x.Idle()
					if l.refused() != 0 {
						x.Fail("refused", "%d %v", l.refused(), n)
					} else if l.handshake(x); l.who(x) != n.ConnectionID || len(r.connected) != 1 {
						x.Fail("identity", "%v %v", r.connected, n)
					}
					x.Ev("%v", v)
				}},
				// the header fields of an upgrade are lists of tokens, in any case
				{Name: "upgrade", Dims: []int{7, 3, 2, 2}, Quick: 0, Full: 0, Body: func(x *X) {
					m, r := webServer(x)
					n, _ := m.negotiate([]string{"", "?negotiateVersion=1"}[x.D[3]])
					key := n.ConnectionID
					if x.D[3] == 1 {
						key = n.ConnectionToken
					}
					hdr := http.Header{"Connection": {[]string{"Upgrade", "upgrade", "keep-alive, Upgrade", "keep-alive,Upgrade", "Upgrade, keep-alive", "UPGRADE , x", "close"}[x.D[0]]},
						"Upgrade": {[]string{"websocket", "WebSocket", "WEBSOCKET"}[x.D[1]]}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}
					if x.D[2] == 1 {
						hdr.Set("Accept", "text/event-stream")
					}
					e := m.start("GET", m.path+"?id="+url.QueryEscape(key), hdr, nil)
					x.Idle()
					switch {
					case x.D[0] < 6:
						if e.peer == nil || e.status != 0 && e.status != 101 {
							x.Fail("upgrade", "%v: status %d", hdr, e.status)
						}
						e = m.start("GET", m.path+"?id="+url.QueryEscape(key), http.Header{"Accept": {"text/event-stream"}}, nil)
						x.Idle()
						if e.status != 409 {
							x.Fail("twice", "%d", e.status)
						}
					case x.D[2] == 1:
						if e.peer != nil || e.status != 200 {
							x.Fail("upgrade", "%v: status %d", hdr, e.status)
						}
					default:
						if e.peer != nil || !e.done || e.status != 400 {
							x.Fail("upgrade", "%v: status %d", hdr, e.status)
						}
					}
					x.Ev("%v %v", e.status, r.connected)
				}},
				{Name: "requests", Dims: []int{10}, Quick: 0, Full: 0, Body: func(x *X) {
					m, r := webServer(x, signalr.HTTPTransports([][]signalr.TransportType{{signalr.TransportWebSockets}, {signalr.TransportServerSentEvents},
						{signalr.TransportWebSockets, signalr.TransportServerSentEvents}}[x.D[0]%3]...))
					n, st := m.negotiate("?negotiateVersion=" + fmt.Sprint(x.D[0]))
					if st != 200 {
						x.Fail("status", "%d", st)
					}
					names := ""
					for _, a := range n.AvailableTransports {
						names += a.Transport + fmt.Sprint(a.TransferFormats) + " "
					}
					want := []string{"WebSockets[Text Binary] ", "ServerSentEvents[Text] ", "WebSockets[Text Binary] ServerSentEvents[Text] "}[x.D[0]%3]
					if names != want {
						x.Fail("transports", "%s, want %s", names, want)
					}
					// the server supports the versions 0 and 1
					if v := min(x.D[0], 1); n.NegotiateVersion != v || (n.ConnectionToken != "") != (v == 1) {
						x.Fail("version", "version %d asked for: %v", x.D[0], n)
					}
					for _, e := range []*exchange{
						m.start("GET", "/hub/negotiate", nil, nil),
						m.start("GET", "/hub?id="+url.QueryEscape(n.ConnectionID), nil, nil),
						m.start("PUT", "/hub?id="+url.QueryEscape(n.ConnectionID), nil, nil),
						m.start("POST", "/hub", nil, nil),
						m.sse(""),
					} {
						x.Idle()
						if !e.done || e.status != 400 {
							x.Fail("status", "%s %s: %d", e.method, e.url, e.status)
						}
					}
					// a refused request does not use up the negotiation
					key := n.ConnectionID
					if n.NegotiateVersion == 1 {
						key = n.ConnectionToken
					}
					m.prepare = func(e *exchange) { e.noFlush = true }
					e := m.sse(key)
					x.Idle()
					if !e.done || e.status != 500 {
						x.Fail("status", "without flusher: %d", e.status)
					}
					m.prepare = nil
					l := m.openSSE(key)
					x.Idle()
					if l.refused() != 0 {
						x.Fail("status", "refused with %d", l.refused())
					} else if l.handshake(x); l.who(x) != n.ConnectionID || len(r.connected) != 1 {
						x.Fail("identity", "%v", r.connected)
					}
				}},
			}
		}})
}
